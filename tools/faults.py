"""File operation faults: every file operation of a write, delete or read is made to fail in turn (ptrace), and the recorded
system calls, results and file contents are validated against FileContract by TLC."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import time

import core
import gen
from core import rle

ENV = {"ASAN_OPTIONS": core.ASAN_ENV["ASAN_OPTIONS"] + ":symbolize=0"}


def build(work):
    return core.build(work, "faults", core.ASAN_FLAGS, "faults.c")


# ---------------------------------------------------------------- scenarios
def contents(g):
    """files of every layout: (name, bytes or None)"""
    a = bytes(range(1, 60)) + b"\0\0\xff\xfb"
    tit = g.frame(3, "TIT2")
    priv = b"PRIV" + gen.be(6000) + b"\0\0" + b"\x11" * 3000 + b"\0" * 3000
    return [
        ("absent", None),
        ("empty", b""),
        ("short", b"ID3\3"),
        ("audio", a),
        ("audio 5000", b"\xff\xfb" + b"\x55" * 4998),
        ("audio 70000", b"\xff\xfb" + b"\x66" * 50000 + b"\x44" * 19998),
        ("v3", g.tag(ver=3, frames=[tit], ext=False, pad=30) + a),
        ("v3 tag only", g.tag(ver=3, frames=[tit], ext=False, pad=0)),
        ("v3 large", g.tag(ver=3, frames=[tit, priv], ext=False, pad=20) + b"\x22" * 9000),
        ("v3 padding", g.tag(ver=3, frames=[tit], ext=False, pad=9000) + a + b"\x23" * 5000),
        ("v4 footer", g.tag(ver=4, n=2, foot=True, pad=0) + a + b"\x33" * 4200),
        ("v4 ext", g.tag(ver=4, n=1, ext=True, foot=False, pad=100) + a),
        ("v4 large", g.tag(ver=4, frames=[g.frame(4, "TPE1"), b"PRIV" + gen.sync(70000) + b"\0\0" + b"\x10" * 70000], ext=False, foot=False, pad=5) + b"\x77" * 300),
        ("two tags", g.tag(ver=3, frames=[tit], ext=False, pad=3) + g.tag(ver=4, n=1, small=True) + a),
    ]


def calls(g, reads):
    """ways to end a scenario: (name, preparation, last call)"""
    r = [
        ("write new", [dict(op="newe", h=0), dict(op="setn", h=0, name="title", text=rle(b"title"))], dict(op="write", f=0, h=0)),
        ("write large", [dict(op="newe", h=0), dict(op="set_cover", h=0, mime=rle(b"image/png"), pic=rle(b"\1\2" + b"\x88" * 9000))], dict(op="write", f=0, h=0)),
        ("write loaded", [dict(op="readb", h=0, b=rle(g.tag(small=True, n=2))), dict(op="setn", h=0, name="album", text=rle(b"b"))], dict(op="write", f=0, h=0)),
        ("delete", [], dict(op="del", f=0)),
        ("compat write", [dict(op="c_new", c=0), dict(op="c_set", c=0, name="artist", text=rle(b"me"))], dict(op="c_write", f=0, c=0)),
        ("compat delete", [], dict(op="c_del", f=0)),
    ]
    if reads:
        r += [("read", [], dict(op="read", h=0, f=0)), ("header", [], dict(op="hdr", f=0)), ("compat load", [], dict(op="c_load", c=0, f=0))]
    return r


def scenarios(seed, reads):
    g = gen.Gen("faults/%s" % seed)
    res = []
    for cn, pre, last in calls(g, reads):
        for fn, b in contents(g):
            res.append(dict(ops=pre + ([dict(op="mk", f=0, b=rle(b))] if b is not None else []) + [last], name=cn + " on " + fn))
    return res


def random_scenarios(seed, n, reads):
    g = gen.Gen("faults/r/%s" % seed)
    res = []
    for _ in range(n):
        ops = []
        if g.r.random() < 0.5:
            g.start(0, 1, ops)
            ops += [g.edit(0, 0.1) for _ in range(g.r.randrange(0, 4))]
            ops.append(g.mkfile(0, big=0.3))
            last = g.r.choice([dict(op="write", f=0, h=0), dict(op="del", f=0)])
        else:
            ops += [dict(op="mk", f=0, b=rle(g.tag(big=0.1) + g.audio(0.3))), dict(op="read", h=0, f=0)]
            ops += [g.edit(0, 0.1) for _ in range(g.r.randrange(0, 4))]
            last = g.r.choice([dict(op="write", f=0, h=0), dict(op="del", f=0)])
        if reads and g.r.random() < 0.4:
            last = g.r.choice([dict(op="read", h=1, f=0), dict(op="c_load", c=0, f=0)])
        if last["op"] == "write" and g.r.random() < 0.3:  # an earlier save of the same tag
            ops.append(dict(last))
        res.append(dict(ops=ops + [last], name="random"))
    return res


# ---------------------------------------------------------------- driving
def drive(exe, scens, work, tag, wide):
    d = os.path.join(work, "fs_" + tag)
    os.makedirs(d, exist_ok=True)
    script, lg = os.path.join(work, tag + ".fscript"), os.path.join(work, tag + ".flog")
    with open(script, "w") as f:
        f.write(core.script_text(scens))
    events, first = [], 0
    while first < len(scens):
        if os.path.exists(lg):
            os.unlink(lg)
        for x in os.listdir(d):
            os.unlink(os.path.join(d, x))
        p = subprocess.run([exe, script, lg, d, str(first), "1" if wide else "0"], env=dict(os.environ, TMPDIR=work, **ENV), stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=d)
        if p.returncode in (94, 95, 96, 97):
            raise core.MachineryError("fault driver: " + p.stderr.decode(errors="replace")[-500:])
        done, cur = parse(lg, scens, events)
        if done:
            break
        if cur is None:
            raise core.MachineryError("fault driver did not start: rc=%s %s" % (p.returncode, p.stderr.decode(errors="replace")[-500:]))
        events.append(dict(op="crash", s=cur, i=0))  # in the preparation: another property's matter
        first = cur + 1
    shutil.rmtree(d, ignore_errors=True)
    return events


def parse(lg, scens, events):
    cur, done = None, False
    for ln in open(lg, errors="replace") if os.path.exists(lg) else []:
        try:
            r = json.loads(ln)
        except ValueError:
            break
        if "S" in r:
            cur = r["S"]
            events.append(dict(op="S", s=cur, i=0))
        elif "fault" in r:
            events.append(dict(op="call", s=cur, i=0, call=scens[cur]["ops"][r["fault"] - 1]))
        elif "run" in r:
            events.append(dict(op="run", s=cur, i=r["run"], no=r["run"]))
            for e in r["ev"]:
                events.append(dict(op="io", s=cur, i=r["run"], **e))
            events.append(dict(op="ret", s=cur, i=r["run"], ret=r["ret"], live=r["live"], t=r["F"][0], t2=r["F"][1], m=r["m"],
                               why="%s (errno %d, mode %d) at operation %d" % (r["name"], r["err"], r["mode"], r["at"]), dir=r["dir"]))
        elif "done" in r:
            done = True
        elif "i" in r:
            events.append(dict(scens[cur]["ops"][r["i"] - 1], s=cur, i=r["i"]))
    return done, cur


def validate(events, prop, work, tag):
    path = os.path.join(work, tag + ".fnd")
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps({k: v for k, v in e.items() if k != "why"}, separators=(",", ":")) + "\n")
    out = core.tlc("FaultTrace.tla", "FaultTrace.cfg", work, {"TRACE": path, "PROP": prop})
    m = re.search(r"CONSUMED (\d+) OF (\d+)", out)
    if not m or m.group(1) != m.group(2) or int(m.group(2)) != len(events):
        raise core.MachineryError("fault trace not consumed (%s)\n%s" % (m.group(0) if m else "TLC failed", out[-2500:]))
    mism = [json.loads(x.group(1).replace('\\"', '"')) for x in re.finditer(r'^"?MISMATCH (\{.*\})"?$', out, re.M)]
    st = re.search(r"COUNTS (\{.*\})", out)
    why = {(e["s"], e["i"]): e["why"] for e in events if e["op"] == "ret"}
    for x in mism:
        x["why"] = why.get((x["s"], x["i"]), "")
    return mism, json.loads(st.group(1).rstrip('"').replace('\\"', '"')), core.tlc_stats(out)[1]


def explore(exe, scens, prop, work, wide, tag="f"):
    groups = core.shard(scens, core.NPROC)
    tot = dict(runs=0, scenarios=0, states=0, io=0, injected=0, early=0, complete=0, kept=0)
    mism, errs = [], []

    def one(k):
        try:
            evs = drive(exe, [scens[i] for i in groups[k]], work, "%s%d" % (tag, k), wide)
            return (evs,) + validate(evs, prop, work, "%s%d" % (tag, k)) + (None,)
        except core.MachineryError as e:
            return [], [], {}, 0, str(e)[-1500:]

    with cf.ThreadPoolExecutor(core.NPROC) as ex:
        for k, (evs, m, counts, states, err) in enumerate(ex.map(one, range(len(groups)))):
            if err:
                errs.append(err)
            for x in m:
                x["s"] = groups[k][x["s"]]
                mism.append(x)
            for c, v in counts.items():
                tot[c] += v
            tot["states"] += states
            tot["runs"] += sum(e["op"] == "ret" for e in evs)
            tot["scenarios"] += sum(e["op"] == "S" for e in evs)
            tot["io"] += sum(e.get("n", 0) for e in evs if e["op"] == "io")
    return mism, tot, errs


def confirm(exe, sc, prop, work, wide, groups):
    for k in range(2):
        evs = drive(exe, [sc], work, "fc%d" % k, wide)
        mism, _, _ = validate(evs, prop, work, "fc%d" % k)
        same = [m for m in mism if set(m["groups"]) & set(groups)]
        if not same:
            return None
    return same


def design(work):
    """the step-level design refines the contract; designs that overlook a failure do not"""
    res = []
    kinds = ["none", "header", "tag", "seek", "read", "stage", "flush", "rewind"]
    with cf.ThreadPoolExecutor(core.NPROC) as ex:
        outs = list(ex.map(lambda k: core.tlc("Rewrite.tla", "Rewrite.cfg", work, {"IGNORE": k}), kinds))
    for ign, out in zip(kinds, outs):
        ok = "Model checking completed. No error has been found." in out
        if ok != (ign == "none") or (not ok and "Invariant Intact is violated" not in out):
            raise core.MachineryError("design model with IGNORE=%s: %s" % (ign, out[-800:]))
        g, d = core.tlc_stats(out)
        res.append(dict(model="Rewrite", overlooks=ign, states=d, transitions=g, holds=ok))
    return res


def search(exe, prop, tier, seed, work, log, limit, t0, reads):
    """returns (finding or None, totals, errors)"""
    tot, errs, notes, k = {}, [], [], 0
    while True:
        if k == 0:
            scens, wide = scenarios(seed, reads), tier != "quick"
        else:
            scens, wide = random_scenarios("%s/%d" % (seed, k), 40 if tier == "quick" else 120, reads), tier != "quick"
        mism, t, e = explore(exe, scens, prop, work, wide)
        errs += e
        for a, v in t.items():
            tot[a] = tot.get(a, 0) + v
        log("faults round %d: %d scenarios, %d runs, %d failing operations injected, %d disagree" % (k, t["scenarios"], t["runs"], t["injected"], len(mism)))
        tried = set()
        for m in mism:
            if m["s"] in tried or len(tried) > 4:
                continue
            tried.add(m["s"])
            same = confirm(exe, scens[m["s"]], prop, work, wide, m["groups"])
            if same:
                return (scens[m["s"]], same, wide), tot, errs, notes
            notes.append("unconfirmed: %s" % json.dumps(m))
        k += 1
        if (tier == "quick" and k == 2) or time.time() - t0 > limit:
            return None, tot, errs, notes


def write_replay(prop, found, evid):
    sc, mism, wide = found
    d = os.path.join(evid, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s_%d_%d.json" % (prop, int(time.time()), os.getpid()))
    with open(path, "w") as f:
        json.dump(dict(kind="fault", property=prop, scenario=sc, wide=wide, mismatches=mism[:20], script=core.script_text([sc]).split("\n")), f, indent=1)
    return path


def check(prop, tier, seed, work, evidence, log, limit):
    t0 = time.time()
    models = design(work)
    log("design model: %d states; %d faulty designs rejected" % (models[0]["states"], len(models) - 1))
    exe = build(work)
    found, tot, errs, notes = search(exe, prop, tier, seed, work, log, limit, t0, False)
    cov = dict(evaluations=tot["runs"], distinct_nontrivial=tot["early"],
               rule="a run counts when an injected failure hit a file operation of the call before the target was modified (fault = early in FileContract)",
               samples=[s["name"] + ": " + core.script_text([s])[:300] for s in scenarios(seed, False)[6:50:14]],
               states=tot["states"] + models[0]["states"], transitions=tot["io"] + models[0]["transitions"],
               scenarios=tot["scenarios"], injected=tot["injected"], ended_with_new_content=tot["complete"], ended_with_old_content=tot["kept"],
               design_models=models, exhaustive=False, notes=notes[:10])
    if found:
        from check import EVID
        log("disagreement:", found[1][0])
        print("VIOLATION property=%s replay=%s" % (prop, write_replay(prop, found, EVID)), flush=True)
    evidence(prop, tier, seed, "fault_enumeration", cov, 1 if found else 0,
             ["a failing operation reports an error (or a short write and then an error); wrong data and crashes of the machine are not injected",
              "faults after the target has been opened for rewriting are outside the property",
              "long stretches of equal system calls are sampled in the quick tier, every one is failed in the thorough tier"])
    if found:
        return 1
    if errs:
        raise core.MachineryError("; ".join(errs)[-3000:])
    if tot["early"] == 0 or tot["kept"] == 0:
        raise core.MachineryError("no fault was injected")
    return 0


def replay(r, work):
    exe = build(work)
    evs = drive(exe, [r["scenario"]], work, "rp", r.get("wide"))
    mism, _, _ = validate(evs, r["property"], work, "rp")
    for m in mism:
        print(json.dumps(m))
    if mism:
        print("VIOLATION property=%s replay" % r["property"])
        return 1
    print("no disagreement")
    return 0
