"""Runner core: builds the driver from /repo's working tree, drives scenarios, validates the logs with TLC."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 8)


class MachineryError(Exception):
    pass


# ---------------------------------------------------------------- byte strings
_runs = re.compile(rb"(.)\1*", re.DOTALL)


def rle(b):
    return [[m.group(0)[0], len(m.group(0))] for m in _runs.finditer(bytes(b))]


def unrle(r):
    return b"".join(bytes([x]) * n for x, n in r)


def tok_rle(r):
    if not r:
        return "-"
    return ".".join("%02X" % b if n == 1 else "%02X*%d" % (b, n) for b, n in r)


def tok_seq(q):
    return ".".join("%02X" % b for b in q) if q else "-"


# op -> argument fields in script order; B: run-length byte string, Q: plain byte list, N: number, W: word
OPS = {
    "mk": [("f", "N"), ("b", "B")],
    "rm": [("f", "N")],
    "newe": [("h", "N")],
    "new": [("h", "N"), ("pad", "N")],
    "newh": [("h", "N"), ("f", "N"), ("pad", "N")],
    "free": [("h", "N")],
    "read": [("h", "N"), ("f", "N")],
    "readb": [("h", "N"), ("b", "B")],
    "readfb": [("h", "N"), ("f", "N")],
    "hdr": [("f", "N")],
    "hdrb": [("b", "B")],
    "write": [("f", "N"), ("h", "N")],
    "writenull": [("f", "N")],
    "del": [("f", "N")],
    "set_text": [("h", "N"), ("id", "Q"), ("fl", "Q"), ("text", "B")],
    "setn": [("h", "N"), ("name", "W"), ("text", "B")],
    "alias": [("h", "N"), ("dst", "W"), ("src", "W")],
    "alias_f": [("h", "N"), ("src", "W")],
    "alias_c": [("h", "N"), ("how", "W")],
    "alias_a": [("h", "N"), ("how", "W")],
    "set_commf": [("h", "N"), ("fl", "Q"), ("lang", "B"), ("desc", "B"), ("comm", "B")],
    "add_commf": [("h", "N"), ("fl", "Q"), ("lang", "B"), ("desc", "B"), ("comm", "B")],
    "set_comm": [("h", "N"), ("lang", "B"), ("comm", "B")],
    "set_apicf": [("h", "N"), ("fl", "Q"), ("mime", "B"), ("desc", "B"), ("pt", "N"), ("pic", "B")],
    "add_apicf": [("h", "N"), ("fl", "Q"), ("mime", "B"), ("desc", "B"), ("pt", "N"), ("pic", "B")],
    "set_cover": [("h", "N"), ("mime", "B"), ("pic", "B")],
    "del_frame": [("h", "N"), ("id", "Q")],
    "deln": [("h", "N"), ("name", "W")],
    "del_ci": [("h", "N"), ("k", "N")],
    "del_ai": [("h", "N"), ("k", "N")],
    "get": [("h", "N"), ("id", "Q")],
    "getn": [("h", "N"), ("name", "W")],
    "gets": [("h", "N"), ("id", "Q")],
    "hold": [("h", "N"), ("id", "Q")],
    "held": [("h", "N")],
    "unhold": [],
    "getcs": [("h", "N")],
    "getas": [("h", "N")],
    "getnull": [],
    "tou": [("b", "B")],
    "slen": [("b", "B")],
    "c_new": [("c", "N")],
    "c_load": [("c", "N"), ("f", "N")],
    "c_loadb": [("c", "N"), ("b", "B")],
    "c_free": [("c", "N")],
    "c_write": [("f", "N"), ("c", "N")],
    "c_del": [("f", "N")],
    "c_set": [("c", "N"), ("name", "W"), ("text", "B")],
    "c_alias": [("c", "N"), ("name", "W")],
    "c_coverb": [("c", "N"), ("mime", "B"), ("pic", "B")],
    "c_cover": [("c", "N"), ("fname", "F"), ("pic", "B")],
    "c_get": [("c", "N"), ("name", "W")],
}


def op_line(o):
    t = [o["op"]]
    for k, ty in OPS[o["op"]]:
        v = o[k]
        if ty == "B":
            t.append("absent" if o.get("absent") else tok_rle(v))
        elif ty == "Q":
            t.append(tok_seq(v))
        elif ty == "F":
            t.append(bytes(v).decode())
        else:
            t.append(str(v))
    return " ".join(t)


def script_text(scens, base=0):
    out = []
    for n, sc in enumerate(scens):
        out.append("S %d%s" % (base + n, " full" if sc.get("full") else ""))
        out += [op_line(o) for o in sc["ops"]]
    return "\n".join(out) + "\n"


# ---------------------------------------------------------------- build
def sources():
    src = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.c"), recursive=True))
    if not src:
        raise MachineryError("no sources under %s/src" % REPO)
    return src


def build(workdir, name, flags, main, cc="gcc", libs=()):
    """Compiles the sources of /repo's working tree together with one harness."""
    out = os.path.join(workdir, name)
    objdir = out + ".o"
    os.makedirs(objdir, exist_ok=True)
    inc = ["-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "src")]
    jobs = []
    for i, s in enumerate(sources() + [os.path.join(VERIF, "harness", main)]):
        o = os.path.join(objdir, "%d.o" % i)
        std = "-std=gnu11" if s.startswith(VERIF) else "-std=c99"
        jobs.append(([cc, std, "-w", "-g", "-c", s, "-o", o] + inc + flags, o))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for r in ex.map(lambda j: subprocess.run(j[0], capture_output=True, text=True), jobs):
            if r.returncode != 0:
                raise MachineryError("compilation failed: " + r.stderr[-2000:])
    r = subprocess.run([cc] + [o for _, o in jobs] + flags + ["-o", out, "-lpthread"] + list(libs), capture_output=True, text=True)
    if r.returncode != 0:
        raise MachineryError("link failed: " + r.stderr[-2000:])
    return out


ASAN_FLAGS = ["-O0", "-fsanitize=address", "-fno-omit-frame-pointer", "-DWITH_ASAN", "-ftrivial-auto-var-init=pattern"]
ASAN_ENV = {"ASAN_OPTIONS": "strict_memcmp=0:detect_leaks=0:max_malloc_fill_size=4096:malloc_fill_byte=190:"
                            "allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=1:"
                            "quarantine_size_mb=64:handle_abort=1:hard_rss_limit_mb=3500"}


TSAN_FLAGS = ["-O0", "-fsanitize=thread", "-fno-omit-frame-pointer"]


def build_tsan(workdir):
    return build(workdir, "tdriver", TSAN_FLAGS, "driver.c", cc="clang")


def build_asan(workdir):
    return build(workdir, "driver", ASAN_FLAGS, "driver.c")


# ---------------------------------------------------------------- driving
def parse_log(log, scens):
    """the driver's log as trace events; last scenario, last call, whether that scenario and the whole run ended"""
    events, cur, idx, done, ended = [], None, 0, False, False
    lines = open(log, errors="replace").read().split("\n") if os.path.exists(log) else []
    for ln in lines:
        if not ln:
            continue
        try:
            r = json.loads(ln)
        except ValueError:
            break  # torn line
        if "S" in r:
            cur, idx, ended = r["S"], 0, False
            events.append({"op": "S", "s": cur, "i": 0})
        elif "end" in r:
            events.append({"op": "end", "s": cur, "i": idx + 1, "o": {"live": r["live"], "fds": r["fds"]}})
            ended = True
        elif "done" in r:
            done = True
        else:
            idx = r.pop("i")
            ev = dict(scens[cur]["ops"][idx - 1])
            ev.update(s=cur, i=idx, o=r)
            events.append(ev)
    return events, cur, idx, ended, done


def drive(exe, scens, workdir, tag, max_crashes=40):
    """Runs the scenarios; returns trace events (one dict per line)."""
    d = os.path.join(workdir, "scratch_" + tag)
    os.makedirs(d, exist_ok=True)
    script, log = os.path.join(workdir, tag + ".script"), os.path.join(workdir, tag + ".log")
    with open(script, "w") as f:
        f.write(script_text(scens))
    events, first, crashes, hangs = [], 0, 0, 0
    while first < len(scens):
        if os.path.exists(log):
            os.unlink(log)
        for x in os.listdir(d):
            os.unlink(os.path.join(d, x))
        env = dict(os.environ, TMPDIR=workdir, **ASAN_ENV)
        p = subprocess.run([exe, script, log, d, str(first)], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, cwd=d)
        if p.returncode in (94, 95, 96, 97):
            raise MachineryError("driver: " + p.stderr.decode(errors="replace")[-500:])
        evs, cur, idx, ended, done = parse_log(log, scens)
        events += evs
        if done:
            break
        if cur is None:
            raise MachineryError("driver did not start: rc=%s %s" % (p.returncode, p.stderr.decode(errors="replace")[-800:]))
        err = p.stderr.decode(errors="replace")
        m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error[^\n]*)", err)
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) (?:\S*/)?(\S+:\d+)", err)
        why = (m.group(1) if m else "exit status %d" % p.returncode) + " " + " < ".join("%s %s" % x for x in fr[:4])
        if ended:  # died between scenarios
            events.append({"op": "S", "s": cur, "i": 0})
        nxt = min(idx + 1, len(scens[cur]["ops"]) + 1)
        events.append({"op": "crash", "s": cur, "i": nxt, "why": why})
        crashes += 1
        first = cur + 1
        hangs += p.returncode in (-27, -14)
        if crashes >= max_crashes or hangs >= 2:
            break
    shutil.rmtree(d, ignore_errors=True)
    return events


# ---------------------------------------------------------------- TLC
def java(extra, cwd, env=None, timeout=None, heap="3g", tmp="/tmp"):
    cmd = ["java", "-Djava.io.tmpdir=" + tmp, "-XX:-UsePerfData", "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=%s" % os.environ.get("VP_TIER_JIT", "4"),
           "-cp", TLA_CP] + extra
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


_tlc_n = [0]


def tlc(module, cfg, workdir, env=None, workers=1, timeout=840, heap="3g", extra=()):
    _tlc_n[0] += 1
    meta = tempfile.mkdtemp(prefix="tlc", dir=workdir)
    try:
        r = java(["tlc2.TLC", "-metadir", meta, "-noTE", "-workers", str(workers), "-config", cfg, *extra, module],
                 SPEC, env, timeout, heap, meta)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.stdout


def apalache(module, inv, workdir, timeout=600):
    """a law for all integers, decided symbolically (no steps: Init describes the situation, the invariant the law)"""
    out = tempfile.mkdtemp(prefix="apa", dir=workdir)
    try:
        r = subprocess.run(["apalache-mc", "check", "--out-dir=" + out, "--init=Init", "--next=Next", "--inv=" + inv, "--length=0",
                            os.path.join(SPEC, module + ".tla")], cwd=out, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError("Apalache timed out on %s %s" % (module, inv))
    finally:
        shutil.rmtree(out, ignore_errors=True)
    if "The outcome is: NoError" not in r.stdout:
        raise MachineryError("Apalache: %s %s: %s" % (module, inv, r.stdout[-1500:]))
    return "%s!%s" % (module, inv)


def tlc_stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ",").replace("\u202f", ""))
    if not m:
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    return (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)


UNREPRESENTABLE = re.compile(r"The error occurred when TLC was evaluating|Evaluating|attempted to|Attempted to")


def validate(events, prop, workdir, tag):
    """Validates one trace; returns (mismatches, stats).  An observation the specification cannot even be evaluated on
    (a missing result, a number out of range) is a disagreement at that call; the trace goes on with the next scenario."""
    mism, counts, states, start, skipped = [], {}, 0, 0, 0
    while start < len(events):
        part = events[start:]
        path = os.path.join(workdir, tag + ".ndjson")
        with open(path, "w") as f:
            for e in part:
                e = {k: v for k, v in e.items() if k != "why"}
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
        out = tlc("TraceLib.tla", "TraceLib.cfg", workdir, {"TRACE": path, "PROP": prop})
        for x in re.finditer(r'^"?MISMATCH (\{.*\})"?$', out, re.M):
            mism.append(json.loads(x.group(1).replace('\\"', '"')))
        st = re.search(r"COUNTS (\{.*\})", out)
        for k, v in (json.loads(st.group(1).rstrip('"').replace('\\"', '"')) if st else {}).items():
            counts[k] = counts.get(k, 0) + v
        distinct = tlc_stats(out)[1]
        states += distinct
        m = re.search(r"CONSUMED (\d+) OF (\d+)", out)
        if m and m.group(1) == m.group(2) and int(m.group(2)) == len(part):
            break
        at = distinct - 1  # the call no successor could be computed for
        if m or not UNREPRESENTABLE.search(out) or "OutOfMemory" in out or not 0 <= at < len(part) or skipped >= 12:
            open(os.path.join(workdir, tag + ".tlcout"), "w").write(out)
            raise MachineryError("trace not consumed (%s)\n%s" % (m.group(0) if m else "TLC failed", out[-3000:]))
        bad = part[at]
        if not any((x["s"], x["i"]) == (bad["s"], bad["i"]) for x in mism):
            mism.append(dict(s=bad["s"], i=bad["i"], op=bad["op"], groups=["unrepresentable"]))
        skipped += 1
        nxt = at + 1
        while nxt < len(part) and part[nxt]["op"] != "S":
            nxt += 1
        start += nxt
    return mism, {"states": states, "events": len(events), "counts": counts}


def weight(sc):
    return 5 + sum(3 + sum(len(v) if isinstance(v, list) else 0 for v in o.values()) // 20 for o in sc["ops"])


def shard(scens, n):
    groups = [[] for _ in range(n)]
    load = [0] * n
    for i in sorted(range(len(scens)), key=lambda i: -weight(scens[i])):
        k = load.index(min(load))
        groups[k].append(i)
        load[k] += weight(scens[i])
    return [sorted(g) for g in groups if g]


def check_scenarios(exe, scens, prop, workdir, nshards=NPROC, tag="t"):
    """Drives and validates scenarios in parallel shards.  Returns mismatches (with scenario index), stats, errors."""
    groups = shard(scens, nshards)

    def one(k):
        idxs = groups[k]
        sub = [scens[i] for i in idxs]
        none = {"states": 0, "events": 0, "counts": {}}
        try:
            evs = drive(exe, sub, workdir, "%s%d" % (tag, k))
            if len(evs) == 0:
                return [], none, evs, None
            mism, st = validate(evs, prop, workdir, "%s%d" % (tag, k))
        except MachineryError as e:
            return [], none, [], str(e)[-1500:]
        why = {(e["s"], e["i"]): e["why"] for e in evs if e["op"] == "crash"}
        for m in mism:
            if (m["s"], m["i"]) in why:
                m["why"] = why[(m["s"], m["i"])]
            m["before"] = idxs[: m["s"]]
            m["s"] = idxs[m["s"]]
        return mism, st, evs, None

    mism, errs, total = [], [], {"states": 0, "events": 0, "scenarios": 0, "counts": {}, "completed": 0}
    with cf.ThreadPoolExecutor(nshards) as ex:
        for m, st, evs, err in ex.map(one, range(len(groups))):
            mism += m
            if err:
                errs.append(err)
            total["states"] += st["states"]
            total["events"] += st["events"]
            total["scenarios"] += sum(1 for e in evs if e["op"] == "S")
            total["completed"] += sum(1 for e in evs if e["op"] == "end")
            for k, v in st["counts"].items():
                total["counts"][k] = total["counts"].get(k, 0) + v
    return sorted(mism, key=lambda m: (m["s"], m["i"])), total, errs


def confirm(exe, sc, prop, workdir, times=2, before=()):
    """A mismatch counts only when the scenario, run again in a fresh process (after the scenarios `before` when it
    does not show alone), shows it again, every time."""
    last = None
    for k in range(times):
        try:
            evs = drive(exe, list(before) + [sc], workdir, "c%d" % k)
            evs = [e for e in evs if e["s"] == len(before)]
            mism, _ = validate(evs, prop, workdir, "c%d" % k)
        except MachineryError:
            return None
        if not mism:
            return None
        why = {(e["s"], e["i"]): e["why"] for e in evs if e["op"] == "crash"}
        for m in mism:
            if (m["s"], m["i"]) in why:
                m["why"] = why[(m["s"], m["i"])]
        last = mism, evs
    return last
