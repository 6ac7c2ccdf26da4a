"""check PROPERTY quick|thorough   or   check PROPERTY replay FILE"""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402
import gen  # noqa: E402
from plan import FAM, LAWS, PLAN  # noqa: E402

EVID = os.path.join(core.VERIF, "evidence")
KNOWN = os.path.join(core.VERIF, "known_findings.txt")
T0 = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


# ---------------------------------------------------------------- bounded models
def run_model(m, work, workers):
    module, env = m
    e = dict(EMIT="1", DEPTH="4", START="0", WIDE="0", MODE="cut", PART="0", PARTS="1")
    e.update(env)
    out = core.tlc(module + ".tla", module + ".cfg", work, e, workers=workers, timeout=3000, heap="4g")
    if "Model checking completed. No error has been found." not in out:
        bad = [x for x in out.split("\n") if "violated" in x or "Error:" in x][:3]
        raise core.MachineryError("model %s %s: %s" % (module, env, bad or out[-1500:]))
    gen_, dist = core.tlc_stats(out)
    seqs = []
    for x in re.finditer(r'^"EMIT (\[.*\])"$', out, re.M):
        seqs.append(json.loads(x.group(1).replace('\\"', '"')))
    return module, gen_, dist, seqs


def leaves(seqs):
    """drops sequences that are a proper prefix of another one (their transitions are exercised by it)"""
    keys = [tuple(json.dumps(o, sort_keys=True) for o in s) for s in seqs]
    pre = set()
    for k in keys:
        for n in range(1, len(k)):
            pre.add(k[:n])
    seen, res = set(), []
    for s, k in zip(seqs, keys):
        if k not in pre and k not in seen:
            seen.add(k)
            res.append(s)
    return res


def norm(o):
    """operations as the driver takes them"""
    o = dict(o)
    if o["op"] in ("set_apicf", "add_apicf"):
        o["pt"] = int(o["pt"])
    return o


def explore_models(models, plan, work, rng, cap):
    stats = dict(models=[], states=0, transitions=0)
    scens = []
    with cf.ThreadPoolExecutor(core.NPROC) as ex:
        order = sorted(models, key=lambda m: m[0] not in ("MCEdit", "MCCompat", "MCDialect"))      # the long ones first
        for module, g, d, seqs in ex.map(lambda m: run_model(m, work, 1), order):
            stats["models"].append(dict(model=module, states=d, transitions=g, emitted=len(seqs)))
            stats["states"] += d
            stats["transitions"] += g
            for s in leaves(seqs):
                s = [norm(o) for o in s]
                if module == "MCEdit":
                    s = s + plan.get("epi", [])
                scens.append(dict(ops=s, full=bool(plan.get("full")), src=module))
    stats["sequences"] = len(scens)
    lone = [s for s in scens if s["src"] == "MCInputs"]
    table = [s for s in scens if s["src"] == "MCTables"]     # always complete
    scens = bundle(lone, plan.get("bundle", 3)) + [s for s in scens if s["src"] not in ("MCInputs", "MCTables")]
    if len(scens) > cap:
        scens = [scens[i] for i in sorted(rng.sample(range(len(scens)), cap))]
    stats["table_rows"] = len(table)
    return table + scens, stats


def bundle(scens, n):
    """inputs are independent of each other: several per scenario"""
    res = []
    for i in range(0, len(scens), n):
        ops = []
        for s in scens[i:i + n]:
            ops += s["ops"]
        res.append(dict(ops=ops, src=scens[i]["src"]))
    return res


# ---------------------------------------------------------------- verdicts
def truncate(sc, mism):
    """nothing after the first disagreement matters"""
    return dict(sc, ops=sc["ops"][: max(1, mism["i"])])


def save_replay(prop, d):
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    path = os.path.join(EVID, "replays", "%s_%d_%d.json" % (prop, int(time.time()), os.getpid()))
    with open(path, "w") as f:
        json.dump(d, f, indent=1)
    return path


def write_replay(prop, sc, mism, evs, note, history=None):
    m = mism[0]
    obs = [e for e in evs if e.get("i", 0) >= m["i"] - 1 and e["s"] == m["s"]][:3]
    return save_replay(prop, dict(property=prop, note=note, mismatch=m, script=core.script_text([sc]).split("\n"), scenario=sc,
                                  preceding=history or [], observed=obs))


class Checker:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.violations, self.notes, self.errors = [], [], []
        self.tot = dict(states=0, events=0, scenarios=0, completed=0, counts={}, families={})
        self.samples = []
        self.exe = None
        self.thread_finding = None

    def build(self):
        self.exe = core.build_asan(self.work)

    def run(self, scens, label):
        """drives and validates; confirms disagreements"""
        mism, st, errs = core.check_scenarios(self.exe, scens, self.prop, self.work, tag="r")
        self.errors += errs
        for k in ("states", "events", "scenarios", "completed"):
            self.tot[k] += st[k]
        for k, v in st["counts"].items():
            self.tot["counts"][k] = self.tot["counts"].get(k, 0) + v
        if scens and len(self.samples) < 4:
            s = min(scens[: 50], key=lambda s: abs(len(core.script_text([s])) - 500))
            self.samples.append(dict(source=label, calls=[o["op"] for o in s["ops"]], script=core.script_text([s])[:700]))
        first = {}
        for m in mism:
            first.setdefault(m["s"], m)
        # short scenarios first
        todo = sorted(first.values(), key=lambda m: (m["i"], len(core.script_text([scens[m["s"]]]))))
        log("%s: %d scenarios, %d calls, %d disagree" % (label, st["scenarios"], st["events"], len(first)))
        for n, m in enumerate(todo[:6]):
            sc = scens[m["s"]]
            r = core.confirm(self.exe, truncate(sc, m), self.prop, self.work) if m["op"] != "end" else None
            r = r or core.confirm(self.exe, sc, self.prop, self.work)
            hist = None
            if r is None and n < 3 and m.get("before") is not None:  # needs what the process did before
                hist = [scens[i] for i in m["before"]]
                r = core.confirm(self.exe, sc, self.prop, self.work, before=hist)
            if r is None:
                self.notes.append("unconfirmed: %s" % json.dumps({k: v for k, v in m.items() if k != "before"}))
                continue
            self.violations.append((sc, r[0], r[1], hist))
            return True
        return False

    def report(self):
        sc, mism, evs, hist = self.violations[0]
        m = mism[0]
        if m["op"] not in ("end",):
            sc = truncate(sc, m) if not hist else sc
        path = write_replay(self.prop, sc, mism, evs, "groups %s at call %d (%s) %s" % (m["groups"], m["i"], m["op"], m.get("why", "")), hist)
        log("disagreement:", m)
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)


def evidence(prop, tier, seed, level, coverage, violations, assumptions):
    os.makedirs(EVID, exist_ok=True)
    d = dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage, assumptions=assumptions,
             wall_s=round(time.time() - T0, 2), violations=violations)
    tmp = os.path.join(EVID, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))


ASSUME = [
    "the specification's reading of ID3v2.3/2.4 (spec/Id3Format.tla) is the intended one",
    "the driver's projection reports the public structures faithfully; memory errors are those AddressSanitizer detects",
    "allocation does not fail; tags stay below 2^28 bytes; no unsynchronisation, compression or encryption",
    "beyond the bounded models, histories and inputs are sampled by seed, not enumerated",
]


def known_findings(prop):
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r"KNOWN-FINDING: property=(\S+) ", ln)
            if m and m.group(1) == prop:
                print(ln.strip(), flush=True)


def budget(tier):
    return float(os.environ.get("VERIF_BUDGET", "240" if tier == "quick" else "780"))


def generic(prop, tier, seed, work):
    plan = PLAN[prop]
    rng = random.Random(seed * 1000 + 17)
    ck = Checker(prop, tier, seed, work)
    ck.build()
    log("built")
    limit = budget(tier)
    models = plan["models"] if tier == "quick" else plan["deep"]
    found, mst = False, dict(models=[], states=0, transitions=0, sequences=0)

    def family_batch(fam, s):
        scens = []
        for f, n in fam.items():
            g = gen.Gen("%s/%s/%d" % (prop, f, s))
            name, args = FAM[f]
            ck.tot["families"][f] = ck.tot["families"].get(f, 0) + n
            for _ in range(n):
                sc = getattr(g, name)(*args)
                sc["src"] = f
                scens.append(sc)
        return scens

    extra, fault_found = None, False
    if prop == "C16":
        import threads
        extra = threads.check(ck, tier, seed, work, log)
        if ck.thread_finding:
            print("VIOLATION property=%s replay=%s" % (prop, save_replay(prop, ck.thread_finding)), flush=True)
            fault_found = found = True
    if prop == "C10":
        import faults
        fexe = faults.build(work)
        f, tot, errs, notes = faults.search(fexe, prop, "quick", seed, work, log, 0, time.time(), True)
        ck.errors += errs
        ck.notes += notes
        extra = dict(fault_runs=tot["runs"], fault_scenarios=tot["scenarios"], faults_injected=tot["injected"])
        if f:
            log("disagreement:", f[1][0])
            print("VIOLATION property=%s replay=%s" % (prop, faults.write_replay(prop, f, EVID)), flush=True)
            fault_found = found = True
    laws = []
    if tier == "thorough" and not found:
        for module, inv in LAWS.get(prop, []):
            laws.append(core.apalache(module, inv, work))
            log("law %s holds" % laws[-1])
    if not found:
        scens, mst = explore_models(models, plan, work, rng, plan["cap"] if tier == "quick" else 10 ** 9)
        log("models: %(states)d states, %(transitions)d transitions, %(sequences)d call sequences" % mst)
        step = len(scens) if tier == "quick" else 4000
        for i in range(0, len(scens), max(1, step)):
            part = scens[i:i + step]
            found = ck.run(part, "replay of model behaviours")
            if found or time.time() - T0 > limit * 0.6:
                break
        mst["replayed"] = min(len(scens), i + step) if scens else 0
    if not found:
        found = ck.run(family_batch(plan["fam"], seed), "generated histories")
    if tier == "thorough" and not found:
        if plan.get("more"):
            found = ck.run(family_batch(plan["more"], seed), "very large inputs")
        k = 1
        while not found and time.time() - T0 < limit:
            found = ck.run(family_batch(plan["fam"], seed + 7919 * k), "generated histories, round %d" % (k + 1))
            k += 1
    if ck.violations:
        ck.report()
    cov = dict(states=mst["states"] + ck.tot["states"], transitions=mst["transitions"] + ck.tot["events"],
               traces_validated_against_impl=ck.tot["scenarios"], samples=ck.samples[:4], exhaustive=False,
               model_runs=mst["models"], model_states=mst["states"], model_sequences=mst["sequences"], model_sequences_replayed=mst.get("replayed", 0),
               trace_states=ck.tot["states"], calls_validated=ck.tot["events"], scenarios_completed=ck.tot["completed"],
               conforming_inputs=ck.tot["counts"].get("conforming", 0), other_inputs=ck.tot["counts"].get("salvaged", 0),
               families=ck.tot["families"], notes=ck.notes[:10])
    if laws:
        cov["laws_for_all_integers"] = laws
    if extra:
        cov.update(extra)
    evidence(prop, tier, seed, "model_checking", cov, len(ck.violations) + fault_found, ASSUME)
    if ck.violations or fault_found:
        return 1
    if ck.errors:
        raise core.MachineryError("; ".join(ck.errors)[-3000:])
    return 0


def replay(prop, path, work):
    r = json.load(open(path))
    if r.get("kind") == "fault":
        import faults
        return faults.replay(r, work)
    if r.get("kind") == "threads":
        import threads
        rc = threads.replay(r, work)
        print("VIOLATION property=%s replay=%s" % (prop, path) if rc else "no disagreement")
        return rc
    exe = core.build_asan(work)
    before = r.get("preceding") or []
    res = core.confirm(exe, r["scenario"], prop, work, times=1, before=before)
    if res:
        for m in res[0]:
            print(json.dumps(m))
        for e in res[1]:
            if e["s"] == res[0][0]["s"] and abs(e["i"] - res[0][0]["i"]) <= 1:
                print(json.dumps(e)[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("no disagreement")
    return 0


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    try:
        if tier == "replay":
            return replay(prop, sys.argv[3], work)
        known_findings(prop)
        if prop == "C12":
            import faults
            return faults.check(prop, tier, seed, work, evidence, log, budget(tier))
        return generic(prop, tier, seed, work)
    except core.MachineryError as e:
        print("MACHINERY ERROR: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
