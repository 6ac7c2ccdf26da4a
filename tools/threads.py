"""C16: threads on different tags and files.  Every thread's log must be a behaviour of the sequential specification, and
no data race may be seen inside the library (each call is one atomic step of the specification only if there is none)."""
import concurrent.futures as cf
import os
import re
import shutil
import subprocess

import core
import gen

NTHREADS = 6


def race_reports(err):
    res = []
    for r in re.findall(r"WARNING: ThreadSanitizer: (.*?)\n==================", err, re.S):
        fr = re.findall(r"#\d+ (\S+) (\S+):(\d+)", r)
        if any(core.REPO + "/" in f for _, f, _ in fr):
            res.append((r.split("\n")[0], ["%s %s:%s" % (a, os.path.basename(b), c) for a, b, c in fr[:6]]))
    return res


def run_once(exe, scripts, work, tag):
    d = os.path.join(work, "thr_" + tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    args, logs = [], []
    for i, sc in enumerate(scripts):
        s, lg = os.path.join(d, "s%d" % i), os.path.join(d, "l%d" % i)
        with open(s, "w") as f:
            f.write(core.script_text(sc))
        args += [s, lg]
        logs.append(lg)
    env = dict(os.environ, TSAN_OPTIONS="halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=4:io_sync=0")  # file operations order nothing between threads
    try:
        p = subprocess.run([exe, "-t", d] + args, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=240)
        rc, err = p.returncode, p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        rc, err = "timeout", (e.stderr or b"").decode(errors="replace")
    traces = []
    for lg, sc in zip(logs, scripts):
        evs, cur, idx, ended, done = core.parse_log(lg, sc)
        traces.append((evs, done))
    shutil.rmtree(d, ignore_errors=True)
    return rc, err, traces


def judge(exe, scripts, work, tag):
    """returns a list of findings: (kind, text, scenario or None)"""
    rc, err, traces = run_once(exe, scripts, work, tag)
    if "FATAL: ThreadSanitizer" in err or rc in (94, 95, 96, 97):
        raise core.MachineryError("thread driver: %s %s" % (rc, err[-600:]))
    res = [("race", "%s: %s" % (t, " < ".join(fr)), None) for t, fr in race_reports(err)]
    if rc == "timeout" or (isinstance(rc, int) and rc != 0):
        return res + [("crash", "threads ended with %s: %s" % (rc, err[-400:]), None)], traces

    def one(i):
        evs, done = traces[i]
        if not evs:
            return i, []
        return i, core.validate(evs, "C16", work, "thv%s%d" % (tag, i))[0]

    with cf.ThreadPoolExecutor(core.NPROC) as ex:
        for i, mism in ex.map(one, range(len(traces))):
            for m in mism[:1]:
                res.append(("trace", "thread %d: %s" % (i, m), (i, m)))
    return res, traces


def check(ck, tier, seed, work, log):
    exe = core.build_tsan(work)
    rounds = 2 if tier == "quick" else 12
    n = 25 if tier == "quick" else 60
    calls = scen = 0
    for r in range(rounds):
        scripts = []
        for t in range(NTHREADS):
            g = gen.Gen("threads/%d/%d/%d" % (seed, r, t))
            scripts.append(g.sc_thread(n))
        found, traces = judge(exe, scripts, work, "a%d" % r)
        calls += sum(len(e) for e, _ in traces)
        scen += sum(sum(1 for x in e if x["op"] == "S") for e, _ in traces)
        if not found:
            continue
        kinds = {k for k, _, _ in found}
        for again in range(4):
            f2, _ = judge(exe, scripts, work, "b%d" % again)
            same = [x for x in f2 if x[0] in kinds]
            if same:
                k, text, at = same[0]
                log("threads:", text)
                ck.thread_finding = dict(kind="threads", property="C16", finding=text, scripts=scripts)
                break
        if ck.thread_finding:
            break
        ck.notes.append("unconfirmed in threads: %s" % found[0][1][:300])
    log("threads: %d rounds of %d threads, %d scenarios, %d calls" % (r + 1, NTHREADS, scen, calls))
    ck.tot["scenarios"] += scen
    ck.tot["events"] += calls
    return dict(thread_rounds=r + 1, threads=NTHREADS, thread_scenarios=scen, thread_calls=calls)


def replay(r, work):
    exe = core.build_tsan(work)
    for k in range(5):
        found, _ = judge(exe, r["scripts"], work, "r%d" % k)
        if found:
            for f in found[:5]:
                print(f[0], f[1][:600])
            return 1
    return 0
