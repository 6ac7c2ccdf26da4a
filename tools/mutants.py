"""Mutation survey (development aid, registered nowhere): small syntactic changes of /repo's sources, in scratch copies, and
for each the checks whose quick scenarios tell it from the unchanged code.

mutants.py list | run OUT.jsonl [FILE-SUBSTRING] [--props C01,C02] [--frac 0.3] [--jobs 8] [--every K --offset J]"""
import argparse
import concurrent.futures as cf
import hashlib
import json
import os
import pickle
import random
import re
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402
import gen  # noqa: E402
from plan import FAM, PLAN  # noqa: E402

SKIP_FAM = {"giant", "giantread", "bigaudio", "hugeaudio", "manymore"}
IDS = ["ID3v2_%s_FRAME_ID" % x for x in ("TITLE", "ARTIST", "ALBUM", "ALBUM_ARTIST", "GENRE", "TRACK", "YEAR", "COMMENT", "DISC_NUMBER", "COMPOSER", "ALBUM_COVER")]


def mutations(line):
    res = []

    def sub(pat, rep, tag):
        for m in re.finditer(pat, line):
            r = rep(m) if callable(rep) else rep
            if r is not None:
                res.append((tag, line[: m.start()] + r + line[m.end():]))

    code = line.split("//")[0]
    st = code.strip()
    if not st or st.startswith(("#", "*", "/*", "/**")):
        return []
    sub(r"(?<=[^<>=!-])<(?=[ ])", "<=", "rel")
    sub(r"(?<=[^<>=!-])>(?=[ ])", ">=", "rel")
    sub(r"<= ", "< ", "rel")
    sub(r">= ", "> ", "rel")
    sub(r"==", "!=", "eq")
    sub(r"!=", "==", "eq")
    sub(r"&&", "||", "bool")
    sub(r"\|\|", "&&", "bool")
    sub(r" \+ ", " - ", "arith")
    sub(r" - ", " + ", "arith")
    sub(r"\+=", "-=", "arith")
    sub(r"-=", "+=", "arith")
    sub(r" \+= ", " = ", "arith")
    sub(r"(?<![\w.\"\\])(0x[0-9A-Fa-f]+|\d+)(?![\w\"])", lambda m: str(int(m.group(1), 0) + 1), "const")
    sub(r"(?<![\w.\"\\])(0x[0-9A-Fa-f]+|\d+)(?![\w\"])", lambda m: str(int(m.group(1), 0) - 1), "const")
    sub(r" \+ ID3v2_\w+LENGTH", "", "drop")
    sub(r" - ID3v2_\w+LENGTH", "", "drop")
    sub(r"\bif \((.*)\)(?=\s*(return|break|$))", lambda m: "if (0)", "never")
    sub(r"\bif \((.*)\)(?=\s*(return|break|$))", lambda m: "if (1)", "always")
    sub(r"\bNULL\b(?=\s*\?)", "tag->header", "odd")
    sub(r"ID3v2_ENCODING_ISO", "ID3v2_ENCODING_UNICODE", "enc")
    sub(r"ID3v2_ENCODING_UNICODE", "ID3v2_ENCODING_ISO", "enc")
    sub(r"\bcalloc\((.*), sizeof\(char\)\)", lambda m: "malloc(%s)" % m.group(1), "alloc")
    sub(r"\bmemcmp\(", "strncmp(", "fn")
    sub(r"\bmemcpy\(", "strncpy(", "fn")
    sub(r"\bstrncmp\((.*), 4\)", lambda m: "strncmp(%s, 3)" % m.group(1), "fn")
    sub(r"\bstrlen\(", "ID3v2_strlen(", "fn")
    sub(r"\bID3v2_strlent\(", "ID3v2_strlen(", "fn")
    sub(r"\bSEEK_CUR\b", "SEEK_SET", "fn")
    sub(r"\bSEEK_SET\b", "SEEK_CUR", "fn")
    sub(r"(?<![*\w])int (?=\w+ =)", "short ", "type")
    sub(r"(?<![*\w])int (?=\w+ =)", "char ", "type")
    sub(r"unsigned int (?=\w+ =)", "unsigned short ", "type")
    sub(r"\(unsigned char\) ", "", "type")
    for i in IDS:
        if i in line:
            k = IDS[(IDS.index(i) + 1) % len(IDS)]
            res.append(("id", line.replace(i, k)))
    if re.match(r"^\s*[\w>.*\[\]()-]+(\(.*\)|\s*[-+|]?=[^=].*|\+\+);\s*$", code) and not re.match(r"^\s*(return|const|char|int|ID3v2_\w+\*?|CharStream\*|FILE\*|unsigned|bool)\b.*=", code):
        res.append(("delete", re.match(r"^\s*", line).group(0) + ";"))
    return res


def all_mutants():
    out = []
    for src in core.sources():
        rel = os.path.relpath(src, core.REPO)
        lines = open(src).read().split("\n")
        for n, ln in enumerate(lines):
            for tag, new in mutations(ln):
                if new != ln:
                    out.append(dict(file=rel, line=n + 1, kind=tag, old=ln.strip(), new=new.strip(), text=new))
    return out


def scenarios(prop, frac, cache):
    key = os.path.join(cache, "sc_%s_%s.pkl" % (prop, frac))
    if os.path.exists(key):
        return pickle.load(open(key, "rb"))
    import check
    plan = PLAN[prop]
    work = tempfile.mkdtemp(dir=cache)
    rng = random.Random(5)
    sc, _ = check.explore_models(plan["models"], plan, work, rng, int(plan["cap"] * frac))
    for f, n in plan["fam"].items():
        if f in SKIP_FAM:
            continue
        g = gen.Gen("mut/%s/%s" % (prop, f))
        name, args = FAM[f]
        for _ in range(max(1, int(n * frac))):
            sc.append(getattr(g, name)(*args))
    shutil.rmtree(work)
    pickle.dump(sc, open(key, "wb"))
    return sc


def by_scenario(evs):
    d = {}
    for e in evs:
        d.setdefault(e["s"], []).append(json.dumps({k: v for k, v in e.items() if k != "why"}, sort_keys=True))
    return {k: hashlib.md5("\n".join(v).encode()).hexdigest() for k, v in d.items()}


def one(m, props, base, sets, first=False):
    w = tempfile.mkdtemp(prefix="mut", dir=base)
    try:
        repo = os.path.join(w, "repo")
        os.makedirs(repo)
        for x in ("src", "include"):
            shutil.copytree(os.path.join(core.REPO, x), os.path.join(repo, x))
        p = os.path.join(repo, m["file"])
        lines = open(p).read().split("\n")
        lines[m["line"] - 1] = m["text"]
        open(p, "w").write("\n".join(lines))
        exe = os.path.join(w, "driver")
        srcs = [os.path.join(repo, os.path.relpath(s, core.REPO)) for s in core.sources()]
        r = subprocess.run(["gcc", "-std=gnu11", "-w", "-g", "-I", repo + "/include", "-I", repo + "/src", "-Wno-error"] + core.ASAN_FLAGS + srcs +
                           [os.path.join(core.VERIF, "harness", "driver.c"), "-o", exe, "-lpthread"], capture_output=True, text=True)
        if r.returncode != 0:
            return dict(m, result="nocompile")
        caught, differs = [], []
        for prop in props:
            sc, ref = sets[prop]
            try:
                evs = core.drive(exe, sc, w, "d", max_crashes=4)
            except core.MachineryError as e:
                return dict(m, result="machinery", why=str(e)[-300:])
            got = by_scenario(evs)
            diff = [k for k in got if got[k] != ref.get(k)]
            if not diff:
                continue
            differs.append(prop)
            diff = diff[:2] + diff[len(diff) // 2: len(diff) // 2 + 2] + diff[-2:]
            sub = [e for e in evs if e["s"] in set(diff)]
            try:
                mism, _ = core.validate(sub, prop, w, "v")
            except core.MachineryError as e:
                mism = []
            if mism:
                caught.append(prop)
                if first:
                    break
        return dict(m, result="caught" if caught else "differs" if differs else "survives", caught=caught, differs=differs)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("out", nargs="?")
    ap.add_argument("sub", nargs="?", default="")
    ap.add_argument("--props", default=",".join(PLAN))
    ap.add_argument("--frac", type=float, default=0.25)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--first", action="store_true", help="stop at the first check that catches it")
    a = ap.parse_args()
    ms = [m for m in all_mutants() if a.sub in m["file"]][a.offset::a.every]
    if a.cmd == "list":
        for m in ms:
            print(m["file"], m["line"], m["kind"], "|", m["old"], "=>", m["new"])
        print(len(ms))
        return
    base = "/tmp/w/mu"
    os.makedirs(base, exist_ok=True)
    props = a.props.split(",")
    exe = core.build_asan(base)
    sets = {}
    for p in props:
        sc = scenarios(p, a.frac, base)
        ref = by_scenario(core.drive(exe, sc, base, "base"))
        again = by_scenario(core.drive(exe, sc, base, "base"))
        flaky = [k for k in ref if ref[k] != again.get(k)]
        print(p, len(sc), "scenarios,", len(flaky), "not repeatable", flush=True)
        sets[p] = (sc, ref)
    done = set()
    if os.path.exists(a.out):
        done = {(x["file"], x["line"], x["text"]) for x in map(json.loads, open(a.out))}
    ms = [m for m in ms if (m["file"], m["line"], m["text"]) not in done]
    with cf.ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as f:
        for r in ex.map(lambda m: one(m, props, base, sets, a.first), ms):
            f.write(json.dumps(r) + "\n")
            f.flush()


main()
