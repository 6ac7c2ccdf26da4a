"""MANIFEST.json (run by hand)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC; its behaviours replayed on the code and the code's traces validated against it"
NOTE = {
 "C01": "bounded edit/save/load model checked exhaustively, its sequences and seeded histories (frames up to 16 MB) replayed; trace validation compares every reloaded field",
 "C02": "bounded file model checked exhaustively; audio bytes of every write/delete in the traces compared with the specification",
 "C03": "every written file in the traces is parsed by the specification's own parser (independent of the library) and judged well-formed or not",
 "C04": "compositions of all frame kinds, encodings, extended headers, padding and footers (8,697 tags) checked in the model, then read by the code; seeded larger tags",
 "C05": "same compositions plus one edit and a save; the file's untouched frames compared byte for byte by the specification's parser",
 "C06": "edit model checked exhaustively against list semantics (action property ListStep); sequences replayed, results and lists compared",
 "C07": "every cut and every single-byte damage of model tags plus seeded garbage under AddressSanitizer; salvaged frames must lie in the input",
 "C08": "header inputs enumerated by the model (every prefix, identifier, version, flag, size class), both entry points compared",
 "C09": "absent-thing calls in every bounded state; nothing may change",
 "C10": "addresses, live allocations and descriptors tracked per call, AddressSanitizer for double release and use after release; also on every failing file operation",
 "C11": "compatibility model checked exhaustively (view in step with tag); sequences replayed, view, results and files compared",
 "C12": "step-level design checked to refine the contract, faulty designs rejected; every file operation of real writes/deletes failed in turn (ptrace), recorded system calls validated against the contract",
 "C13": "save-stability is an invariant of all models; repeated saves, reloads and deletes compared byte for byte",
 "C14": "all short strings over the critical bytes enumerated by the model, longer ones by seed",
 "C15": "size equations are an invariant of all models; every projected tag in the traces is compared",
 "C16": "interleaving model over three tags and files; full projection of every object after every call; threads under ThreadSanitizer with every thread's trace validated",
 "C17": "queries are stuttering steps of the specification; full projection around each query and read",
}
TECH = {"C12": "TLA+ contract and step-level design checked with TLC; injected file-operation faults, recorded system calls validated against the contract",
        "C16": "TLA+ interleaving model and trace validation with TLC; threads under ThreadSanitizer validated against the sequential specification"}
checks = []
for p in sorted(NOTE):
    checks.append(dict(property=p, quick_cmd="bin/check %s quick" % p, thorough_cmd="bin/check %s thorough" % p, evidence_file="evidence/%s.json" % p,
                       technique=TECH.get(p, T), level="fault_enumeration" if p == "C12" else "model_checking",
                       level_note=NOTE[p] + ". Assumes: the specification's reading of ID3v2, the driver's projection, no allocation failure, tags below 2^28 bytes; beyond the bounded models sampled by seed."))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=[],
               notes="No hooks in /repo: the checks compile /repo's sources together with a driver that uses the public API. Fixes to /repo are listed in known_findings.txt."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
