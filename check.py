#!/usr/bin/env python3
"""Static checks of redsea's properties.  usage: check.py <property id> [--tier quick|thorough] [--debug]"""
import json
import os
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import resource  # noqa: E402
import threading  # noqa: E402


def known_findings():
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith("known: "):
                out.append(ln[7:].strip())
    return out


def run(pid, tier):
    t0 = time.time()
    from engine.program import load
    from checks import registry
    P = load()
    spec = registry.CHECKS[pid]
    results = registry.run(P, spec, tier)
    ev = os.environ.get("REDSEA_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    known, kn = known_findings(), []
    findings, undecided, counts, functions, samples = [], [], {}, set(), []
    seen = set()
    for r in results:
        for f in r.findings:
            if not spec.wants(r, f):
                continue
            k = (f["what"], f["where"])
            if k in seen:
                continue
            seen.add(k)
            hit = [x for x in known if x.startswith("property=%s " % pid) and ("%s|%s" % (f["what"], f["fn"])) in x]
            (kn if hit else findings).append(f)
        undecided += r.undecided
        functions |= set(r.functions)
        samples += r.samples[:4]
        for c, n in r.counts.items():
            counts[c] = counts.get(c, 0) + n
    if not functions and not counts:
        print("ERROR: nothing was analysed for %s: %s" % (pid, undecided[:3]))
        return 2
    cov = {"explanation": spec.explain, "rule": spec.rule, "technique": spec.technique,
           "analyses": [r.name for r in results], "functions_analysed": len(functions),
           "functions": sorted(functions)[:400], "samples": samples[:24], "undecided": undecided[:60],
           "undecided_count": len(undecided), "known_findings": len(kn)}
    cov.update(counts)
    rep = os.path.join(ev, pid + ".violations.txt")
    if findings:
        with open(rep, "w") as f:
            for x in findings:
                f.write("%s: in %s: %s\n    witness: %s\n" % (x["where"], x["fn"], x["what"], x["witness"]))
    elif os.path.exists(rep):
        os.remove(rep)
    doc = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": spec.level,
           "coverage": cov, "assumptions": spec.assumptions, "wall_s": round(time.time() - t0, 2),
           "violations": len(findings)}
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    for x in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, x["what"]))
    for u in undecided[:8]:
        print("undecided: " + u[:220])
    for x in findings[:12]:
        print("%s: in %s: %s" % (x["where"], x["fn"], x["what"]))
        if x["witness"]:
            print("    witness: " + x["witness"][:400])
    print("%s: %d findings, %d undecided, %d functions analysed, %s, %.1f s" % (
        pid, len(findings), len(undecided), len(functions), counts, time.time() - t0))
    if findings:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    return 0


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if "--debug" in a:
        a.remove("--debug")
        os.environ["REDSEA_DEBUG"] = "1"
    rc = [2]
    for pid in a:
        rc[0] = run(pid, tier if tier in ("quick", "thorough") else "quick")
    sys.stdout.flush()
    os._exit(rc[0])


if __name__ == "__main__":
    resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY)) \
        if resource.getrlimit(resource.RLIMIT_STACK)[1] == resource.RLIM_INFINITY else None
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()
    os._exit(3)
