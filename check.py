#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of /repo's current source.

Extracts the type-checked intermediate representation (MIR) of every crate, interprets it
abstractly and evaluates the property's obligations.  Exit 0: every obligation is discharged
(or listed as a known finding); exit 1: VIOLATION line(s); exit 2: the tree does not compile.
"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

import json
import multiprocessing
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "analysis"))
sys.setrecursionlimit(20000)

import extract  # noqa: E402
import registry  # noqa: E402
from rules import Ctx, Report  # noqa: E402


def known(prop):
    """{key: text} of recorded findings: lines `finding: property=<id> key=<key> :: <text>`."""
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s key=" % prop):
                k, _, txt = line.split(" key=", 1)[1].partition(" :: ")
                out[k.strip()] = txt.strip()
    return out


def job(a):
    prop, subject = a
    R = Report(prop, subject)
    try:
        registry.run_job(CTX, prop, subject, R)
    except Exception as e:  # an analysis that cannot finish proves nothing
        tb = traceback.extract_tb(e.__traceback__)[-1]
        R.ob("analysis complete", False, "%s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        if os.environ.get("NV_DEBUG"):
            traceback.print_exc()
    return subject, R.n, R.viol, R.seen, R.notes, R.stats


def main():
    global CTX
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    try:
        d = extract.extract()
    except extract.ExtractError as e:
        print("ERROR: the source tree could not be compiled for analysis: %s" % str(e)[-2000:])
        return 2
    CTX = Ctx(d, tier)
    subjects = registry.subjects(prop)
    fails = []
    try:
        CTX.prepare()
    except Exception as e:
        fails.append(("program|anchors present", {"where": None, "detail": "%s: %s" % (type(e).__name__, e), "count": 1}))
        subjects = []
    n = 0
    rules, notes, stats = {}, [], {}
    if subjects:
        order = sorted(subjects, key=lambda s: 0 if s in ("Create", "Update", "Remove") else 1)
        with multiprocessing.get_context("fork").Pool(min(8, len(order))) as pool:
            for subject, k, viol, seen, nts, sts in pool.imap_unordered(job, [(prop, s) for s in order], 1):
                n += k
                for r, c in seen.items():
                    rules[r] = rules.get(r, 0) + c
                notes += nts
                for a, b in sts.items():
                    stats[a] = stats.get(a, 0) + b
                fails += sorted(viol.items())
    kf = known(prop)
    fails.sort(key=lambda x: x[0])
    bad = [(k, v) for k, v in fails if k not in kf]
    for k, v in fails:
        if k in kf:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, kf[k]))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if bad:
        rep = os.path.join(HERE, "evidence", "%s.violations.txt" % prop)
        with open(rep, "w") as fh:
            for k, v in bad:
                fh.write("%s\n    at: %s\n    paths: %d\n    %s\n" % (k, v["where"], v["count"], v["detail"][:4000]))
        for k, v in bad:
            print("  %s  [%s] (%d paths) %s" % (k, v["where"] or "-", v["count"], v["detail"][:300]))
            print("VIOLATION property=%s replay=%s" % (prop, rep))
    nf = sum(v["count"] for _, v in fails)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": {
              "explanation": registry.EXPLAIN.get(prop, registry.DEFAULT_EXPLAIN),
              "obligations": n, "discharged": n - nf,
              "subjects": sorted(subjects), "rules": rules, "analysed": stats, "notes": notes[:40],
              "mir": os.path.basename(d),
              "checker_cmd": "python3 check.py %s %s" % (prop, tier),
              "trusted_base": registry.TRUSTED},
          "assumptions": registry.ASSUME.get(prop, registry.DEFAULT_ASSUME),
          "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    with open(os.path.join(HERE, "evidence", "%s.json" % prop), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    print("%s: %d obligations over %d subjects (%s), %d undischarged, %d known, %.1fs" % (
        prop, n, len(subjects), ", ".join("%s %s" % (b, a) for a, b in sorted(stats.items())) or "-", len(bad), len(fails) - len(bad), time.time() - t0))
    if not bad and n == 0:
        print("VIOLATION property=%s replay=%s" % (prop, "no-obligations"))
        return 1
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
