"""Behaviour-preserving edits the checks must stay quiet on: refac.py [name-prefix ...].

Each tools/refac/*.py defines REFS = {name: (edits, instructions or None for all)}; an edit is (file, old, new).
Works in a scratch copy of /repo (NV_REPO), runs every rule of every property on the affected subjects."""
import os, subprocess, sys, time, multiprocessing, shutil, glob
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("RF_DIR", "/tmp/rfw")
os.environ["NV_REPO"] = W + "/repo"
os.environ["NV_BUILD"] = W + "/build"
sys.path.insert(0, HERE + "/analysis")
sys.setrecursionlimit(20000)
os.makedirs(W, exist_ok=True)
import extract, registry
from rules import Ctx, Report

REFS = {}
for f in sorted(glob.glob(HERE + "/tools/refac/*.py")):
    d = {}
    exec(open(f).read(), d)
    REFS.update(d["REFS"])


def fresh():
    shutil.rmtree(W + "/repo", ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", W + "/repo"])


def job(a):
    subj, props = a
    out = []
    for p in props:
        R = Report(p, subj)
        t = time.time()
        try:
            registry.run_job(CTX, p, subj, R)
        except Exception as e:
            import traceback
            R.ob("analysis complete", False, traceback.format_exc()[-600:])
        for k, v in sorted(R.viol.items()):
            out.append("  %s %s [%s] %s" % (p, k, v["where"], v["detail"][:int(os.environ.get("RF_W", 260))]))
    return out


def main():
    global CTX
    names = [n for n in REFS if not sys.argv[1:] or any(n.startswith(a) for a in sys.argv[1:])]
    if not os.path.isdir(W + "/build"):
        os.makedirs(W + "/build")
        if os.path.isdir(HERE + "/.build/target"):
            shutil.copytree(HERE + "/.build/target", W + "/build/target", symlinks=True)
    bad = []
    only = os.environ.get("RF_PROPS")
    for n in names:
        edits, instrs = REFS[n]
        fresh()
        try:
            for f, a, b in edits:
                p = W + "/repo/" + f
                s = open(p).read()
                assert s.count(a) >= 1, (n, f, a)
                open(p, "w").write(s.replace(a, b))
            d = extract.extract()
        except (AssertionError, extract.ExtractError) as e:
            print("==", n, "NOT APPLIED", str(e)[-1500:])
            bad.append(n)
            continue
        CTX = Ctx(d, "quick")
        CTX.prepare()
        by = {}
        for p in sorted(set(registry.PER) | set(registry.ONCE)):
            if only and p not in only.split(","):
                continue
            for s in registry.subjects(p):
                if instrs is None or s in instrs or s in registry.ONCE.get(p, {}):
                    by.setdefault(s, []).append(p)
        t = time.time()
        with multiprocessing.get_context("fork").Pool(8) as pool:
            res = sorted(x for r in pool.imap_unordered(job, sorted(by.items(), key=lambda s: s[0] not in ("Create", "Update", "Remove")), 1) for x in r)
        print("==", n, "quiet" if not res else "%d ALARMS" % len(res), "%.0fs" % (time.time() - t), d, flush=True)
        print("\n".join(res[:25]), flush=True)
        if res:
            bad.append(n)
    print("alarmed:", bad)


main()
