"""Build one planted bug: mkseed.py <spec.py> [--checks C01,C02|all]. The spec defines ID, PROP, NEEDS, BREAKS,
EDITS=[(file, old, new)], MAIN (rust) and optionally CARGO, DEMO. Applies the change to /repo only while testing."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sp = {}
exec(open(sys.argv[1]).read(), sp)
out = os.path.join(HERE, "seeded", sp["ID"])
assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True).stdout
os.makedirs(out, exist_ok=True)
for f in ("Cargo.toml", "harness.rs", "demo.sh"):
    shutil.copy(os.path.join(HERE, "tools/demo", f), out)
if "CARGO" in sp: open(out + "/Cargo.toml", "w").write(sp["CARGO"])
if "DEMO" in sp: open(out + "/demo.sh", "w").write(sp["DEMO"])
if "MAIN" in sp: open(out + "/main.rs", "w").write(sp["MAIN"])
for k, v in sp.get("FILES", {}).items(): open(os.path.join(out, k), "w").write(v)
json.dump({"property": sp["PROP"], "needs": sp["NEEDS"], "what_it_breaks": sp["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, cwd="/repo", **k)
ok = True
def demo(want, label):
    global ok
    r = sh("bash %s/demo.sh" % out)
    good = (r.returncode == 0) == want
    ok &= good and r.returncode != 4
    print("demo %s: rc=%d %s %s" % (label, r.returncode, "ok" if good else "WRONG", (r.stdout + r.stderr)[-600:] if not good or r.returncode == 4 else r.stdout[-150:]))
demo(True, "unchanged")
try:
    for f, a, b in sp["EDITS"]:
        p = os.path.join("/repo", f); s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    d = sh("git diff").stdout
    open(out + "/patch.diff", "w").write(d)
    if "--nobuild" not in sys.argv:
        r = sh("bash /opt/vp/build.sh"); print("build", r.returncode, r.stderr[-300:] if r.returncode else "")
        ok &= r.returncode == 0
        r = sh("bash /opt/vp/test.sh /tmp/ovs-t-%d.json" % os.getpid())
        base = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open("/tmp/ovs-t-%d.json" % os.getpid()))
        passed = set(t.get("passed", t.get("pass", [])))
        miss = [x for x in base["stable"] if x not in passed]
        print("tests missing:", miss); ok &= not miss
    demo(False, "patched")
    ch = sys.argv[sys.argv.index("--checks") + 1] if "--checks" in sys.argv else sp["PROP"]
    ids = ch.split(",") if ch != "all" else [c["property"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]]
    for i in ids:
        r = subprocess.run([sys.executable, HERE + "/check.py", i], capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if "|" in l]
        if r.returncode or i == sp["PROP"]:
            print("check", i, "rc", r.returncode, "CAUGHT" if r.returncode == 1 else "missed", "; ".join(x.strip()[:150] for x in v[:3]), r.stderr[-200:])
finally:
    sh("git checkout -- .")
print("SEED", sp["ID"], "OK" if ok else "BAD")
