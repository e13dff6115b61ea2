"""Extraction: compile /repo's working tree with the nightly front end and dump MIR.

The dump directory is keyed by a hash of every source file of /repo (tracked or
not, ignored build output excluded) and of the extractor itself."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NV_REPO", "/repo")
BUILD = os.environ.get("NV_BUILD", os.path.join(VERIF, ".build"))
SYSROOT = "/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu"
CRATES = ["asset_program", "nifty_asset_types", "nifty_asset_interface", "bridge_program",
          "proxy_program", "nifty_asset", "nifty_bridge", "solana_include_idl"]


class ExtractError(Exception):
    pass


def source_files():
    r = subprocess.run(["git", "-C", REPO, "ls-files", "-z", "-co", "--exclude-standard"],
                       capture_output=True)
    if r.returncode:
        raise ExtractError("git ls-files failed: " + r.stderr.decode(errors="replace"))
    return sorted(set(f for f in r.stdout.decode().split("\0") if f))


def tree_hash():
    h = hashlib.sha256()
    for f in source_files():
        p = os.path.join(REPO, f)
        if not os.path.isfile(p):
            continue
        if not f.endswith((".rs", ".toml", ".lock", ".json")):
            continue
        h.update(f.encode() + b"\0")
        with open(p, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for f in ("driver/mirdump.rs", "driver/rustc-wrap.sh", "driver/macro_witness.rs", "analysis/extract.py"):
        with open(os.path.join(VERIF, f), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def build_driver():
    src = os.path.join(VERIF, "driver", "mirdump.rs")
    hh = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "mirdump-" + hh)
    if os.path.exists(out):
        return out
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run([SYSROOT + "/bin/rustc", "--edition", "2021", "-O", src, "-o", tmp,
                        "-C", "link-args=-Wl,-rpath," + SYSROOT + "/lib"],
                       capture_output=True, cwd=BUILD)
    if r.returncode:
        raise ExtractError("driver build failed:\n" + r.stderr.decode(errors="replace")[-4000:])
    os.rename(tmp, out)
    return out


def witness(drv, out, env):
    """Dump what `include_idl!` puts into a program binary, for every kind of description: a two-line crate is
    type-checked with the on-chain target's cfg (nothing is linked or run)."""
    work = os.path.join(out, "witness")
    os.makedirs(work)
    with open(os.path.join(out, "solana_include_idl.json")) as fh:
        types = json.load(fh)["types"]
    kinds = [v["n"] for t in types if t["s"] == "solana_include_idl::parse::IdlType" for v in t["v"]]
    env = dict(env, MIRDUMP_OUT=out)
    base = ["-A", "explicit_builtin_cfgs_in_flags", "--cap-lints", "allow", "--edition", "2021"]
    r = subprocess.run([SYSROOT + "/bin/rustc", "--crate-name", "solana_include_idl", "--crate-type", "rlib", "--emit", "metadata", "-Zalways-encode-mir",
                        os.path.join(REPO, "include-idl", "src", "lib.rs"), "--out-dir", work] + base, capture_output=True, env=env, cwd=work)
    for k, arch in [(k, a) for k in kinds for a in ("sbf", "bpf")] if r.returncode == 0 else []:
        cfg = base + ["--cfg", 'target_arch="%s"' % arch]
        name = "idl_witness_%s_%s" % (arch, k.lower())
        with open(os.path.join(work, k + ".bin"), "wb") as fh:
            fh.write(("description of kind %s" % k).encode())
        src = os.path.join(work, name + ".rs")
        with open(src, "w") as fh:
            fh.write("solana_include_idl::include_idl!(solana_include_idl::parse::IdlType::%s, \"%s\");\n" % (k, os.path.join(work, k + ".bin")))
        subprocess.run([drv, "--crate-name", name, "--crate-type", "rlib", "--emit", "metadata", src, "--out-dir", work, "--sysroot", SYSROOT,
                        "--extern", "solana_include_idl=" + os.path.join(work, "libsolana_include_idl.rmeta")] + cfg,
                       capture_output=True, env=env, cwd=work)
    shutil.rmtree(work, ignore_errors=True)


def macro_witness(drv, out, env, target):
    """Dump the expansions of the client's exported macros, type-checked against the client just built."""
    work = os.path.join(out, "witness")
    os.makedirs(work)
    deps = os.path.join(target, "debug", "deps")
    libs = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("libnifty_asset-") and f.endswith(".rmeta")]
    if libs:
        subprocess.run([drv, "--crate-name", "macro_witness", "--crate-type", "rlib", "--emit", "metadata", os.path.join(VERIF, "driver", "macro_witness.rs"),
                        "--out-dir", work, "--sysroot", SYSROOT, "--extern", "nifty_asset=" + max(libs, key=os.path.getmtime), "-L", "dependency=" + deps,
                        "-Zalways-encode-mir", "-Zmir-opt-level=0", "-Zinline-mir=no", "-Coverflow-checks=off", "-Cdebug-assertions=off",
                        "--cap-lints", "allow", "--edition", "2021"],
                       capture_output=True, env=dict(env, MIRDUMP_OUT=out), cwd=work)
    shutil.rmtree(work, ignore_errors=True)


def extract(log=sys.stderr):
    """Return the directory holding <crate>.json for the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash()
        out = os.path.join(BUILD, "mir", key)
        if os.path.exists(os.path.join(out, "done")):
            return out
        mirdir = os.path.join(BUILD, "mir")
        if os.path.isdir(mirdir):
            old = sorted((os.path.getmtime(os.path.join(mirdir, d)), d) for d in os.listdir(mirdir))
            for _, d in old[:-3]:
                shutil.rmtree(os.path.join(mirdir, d), ignore_errors=True)
        tmp = os.path.join(BUILD, "mir", key + ".tmp")
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        drv = build_driver()
        target = os.path.join(BUILD, "target")
        # force the workspace crates through the wrapper: cargo would skip fresh ones
        fp = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(("asset-program-", "nifty-", "bridge-program-", "proxy-program-",
                                 "solana-include-idl")):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        env = dict(os.environ)
        for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET"):
            env.pop(k, None)
        env.update(HOME="/root", RUSTUP_TOOLCHAIN="1.75.0", CARGO_NET_OFFLINE="true",
                   PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
                   pnpm_config_offline="true", pnpm_config_fetch_retries="0", CARGO_TERM_COLOR="never",
                   CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=target, MIRDUMP_OUT=tmp,
                   RUSTC=os.path.join(VERIF, "driver", "rustc-wrap.sh"), NV_SYSROOT=SYSROOT,
                   NV_MIRDUMP=drv,
                   RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zinline-mir=no "
                             "-Coverflow-checks=off -Cdebug-assertions=off --cap-lints allow")
        t0 = time.time()
        cmd = ["cargo", "check", "--offline", "--workspace", "--lib",
               "--features", "nifty-asset/serde,nifty-bridge/serde,solana-include-idl/parse,solana-include-idl/shrink"]
        r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True)
        open(os.path.join(BUILD, "cargo.log"), "wb").write(r.stderr)
        if r.returncode:
            raise ExtractError("analysis build failed:\n" + r.stderr.decode(errors="replace")[-6000:])
        missing = [c for c in CRATES if not os.path.exists(os.path.join(tmp, c + ".json"))]
        if missing:
            raise ExtractError("no MIR dump for crates: %s" % missing)
        witness(drv, tmp, env)
        macro_witness(drv, tmp, env, target)
        with open(os.path.join(tmp, "done"), "w") as fh:
            fh.write("%.1f" % (time.time() - t0))
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        print("[extract] %s in %.1fs" % (key, time.time() - t0), file=log)
        return out


if __name__ == "__main__":
    print(extract())
