"""Rule C35: the client's cross-program macros and its raw `Allocate` invocation."""
from p_mint import *  # noqa
import struct

CPI = 1280                                            # bytes of metas and data in a cross-program call
META = 34
CRATE = "macro_witness"
LEN = mk("sym", "n", None)
LENGTH = mk("sym", "length", None)
NAMES = ("program", "asset", "payer", "system_program")


def info(I, st, i, ty):
    """A reference to an account info that is one value from start to end."""
    st.cells[-10 - i] = mk("sym", "ai." + NAMES[i], I.p.types[ty].get("e"))
    return mk("ref", mk("cell", -10 - i, ()), None)


def aik(n):
    return "ai." + n


def key_is(v, n):
    """`v` is the key of account info n."""
    s = str(v)
    return s == "obj(fld(ai.%s,0,0))[0;32]" % n


def infos_ok(R, rule, xs, names):
    got = [str(e[1]) if isinstance(e, tuple) and e[0] == "1" else str(e) for e in xs]
    R.ob(rule, sorted(got) == sorted(aik(n) for n in names), "the call is given the infos %s" % (got,))


def buf(data):
    v = agg_of(data)
    if v is None or len(v.a[2]) != 2 or not (isinstance(v.a[2][0], T) and v.a[2][0].tag == "vbuf"):
        return None
    return v.a[2]


def num(p, reg, off, k):
    return as_int(p.final(reg, off, k))


def is_num(p, v, want):
    return v is want or isinstance(v, (int, T)) and p.must(eq(v, want))


def is_xt(v, xt):
    v = unwrap(v)
    while isinstance(v, T) and v.tag == "wr":
        v = v.a[1]
    return v is xt or str(v) == str(xt)


def from_source(p, reg, off, n, at):
    """The n bytes of the buffer at `off` are those of the argument at `at`."""
    if n == 0 or p.must(eq(n, 0)):
        return True
    v = p.I.read_slice(p.st, mk("ref", mk("mem", reg, off), n), n)
    if isinstance(v, T) and v.tag in ("ld", "slicev") and v.a[0] is XD(0):
        return (sub(v.a[1], at) == 0 or p.must(eq(v.a[1], at))) and (sub(v.a[2], n) == 0 or p.must(eq(v.a[2], n))) and not (len(v.a) > 3 and v.a[3])
    if isinstance(v, T) and v.tag == "slicev" and v.a[0] is reg:
        ws = [w for w in p.st.mem.get(reg, ()) if w[1] != 0 and not p.must(le(add(w[0], w[1]), off))]
        pos = off
        for o, k, x in ws:
            if not (sub(o, pos) == 0 or p.must(eq(o, pos))):
                return False
            if not (isinstance(x, T) and x.tag in ("ld", "slicev") and x.a[0] is XD(0) and not (len(x.a) > 3 and x.a[3])
                    and (sub(x.a[2], k) == 0) and (sub(x.a[1], add(at, sub(pos, off))) == 0 or p.must(eq(x.a[1], add(at, sub(pos, off)))))):
                return False
            pos = add(pos, k)
        return sub(pos, add(off, n)) == 0 or p.must(eq(pos, add(off, n)))
    return False


def macro_run(ctx, which, facts, extra=()):
    P = ctx.prog(CRATE)
    fn = P.by_path[CRATE + "::" + which][0]

    def args(I, st):
        out = []
        for i in range(4):
            out.append(info(I, st, i, fn.locals[1 + i]))
        out.append(mk("sym", "xt", fn.locals[5]))
        out.append(mk("ref", mk("mem", XD(0), 0), LEN))
        if which == "signed":
            out.append(mk("sym", "seeds", fn.locals[7]))
        return out
    return FnRun(ctx, CRATE, fn, args, mint_setup, facts)


def split_case(k, first, rest, whole):
    if whole:
        return [eq(LEN, first + k * rest)]
    return [le(0, LEN), lt(LEN, first + k * rest)] + ([lt(first + (k - 1) * rest, LEN)] if k else [])


def check_calls(ctx, R, run, which, xt):
    P = run.I.p
    R.ob("anchor", bool(run.parts), "no result for %s" % which)
    for name in run.I.unknown:
        R.ob("anchor", False, "call left undecided: %s" % name)
    won = False
    for p in run.parts:
        calls = [e for e in p.effs if e[0] in ("invoke", "invoke_err")]
        bad = [i for i, e in enumerate(calls) if e[0] == "invoke_err"]
        ok = variant_name(P, p.value) == "Ok"
        if bad:
            R.ob("failure", bad == [len(calls) - 1] and not ok, "%s goes on after a call that failed" % which)
            continue
        if not R.ob("succeeds", ok, "%s fails though every call went through" % which):
            continue
        won = True
        R.stats["abstract success paths"] = R.stats.get("abstract success paths", 0) + 1
        pos = None
        for n, (_k, ix, data, infos, seeds, _sp) in enumerate(calls):
            R.stats["calls"] = R.stats.get("calls", 0) + 1
            prog, metas, data = ix_of(run.I, ix)
            R.ob("program", prog is mk("bytes", ctx.id_hex), "call %d is to %s" % (n, prog))
            R.ob("accounts", len(metas) == 3 and all(key_is(m[0], x) for m, x in zip(metas, NAMES[1:])) and [m[1:] for m in metas] == [(1, 1), (1, 1), (0, 0)],
                 "call %d names the accounts %s" % (n, str(metas)[:200]))
            infos_ok(R, "accounts", infos, NAMES)
            if which == "signed":
                R.ob("signers", "obj(seeds)" in str(seeds), "call %d is signed with %s" % (n, str(seeds)[:80]))
            else:
                R.ob("signers", seeds == (), "call %d is signed with %s" % (n, str(seeds)[:80]))
            b = buf(data)
            if not R.ob("data", b is not None, "call %d carries %s" % (n, str(data)[:80])) or b is None:
                return
            reg, total = b
            R.ob("size", p.must(le(add(total, META * len(metas)), CPI)), "call %d of %s bytes exceeds what a cross-program call carries" % (n, total))
            if n == 0:
                R.ob("order", num(p, reg, 0, 1) == 4, "the first call has number %s" % num(p, reg, 0, 1))
                R.ob("type", is_xt(p.final(reg, 1, 1), xt(P)), "the allocation is of type %s" % p.final(reg, 1, 1))
                R.ob("length", is_num(p, num(p, reg, 2, 4), LEN), "the declared length is %s" % num(p, reg, 2, 4))
                flag = num(p, reg, 6, 1)
                if flag == 0:                         # allocation without data
                    R.ob("data", p.must(eq(total, 7)), "the allocation has %s bytes" % total)
                    pos = 0
                    continue
                here = sub(total, 11)
                R.ob("data", flag == 1 and is_num(p, num(p, reg, 7, 4), here), "the allocation says it carries %s of %s bytes" % (num(p, reg, 7, 4), here))
                R.ob("bytes", from_source(p, reg, 11, here, 0), "the allocation carries other bytes: %s" % str(p.st.mem.get(reg, ()))[:120])
                pos = here
            else:
                R.ob("order", num(p, reg, 0, 1) == 12, "call %d has number %s" % (n, num(p, reg, 0, 1)))
                R.ob("append", num(p, reg, 1, 1) == 0, "a write overwrites what is there")
                here = sub(total, 6)
                R.ob("data", is_num(p, num(p, reg, 2, 4), here), "call %d says it carries %s of %s bytes" % (n, num(p, reg, 2, 4), here))
                R.ob("bytes", from_source(p, reg, 6, here, pos), "call %d, after %s bytes, carries other bytes: %s" % (n, pos, str(p.st.mem.get(reg, ()))[:160]))
                pos = add(pos, here)
        R.ob("complete", pos is not None and p.must(eq(pos, LEN)), "%s of %s bytes are written" % (pos, LEN))
    R.ob("anchor", won, "%s never succeeds" % which)


def witness(ctx, R, fns):
    P = ctx.prog(CRATE)
    return all(R.ob("anchor", CRATE + "::" + f in P.by_path, "no %s()" % f) for f in fns)


def xt_at(ctx, which, i):
    P = ctx.prog(CRATE)
    t = P.by_path[CRATE + "::" + which][0].locals[i]
    return lambda P: mk("sym", "xt", t)


def C35_write(ctx, R):
    first, rest = CPI - META * 3 - 15, CPI - META * 3 - 10
    if not witness(ctx, R, ("signed", "unsigned")):
        return
    cs = {p.rsplit("::", 1)[1]: const_int(c) for p, c in ctx.prog(CRATE).consts}
    if cs.get("CPI_LIMIT") and cs.get("ACCOUNT_METAS_SIZE") and cs.get("ALLOCATE_HEADER"):
        first = cs["CPI_LIMIT"] - cs["ACCOUNT_METAS_SIZE"] - cs["ALLOCATE_HEADER"]
        rest = cs["CPI_LIMIT"] - cs["ACCOUNT_METAS_SIZE"] - cs.get("WRITE_HEADER", 6)
    top = 40 if ctx.tier == "thorough" else 13
    for which in ("signed", "unsigned"):
        for k in range(top):
            for whole in (False, True):
                run = macro_run(ctx, which, split_case(k, first, rest, whole))
                check_calls(ctx, R, run, which, xt_at(ctx, which, 5))
                R.stats["data lengths (classes)"] = R.stats.get("data lengths (classes)", 0) + 1


def C35_data(ctx, R):
    """The instruction data the other macros build."""
    if not witness(ctx, R, ("with_data", "later", "exact")):
        return
    P = ctx.prog(CRATE)
    for which in ("with_data", "later", "exact"):
        fn = P.by_path[CRATE + "::" + which][0]

        def args(I, st):
            return [mk("sym", "xt", fn.locals[1]), LENGTH, mk("ref", mk("mem", XD(0), 0), LEN)]
        facts = [le(0, LEN), lt(LEN, 1 << 32), le(0, LENGTH), lt(LENGTH, 1 << 32)]
        run = FnRun(ctx, CRATE, fn, args, mint_setup, facts)
        R.ob("anchor", bool(run.parts), "no result for %s" % which)
        for name in run.I.unknown:
            R.ob("anchor", False, "call left undecided: %s" % name)
        xt = mk("sym", "xt", fn.locals[1])
        for p in run.parts:
            R.stats["abstract success paths"] = R.stats.get("abstract success paths", 0) + 1
            b = buf(p.value)
            if not R.ob("data", b is not None, "%s returns %s" % (which, str(p.value)[:80])) or b is None:
                continue
            reg, total = b
            R.ob("data", p.must(eq(total, add(LEN, 11))), "%s: %s bytes" % (which, total))
            R.ob("order", num(p, reg, 0, 1) == 4, "%s: number %s" % (which, num(p, reg, 0, 1)))
            R.ob("type", is_xt(p.final(reg, 1, 1), xt), "%s: type %s" % (which, p.final(reg, 1, 1)))
            R.ob("length", is_num(p, num(p, reg, 2, 4), LEN if which == "later" else LENGTH), "%s: declared length %s" % (which, num(p, reg, 2, 4)))
            R.ob("data", num(p, reg, 6, 1) == 1, "%s: option tag %s" % (which, num(p, reg, 6, 1)))
            R.ob("data", is_num(p, num(p, reg, 7, 4), LENGTH if which == "exact" else LEN), "%s: data length %s" % (which, num(p, reg, 7, 4)))
            R.ob("bytes", from_source(p, reg, 11, LEN, 0), "%s: other bytes: %s" % (which, str(p.st.mem.get(reg, ()))[:160]))


def C35_invoke(ctx, R):
    """`AllocateCpiAccounts::invoke` and `invoke_signed`, for every choice of optional accounts."""
    crate = "nifty_asset"
    P = ctx.prog(crate)
    fns = [f for f in P.fns.values() if "AllocateCpiAccounts" in f.path and f.path.rsplit("::", 1)[1] in ("invoke", "invoke_signed")] if isinstance(P.fns, dict) else \
          [f for f in P.fns if "AllocateCpiAccounts" in f.path and f.path.rsplit("::", 1)[1] in ("invoke", "invoke_signed")]
    R.ob("anchor", len(fns) == 2, "raw invocations: %s" % [f.path for f in fns])
    for fn in fns:
        signed = fn.path.endswith("_signed")
        for mask in range(4):
            def args(I, st):
                self_t = P.types[fn.locals[1]]["e"]
                ty = P.types[self_t]
                out = []
                for n, t in ty["v"][0]["f"]:
                    opt = P.types[t].get("def", "").endswith("option::Option")
                    rt = P.types[t]["args"][0] if opt else t
                    if n not in NAMES:
                        out.append(mk("sym", n, t))
                        continue
                    r = info(I, st, NAMES.index(n), rt)
                    if opt and not (mask >> (NAMES.index(n) - 2)) & 1:
                        out.append(mk("agg", t, 0, ()))
                    else:
                        out.append(mk("agg", t, 1, (r,)) if opt else r)
                st.cells[-30] = mk("agg", self_t, 0, tuple(out))
                a = [mk("ref", mk("cell", -30, ()), None), info(I, st, 0, fn.locals[2]), mk("agg", bytevec.vec_ty(I), 0, (mk("vbuf", XD(0)), LEN))]
                return a + ([mk("sym", "seeds", fn.locals[4])] if signed else [])
            run = FnRun(ctx, crate, fn, args, mint_setup, [le(0, LEN), lt(LEN, 1 << 32)])
            R.ob("anchor", bool(run.parts), "no result for %s" % fn.path)
            for name in run.I.unknown:
                R.ob("anchor", False, "call left undecided: %s" % name)
            idv = mk("bytes", ctx.id_hex)
            for p in run.parts:
                calls = [e for e in p.effs if e[0] in ("invoke", "invoke_err")]
                ok = variant_name(P, p.value) == "Ok"
                R.ob("failure", ok == (calls[-1:] != [] and calls[-1][0] == "invoke"), "%s does not pass the outcome on" % fn.path)
                calls = [e for e in calls if e[0] == "invoke"]
                if not R.ob("order", len(calls) == 1, "%s makes %d calls" % (fn.path, len(calls))):
                    continue
                R.stats["calls"] = R.stats.get("calls", 0) + 1
                _k, ix, data, infos, seeds, _sp = calls[0]
                prog, metas, data = ix_of(run.I, ix)
                R.ob("program", prog is idv, "%s calls %s" % (fn.path, prog))
                pay, sys = mask & 1, mask >> 1 & 1
                want = [("asset", 1, 1), ("payer", 1, 1) if pay else (None, 0, 0), ("system_program", 0, 0) if sys else (None, 0, 0)]
                R.ob("accounts", len(metas) == 3 and all((key_is(m[0], w[0]) if w[0] else m[0] is idv) and m[1:] == w[1:] for m, w in zip(metas, want)),
                     "%s names the accounts %s" % (fn.path, str(metas)[:200]))
                infos_ok(R, "accounts", infos, ["program", "asset"] + ["payer"] * pay + ["system_program"] * sys)
                b = buf(data)
                R.ob("data", b is not None and b[1] is LEN and b[0] is mk("vbuf", XD(0)) and not p.st.mem.get(b[0]), "%s carries %s" % (fn.path, str(data)[:80]))
                if signed:
                    R.ob("signers", "obj(seeds)" in str(seeds) or seeds == () and p.must(eq(mk("len", mk("sym", "seeds", fn.locals[4])), 0)), "%s signs with %s" % (fn.path, str(seeds)[:80]))
                else:
                    R.ob("signers", seeds == (), "%s signs with %s" % (fn.path, str(seeds)[:80]))


ONCE = {"C35": {"allocate-and-write": C35_write, "instruction-data": C35_data, "raw-invoke": C35_invoke}}
PER = {}
EXPLAIN = {"C35": "The client's macros are expanded by the compiler in a witness crate that is type-checked and never linked; the resulting MIR is abstractly "
                  "interpreted with a free extension type, free bytes and a free length (one run per number of writes needed), and every cross-program call it "
                  "makes is read back from the instruction buffer."}
ASSUME = {"C35": ["a cross-program call carries at most 1280 bytes of account metas (34 each) and data",
                  "invoke and invoke_signed hand over the instruction, infos and seeds they are given"]}
