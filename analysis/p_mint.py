"""Rule C31: what the client's mint helper emits."""
from p_types import *  # noqa
from p_tables import agg_of, enum_def, variant_name  # noqa
import bytevec
import cpi
import wire
from models import targ

TX = 1232                                             # bytes of a transaction packet
MANY = 220


def chunks(I, st, fn, args, fr, span):
    """A slice cut in pieces of a fixed length, by the number of pieces the facts allow."""
    m = args[1]
    r = args[0]
    n = I.slice_len(st, r, fn.locals[1] if fn.locals else None)
    loc, _x = I.deref(st, r, None)
    if not isinstance(m, int) or m < 1 or loc.tag != "mem":
        return NotImplemented
    out = []
    for k in range(MANY + 1):
        s = st.fork()
        ok = I.assume(s, eq(n, 0)) if k == 0 else I.assume(s, le(n, k * m)) and I.assume(s, lt((k - 1) * m, n))
        if not ok:
            continue
        el = tuple(mk("ref", mk("mem", loc.a[0], add(loc.a[1], j * m)), m if j < k - 1 else sub(n, j * m)) for j in range(k))
        out.append((s, mk("viter", mk("vec", el), 0, k, None)))
    return out


def mint_setup(I):
    wire.enable(I)
    cpi.enable(I)
    I.extra["core::slice::<impl [T]>::chunks"] = chunks
    I.extra["<core::slice::iter::Chunks<'a, T> as core::iter::traits::iterator::Iterator>::next"] = models.m_owned_next


def struct_ty(P, name):
    for i, t in enumerate(P.types):
        if t["k"] == "adt" and t.get("def") == name:
            return i, t["v"][0]["f"]
    return None, ()


def build(P, name, vals):
    ty, fields = struct_ty(P, name)
    if ty is None or set(n for n, _t in fields) != set(vals):
        return None
    return mk("agg", ty, 0, tuple(vals[n] for n, _t in fields))


def XD(k):
    return mk("xdata", k)


def XL(k):
    return mk("sym", "xlen%d" % k, None)


def mint_run(ctx, counts, first, rest):
    """mint() for a list of extensions; extension k needs counts[k] writes after its allocation
    (first, rest: bytes the allocation and each write take)."""
    crate = "nifty_asset"
    P = ctx.prog(crate)
    fn = P.by_path["nifty_asset::mint::mint"][0]
    facts = []
    for k, c in enumerate(counts):
        facts.append(le(0, XL(k)))
        c, whole = c if isinstance(c, tuple) else (c, False)
        if whole:                                     # the last piece is as long as it can be
            facts.append(eq(XL(k), first + c * rest))
            continue
        facts.append(lt(XL(k), first + c * rest))
        if c > 0:
            facts.append(lt(first + (c - 1) * rest, XL(k)))

    def args(I, st):
        m = "nifty_asset::mint::"
        vt = bytevec.vec_ty(I)
        pk = lambda n: mk("sym", n, None)
        ptys = dict(struct_ty(P, m + "MintAccounts")[1])
        atys = dict(struct_ty(P, m + "AssetArgs")[1])
        etys = dict(struct_ty(P, m + "ExtensionArgs")[1])
        ex = []
        for k in range(len(counts)):
            ex.append(build(P, m + "ExtensionArgs", {"extension_type": mk("sym", "xtype%d" % k, etys["extension_type"]),
                                                     "data": mk("agg", vt, 0, (mk("vbuf", XD(k)), XL(k)))}))
        return [build(P, m + "MintIxArgs", {
            "accounts": build(P, m + "MintAccounts", {n: mk("sym", "acct." + n, t) for n, t in ptys.items()}),
            "asset_args": build(P, m + "AssetArgs", {n: mk("sym", "args." + n, t) for n, t in atys.items()}),
            "extension_args": mk("vec", tuple(ex))})]
    return FnRun(ctx, crate, fn, args, mint_setup, facts)


def content(st, v):
    """(source region, offset, length) of a byte vector copied from one place, or None."""
    v = agg_of(v)
    if v is None or len(v.a[2]) != 2 or not (isinstance(v.a[2][0], T) and v.a[2][0].tag == "vbuf"):
        return None
    r, n = v.a[2]
    if n == 0:
        return None, 0, 0
    if isinstance(r.a[0], T) and r.a[0].tag == "xdata":
        return r, 0, n
    ws = [w for w in st.mem.get(r, ()) if w[1] != 0]
    at, src, off = 0, None, None
    for o, k, x in ws:
        if sub(o, at) != 0:
            return None
        if not (isinstance(x, T) and x.tag in ("ld", "slicev") and x.a[2] is k or isinstance(x, T) and x.tag in ("ld", "slicev") and x.a[2] == k):
            return None
        if x.tag == "slicev" and len(x.a) > 3 and x.a[3]:
            return None
        if src is None:
            src, off = x.a[0], x.a[1]
        elif x.a[0] is not src or sub(x.a[1], add(off, at)) != 0:
            return None
        at = add(at, k)
    return (src, off, n) if src is not None and sub(at, n) == 0 else None


def source_is(p, c, k, at):
    """The copied bytes start at `at` of extension k's data."""
    return c[2] == 0 or c[0] is mk("vbuf", XD(k)) and (sub(c[1], at) == 0 or p.must(eq(c[1], at)))


def ix_of(I, v):
    v = agg_of(v)
    names = [f[0] for f in I.p.types[v.a[0]]["v"][0]["f"]]
    d = dict(zip(names, v.a[2]))
    metas = []
    for m in d["accounts"].a[0] if isinstance(d["accounts"], T) and d["accounts"].tag == "vec" else ():
        m = agg_of(m)
        mn = [x[0] for x in I.p.types[m.a[0]]["v"][0]["f"]]
        dd = dict(zip(mn, m.a[2]))
        metas.append((dd["pubkey"], dd["is_signer"], dd["is_writable"]))
    return d["program_id"], metas, d["data"]


def tx_fixed(metas):
    """Bytes of a transaction with this one instruction, all accounts different, without its data."""
    s = sum(1 for m in metas if m[1] == 1)
    k = len(metas) + 1
    return 1 + 64 * s + 3 + 1 + 32 * k + 32 + 1 + 1 + 1 + len(metas) + 2


def within(R, rule, p, metas, n, what):
    R.ob(rule, p.must(le(n, TX - tx_fixed(metas))), "%s of %s bytes may not fit a transaction (%d left for it)" % (what, n, TX - tx_fixed(metas)))


def check_mint(ctx, R, run, counts):
    I = run.I
    P = I.p
    R.ob("anchor", bool(run.parts), "no result for %s" % (counts,))
    for name in I.unknown:
        R.ob("anchor", False, "call left undecided: %s" % name)
    for p in run.parts:
        if not R.ob("succeeds", variant_name(P, p.value) == "Ok", "a list of %d extensions is refused" % len(counts)):
            continue
        v = p.value.a[2][0]
        if not R.ob("list", isinstance(v, T) and v.tag == "vec", "the instructions are %s" % str(v)[:80]):
            continue
        R.stats["abstract success paths"] = R.stats.get("abstract success paths", 0) + 1
        payer = mk("sym", "acct.payer", None)
        k, pos, done = -1, None, False
        for n, x in enumerate(v.a[0]):
            R.stats["instructions"] = R.stats.get("instructions", 0) + 1
            prog, metas, data = ix_of(I, x)
            R.ob("program", prog is mk("bytes", ctx.id_hex), "instruction %d is for %s" % (n, prog))
            ps = wire.pieces(I, p.st, data)
            if not R.ob("data", ps is not None and len(ps) >= 1 and isinstance(ps[0][1], int), "instruction %d carries %s" % (n, str(ps)[:80])):
                return
            tag, vals = ps[0][1], [q[1] for q in ps[1:]]
            R.ob("accounts", len(metas) > 0 and metas[0] == (acct(P, "asset"), 1, 1), "instruction %d is for account %s" % (n, metas[:1]))
            if tag in (4, 12):
                R.ob("accounts", len(metas) == 3 and payer_is(p, P, metas[1][0]) and metas[1][1:] == (1, 1), "instruction %d is paid by %s" % (n, metas[1:2]))
                R.ob("accounts", len(metas) == 3 and metas[2][0] is ZERO32, "instruction %d names %s as the system program" % (n, metas[2:3]))
            if not R.ob("order", not done, "instructions follow the creation"):
                break
            if tag == 4:
                R.ob("complete", k < 0 or full(p, pos, k), "extension %d is written up to %s" % (k, pos))
                k += 1
                if not R.ob("order", k < len(counts) and len(vals) == 3, "more allocations than extensions") or k >= len(counts):
                    break
                R.ob("order", isinstance(vals[0], T) and vals[0].tag == "sym" and vals[0].a[0] == "xtype%d" % k, "allocation %d is of type %s" % (k, vals[0]))
                R.ob("length", vals[1] is XL(k) or p.must(eq(vals[1], XL(k))), "extension %d is declared with length %s" % (k, vals[1]))
                o = agg_of(vals[2])
                if o is not None and variant_name(P, o) == "None":
                    pos = 0
                    continue
                c = content(p.st, o.a[2][0]) if o is not None else None
                if not R.ob("bytes", c is not None and source_is(p, c, k, 0), "allocation %d carries %s" % (k, c)) or c is None:
                    break
                pos = c[2]
                within(R, "size", p, metas, add(pos, 11), "an allocation")
            elif tag == 12:
                if not R.ob("order", k >= 0 and len(vals) == 2, "a write with nothing allocated"):
                    break
                R.ob("append", vals[0] == 0, "a write overwrites what is there")
                c = content(p.st, vals[1])
                if not R.ob("bytes", c is not None and source_is(p, c, k, pos), "extension %d, after %s bytes: writes %s" % (k, pos, c)) or c is None:
                    break
                pos = add(pos, c[2])
                within(R, "size", p, metas, add(c[2], 6), "a write")
            elif tag == 2:
                done = True
                R.ob("complete", k < 0 or full(p, pos, k), "extension %d is written up to %s" % (k, pos))
                R.ob("order", k == len(counts) - 1, "%d of %d extensions are allocated" % (k + 1, len(counts)))
                R.ob("identity", len(vals) == 4 and [sym_name(x) for x in vals[:3]] == ["args.name", "args.standard", "args.mutable"]
                     and variant_name(P, vals[3]) == "None", "the asset is created with %s" % (vals,))
                R.ob("identity", len(metas) > 2 and metas[2][0] is acct(P, "owner"), "the owner is %s" % (metas[2:3],))
                R.ob("identity", len(metas) > 2 and metas[1][0] is acct(P, "owner"), "the authority is %s" % (metas[1:2],))
                R.ob("accounts", len(metas) == 7 and metas[3][0] is mk("bytes", ctx.id_hex) and metas[4][0] is mk("bytes", ctx.id_hex), "the group is %s" % (metas[3:5],))
                R.ob("accounts", len(metas) == 7 and payer_is(p, P, metas[5][0]) and metas[6][0] is ZERO32, "the creation is paid by %s" % (metas[5:],))
            else:
                R.ob("order", False, "instruction %d has number %d" % (n, tag))
        R.ob("order", done, "the asset is not created")


def full(p, pos, k):
    return p.must(eq(pos, XL(k)))


def sym_name(x):
    return x.a[0] if isinstance(x, T) and x.tag == "sym" else None


def acct(P, n):
    t = dict(struct_ty(P, "nifty_asset::mint::MintAccounts")[1]).get(n)
    return mk("sym", "acct." + n, t)


def payer_is(p, P, k):
    o = acct(P, "payer")
    some = eq(mk("discr", o), 1)
    if k is mk("fld", o, 1, 0):
        return p.must(some)
    return k is acct(P, "owner") and p.must(ne(mk("discr", o), 1), eq(mk("discr", o), 0))


def C31_sizes(ctx):
    """How many bytes the first and the following instructions carry: the helper's own constants, or the transaction limit."""
    cs = {p.rsplit("::", 1)[1]: c for p, c in ctx.prog("nifty_asset").consts if p.startswith("nifty_asset::mint::")}
    a, b = (const_int(cs.get(n)) for n in ("MAX_ALLOCATE_DATA_SIZE", "MAX_WRITE_DATA_SIZE"))
    if a and b:
        return a, b
    metas = [(None, 1, 1), (None, 1, 1), (None, 0, 0)]
    return TX - tx_fixed(metas) - 11, TX - tx_fixed(metas) - 6


def const_int(c):
    return int(c["v"]) if isinstance(c, dict) and c.get("c") == "i" else None


def mint_cases(ctx, R, cases):
    P = ctx.prog("nifty_asset")
    if not R.ob("anchor", "nifty_asset::mint::mint" in P.by_path, "no mint()"):
        return
    first, rest = C31_sizes(ctx)
    for c in cases:
        run = mint_run(ctx, c, first, rest)
        check_mint(ctx, R, run, c)
        R.stats["functions"] = max(R.stats.get("functions", 0), len(run.I.visited))
    R.stats["extension lists"] = len(cases)


def C31_one(ctx, R):
    ks = list(range(0, 31)) + [72] + (list(range(31, 200)) if ctx.tier == "thorough" else [])
    mint_cases(ctx, R, [()] + [(k,) for k in ks] + [((k, True),) for k in ks])


def C31_many(ctx, R):
    cs = (0, (0, True), 1, 2, (2, True))
    two = [(a, b) for a in cs for b in cs]
    mint_cases(ctx, R, two + [(0, 0, 0), (1, 0, 2), (0, 2, 0), (0, 1, 0, 1), (0,) * 12])


ONCE = {"C31": {"one-extension": C31_one, "several-extensions": C31_many}}
PER = {}
EXPLAIN = {"C31": "mint() is abstractly interpreted on compiler MIR for lists of extensions whose types, bytes and lengths are free, one run per number of "
                  "pieces each extension needs; the instructions it returns are read back piece by piece (the borsh encoders are interpreted too) and "
                  "must cover every byte once, in order, within what a transaction can carry."}
ASSUME = {"C31": ["slice::chunks yields consecutive pieces of the given length, the last possibly shorter",
                  "a transaction carries one of the instructions, with accounts that are all different"]}
