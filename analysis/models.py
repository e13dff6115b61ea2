"""Abstract models of the primitives the analysed code is built on.

Everything not listed here is analysed from its own MIR body.  The nitrate account
accessors, the system-program CPIs, slices/iterators/vectors and integer helpers
are given their documented meaning as transfer functions.
"""
import re

from absint import *  # noqa
from terms import *  # noqa

ACCOUNTS = mk("accounts")
ID_HEX = None


def ref_of(region, off=0, meta=None):
    return mk("ref", mk("mem", region, off), meta)


class SolInterp(Interp):
    """Interp + models + account-borrow tracking."""

    def __init__(self, prog, **kw):
        super().__init__(prog, {}, **kw)
        self._mcache = {}
        self.as_iter = lambda I, it, ety: as_iter(I, it, ety)
        self.virtual = {}
        self.opaque_get = True          # Asset::get & co. as lookups in the extension map
        self.record_validate = True     # on_create/on_update dispatchers recorded, not inlined
        self.extra = {}                 # path -> handler overriding everything
        self.ext_types = {}
        self.virtual["nifty_asset_types::constraints::Assertable::assert"] = v_assert

    def model_for(self, fn):
        k = fn.id
        h = self._mcache.get(k, 0)
        if h == 0:
            h = self.extra.get(fn.path)
            if h is None:
                h = EXACT.get(fn.path)
            if h is None:
                for rx, hh in RULES:
                    if rx.search(fn.path):
                        h = hh
                        break
            self._mcache[k] = h
        return h

    # -- borrow tracking
    def release(self, st, g):
        i, kind, m = g.a[1], g.a[2], g.a[3]
        k = (i, kind)
        b = st.borrow.get(k)
        if b is None:
            return
        if b[0] == "m":
            st.borrow.pop(k)
        elif b[1] <= 1:
            st.borrow.pop(k)
        else:
            st.borrow[k] = ("s", b[1] - 1)

    # -- values
    def dest_ty(self, fn):
        if fn.locals:
            return fn.locals[0]
        return self.dty

    def opt(self, ty, v=None, some=True):
        return mk("agg", ty, 1, (v,)) if some else mk("agg", ty, 0, ())

    def ok(self, ty, v):
        return mk("agg", ty, 0, (v,))

    def err(self, ty, what):
        t = self.p.types[ty]
        f = t["v"][1]["f"]
        return mk("agg", ty, 1, (mk("errv", what),) if f else ())

    def rd(self, st, ref, ty=None):
        loc, meta = self.deref(st, ref, None)
        return self.load(st, loc, ty)

    def elem(self, ty):
        """Element type of a slice/array/Vec-like reference type."""
        t = self.p.types[ty]
        while t["k"] in ("ref", "ptr"):
            ty = t["e"]
            t = self.p.types[ty]
        if t["k"] in ("slice", "array"):
            return t["e"]
        if t["k"] == "str":
            return self.p.tid("u8")
        if t["k"] == "adt" and t.get("args"):
            return t["args"][0]
        return None

    def slice_len(self, st, r, ty):
        """Length of the slice/array/Vec a reference denotes."""
        if isinstance(r, T) and r.tag == "ref" and r.a[1] is not None:
            return r.a[1]
        if ty is not None:
            t = self.p.types[ty]
            while t["k"] in ("ref", "ptr"):
                t = self.p.types[t["e"]]
            if t["k"] == "array":
                return t["n"]
        return mk("len", r)

    def acct(self, st, r):
        """Account identity of a &AccountInfo."""
        if isinstance(r, T) and r.tag == "ref":
            loc = r.a[0]
            if loc.tag == "mem" and loc.a[0] is ACCOUNTS:
                off = loc.a[1]
                if isinstance(off, int):
                    return off // 8
                c, d = lin_parts(off)
                if c % 8 == 0 and all(k % 8 == 0 for k in d.values()):
                    return lin_make(c // 8, {t: k // 8 for t, k in d.items()})
                return mk("acctoff", off)
            if loc.tag == "cell":
                v = self.load(st, loc, None)
                if isinstance(v, T) and v.tag == "ref":
                    return self.acct(st, v)
                return mk("acctval", v) if v is not None else mk("acctloc", loc)
            return mk("acctmem", loc)
        return mk("acctptr", r)


# ------------------------------------------------------------------ registration
EXACT = {}
RULES = []


def exact(*paths):
    def d(f):
        for p in paths:
            EXACT[p] = f
        return f
    return d


def rule(rx):
    def d(f):
        RULES.append((re.compile(rx), f))
        return f
    return d


def targ(I, fn, i=0):
    n = -1
    for t in fn.targs or []:
        if isinstance(t, int):
            n += 1
            if n == i:
                return t
    return None


# ------------------------------------------------------------------ accounts (nitrate)
AI = "nitrate_program::account_info::AccountInfo::"


@exact(AI + "key")
def m_key(I, st, fn, args, fr, span):
    return [(st, ref_of(mk("key", I.acct(st, args[0]))))]


@exact(AI + "owner")
def m_owner(I, st, fn, args, fr, span):
    return [(st, ref_of(mk("owner", I.acct(st, args[0]))))]


@exact(AI + "is_signer")
def m_signer(I, st, fn, args, fr, span):
    return [(st, mk("p", "signer", I.acct(st, args[0])))]


@exact(AI + "is_writable")
def m_writable(I, st, fn, args, fr, span):
    return [(st, mk("p", "writable", I.acct(st, args[0])))]


@exact(AI + "executable")
def m_exec(I, st, fn, args, fr, span):
    return [(st, mk("p", "executable", I.acct(st, args[0])))]


def dlen(I, st, i):
    return I.load_raw(st, mk("dlen", i), 0, 8)


@exact(AI + "data_len")
def m_dlen(I, st, fn, args, fr, span):
    return [(st, dlen(I, st, I.acct(st, args[0])))]


@exact(AI + "data_is_empty")
def m_dempty(I, st, fn, args, fr, span):
    return [(st, eq(dlen(I, st, I.acct(st, args[0])), 0))]


@exact(AI + "lamports")
def m_lam(I, st, fn, args, fr, span):
    return [(st, I.load_raw(st, mk("lam", I.acct(st, args[0])), 0, 8))]


def borrow(I, st, fn, args, kind, mut, checked):
    i = I.acct(st, args[0])
    if kind == "d":
        r = ref_of(mk("data", i), 0, dlen(I, st, i))
    else:
        r = ref_of(mk("lam", i))
    if not checked:
        if fn.locals and I.p.types[fn.locals[0]]["k"] in ("ref", "ptr"):
            return [(st, r)]
        return [(st, mk("guard", r, i, kind, mut))]
    ty = I.dest_ty(fn)
    k = (i, kind)
    b = st.borrow.get(k)
    if b is not None and (mut or b[0] == "m"):
        st.effect("borrowfail", i, kind)
        I.conflicts = getattr(I, "conflicts", 0) + 1
        return [(st, I.err(ty, "AccountBorrowFailed"))]
    out = []
    alias = any(kk[0] != i and kk[1] == kind and (mut or bb[0] == "m") for kk, bb in st.borrow.items())
    if alias:
        s2 = st.fork()
        if I.assume(s2, mk("p", "aliasborrow", i, kind)):
            out.append((s2, I.err(ty, "AccountBorrowFailed")))
        I.assume(st, neg(mk("p", "aliasborrow", i, kind)))
    if mut:
        st.borrow[k] = ("m", 1)
    else:
        st.borrow[k] = ("s", (b[1] if b else 0) + 1)
    out.append((st, I.ok(ty, mk("guard", r, i, kind, mut))))
    return out


for _n, _k, _m, _c in (("try_borrow_data", "d", 0, 1), ("try_borrow_mut_data", "d", 1, 1),
                       ("try_borrow_lamports", "l", 0, 1), ("try_borrow_mut_lamports", "l", 1, 1),
                       ("unchecked_borrow_data", "d", 0, 0), ("unchecked_borrow_mut_data", "d", 1, 0),
                       ("unchecked_borrow_lamports", "l", 0, 0), ("unchecked_borrow_mut_lamports", "l", 1, 0)):
    EXACT[AI + _n] = (lambda k, m, c: lambda I, st, fn, args, fr, span: borrow(I, st, fn, args, k, m, c))(_k, _m, _c)


@rule(r"^<nitrate_program::account_info::Ref(Mut)?<'a, T> as core::ops::deref::Deref(Mut)?>::deref(_mut)?$")
def m_guard_deref(I, st, fn, args, fr, span):
    g = I.rd(st, args[0])
    if isinstance(g, T) and g.tag == "guard":
        return [(st, g.a[0])]
    return [(st, mk("deref", g))]


@exact(AI + "realloc")
def m_realloc(I, st, fn, args, fr, span):
    i = I.acct(st, args[0])
    new = args[1]
    ty = I.dest_ty(fn)
    old = dlen(I, st, i)
    s2 = st.fork()
    out = []
    if I.assume(s2, mk("p", "reallocerr", i, new)):
        out.append((s2, I.err(ty, "InvalidRealloc")))
    I.assume(st, neg(mk("p", "reallocerr", i, new)))
    st.effect("realloc", i, old, new, span)
    st.mem[mk("dlen", i)] = st.mem.get(mk("dlen", i), ()) + ((0, 8, new),)
    out.append((st, I.ok(ty, UNIT)))
    return out


@exact(AI + "assign")
def m_assign(I, st, fn, args, fr, span):
    i = I.acct(st, args[0])
    v = I.read_slice(st, args[1], 32)
    st.effect("assign", i, v, span)
    r = mk("owner", i)
    st.mem[r] = st.mem.get(r, ()) + ((0, 32, v),)
    return [(st, UNIT)]


@exact(AI + "close")
def m_close(I, st, fn, args, fr, span):
    i = I.acct(st, args[0])
    st.effect("close", i, span)
    return [(st, UNIT)]


@exact("nitrate_program::system::create_account")
def m_create_account(I, st, fn, args, fr, span):
    frm, to = I.acct(st, args[0]), I.acct(st, args[1])
    own = I.read_slice(st, args[4], 32)
    st.effect("create_account", frm, to, args[2], args[3], own, span)
    st.mem[mk("owner", to)] = ((0, 32, own),)
    st.mem[mk("dlen", to)] = ((0, 8, args[3]),)
    st.mem[mk("data", to)] = ((0, args[3], mk("zero")),)
    st.mem[mk("lam", to)] = ((0, 8, args[2]),)
    return [(st, UNIT)]


@exact("nitrate_program::system::transfer")
def m_transfer(I, st, fn, args, fr, span):
    frm, to = I.acct(st, args[0]), I.acct(st, args[1])
    st.effect("sys_transfer", frm, to, args[2], span)
    for who, sg in ((frm, -1), (to, 1)):
        r = mk("lam", who)
        st.mem[r] = st.mem.get(r, ()) + ((0, 8, add(I.load_raw(st, r, 0, 8), args[2], sg)),)
    return [(st, UNIT)]


# ------------------------------------------------------------------ extension lookups
LOOKUP = re.compile(r"^nifty_asset_types::(state::asset::Asset|extensions::Extension)::(get|get_mut|contains|get_extension|last_extension|first_extension)$")
HEADER = 168


def epoch_of(I, st, region, start):
    out = []
    for w in st.mem.get(region, ()):
        if w[0] == "ite":
            if all(x[0] != "loop" and x[1] is not None and I.decide(st, le(add(x[0], x[1]), start)) == 1
                   for x in flat_writes((w,))):
                continue
            d = I.decide(st, w[1])
            if d is None:
                raise Split(w[1])
            out.extend(w[2] if d else w[3])
            continue
        if w[0] == "loop":
            recs = I.loops.get(w[1], {}).get("writes", {}).get(region, ())
            if all(I.disjoint(st, start, None, r[0], r[1]) or I.decide(st, le(add(r[0], r[1] if r[1] is not None else 1 << 40), start)) == 1 for r in recs):
                continue
            out.append(w)
            continue
        o, s, v = w
        if s is not None and I.decide(st, le(add(o, s), start)) == 1:
            continue
        out.append(w)
    return tuple(out)


def strip_lt(s):
    return re.sub(r"<'[^>]*>", "", s)


def type_const(I, fn):
    """The extension type constant and `from_bytes` instance a get::<T> refers to."""
    c = I.__dict__.setdefault("_tyc", {})
    if fn.id in c:
        return c[fn.id]
    name = strip_lt(I.p.types[targ(I, fn)]["s"])
    inst = None
    for b in fn.blocks:
        if b is not None and b["t"][0] == "call" and b["t"][1].get("inst") is not None \
                and re.search(r"::from_bytes(_mut)?$", b["t"][1].get("path", "")):
            inst = b["t"][1]["inst"]
    if inst is None:
        want = "::from_bytes_mut" if fn.path.endswith("_mut") else "::from_bytes"
        for f in I.p.fns.values():
            if f.path.endswith(want) and strip_lt(f.path).startswith("<" + name + " as "):
                inst = f.id
    val = I.ext_types.get((name, fn.path.endswith("_mut")))
    c[fn.id] = (val, inst)
    return c[fn.id]


def ext_type_table(consts):
    """(type name, is Mut trait) -> value of its TYPE constant."""
    out = {}
    for path, cst in consts:
        if path.endswith("::TYPE") and " as " in path and "v" in cst:
            ty, tr = path[1:].split(" as ", 1)
            out[(strip_lt(ty), "ExtensionDataMut" in tr)] = int(cst["v"])
    return out


def slice_parts(I, st, r):
    if isinstance(r, T) and r.tag == "ref" and r.a[0].tag == "mem":
        return r.a[0].a[0], r.a[0].a[1], r.a[1]
    if isinstance(r, T) and r.tag == "ref" and r.a[1] is not None:
        return mk("obj", r), 0, r.a[1]
    return mk("obj", r), 0, mk("len", r)


def first_type_zero(I, st, region, start):
    """The first extension header is known to be the empty one."""
    try:
        if I.load_raw(st, region, start, 4) == 0:
            return True
        ws = st.mem.get(region, ())
        w = ws[-1] if ws else None
        if w is None or w[0] in ("loop", "ite") or not (isinstance(w[2], T) and w[2].tag == "zero"):
            return False
        if region.tag != "data":
            return False
        # everything up to the end of the account is zero
        return w[0] == 0 and w[1] is I.load_raw(st, mk("dlen", region.a[0]), 0, 8)
    except Split:
        return False



@rule(r"^nifty_asset_types::(state::asset::Asset|extensions::Extension)::(get|get_mut|contains|get_extension|last_extension|first_extension)$")
def m_lookup(I, st, fn, args, fr, span):
    if not I.opaque_get:
        return NotImplemented
    what = fn.path.rsplit("::", 1)[1]
    isasset = "::asset::Asset::" in fn.path
    ty = I.dest_ty(fn)
    sl = args[0]
    if what in ("contains", "get_extension"):
        sl = args[1]
    region, off, ln = slice_parts(I, st, sl)
    start = add(off, HEADER) if isasset else off
    ep = epoch_of(I, st, region, start)
    if first_type_zero(I, st, region, start):
        # no header at all: the walk stops at once
        return [(st, 0)] if what == "contains" else [(st, I.opt(ty, some=False))]
    if what in ("get", "get_mut"):
        tc, inst = type_const(I, fn)
        has = mk("p", "has", region, start, tc, ep)
        out = []
        for s, tv in I.split(st, has):
            if not tv:
                out.append((s, I.opt(ty, some=False)))
                continue
            e = mk("ext", region, start, tc, ep)
            sl2 = ref_of(e, 0, mk("len", e))
            s.effect("lookup", what, e, span)
            for s3, v in I.call(s, inst, [sl2], fr, span):
                out.append((s3, I.opt(ty, v)))
        return out
    if what == "contains":
        return [(st, mk("p", "has", region, start, args[0], ep))]
    tup = I.p.types[ty]["v"][1]["f"][0][1]
    if what == "get_extension":
        has = mk("p", "has", region, start, args[0], ep)
        hoff = mk("exthdr", region, start, args[0], ep)
    elif what == "last_extension":
        has = mk("p", "haslast", region, start, ep)
        hoff = mk("lasthdr", region, start, ep)
    else:
        has = mk("p", "hasfirst", region, start, ep)
        hoff = start
    out = []
    for s, tv in I.split(st, has):
        if not tv:
            out.append((s, I.opt(ty, some=False)))
            continue
        # the header lies inside the slice, at or after `start`
        if isinstance(hoff, T):
            I.assume(s, le(start, hoff))
            I.assume(s, le(add(hoff, 16), add(off, ln)))
        v = mk("agg", tup, 0, (ref_of(region, hoff), sub(add(hoff, 16), off)))
        out.append((s, I.opt(ty, v)))
    return out


@exact("nifty_asset_types::extensions::Extension::extension_type")
def m_exttype(I, st, fn, args, fr, span):
    return NotImplemented


@exact("nifty_asset_types::extensions::on_create", "nifty_asset_types::extensions::on_update")
def m_validate(I, st, fn, args, fr, span):
    if not I.record_validate:
        return NotImplemented
    what = fn.path.rsplit("::", 1)[1]
    ty = I.dest_ty(fn)
    auth = args[-1]
    ai = auth
    if isinstance(auth, T) and auth.tag == "agg":
        ai = auth.a[2][0] if auth.a[1] == 1 else mk("none")
    rec = []
    for a in args[1:-1]:
        rec.append(slice_parts(I, st, a))
    st.effect("validate", what, args[0], tuple(rec), ai, tuple(st.mem.get(r[0], ()) for r in rec), span)
    # the callback may rewrite the validated bytes in place
    I.nfresh += 1
    okp = mk("p", "valid", what, args[0], tuple((r[0], r[1], r[2]) for r in rec), I.nfresh)
    s2 = st.fork()
    out = []
    if I.assume(s2, neg(okp)):
        out.append((s2, I.err(ty, "ExtensionInvalid")))
    I.assume(st, okp)
    tgt = rec[-1]
    st.mem[tgt[0]] = st.mem.get(tgt[0], ()) + ((tgt[1], tgt[2], mk("validated", what, args[0], mk("slicev", tgt[0], tgt[1], tgt[2], st.mem.get(tgt[0], ())))),)
    out.append((st, I.ok(ty, UNIT)))
    return out


@rule(r"^<nifty_asset_types::constraints::Constraint<'a> as nifty_asset_types::constraints::FromBytes<'a>>::from_bytes$")
def m_constraint(I, st, fn, args, fr, span):
    if not I.opaque_get:
        return NotImplemented
    region, off, ln = slice_parts(I, st, args[0])
    return [(st, mk("constraint", region, off))]


def target_acct(I, st, v):
    """Account behind a &dyn Target."""
    for _ in range(6):
        if isinstance(v, T) and v.tag == "ref":
            loc = v.a[0]
            if loc.tag == "mem" and loc.a[0] is ACCOUNTS:
                return I.acct(st, v)
            v = I.load(st, loc, None) if loc.tag == "cell" else None
        else:
            break
    return mk("unknowntarget", v) if v is not None else mk("unknowntarget", 0)


def v_assert(I, st, args, dty, fr, span):
    con = args[0]
    ctxv = I.rd(st, args[1])
    if isinstance(ctxv, T) and ctxv.tag == "agg":
        accts = []
        for x in ctxv.a[2]:
            if isinstance(x, T) and x.tag == "agg":
                if x.a[1] == 0:
                    accts.append(mk("none"))
                else:
                    accts.append(target_acct(I, st, x.a[2][0]))
            else:
                accts.append(target_acct(I, st, x))
    else:
        accts = [mk("unknowntarget", 0)] * 3
    names = [f[0] for f in I.p.types[ctxv.a[0]]["v"][0]["f"]] if isinstance(ctxv, T) and ctxv.tag == "agg" else []
    rec = tuple(sorted(zip(names, accts), key=lambda x: x[0]))
    c = con
    for _ in range(3):
        if isinstance(c, T) and c.tag == "fld":
            c = c.a[0]
        elif isinstance(c, T) and c.tag == "ref" and c.a[0].tag == "mem" and c.a[0].a[0].tag == "obj":
            c = c.a[0].a[0].a[0]
        elif isinstance(c, T) and c.tag == "ref" and c.a[0].tag == "mem" and c.a[0].a[0].tag == "subf":
            c = c.a[0].a[0].a[0]
    st.effect("assert", c, rec, span)
    out = []
    e = mk("p", "asserterr", c, rec)
    s2 = st.fork()
    if I.assume(s2, e):
        out.append((s2, I.err(dty, "AssertError")))
    I.assume(st, neg(e))
    out.append((st, I.ok(dty, mk("assertion", c, rec))))
    return out


# ------------------------------------------------------------------ slices
SL = "core::slice::<impl [T]>::"


@exact(SL + "len", "core::str::<impl str>::len", SL[:-2] + "::len")
def m_slen(I, st, fn, args, fr, span):
    return [(st, I.slice_len(st, args[0], fn.locals[1] if fn.locals else None))]


@exact(SL + "is_empty", "core::str::<impl str>::is_empty")
def m_sempty(I, st, fn, args, fr, span):
    return [(st, eq(I.slice_len(st, args[0], fn.locals[1] if fn.locals else None), 0))]


@exact(SL + "as_ptr", SL + "as_mut_ptr", SL + "as_slice", "core::str::<impl str>::as_bytes", "core::str::<impl str>::as_ptr")
def m_asptr(I, st, fn, args, fr, span):
    return [(st, args[0])]


@exact("core::ptr::mut_ptr::<impl *mut T>::add", "core::ptr::const_ptr::<impl *const T>::add",
       "core::ptr::mut_ptr::<impl *mut T>::offset", "core::ptr::const_ptr::<impl *const T>::offset")
def m_ptradd(I, st, fn, args, fr, span):
    a, n = args
    e = targ(I, fn)
    if isinstance(a, T) and a.tag == "ref":
        return [(st, mk("ref", I.loc_offset(st, a.a[0], n, e), None))]
    return [(st, mk("ptroff", a, mulc(n, I.p.size(e))))]


@exact("core::ptr::mut_ptr::<impl *mut T>::as_mut", "core::ptr::const_ptr::<impl *const T>::as_ref",
       "core::ptr::mut_ptr::<impl *mut T>::as_ref")
def m_ptrasref(I, st, fn, args, fr, span):
    return [(st, I.opt(I.dest_ty(fn), args[0]))]


@exact(SL + "first", SL + "last", SL + "first_mut")
def m_first(I, st, fn, args, fr, span):
    ln = I.slice_len(st, args[0], fn.locals[1])
    e = targ(I, fn)
    ty = I.dest_ty(fn)
    out = []
    for s, tv in I.split(st, I.fixcmp(st, lt(0, ln))):
        if tv:
            loc, _ = I.deref(s, args[0], None)
            i = 0 if fn.path.endswith(("first", "first_mut")) else sub(ln, 1)
            out.append((s, I.opt(ty, mk("ref", I.loc_index(s, loc, i, e), None))))
        else:
            out.append((s, I.opt(ty, some=False)))
    return out


def subslice(I, st, r, a, b, ety):
    loc, _ = I.deref(st, r, None)
    n = sub(b, a)
    if loc.tag == "mem":
        return mk("ref", mk("mem", loc.a[0], add(loc.a[1], mulc(a, I.p.size(ety)))), n)
    path = loc.a[1]
    if path and path[-1][0] == "i":
        last = path[-1]
        return mk("ref", mk("cell", loc.a[0], path[:-1] + (("i", add(last[1], a), ety, "base"),)), n)
    return mk("ref", mk("cell", loc.a[0], path + (("i", a, ety, "base"),)), n)


@rule(r"^core::slice::<impl \[T\]>::split_at(_mut)?(_unchecked)?$")
def m_split_at(I, st, fn, args, fr, span):
    r, m = args
    ety = targ(I, fn)
    ln = I.slice_len(st, r, fn.locals[1])
    if not I.assume(st, le(m, ln)):
        return []
    v = mk("agg", I.dest_ty(fn), 0, (subslice(I, st, r, 0, m, ety), subslice(I, st, r, m, ln, ety)))
    return [(st, v)]


def range_parts(I, st, fn, rng, ln, rty):
    s = I.p.types[rty]["s"]
    name = I.p.types[rty].get("def", s)
    one = I.p.newtype(rty) is not None
    if "RangeFull" in name:
        return 0, ln
    if "RangeFrom" in name:
        a = rng if one else (rng.a[2][0] if isinstance(rng, T) and rng.tag == "agg" else mk("fld", rng, 0, 0))
        return a, ln
    if "RangeToInclusive" in name:
        a = rng if one else rng.a[2][0]
        return 0, add(a, 1)
    if "RangeTo" in name:
        a = rng if one else (rng.a[2][0] if isinstance(rng, T) and rng.tag == "agg" else mk("fld", rng, 0, 0))
        return 0, a
    if "RangeInclusive" in name:
        return rng.a[2][0], add(rng.a[2][1], 1)
    if "Range" in name:
        if isinstance(rng, T) and rng.tag == "agg":
            return rng.a[2][0], rng.a[2][1]
        return mk("fld", rng, 0, 0), mk("fld", rng, 0, 1)
    return None


@rule(r"^core::slice::index::<impl core::ops::index::Index(Mut)?<I> for \[T\]>::index(_mut)?$|^core::array::<impl core::ops::index::Index(Mut)?<I> for \[T; N\]>::index(_mut)?$")
def m_index(I, st, fn, args, fr, span):
    r, rng = args
    ety = targ(I, fn, 0)
    rty = targ(I, fn, 1)
    ln = I.slice_len(st, r, fn.locals[1])
    if I.p.types[rty]["k"] == "int":
        if not I.assume(st, lt(rng, ln)):
            return []
        loc, _ = I.deref(st, r, None)
        return [(st, mk("ref", I.loc_index(st, loc, rng, ety), None))]
    ab = range_parts(I, st, fn, rng, ln, rty)
    if ab is None:
        return NotImplemented
    a, b = ab
    if not I.assume(st, le(a, b)) or not I.assume(st, le(b, ln)):
        return []
    return [(st, subslice(I, st, r, a, b, ety))]


@rule(r"^<alloc::vec::Vec<T, A> as core::ops::index::Index(Mut)?<I>>::index(_mut)?$")
def m_vecindex(I, st, fn, args, fr, span):
    return slice_index(I, st, fn, vec_slice(I, st, args[0], targ(I, fn, 0)), args[1], fr, span)


def slice_index(I, st, fn, sl, rng, fr, span):
    ety = targ(I, fn, 0)
    rty = targ(I, fn, 1)
    ln = sl.a[1]
    if I.p.types[rty]["k"] == "int":
        if not I.assume(st, lt(rng, ln)):
            return []
        return [(st, mk("ref", I.loc_index(st, sl.a[0], rng, ety), None))]
    ab = range_parts(I, st, fn, rng, ln, rty)
    if ab is None:
        return NotImplemented
    a, b = ab
    if not I.assume(st, le(a, b)) or not I.assume(st, le(b, ln)):
        return []
    return [(st, subslice(I, st, sl, a, b, ety))]


@exact(SL + "get", SL + "get_mut")
def m_sget(I, st, fn, args, fr, span):
    r, rng = args
    ety = targ(I, fn, 0)
    rty = targ(I, fn, 1)
    ty = I.dest_ty(fn)
    ln = I.slice_len(st, r, fn.locals[1])
    out = []
    if I.p.types[rty]["k"] == "int":
        for s, tv in I.split(st, lt(rng, ln)):
            loc, _ = I.deref(s, r, None)
            out.append((s, I.opt(ty, mk("ref", I.loc_index(s, loc, rng, ety), None)) if tv else I.opt(ty, some=False)))
        return out
    ab = range_parts(I, st, fn, rng, ln, rty)
    if ab is None:
        return NotImplemented
    a, b = ab
    for s, tv in I.split(st, le(a, b)):
        if not tv:
            out.append((s, I.opt(ty, some=False)))
            continue
        for s2, tv2 in I.split(s, le(b, ln)):
            out.append((s2, I.opt(ty, subslice(I, s2, r, a, b, ety)) if tv2 else I.opt(ty, some=False)))
    return out


@exact(SL + "copy_from_slice", SL + "clone_from_slice")
def m_copyfrom(I, st, fn, args, fr, span):
    ety = targ(I, fn)
    n = I.slice_len(st, args[0], fn.locals[1])
    m = I.slice_len(st, args[1], fn.locals[2])
    if not I.assume(st, eq(n, m)):
        return []
    k = n if isinstance(n, int) else m if isinstance(m, int) else n
    I.copy_bytes(st, args[1], args[0], mulc(k, I.p.size(ety)), span)
    return [(st, UNIT)]


@exact(SL + "copy_within")
def m_copy_within(I, st, fn, args, fr, span):
    ety = targ(I, fn, 0)
    ln = I.slice_len(st, args[0], fn.locals[1])
    ab = range_parts(I, st, fn, args[1], ln, targ(I, fn, 1))
    if ab is None:
        return NotImplemented
    a, b = ab
    n = sub(b, a)
    if not (I.assume(st, le(a, b)) and I.assume(st, le(b, ln)) and I.assume(st, le(args[2], sub(ln, n)))):
        return []
    src = subslice(I, st, args[0], a, b, ety)
    dst = subslice(I, st, args[0], args[2], add(args[2], n), ety)
    k = mulc(n, I.p.size(ety))
    st.effect("memcpy", "copy_within", slice_parts(I, st, dst), slice_parts(I, st, src), k, span)
    I.copy_bytes(st, src, dst, k, span)
    return [(st, UNIT)]


@exact(SL + "fill")
def m_fill(I, st, fn, args, fr, span):
    ety = targ(I, fn)
    n = I.slice_len(st, args[0], fn.locals[1])
    loc, _ = I.deref(st, args[0], None)
    v = args[1]
    if loc.tag == "mem":
        I.write(st, loc.a[0], loc.a[1], mulc(n, I.p.size(ety)), mk("zero") if v == 0 else mk("rep", v, n, ety), span)
    else:
        I.store(st, loc, None, I.fresh("fill"))
    return [(st, UNIT)]


@exact(SL + "to_vec", "alloc::slice::<impl [T]>::to_vec", "alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned")
def m_tovec(I, st, fn, args, fr, span):
    ety = targ(I, fn)
    n = I.slice_len(st, args[0], fn.locals[1])
    v = I.read_slice(st, args[0], mulc(n, I.p.size(ety)))
    return [(st, mk("seq", (("n", v, n),)))]


@exact("bytemuck::from_bytes", "bytemuck::from_bytes_mut", "bytemuck::try_from_bytes", "bytemuck::try_from_bytes_mut")
def m_from_bytes(I, st, fn, args, fr, span):
    ty = targ(I, fn)
    ln = I.slice_len(st, args[0], fn.locals[1])
    loc, _ = I.deref(st, args[0], None)
    size = I.p.size(ty)
    path = loc.a[1] if loc.tag == "cell" else ()
    if loc.tag == "cell" and path and path[-1][0] == "i":
        loc = mk("cell", loc.a[0], path[:-1]) if path[-1][1] == 0 else mk("cell", loc.a[0], path[:-1] + (("b", path[-1][1], size),))
    r = mk("ref", loc, None)
    if "try_" in fn.path:
        rty = I.dest_ty(fn)
        out = []
        for s, tv in I.split(st, eq(ln, size)):
            out.append((s, I.ok(rty, r) if tv else I.err(rty, "PodCastError")))
        return out
    if not I.assume(st, eq(ln, size)):
        return []
    return [(st, r)]


@exact("bytemuck::bytes_of", "bytemuck::bytes_of_mut")
def m_bytes_of(I, st, fn, args, fr, span):
    ty = targ(I, fn)
    loc, _ = I.deref(st, args[0], None)
    return [(st, mk("ref", loc, I.p.size(ty)))]


@exact("bytemuck::cast_slice", "bytemuck::cast_slice_mut", "bytemuck::try_cast_slice")
def m_cast_slice(I, st, fn, args, fr, span):
    a, b = targ(I, fn, 0), targ(I, fn, 1)
    ln = I.slice_len(st, args[0], fn.locals[1])
    loc, _ = I.deref(st, args[0], None)
    n = mulc(ln, I.p.size(a))
    sb = I.p.size(b)
    if isinstance(n, int):
        cnt = n // sb
    else:
        c, d = lin_parts(n)
        cnt = lin_make(c // sb, {t: k // sb for t, k in d.items()}) if c % sb == 0 and all(k % sb == 0 for k in d.values()) else mk("div", n, sb)
    return [(st, mk("ref", loc, cnt))]


@exact("core::slice::raw::from_raw_parts", "core::slice::raw::from_raw_parts_mut")
def m_raw(I, st, fn, args, fr, span):
    loc, _ = I.deref(st, args[0], None)
    return [(st, mk("ref", loc, args[1]))]


# ------------------------------------------------------------------ iterators
def mkiter(I, st, r, ln, ety):
    loc, _ = I.deref(st, r, None)
    return mk("iter", loc, 0, ln, ety)


@exact(SL + "iter", SL + "iter_mut")
def m_iter(I, st, fn, args, fr, span):
    ln = I.slice_len(st, args[0], fn.locals[1])
    return [(st, mkiter(I, st, args[0], ln, targ(I, fn)))]


@rule(r"^core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a (mut )?\[T\]>::into_iter$")
def m_sl_into_iter(I, st, fn, args, fr, span):
    ln = I.slice_len(st, args[0], fn.locals[1])
    return [(st, mkiter(I, st, args[0], ln, targ(I, fn)))]


@rule(r"^core::array::.*IntoIterator for &'a (mut )?\[T; N\]>::into_iter$")
def m_arr_into_iter(I, st, fn, args, fr, span):
    ln = I.slice_len(st, args[0], fn.locals[1])
    return [(st, mkiter(I, st, args[0], ln, targ(I, fn)))]


@rule(r"^<&'a (mut )?alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter$")
def m_vec_into_iter(I, st, fn, args, fr, span):
    sl = vec_slice(I, st, args[0], targ(I, fn))
    return [(st, mkiter(I, st, sl, sl.a[1], targ(I, fn)))]


def as_iter(I, it, ety):
    """Slice iterator built field by field (library code with the constructor inlined)."""
    if not (isinstance(it, T) and it.tag == "agg" and len(it.a[2]) >= 2):
        return it
    a, b = it.a[2][0], it.a[2][1]
    if not all(isinstance(x, T) and x.tag == "ref" for x in (a, b)):
        return it
    a, b = a.a[0], b.a[0]
    sz = I.p.size(ety)
    if a.tag == "mem" and b.tag == "mem" and a.a[0] is b.a[0] and sz:
        c, d = lin_parts(sub(b.a[1], a.a[1]))
        if c % sz == 0 and all(k % sz == 0 for k in d.values()):
            return mk("iter", a, 0, lin_make(c // sz, {t: k // sz for t, k in d.items()}), ety)
    if a.tag == "cell" and b.tag == "cell" and a.a[0] == b.a[0] and b.a[1]:
        pa, pb = a.a[1], b.a[1]
        if pa == pb:
            return mk("iter", a, 0, 0, ety)
        if len(pb) == len(pa) + 1 and pb[:-1] == pa and pb[-1][0] == "i":
            return mk("iter", a, 0, pb[-1][1], ety)
        if len(pa) == len(pb) and pa[:-1] == pb[:-1] and pa[-1][0] == "i" and pb[-1][0] == "i":
            return mk("iter", a, 0, sub(pb[-1][1], pa[-1][1]), ety)
    return it


@rule(r"^<core::slice::iter::Iter(Mut)?<'a, T> as core::iter::traits::iterator::Iterator>::next$")
def m_next(I, st, fn, args, fr, span):
    loc, _ = I.deref(st, args[0], None)
    it = as_iter(I, I.load(st, loc, None), targ(I, fn))
    ty = I.dest_ty(fn)
    if not (isinstance(it, T) and it.tag == "iter"):
        I.undecided_next[-1] = True
        return [(st, mk("nextof", it))]
    base, pos, ln, ety = it.a
    l = lt(pos, ln)
    d = I.decide(st, l)
    if d is None or not isinstance(pos, int):
        I.undecided_next[-1] = True
    else:
        I.decided_exit[-1] = True
    out = []
    for s, tv in I.split(st, l):
        if tv:
            s.cells  # noqa
            I.store(s, loc, None, mk("iter", base, add(pos, 1), ln, ety))
            if base.tag == "mem":
                el = mk("ref", mk("mem", base.a[0], add(base.a[1], mulc(pos, I.p.size(ety)))), None)
            else:
                el = mk("ref", I.loc_index(s, base, pos, ety), None)
            out.append((s, I.opt(ty, el)))
        else:
            out.append((s, I.opt(ty, some=False)))
    return out


@rule(r"^<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter$|^core::array::iter::<impl core::iter::traits::collect::IntoIterator for \[T; N\]>::into_iter$")
def m_owned_into_iter(I, st, fn, args, fr, span):
    v = args[0]
    ety = targ(I, fn)
    if isinstance(v, T) and v.tag == "vec" or isinstance(v, T) and v.tag == "arr":
        return [(st, mk("viter", v, 0, len(v.a[0]), ety))]
    return [(st, mk("viter", v, 0, vlen(I, v), ety))]


def owning(I, ety, depth=0):
    """Values of the type own memory of their own (the value is more than its bytes)."""
    if ety is None or depth > 4:
        return False
    t = I.p.types[ety]
    if t["s"].startswith(("alloc::vec::Vec<", "alloc::string::String", "alloc::boxed::Box<", "std::vec::Vec<", "std::string::String")):
        return True
    if t["k"] != "adt":
        return False
    return any(owning(I, f[1], depth + 1) for v in t.get("v") or () for f in v["f"])


@rule(r"^<(alloc::vec::into_iter::IntoIter<T, A>|core::array::iter::IntoIter<T, N>) as core::iter::traits::iterator::Iterator>::next$")
def m_owned_next(I, st, fn, args, fr, span):
    loc, _ = I.deref(st, args[0], None)
    it = I.load(st, loc, None)
    ty = I.dest_ty(fn)
    if not (isinstance(it, T) and it.tag == "viter"):
        I.undecided_next[-1] = True
        return [(st, mk("nextof", it))]
    v, pos, ln, ety = it.a
    l = lt(pos, ln)
    if I.decide(st, l) is None or not isinstance(pos, int):
        I.undecided_next[-1] = True
    else:
        I.decided_exit[-1] = True
    out = []
    for s, tv in I.split(st, l):
        if tv:
            I.store(s, loc, None, mk("viter", v, add(pos, 1), ln, ety))
            if isinstance(v, T) and v.tag in ("vec", "arr"):
                x = v.a[0][pos] if isinstance(pos, int) and pos < len(v.a[0]) else mk("idx", v, pos)
            elif isinstance(v, T) and v.tag == "seq" or owning(I, ety):
                x = mk("idx", v, pos)
            else:
                x = I.load(s, mk("mem", mk("obj", v), mulc(pos, I.p.size(ety))), ety)
            out.append((s, I.opt(ty, x)))
        else:
            out.append((s, I.opt(ty, some=False)))
    return out


@rule(r"^<core::slice::iter::Iter(Mut)?<'a, T> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back$")
def m_next_back(I, st, fn, args, fr, span):
    loc, _ = I.deref(st, args[0], None)
    it = as_iter(I, I.load(st, loc, None), targ(I, fn))
    ty = I.dest_ty(fn)
    if not (isinstance(it, T) and it.tag == "iter"):
        I.undecided_next[-1] = True
        return [(st, mk("nextof", it))]
    base, pos, ln, ety = it.a
    l = lt(pos, ln)
    if I.decide(st, l) is None or not isinstance(ln, int):
        I.undecided_next[-1] = True
    else:
        I.decided_exit[-1] = True
    out = []
    for s, tv in I.split(st, l):
        if tv:
            last = sub(ln, 1)
            I.store(s, loc, None, mk("iter", base, pos, last, ety))
            if base.tag == "mem":
                el = mk("ref", mk("mem", base.a[0], add(base.a[1], mulc(last, I.p.size(ety)))), None)
            else:
                el = mk("ref", I.loc_index(s, base, last, ety), None)
            out.append((s, I.opt(ty, el)))
        else:
            out.append((s, I.opt(ty, some=False)))
    return out


@rule(r"^<core::slice::iter::Iter(Mut)?<'a, T> as core::iter::traits::iterator::Iterator>::(size_hint|count)$|^<core::slice::iter::Iter(Mut)?<'_, T> as core::iter::traits::exact_size::ExactSizeIterator>::len$")
def m_itlen(I, st, fn, args, fr, span):
    it = args[0]
    if isinstance(it, T) and it.tag == "ref":
        it = I.rd(st, it)
    if isinstance(it, T) and it.tag == "iter" and fn.path.endswith(("count", "len")):
        return [(st, sub(it.a[2], it.a[1]))]
    return NotImplemented


# `for i in a..b`
@rule(r"^core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::Range<A>>::next$")
def m_range_next(I, st, fn, args, fr, span):
    loc, _ = I.deref(st, args[0], None)
    r = I.load(st, loc, None)
    ty = I.dest_ty(fn)
    if not (isinstance(r, T) and r.tag == "agg"):
        I.undecided_next[-1] = True
        return [(st, mk("nextof", r))]
    a, b = r.a[2]
    l = lt(a, b)
    d = I.decide(st, l)
    if d is None or not isinstance(a, int):
        I.undecided_next[-1] = True
    else:
        I.decided_exit[-1] = True
    out = []
    for s, tv in I.split(st, l):
        if tv:
            I.store(s, loc, None, mk("agg", r.a[0], r.a[1], (add(a, 1), b)))
            out.append((s, I.opt(ty, a)))
        else:
            out.append((s, I.opt(ty, some=False)))
    return out


# ------------------------------------------------------------------ vectors, strings, boxes
def vlen(I, v):
    if isinstance(v, T):
        if v.tag == "vec":
            return len(v.a[0])
        if v.tag == "seq":
            n = 0
            for part in v.a[0]:
                n = add(n, 1 if part[0] == "1" else part[2])
            return n
        if v.tag == "bytes":
            return len(v.a[0]) // 2
        if v.tag == "arr":
            return len(v.a[0])
        if v.tag == "rep":
            return v.a[1]
    return mk("len", v)


def vec_slice(I, st, r, ety):
    """Slice reference for &Vec<T>."""
    loc, _ = I.deref(st, r, None)
    v = I.load(st, loc, None) if loc.tag == "cell" else None
    if loc.tag == "mem":
        try:
            v = I.load_vec_mem(st, loc)
        except AttributeError:
            v = mk("vecat", loc.a[0], loc.a[1])
        return mk("ref", mk("mem", mk("obj", v), 0), mk("len", v))
    if isinstance(v, T) and v.tag in ("vec", "seq", "bytes", "arr", "rep"):
        return mk("ref", mk("cell", loc.a[0], loc.a[1] + (("i", 0, ety, "base"),)), vlen(I, v))
    if v is None:
        v = mk("undefvec", loc)
    return mk("ref", mk("mem", mk("obj", v), 0), mk("len", v))


@rule(r"^<alloc::vec::Vec<T, A> as core::ops::deref::Deref(Mut)?>::deref(_mut)?$|^alloc::vec::Vec::<T, A>::as_(mut_)?slice$|^<alloc::vec::Vec<T, A> as core::convert::As(Ref|Mut)<\[T\]>>::as_(ref|mut)$|^<alloc::vec::Vec<T, A> as core::borrow::Borrow(Mut)?<\[T\]>>::borrow(_mut)?$|^alloc::vec::Vec::<T, A>::as_(mut_)?ptr$")
def m_vderef(I, st, fn, args, fr, span):
    return [(st, vec_slice(I, st, args[0], targ(I, fn)))]


@rule(r"^<alloc::string::String as core::ops::deref::Deref>::deref$|^alloc::string::String::(as_str|as_bytes)$|^<alloc::string::String as core::convert::AsRef<.*>>::as_ref$")
def m_strderef(I, st, fn, args, fr, span):
    u8 = I.p.tid("u8")
    return [(st, vec_slice(I, st, args[0], u8))]


@rule(r"^alloc::vec::Vec::<T, A>::(len|is_empty)$|^alloc::string::String::(len|is_empty)$")
def m_vlen(I, st, fn, args, fr, span):
    sl = vec_slice(I, st, args[0], targ(I, fn))
    n = sl.a[1]
    return [(st, eq(n, 0) if fn.path.endswith("is_empty") else n)]


@rule(r"^alloc::vec::Vec::<T>::(new|with_capacity)$|^<alloc::vec::Vec<T> as core::default::Default>::default$|^alloc::string::String::new$")
def m_vnew(I, st, fn, args, fr, span):
    return [(st, mk("vec", ()))]


def vec_append(v, parts):
    """parts: tuple of ('1', x) / ('n', content, len)"""
    if isinstance(v, T) and v.tag == "vec":
        cur = tuple(("1", x) for x in v.a[0])
    elif isinstance(v, T) and v.tag == "seq":
        cur = v.a[0]
    elif isinstance(v, T) and v.tag == "bytes":
        cur = (("n", v, len(v.a[0]) // 2),)
    else:
        cur = (("n", v, mk("len", v)),)
    new = list(cur)
    for p in parts:
        if p[0] == "n" and p[2] == 0:
            continue
        if p[0] == "n" and isinstance(p[1], T) and p[1].tag == "bytes" and new and new[-1][0] == "n" \
                and isinstance(new[-1][1], T) and new[-1][1].tag == "bytes":
            q = new.pop()
            new.append(("n", mk("bytes", q[1].a[0] + p[1].a[0]), q[2] + p[2]))
            continue
        new.append(p)
    if all(p[0] == "1" for p in new):
        return mk("vec", tuple(p[1] for p in new))
    return mk("seq", tuple(new))


@exact("alloc::vec::Vec::<T, A>::push")
def m_push(I, st, fn, args, fr, span):
    loc, _ = I.deref(st, args[0], None)
    v = I.load(st, loc, None)
    nv = vec_append(v, (("1", args[1]),))
    I.store(st, loc, None, nv)
    return [(st, UNIT)]


@rule(r"^alloc::vec::Vec::<T, A>::(extend_from_slice|append)$|^<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<&'a T>>::extend$")
def m_extend(I, st, fn, args, fr, span):
    loc, _ = I.deref(st, args[0], None)
    ety = targ(I, fn)
    v = I.load(st, loc, None)
    if fn.path.endswith("append"):
        oloc, _ = I.deref(st, args[1], None)
        o = I.load(st, oloc, None)
        parts = tuple(("1", x) for x in o.a[0]) if isinstance(o, T) and o.tag == "vec" else o.a[0] if isinstance(o, T) and o.tag == "seq" else (("n", o, mk("len", o)),)
        I.store(st, oloc, None, mk("vec", ()))
    else:
        src = args[1]
        n = I.slice_len(st, src, fn.locals[2])
        sloc, _ = I.deref(st, src, None)
        if sloc.tag == "mem" and sloc.a[0].tag == "obj" and sloc.a[1] == 0 and isinstance(n, T) and n.tag == "len" and n.a[0] is sloc.a[0].a[0] and sloc.a[0] not in st.mem:
            content = sloc.a[0].a[0]
        else:
            content = I.read_slice(st, src, mulc(n, I.p.size(ety)))
            if isinstance(content, int) and isinstance(n, int):
                content = mk("bytes", content.to_bytes(n, "little").hex())
        if isinstance(content, T) and content.tag == "vec":
            parts = tuple(("1", x) for x in content.a[0])
        elif isinstance(content, T) and content.tag == "seq":
            parts = content.a[0]
        elif isinstance(content, T) and content.tag == "arr":
            parts = tuple(("1", x) for x in content.a[0])
        else:
            parts = (("n", content, n),)
    I.store(st, loc, None, vec_append(v, parts))
    return [(st, UNIT)]


@exact("alloc::vec::Vec::<T, A>::clear", "alloc::vec::Vec::<T, A>::truncate")
def m_clear(I, st, fn, args, fr, span):
    loc, _ = I.deref(st, args[0], None)
    if fn.path.endswith("clear"):
        I.store(st, loc, None, mk("vec", ()))
    else:
        v = I.load(st, loc, None)
        I.store(st, loc, None, mk("trunc", v, args[1]))
    return [(st, UNIT)]


@exact("alloc::vec::Vec::<T, A>::swap_remove", "alloc::vec::Vec::<T, A>::remove")
def m_swap_remove(I, st, fn, args, fr, span):
    loc, _ = I.deref(st, args[0], None)
    v = I.load(st, loc, None)
    i = args[1]
    if isinstance(v, T) and v.tag == "vec" and isinstance(i, int) and i < len(v.a[0]):
        xs = list(v.a[0])
        x = xs[i]
        if fn.path.endswith("swap_remove"):
            last = xs.pop()
            if i < len(xs):
                xs[i] = last
        else:
            xs.pop(i)
        I.store(st, loc, None, mk("vec", tuple(xs)))
        return [(st, x)]
    if not I.assume(st, lt(i, vlen(I, v))):
        return []
    I.store(st, loc, None, mk("removed", v, i, fn.path.rsplit("::", 1)[1]))
    return [(st, mk("idx", v, i))]


@exact("alloc::vec::Vec::<T, A>::pop")
def m_pop(I, st, fn, args, fr, span):
    loc, _ = I.deref(st, args[0], None)
    v = I.load(st, loc, None)
    ty = I.dest_ty(fn)
    if isinstance(v, T) and v.tag == "vec":
        I.decided_exit[-1] = True
        if not v.a[0]:
            return [(st, I.opt(ty, some=False))]
        I.store(st, loc, None, mk("vec", v.a[0][:-1]))
        return [(st, I.opt(ty, v.a[0][-1]))]
    ety = targ(I, fn)
    if not owning(I, ety):
        return NotImplemented
    n = vlen(I, v)
    I.undecided_next[-1] = True
    out = []
    for s, tv in I.split(st, lt(0, n)):
        if tv:
            I.store(s, loc, None, mk("removed", v, sub(n, 1), "pop"))
            out.append((s, I.opt(ty, mk("idx", v, sub(n, 1)))))
        else:
            out.append((s, I.opt(ty, some=False)))
    return out


@exact("alloc::boxed::Box::<T>::new")
def m_boxnew(I, st, fn, args, fr, span):
    I.nfresh += 1
    r = mk("box", I.nfresh)
    I.boxty = getattr(I, "boxty", {})
    t = targ(I, fn)
    I.boxty[r] = t
    I.__dict__.setdefault("boxval", {})[r] = args[0]
    if I.p.size(t):
        st.mem[r] = ((0, I.p.size(t), args[0]),)
    return [(st, ref_of(r))]


# ------------------------------------------------------------------ equality
@rule(r"^<solana_program::pubkey::Pubkey as core::cmp::PartialEq>::(eq|ne)$|^<nifty_asset_types::state::NullablePubkey as core::cmp::PartialEq>::(eq|ne)$")
def m_pkeq(I, st, fn, args, fr, span):
    ty = I.p.types[fn.locals[1]]["e"]
    a, b = [I.load(st, I.deref(st, x, None)[0], ty) for x in args]
    l = I.eqlit(st, a, b)
    return [(st, neg(l) if fn.path.endswith("::ne") else l)]


@rule(r"^core::array::equality::<impl core::cmp::PartialEq<\[U; N\]> for \[T; N\]>::(eq|ne)$|^core::intrinsics::raw_eq$|^<\[T; N\] as core::array::equality::SpecArrayEq<.*>>::spec_(eq|ne)$|^<T as core::array::equality::SpecArrayEq<.*>>::spec_(eq|ne)$")
def m_arreq(I, st, fn, args, fr, span):
    tt = I.p.types[fn.locals[1]]["e"] if fn.locals else None
    a, b = [I.load(st, I.deref(st, x, None)[0], tt) for x in args]
    l = I.eqlit(st, a, b)
    return [(st, neg(l) if fn.path.endswith("ne") else l)]


def slice_val(I, st, r, n):
    if isinstance(r, T) and r.tag == "ref" and r.a[0].tag == "mem" and r.a[0].a[0].tag == "obj" and r.a[0].a[1] == 0 \
            and isinstance(n, T) and n.tag == "len" and n.a[0] is r.a[0].a[0].a[0] and r.a[0].a[0] not in st.mem:
        return n.a[0]
    return I.read_slice(st, r, n)


def str_ref(I):
    """The type &str (a function without a body has no types of its own)."""
    for k, t in enumerate(I.p.types):
        if t["k"] == "ref" and I.p.types[t["e"]]["s"] == "str":
            return k
    return None


@rule(r"^core::slice::cmp::<impl core::cmp::PartialEq<\[U\]> for \[T\]>::(eq|ne)$|^core::str::traits::<impl core::cmp::PartialEq for str>::(eq|ne)$")
def m_sleq(I, st, fn, args, fr, span):
    t, t2 = (fn.locals[1], fn.locals[2]) if fn.locals else (str_ref(I),) * 2
    na, nb = I.slice_len(st, args[0], t), I.slice_len(st, args[1], t2)
    ety = I.elem(t)
    sz = I.p.size(ety) if ety is not None else 1
    out = []
    for s, tv in I.split(st, eq(na, nb)):
        if not tv:
            l = 0
        else:
            l = I.eqlit(s, slice_val(I, s, args[0], mulc(na, sz)), slice_val(I, s, args[1], mulc(nb, sz)))
        out.append((s, neg(l) if fn.path.endswith("ne") else l))
    return out


@rule(r"^alloc::vec::partial_eq::<impl core::cmp::PartialEq<.*> for .*>::(eq|ne)$|^<alloc::string::String as core::cmp::PartialEq.*>::(eq|ne)$")
def m_veq(I, st, fn, args, fr, span):
    a, b = [I.rd(st, x) for x in args]
    l = I.eqlit(st, a, b)
    return [(st, neg(l) if fn.path.endswith("ne") else l)]


# ------------------------------------------------------------------ integers
def intbits(fn):
    m = re.search(r"<impl ([ui])(\d+|size)>", fn.path)
    return (64 if m.group(2) == "size" else int(m.group(2))), m.group(1) == "i"


@rule(r"^core::num::<impl u\w+>::(checked|saturating|wrapping|overflowing)_(add|sub|mul)(_signed)?$")
def m_arith(I, st, fn, args, fr, span):
    bits, _ = intbits(fn)
    m = re.search(r"::(checked|saturating|wrapping|overflowing)_(add|sub|mul)(_signed)?$", fn.path)
    kind, op, sg = m.groups()
    a, b = args
    v = add(a, b) if op == "add" else sub(a, b) if op == "sub" else mul(a, b)
    full = (1 << bits) - 1
    if op == "sub" or sg:
        bad = lt(v, 0)
    elif isinstance(v, int):
        bad = 1 if v > full else 0
    else:
        lo, hi = I.bounds(st, v)
        bad = 0 if hi is not None and hi <= full else mk("p", "ovf", bits, v)
    if kind == "overflowing":
        return NotImplemented
    if kind == "wrapping":
        return [(st, I.wrapn(st, v, bits, False))]
    ty = I.dest_ty(fn)
    out = []
    for s, tv in I.split(st, bad):
        if kind == "checked":
            out.append((s, I.opt(ty, some=False) if tv else I.opt(ty, v)))
        elif tv:
            out.append((s, 0 if op == "sub" or (sg and isinstance(b, int) and b < 0) else (0 if sg else full)))
        else:
            out.append((s, v))
    return out


@rule(r"^core::num::<impl u\w+>::(to_le_bytes|from_le_bytes)$")
def m_lebytes(I, st, fn, args, fr, span):
    bits, sg = intbits(fn)
    v = args[0]
    if fn.path.endswith("to_le_bytes"):
        if isinstance(v, int):
            return [(st, mk("bytes", v.to_bytes(bits // 8, "little").hex()))]
        return [(st, mk("le", bits // 8, v))]
    if isinstance(v, T) and v.tag == "bytes":
        return [(st, int.from_bytes(bytes.fromhex(v.a[0]), "little"))]
    if isinstance(v, T) and v.tag == "le":
        return [(st, v.a[1])]
    if isinstance(v, T) and v.tag == "ld":
        return [(st, v)]
    return [(st, mk("fromle", v))]


@rule(r"^core::cmp::(min|max)$|^core::cmp::Ord::(min|max)$|^<u\w+ as core::cmp::Ord>::(min|max)$|^core::cmp::impls::<impl core::cmp::Ord for u\w+>::(min|max)$")
def m_minmax(I, st, fn, args, fr, span):
    a, b = args
    if not (isinstance(a, (int, T)) and isinstance(b, (int, T))):
        return NotImplemented
    mn = fn.path.endswith("min")
    out = []
    for s, tv in I.split(st, le(a, b)):
        out.append((s, (a if tv else b) if mn else (b if tv else a)))
    return out


# ------------------------------------------------------------------ layout, rent, misc runtime
@rule(r"^core::alloc::layout::Layout::from_size_align$")
def m_layout(I, st, fn, args, fr, span):
    ty = I.dty
    s2 = st.fork()
    out = []
    p = mk("p", "layouterr", args[0], args[1])
    if I.assume(s2, p):
        out.append((s2, I.err(ty, "LayoutError")))
    I.assume(st, neg(p))
    out.append((st, I.ok(ty, mk("layout", args[0], args[1]))))
    return out


@rule(r"^core::num::<impl (usize|u64|u32)>::next_multiple_of$")
def m_next_multiple(I, st, fn, args, fr, span):
    if args[1] == 8:
        return [(st, pad(args[0], 8))]
    return NotImplemented


@exact("core::alloc::layout::Layout::pad_to_align")
def m_pad(I, st, fn, args, fr, span):
    l = args[0]
    if isinstance(l, T) and l.tag == "ref":
        l = I.rd(st, l)
    if isinstance(l, T) and l.tag == "layout":
        return [(st, mk("layout", pad(l.a[0], l.a[1]), l.a[1]))]
    return [(st, mk("padded", l))]


@exact("core::alloc::layout::Layout::size")
def m_lsize(I, st, fn, args, fr, span):
    l = args[0]
    if isinstance(l, T) and l.tag == "ref":
        l = I.rd(st, l)
    if isinstance(l, T) and l.tag == "layout":
        return [(st, l.a[0])]
    return [(st, mk("lsize", l))]


@rule(r"sysvar::rent::<impl .*Sysvar for solana_program::rent::Rent>::get$")
def m_rent(I, st, fn, args, fr, span):
    ty = I.dest_ty(fn)
    s2 = st.fork()
    out = []
    p = mk("p", "renterr")
    if I.assume(s2, p):
        out.append((s2, I.err(ty, "UnsupportedSysvar")))
    I.assume(st, neg(p))
    out.append((st, I.ok(ty, mk("sym", "rent", None))))
    return out


@exact("solana_program::rent::Rent::minimum_balance")
def m_minbal(I, st, fn, args, fr, span):
    return [(st, mk("rentmin", args[1]))]


@exact("solana_program::instruction::get_stack_height")
def m_stack(I, st, fn, args, fr, span):
    return [(st, mk("sym", "stack_height", None))]


@exact("solana_program::program_memory::sol_memcpy", "solana_program::program_memory::sol_memmove")
def m_memcpy(I, st, fn, args, fr, span):
    dst, src, n = args
    if fn.path.endswith("sol_memcpy"):
        # sol_memcpy indexes nothing: it copies n bytes from src to dst
        pass
    st.effect("memcpy", fn.path.rsplit("::", 1)[1], slice_parts(I, st, dst), slice_parts(I, st, src), n, span)
    I.copy_bytes(st, src, dst, n, span)
    return [(st, UNIT)]


@exact("solana_program::program_memory::sol_memset")
def m_memset(I, st, fn, args, fr, span):
    dst, c, n = args
    loc, _ = I.deref(st, dst, None)
    if loc.tag == "mem":
        I.write(st, loc.a[0], loc.a[1], n, mk("zero") if c == 0 else mk("memset", c), span)
    return [(st, UNIT)]


@rule(r"^core::ptr::(copy|copy_nonoverlapping|write_bytes|write|read)$|^core::intrinsics::(copy|copy_nonoverlapping)$")
def m_ptrcopy(I, st, fn, args, fr, span):
    e = targ(I, fn)
    nm = fn.path.rsplit("::", 1)[1]
    if nm == "read":
        loc, _ = I.deref(st, args[0], None)
        return [(st, I.load(st, loc, e))]
    if nm == "write":
        loc, _ = I.deref(st, args[0], None)
        I.store(st, loc, e, args[1], span)
        return [(st, UNIT)]
    if nm == "write_bytes":
        return NotImplemented
    k = mulc(args[2], I.p.size(e))
    st.effect("memcpy", nm, slice_parts(I, st, args[1]), slice_parts(I, st, args[0]), k, span)
    I.copy_bytes(st, args[0], args[1], k, span)
    return [(st, UNIT)]


@rule(r"^core::mem::(replace|take|swap)$")
def m_replace(I, st, fn, args, fr, span):
    nm = fn.path.rsplit("::", 1)[1]
    loc, _ = I.deref(st, args[0], None)
    ty = targ(I, fn)
    old = I.load(st, loc, ty)
    if nm == "replace":
        I.store(st, loc, ty, args[1], span)
        return [(st, old)]
    if nm == "take":
        t = I.p.types[ty]
        if "alloc::vec::Vec" in t["s"][:20] or "alloc::string::String" in t["s"][:24]:
            I.store(st, loc, ty, mk("vec", ()), span)
            return [(st, old)]
    return NotImplemented


def seeds_of(I, st, r):
    n = r.a[1] if isinstance(r, T) and r.tag == "ref" else None
    out = []
    if isinstance(n, int):
        loc, _ = I.deref(st, r, None)
        ety = None
        for k in range(n):
            l2 = I.loc_index(st, loc, k, I.p.tid("&[u8]")) if I.p.tid("&[u8]") is not None else loc
            s = I.load(st, l2, None) if l2.tag == "cell" else None
            if isinstance(s, T) and s.tag == "ref":
                ln = s.a[1]
                out.append(I.read_slice(st, s, ln) if ln is not None else I.rd(st, s))
            else:
                out.append(mk("unknownseed", k, s if s is not None else 0))
        return tuple(out)
    return (mk("unknownseeds", r),)


@exact("solana_program::pubkey::Pubkey::create_program_address")
def m_cpa(I, st, fn, args, fr, span):
    ty = I.dest_ty(fn)
    sd = seeds_of(I, st, args[0])
    prog = I.read_slice(st, args[1], 32)
    v = mk("pda", sd, prog)
    out = []
    s2 = st.fork()
    if I.assume(s2, mk("p", "pdaerr", v)):
        out.append((s2, I.err(ty, "MaxSeedLengthExceeded")))
    I.assume(st, neg(mk("p", "pdaerr", v)))
    out.append((st, I.ok(ty, v)))
    return out


@exact("solana_program::pubkey::Pubkey::find_program_address")
def m_fpa(I, st, fn, args, fr, span):
    sd = seeds_of(I, st, args[0])
    prog = I.read_slice(st, args[1], 32)
    ty = I.dest_ty(fn)
    return [(st, mk("agg", ty, 0, (mk("fpda", sd, prog), mk("fbump", sd, prog))))]


@rule(r"^solana_program::log::|^alloc::fmt::|^core::fmt::|^solana_program::msg|^<.* as core::fmt::(Debug|Display)>::fmt$|^<.* as alloc::string::ToString>::to_string$|^<.* as alloc::string::SpecToString>::spec_to_string$|::print$")
def m_fmt(I, st, fn, args, fr, span):
    if fn.locals and I.p.size(fn.locals[0]) == 0:
        return [(st, UNIT)]
    return [(st, mk("sym", "fmt", None))]


@rule(r"^core::panicking::|^core::option::(expect_failed|unwrap_failed)|^core::result::unwrap_failed|^std::rt::begin_panic|^core::slice::index::slice_.*fail|^alloc::alloc::handle_alloc_error|^std::process::(abort|exit)")
def m_panic(I, st, fn, args, fr, span):
    I.panics += 1
    return []


@rule(r"precondition_check$|^core::ub_checks::|^core::intrinsics::(assume|cold_path|assert_)|^core::hint::(assert_unchecked|black_box)|^core::ptr::drop_in_place")
def m_noop(I, st, fn, args, fr, span):
    return [(st, UNIT)]


@rule(r"^core::intrinsics::ub_checks$|^core::intrinsics::is_val_statically_known$")
def m_zero(I, st, fn, args, fr, span):
    return [(st, 0)]


@exact("core::mem::drop")
def m_drop(I, st, fn, args, fr, span):
    I.drop_value(st, args[0])
    return [(st, UNIT)]


@rule(r"^core::mem::size_of$|^core::intrinsics::size_of$")
def m_sizeof(I, st, fn, args, fr, span):
    return [(st, I.p.size(targ(I, fn)))]


@rule(r"^<T as core::convert::Into<U>>::into$")
def m_into(I, st, fn, args, fr, span):
    return NotImplemented


@rule(r"^podded::pod::pod_str::<impl core::convert::From<.*> for podded::pod::pod_str::PodStr<MAX_SIZE>>::from$|^<podded::pod::pod_str::PodStr<MAX_SIZE> as core::convert::From<.*>>::from$|^<podded::pod::pod_str::PodStr<\w+> as core::convert::From<.*>>::from$")
def m_podstr(I, st, fn, args, fr, span):
    v = args[0]
    if isinstance(v, T) and v.tag == "ref":
        n = v.a[1]
        if n is not None:
            v = slice_val(I, st, v, n)
        else:
            v = I.rd(st, v)
    return [(st, mk("podstr", I.p.size(I.dest_ty(fn)), v))]


@rule(r"^borsh::de::BorshDeserialize::try_from_slice$|^borsh::BorshDeserialize::try_from_slice$")
def m_try_from_slice(I, st, fn, args, fr, span):
    ty = I.dest_ty(fn)
    h = getattr(I, "ix_value", None)
    if h is None:
        return NotImplemented
    s2 = st.fork()
    out = []
    p = mk("p", "decodeerr")
    if I.assume(s2, p):
        out.append((s2, I.err(ty, "InvalidInstructionData")))
    I.assume(st, neg(p))
    out.append((st, I.ok(ty, h)))
    return out


@exact("core::intrinsics::size_of_val", "core::mem::size_of_val")
def m_sizeofval(I, st, fn, args, fr, span):
    t = I.p.types[targ(I, fn)]
    if t.get("size") is not None and t["k"] not in ("slice", "str", "dyn"):
        return [(st, t["size"])]
    if t["k"] in ("slice", "str") and isinstance(args[0], T) and args[0].tag == "ref" and args[0].a[1] is not None:
        es = 1 if t["k"] == "str" else I.p.size(t["e"])
        n = args[0].a[1]
        return [(st, mulc_(n, es))]
    return NotImplemented


def mulc_(n, k):
    if isinstance(n, int):
        return n * k
    r = 0
    for _ in range(k if k <= 64 else 0):
        r = add(r, n)
    return r if k <= 64 else mk("mul", n, k)


# ------------------------------------------------------------------ draining an iterator into a vector
def drain(I, st, fn, src, span):
    """[(state, [element...])] of taking elements until the iterator ends, or None where that is not decided."""
    if not fn.drain:
        return None
    known = set(I.unknown)
    s0 = st.fork()
    out, todo = [], []
    I.undecided_next.append(False)
    I.decided_exit.append(False)
    try:
        for s, it in I.call(s0, fn.drain[0], [src], None, span):
            I.nbox = getattr(I, "nbox", 0) + 1
            c = -1000 - I.nbox
            s.cells[c] = it
            todo.append((s, c, []))
        steps = forks = 0
        while todo:
            s, c, els = todo.pop()
            steps += 1
            if steps > 4000 or forks > 24 or len(els) > 1024:
                return None
            r = I.call(s, fn.drain[1], [mk("ref", mk("cell", c, ()), None)], None, span)
            forks += len(r) > 1
            for s2, v in r:
                v = I.resolve(s2, v)
                if not (isinstance(v, T) and v.tag == "agg"):
                    return None
                if v.a[2]:
                    todo.append((s2, c, els + [v.a[2][0]]))
                else:
                    s2.cells.pop(c, None)
                    out.append((s2, els))
        if set(I.unknown) - known:
            return None
        return out
    finally:
        I.undecided_next.pop()
        I.decided_exit.pop()
        for k in set(I.unknown) - known:
            I.unknown.pop(k, None)


def byte_elem(I, ty):
    return getattr(I, "byte_vecs", False) and ty is not None and I.p.types[ty]["s"] == "u8"


@rule(r"^<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend$")
def m_extend_iter(I, st, fn, args, fr, span):
    r = drain(I, st, fn, args[1], span)
    if r is None:
        return NotImplemented
    out = []
    for s, els in r:
        loc, _ = I.deref(s, args[0], None)
        I.store(s, loc, None, vec_append(I.load(s, loc, None), tuple(("1", x) for x in els)))
        out.append((s, UNIT))
    return out


@rule(r"^core::iter::traits::iterator::Iterator::collect$|^<alloc::vec::Vec<T> as core::iter::traits::collect::FromIterator<T>>::from_iter$")
def m_collect(I, st, fn, args, fr, span):
    dt = I.p.types[I.dest_ty(fn)]["s"]
    if not dt.startswith("alloc::vec::Vec<"):
        return NotImplemented
    r = drain(I, st, fn, args[0], span)
    if r is None:
        return NotImplemented
    if dt == "alloc::vec::Vec<u8>" and getattr(I, "byte_vecs", False):
        import bytevec
        out = []
        for s, els in r:
            v = bytevec.new_vec(I, s, len(els))
            for j, x in enumerate(els):
                bytevec.write(I, s, v.a[2][0], j, 1, x, span)
            out.append((s, v))
        return out
    return [(s, mk("vec", tuple(els))) for s, els in r]


@exact("core::intrinsics::typed_swap_nonoverlapping", "core::mem::swap")
def m_swap(I, st, fn, args, fr, span):
    ty = targ(I, fn)
    a, b = (I.deref(st, x, None)[0] for x in args[:2])
    va, vb = I.load(st, a, ty), I.load(st, b, ty)
    I.store(st, a, ty, vb)
    I.store(st, b, ty, va)
    return [(st, UNIT)]
