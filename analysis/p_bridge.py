"""Rules C27, C28, C29: the programs that call the asset program."""
from p_types import *  # noqa
from p_tables import one_fn, enum_def, agg_of, variant_name, program_id  # noqa
import bytevec
import cpi
import wire
from models import targ

INFO = "solana_program::account_info::AccountInfo"
NINFO = 24
NFORWARD = 12                                        # no instruction takes more than seven accounts
BASE = -3000


def info_value(I, st, i, ty):
    """The i-th account given to a program: key, flags, owner and data are free."""
    P = I.p
    t = P.types[ty]
    st.cells[BASE - i] = ref_of(data(i), 0, dl(i))
    vals = []
    for n, f in t["v"][0]["f"]:
        vals.append({"key": lambda: ref_of(mk("key", i)), "owner": lambda: ref_of(mk("owner", i)),
                     "lamports": lambda: mk("shared", "lamports", i), "data": lambda: mk("shared", "data", i),
                     "is_signer": lambda: mk("p", "signer", i), "is_writable": lambda: mk("p", "writable", i)}.get(
                         n, lambda: mk("sym", "%s%d" % (n, i), f))())
    return mk("agg", ty, 0, tuple(vals))


def acct_index(I, v):
    """Index of the account an AccountInfo value stands for."""
    v = agg_of(v)
    if v is not None and I.p.types[v.a[0]].get("def") == INFO:
        k = v.a[2][0]
        if isinstance(k, T) and k.tag == "ref" and k.a[0].tag == "mem" and k.a[0].a[0].tag == "key":
            return k.a[0].a[0].a[0]
    return None


def shared(I, st, a):
    """The shared cell behind a reference to an Rc or RefCell."""
    for _ in range(4):
        if isinstance(a, T) and a.tag == "shared":
            return a
        if not (isinstance(a, T) and a.tag == "ref"):
            return None
        loc, _x = I.deref(st, a, None)
        if not (isinstance(loc, T) and loc.tag == "cell"):
            return None
        a = I.load(st, loc, None)
    return None


def rc_deref(I, st, fn, args, fr, span):
    s = shared(I, st, args[0])
    if s is None:
        return NotImplemented
    I.nbox = getattr(I, "nbox", 0) + 1
    st.cells[-1000 - I.nbox] = s
    return [(st, mk("ref", mk("cell", -1000 - I.nbox, ()), None))]


def borrow(I, st, fn, args, fr, span):
    s = shared(I, st, args[0])
    if s is None or s.a[0] != "data":
        return NotImplemented
    r = mk("ref", mk("cell", BASE - s.a[1], ()), None)
    if "try_" in fn.path.rsplit("::", 1)[1]:
        return [(st, I.res(I.dest_ty(fn), r))] if hasattr(I, "res") else [(st, mk("agg", I.dest_ty(fn), 0, (r,)))]
    return [(st, r)]


def guard_deref(I, st, fn, args, fr, span):
    """Ref / RefMut: the reference they hold."""
    loc, _x = I.deref(st, args[0], None)
    return [(st, I.load(st, loc, None))]


def unpacked(what):
    def f(I, st, fn, args, fr, span):
        i = acct_index(I, cpi.through(I, st, args[0]))
        ty = I.dest_ty(fn)
        if i is None or ty is None:
            return NotImplemented
        okt = I.p.types[ty]["args"][0]
        bad = st.fork()
        return [(st, mk("agg", ty, 0, (mk("sym", (what, i), okt),))), (bad, mk("agg", ty, 1, (mk("sym", "badmeta", None),)))]
    return f


def value_of(I, st, fn, k, a):
    if isinstance(a, T) and a.tag == "ref":
        loc, _x = I.deref(st, a, None)
        if loc.tag == "cell":
            return I.load(st, loc, None)
        if fn.locals and I.p.types[fn.locals[k + 1]]["k"] == "ref":
            return I.load(st, loc, I.p.types[fn.locals[k + 1]]["e"])
    return a


def system_call(I, st, fn, args, fr, span):
    """An instruction of the system program, as a function of its arguments."""
    return [(st, mk("fcall", fn.path, tuple(value_of(I, st, fn, k, a) for k, a in enumerate(args))))]


def invoke(I, st, fn, args, fr, span):
    ix = cpi.through(I, st, args[0])
    out = cpi.invoke(I, st, fn, args, fr, span)
    if isinstance(ix, T) and ix.tag == "fcall" and ix.a[0].endswith("::create_account"):
        to, space = ix.a[1][1], ix.a[1][3]
        if isinstance(to, T) and to.tag == "ld" and to.a[0].tag == "key" and isinstance(space, int):
            i, r = to.a[0].a[0], mk("made", to.a[0].a[0])
            st.mem[r] = ((0, space, mk("bytes", "00" * space)),)
            st.cells[BASE - i] = ref_of(r, 0, space)
    return out


def fresh_value(I, st, fn, args, fr, span):
    """Text and hashes whose content no rule depends on."""
    I.nfresh += 1
    return [(st, mk("sym", ("text", I.nfresh), I.dest_ty(fn)))]


def rent_get(I, st, fn, args, fr, span):
    ty = I.dest_ty(fn)
    bad = st.fork()
    return [(st, mk("agg", ty, 0, (mk("sym", "rent" if "Rent" in fn.path else "clock", I.p.types[ty]["args"][0]),))), (bad, mk("agg", ty, 1, (mk("sym", "norent", None),)))]


def setup_for(prog, variant, lookup=False):
    def setup(I):
        if lookup:
            I.opaque_get = True                     # extension lookups as in the program's own rules (C25)
        (wire if lookup else bytevec).enable(I)
        cpi.enable(I)
        for x in ("invoke", "invoke_signed"):
            I.extra["solana_program::program::" + x] = invoke
        base = I.model_for

        def decoded_instruction(I, st, fn, args, fr, span):
            ty = I.dest_ty(fn)
            it = I.p.types[ty]["args"][0]
            t = I.p.types[it]
            w = variant
            if isinstance(variant, dict):           # what the bytes are, per decoder; otherwise they do not decode
                w = variant.get(short_def(t))
                if w is None:
                    return [(st, mk("agg", ty, 1, (mk("sym", "notdecoded", None),)))]
            for k, v in enumerate(t["v"]):
                if v["n"] == w:
                    return [(st, mk("agg", ty, 0, (mk("agg", it, k, tuple(mk("sym", "arg.%s" % n, ft) for n, ft in v["f"])),)))]
            return NotImplemented

        def model_for(fn):
            if re.search(r"BorshDeserialize(>)?::try_from_slice$", fn.path):
                return decoded_instruction
            if re.search(r"^<alloc::(?:rcs::)?rc::Rc<.*> as core::(ops::deref::Deref>::deref|convert::AsRef<.*>>::as_ref)$", fn.path):
                return rc_deref
            if re.search(r"^core::cell::RefCell::<T>::(try_)?borrow(_mut)?$", fn.path):
                return borrow
            if re.search(r"^<core::cell::Ref(Mut)?<.*> as core::ops::deref::Deref(Mut)?>::deref(_mut)?$", fn.path):
                return guard_deref
            if re.search(r"Metadata as core::convert::TryFrom<&.*AccountInfo.*>>::try_from$", fn.path):
                return unpacked("metadata")
            if re.match(r"^solana_program::system_instruction::\w+$", fn.path):
                return system_call
            if lookup and re.search(r"^alloc::str::<impl str>::replace$|^core::str::<impl str>::parse$|^solana_program::(keccak|hash|blake3)::hashv?$", fn.path):
                return fresh_value
            if re.search(r"(Rent|Clock) as .*Sysvar>::get$", fn.path):
                return rent_get
            if re.match(r"^solana_program::rent::Rent::minimum_balance$", fn.path):
                return system_call
            return base(fn)
        I.model_for = model_for
    return setup


_runs = {}


def short_def(t):
    return t.get("def", "").rsplit("::", 1)[-1]


def prog_run(ctx, crate, variant, n=NACC, path="::processor::process_instruction", lookup=False):
    k = (id(ctx), crate, tuple(sorted(variant.items())) if isinstance(variant, dict) else variant, n, path, lookup)
    if k in _runs:
        return _runs[k]
    P = ctx.prog(crate)
    fn = P.by_path[crate + path][0]
    PID = mk("sym", "pid", None)

    def args(I, st):
        at = P.types[P.types[fn.locals[2]]["e"]]["e"]
        st.cells[BASE - 100] = mk("arr", tuple(info_value(I, st, i, at) for i in range(NINFO)))
        return [ref_of(mk("const", program_id(ctx, crate), ()), 0),
                mk("ref", mk("cell", BASE - 100, ()), n), ref_of(BUF, 0, N)]
    run = FnRun(ctx, crate, fn, args, setup_for(crate, variant, lookup))
    _runs[k] = run
    return run


def succeeds(run, p):
    return (variant_name(run.I.p, p.value) or "") == "Ok"


# ------------------------------------------------------------------ reading calls
ASSET_ID = None
MPL = "0b7065b1e3d17c45389d527f6b04c3cd58b86c731aa0fdb549b6d1bc03f82946"
SPL = ("06ddf6e1d765a193d9cbe146ceeb79ac1cb485ed5f5b37913a8cf5857eff00a9",
       "06ddf6e1ee758fde18425dbce46ccddab61afc4d83b90d27febdf928d8a18bfc")


def con(hexs):
    return mk("bytes", hexs)


def accounts_of(ctx, crate, prefix, name):
    """account name -> index, and the names that may be absent"""
    from p_tables import contexts
    cx = contexts(ctx, crate, prefix)[name]
    if cx and cx[0] == "?":
        raise SystemExit("account list of %s: %s" % (name, cx[1]))
    return {n: i for n, i, _o in cx}, {n for n, _i, o in cx if o}


def settle(p, v, depth=0, deep=True):
    """Alternatives of a value that depends on facts the path left open: (part, value)."""
    c = first_ite(v, deep)
    if c is None or depth > 10:
        return [(p, v)]
    d = p.given(c.a[0]), p.given(neg(c.a[0]))
    out = []
    for q, y in ((d[0], c.a[1]), (d[1], c.a[2])):
        if q is not None:
            q.value = p.value
            out += settle(q, swap(v, c, y), depth + 1, deep)
    return out


def first_ite(v, deep=True):
    """A choice inside a value; with deep=False not inside the elements of its lists."""
    if isinstance(v, T):
        if v.tag == "ite":
            return v
        if v.tag == "agg" or deep and v.tag in ("vec", "arr", "seq"):
            return first_ite(v.a, deep)
        return None
    if isinstance(v, tuple):
        for x in v:
            r = first_ite(x, deep)
            if r is not None:
                return r
    return None


def swap(v, old, new):
    if v is old:
        return new
    if isinstance(v, T) and v.tag in ("agg", "vec", "arr", "seq"):
        return mk(v.tag, *(swap(x, old, new) if isinstance(x, (T, tuple)) else x for x in v.a))
    if isinstance(v, tuple):
        return tuple(swap(x, old, new) for x in v)
    return v


def seed_norm(s):
    """Seed contents with one-byte arrays as their byte."""
    while isinstance(s, T) and s.tag == "arr" and len(s.a[0]) == 1:
        s = s.a[0][0]
    if isinstance(s, T) and s.tag == "le" and s.a[0] == 1:
        s = s.a[1]
    return s


def pushed_in(v, memo=None):
    """A choice between lists of one length as a list of choices."""
    memo = {} if memo is None else memo
    if not isinstance(v, T) or v.tag not in ("ite", "agg"):
        return v
    if v in memo:
        return memo[v]
    if v.tag == "agg":
        r = mk("agg", v.a[0], v.a[1], tuple(pushed_in(x, memo) for x in v.a[2]))
    else:
        a, b = pushed_in(v.a[1], memo), pushed_in(v.a[2], memo)
        r = v
        if isinstance(a, T) and isinstance(b, T) and a.tag == b.tag == "vec" and len(a.a[0]) == len(b.a[0]):
            r = mk("vec", tuple(choice(v.a[0], x, y) for x, y in zip(a.a[0], b.a[0])))
        elif a is not v.a[1] or b is not v.a[2]:
            r = mk("ite", v.a[0], a, b)
    memo[v] = r
    return r


def choice(c, x, y):
    if x is y or not isinstance(x, T) and x == y:
        return x
    if isinstance(x, T) and isinstance(y, T) and x.tag == y.tag == "agg" and x.a[:2] == y.a[:2] and len(x.a[2]) == len(y.a[2]):
        return mk("agg", x.a[0], x.a[1], tuple(choice(c, p, q) for p, q in zip(x.a[2], y.a[2])))
    return mk("ite", c, x, y)


def pick_field(I, v, nm):
    """A field of a value that may be a choice between aggregates."""
    if isinstance(v, T) and v.tag == "ite":
        return mk("ite", v.a[0], pick_field(I, v.a[1], nm), pick_field(I, v.a[2], nm))
    names = [x[0] for x in I.p.types[v.a[0]]["v"][0]["f"]]
    return v.a[2][names.index(nm)]


class Called:
    """One cross-program call on a path."""

    def __init__(self, run, p, e):
        I = run.I
        self.span = e[5]
        ix = e[1]
        self.program = self.data = None
        self.metas, self.sys = [], None
        self.pieces = e[2].a[0] if isinstance(e[2], T) and e[2].tag == "pieces" else None
        self.seeds = e[4]
        if isinstance(e[4], tuple) and not (e[4] and e[4][0] == "opaque"):
            self.seeds = tuple(tuple(seed_norm(x) for x in s) for s in e[4])
        self.infos = set()
        for x in e[3] if isinstance(e[3], tuple) else ():
            if isinstance(x, tuple) and len(x) > 1 and x[0] == "1":
                i = acct_index(I, x[1])
                if i is None and isinstance(x[1], T) and x[1].tag == "ref":
                    i = acct_index(I, cpi.through(I, p.st, x[1]))
                self.infos.add(i)
        if isinstance(ix, T) and ix.tag == "fcall":
            self.sys = (ix.a[0].rsplit("::", 1)[1], ix.a[1])
            return
        ix = agg_of(ix)
        if ix is None:
            return
        names = [f[0] for f in I.p.types[ix.a[0]]["v"][0]["f"]]
        f = dict(zip(names, ix.a[2]))
        self.program = f.get("program_id")
        self.data = f.get("data")
        self.accounts = f.get("accounts")
        for m in self.accounts.a[0] if isinstance(self.accounts, T) and self.accounts.tag == "vec" else ():
            if isinstance(m, T) and m.tag == "ite":      # the entry itself depends on open facts: choose per field
                self.metas.append(tuple(pick_field(I, m, nm) for nm in ("pubkey", "is_signer", "is_writable")))
                continue
            m = agg_of(m)
            mn = [x[0] for x in I.p.types[m.a[0]]["v"][0]["f"]]
            d = dict(zip(mn, m.a[2]))
            self.metas.append((d["pubkey"], d["is_signer"], d["is_writable"]))

    def bytes(self, run, p, off, n):
        v = agg_of(self.data)
        if v is not None and len(v.a[2]) == 2 and isinstance(v.a[2][0], T) and v.a[2][0].tag == "vbuf":
            x = run.I.load_raw(p.st, v.a[2][0], off, n)
            return run.I.norm(x, None) if False else x
        if isinstance(self.data, T) and self.data.tag == "vec":
            xs = self.data.a[0][off:off + n]
            return mk("bytes", "".join("%02x" % x for x in xs)) if len(xs) == n and all(isinstance(x, int) for x in xs) else None
        return None

    def const_bytes(self, run, p, n):
        """The first n bytes of the data, if they are constant."""
        out = ""
        for k in range(n):
            x = self.bytes(run, p, k, 1)
            if isinstance(x, T) and x.tag == "bytes":
                out += x.a[0]
            elif isinstance(x, int):
                out += "%02x" % (x & 255)
            elif isinstance(x, T) and x.tag in ("zero",):
                out += "00"
            else:
                return None
        return out

    def length(self):
        v = agg_of(self.data)
        if v is not None and len(v.a[2]) == 2:
            return v.a[2][1]
        if isinstance(self.data, T) and self.data.tag == "vec":
            return len(self.data.a[0])
        return None


def calls_on(run, p, deep=True):
    """[(sub-path, calls)] with every account list settled (with deep=False only which entries it has)."""
    es = [e for e in p.effs if e[0] == "invoke"]
    subs = [(p, [])]
    for e in es:
        nxt = []
        for q, l in subs:
            for q2, ix in settle(q, e[1] if deep else pushed_in(e[1]), 0, deep):
                nxt.append((q2, l + [Called(run, q2, (e[0], ix) + tuple(e[2:]))]))
        subs = nxt
    return subs


def derived(p, word, mint, prog, at, bump_ok=None, canonical=True):
    """The account at `at` is derived from (word, mint) under prog; returns the bump terms accepted."""
    hits = []
    seen = set()
    for f in p.st.facts:
        subterms(f, seen)
    for t in seen:
        if not (isinstance(t, T) and t.tag in ("pda", "fpda") and t.a[1] is prog or
                isinstance(t, T) and t.tag in ("pda", "fpda") and t.a[1] is con(prog)):
            continue
        s = [seed_norm(x) for x in t.a[0]]
        if len(s) < 2 or s[0] is not con(word) or s[1] is not mint or not p.must(eq(t, key(at))):
            continue
        if t.tag == "fpda" and len(s) == 2:
            hits.append(mk("fbump", t.a[0], t.a[1]))
        elif t.tag == "pda" and len(s) == 3:
            b = s[2]
            if bump_ok is None or bump_ok(b):
                hits.append(b)
    return hits


def meta_is(R, rule, c, pos, want, signer_, p, what):
    if not R.ob(rule, pos < len(c.metas), "%s: the account list has %d entries" % (what, len(c.metas)), c.span):
        return
    k, s, _w = c.metas[pos]
    R.ob(rule, k is want or p.must(eq(k, want)), "%s is %s, expected %s" % (what, k, want), c.span)
    if signer_ is not None:
        ok = s is signer_ or s == signer_ if isinstance(s, int) else p.must(s if signer_ else neg(s)) if is_lit(s) else False
        R.ob(rule, ok, "%s is passed %s" % (what, "without its signature" if signer_ else "as a signer"), c.span)


WORD_V, WORD_A = b"vault".hex(), b"asset".hex()
STATES = "bridge_program::state::State"


def vault_fields(ctx):
    P = ctx.prog("bridge_program")
    for t in P.types:
        if t["k"] == "adt" and t.get("def") == "bridge_program::state::vault::Vault":
            v = t["v"][0]
            return {n: (o, P.types[ty].get("size")) for (n, ty), o in zip(v["f"], v["o"])}, t["size"]
    return {}, 0


def md_field(ctx, i, name):
    P = ctx.prog("bridge_program")
    for t in P.types:
        if t["k"] == "adt" and t.get("def", "").endswith("accounts::metadata::Metadata"):
            names = [f[0] for f in t["v"][0]["f"]]
            return mk("fld", mk("sym", ("metadata", i), ctx.prog("bridge_program").types.index(t)), 0, names.index(name))
    return None


def is_nft(p, md):
    """The recorded token standard is one of the non-fungible ones."""
    some = eq(mk("discr", md), 1)
    v = mk("fld", md, 1, 0)
    return p.must(some) and p.must(*[eq(v, k) for k in (0, 3, 4, 5)])


def C27_bridge(ctx, R):
    crate = "bridge_program"
    run = prog_run(ctx, crate, "Bridge")
    A, opt = accounts_of(ctx, crate, "bridge_program::instruction", "bridge")
    ID, ASSET = program_id(ctx, crate), ctx.id_hex
    V, vlen = vault_fields(ctx)
    need = {"asset", "vault", "owner", "token", "mint", "metadata", "vaulttoken", "payer"}
    need = {n for n in need if n not in A}
    R.ob("anchor", not need and set(V) >= {"discriminator", "state", "bump", "mint", "asset_bump"}, "missing accounts %s; vault fields %s" % (need, sorted(V)))
    ok = [p for p in run.parts if succeeds(run, p)]
    R.ob("anchor", bool(ok), "the instruction never succeeds")
    R.ob("anchor", not run.I.unknown, "calls left undecided: %s" % sorted(run.I.unknown)[:4])
    if need or not ok:
        return
    R.stats["abstract success paths"] = len(ok)
    R.stats["rejecting paths"] = len(run.parts) - len(ok)
    R.stats["functions"] = len(run.I.visited)
    v, m = A["vault"], A["mint"]
    vf = {n: mk("ld", data(v), o, s) for n, (o, s) in V.items()}
    states = enum_def(ctx, crate, STATES)
    disc = enum_def(ctx, crate, "bridge_program::state::Discriminator")
    sidle, sact = states.get("Idle"), states.get("Active")
    R.ob("anchor", sidle is not None and sact is not None and "Vault" in disc, "states %s, discriminators %s" % (states, disc))
    mint = key(m)
    seen = set()
    for p in ok:
        where = p.calls[0] if getattr(p, "calls", None) else None
        R.ob("signer", p.must(signer(A["owner"])), "a path succeeds without the owner's signature", where)
        R.ob("owner:mint", p.must(*[eq(own(m), con(x)) for x in SPL]), "the mint may belong to another program", where)
        R.ob("owner:asset", p.must(eq(own(A["asset"]), con(ASSET))), "the asset may belong to another program", where)
        R.ob("owner:vault", p.must(eq(own(v), con(ID))), "the vault may belong to another program", where)
        R.ob("vault", p.must(eq(vf["discriminator"], disc["Vault"])), "the vault may be of another kind", where)
        R.ob("vault:mint", p.must(eq(vf["mint"], mint)), "the vault may record another mint", where)
        vb = derived(p, WORD_V, mint, con(ID), v, lambda b: b is vf["bump"])
        R.ob("vault:address", bool(vb), "the vault's address is not derived from the mint and its recorded bump", where)
        ab = derived(p, WORD_A, mint, con(ID), A["asset"], lambda b: b is vf["asset_bump"])
        R.ob("asset:address", bool(ab), "the asset's address is not derived from the mint and the recorded bump", where)
        md = md_field(ctx, A["metadata"], "mint")
        R.ob("metadata:mint", md is not None and p.must(eq(md, mint)), "the metadata may be another mint's", where)
        ts = md_field(ctx, A["metadata"], "token_standard")
        R.ob("metadata:standard", ts is not None and is_nft(p, ts), "the token may be fungible", where)
        R.ob("both", not any(e[0] == "invoke_err" for e in p.effs), "a path succeeds after a transfer failed", where)
        # one flip of the recorded state (the vault only ever holds one of the two), and nothing else in the vault
        for e in p.effs:
            if e[0] == "write" and isinstance(e[1], T) and e[1].tag == "data":
                R.ob("writes", e[1].a[0] == v and e[2] == V["state"][0] and e[3] == 1,
                     "writes bytes %s..+%s of account %s" % (e[2], e[3], e[1].a[0]), e[5])
            elif e[0] == "write":
                R.ob("writes", isinstance(e[1], T) and e[1].tag in ("vbuf", "box", "cell", "made"), "writes %s" % (e[1],), e[5])
        for k, was in enumerate((sidle, sact)):
            q = p.given(eq(vf["state"], was))
            if q is None:
                continue
            seen.add(k)
            new = run.I.load_raw(q.st, data(v), *V["state"])
            R.ob("state", as_int(new) == (sact, sidle)[k], "from %s the vault becomes %s" % (("idle", "active")[k], new), where)
            for q2, calls in calls_on(run, q):
                bridge_calls(R, run, q2, calls, A, k, vb, mint, ID, ASSET)
    R.ob("state", seen == {0, 1}, "only %d of the two directions is possible" % len(seen))


def bridge_calls(R, run, p, calls, A, k, vb, mint, ID, ASSET):
    tok = [c for c in calls if c.program is con(MPL)]
    ast = [c for c in calls if c.program is con(ASSET)]
    sp = calls[0].span if calls else None
    R.ob("two-transfers", len(tok) == 1 and len(ast) == 1 and len(calls) == 2,
         "%d token calls, %d asset calls, %d calls in all" % (len(tok), len(ast), len(calls)), sp)
    if len(tok) != 1 or len(ast) != 1:
        return
    t, a = tok[0], ast[0]
    o, v = key(A["owner"]), key(A["vault"])
    me, it = (o, v) if k == 0 else (v, o)           # who gives the token, who gets it
    mt, itt = (key(A["token"]), key(A["vaulttoken"])) if k == 0 else (key(A["vaulttoken"]), key(A["token"]))
    d = t.const_bytes(run, p, 10)
    R.ob("token:call", d == "3100" + "0100000000000000", "the token call carries %s, not a transfer of one unit" % d, t.span)
    for pos, want, sg, what in ((0, mt, None, "token account given from"), (1, me, None, "token owner"), (2, itt, None, "token account given to"),
                                (3, it, None, "token receiver"), (4, mint, None, "mint"), (5, key(A["metadata"]), None, "metadata"),
                                (9, me, 1, "token authority")):
        meta_is(R, "token:accounts", t, pos, want, sg, p, what)
    d = a.const_bytes(run, p, 1)
    R.ob("asset:call", d == "07" and a.length() == 1, "the asset call carries %s (%s bytes), not a transfer" % (d, a.length()), a.span)
    for pos, want, sg, what in ((0, key(A["asset"]), None, "asset"), (1, it, 1, "asset giver"), (2, me, None, "asset receiver")):
        meta_is(R, "asset:accounts", a, pos, want, sg, p, what)
    for c, by_vault in ((t, k == 1), (a, k == 0)):
        good = [(con(WORD_V), mint, b) for b in vb]
        for s in c.seeds:
            R.ob("seeds", tuple(s) in good, "signs with %s" % (s,), c.span)
        R.ob("seeds", not by_vault or len(c.seeds) >= 1, "the vault gives without its signature", c.span)
        for key_, s, _w in c.metas:
            if key_ is v:
                R.ob("vault-signs", by_vault or s == 0, "the vault's signature is passed on where it gives nothing", c.span)
            if isinstance(key_, T) and key_.tag == "ld" and key_.a[0].tag == "key":
                R.ob("infos", key_.a[0].a[0] in c.infos, "account %s is named but not passed" % key_.a[0].a[0], c.span)


def C28_create(ctx, R):
    crate = "bridge_program"
    run = prog_run(ctx, crate, "Create")
    A, opt = accounts_of(ctx, crate, "bridge_program::instruction", "create")
    ID, ASSET = program_id(ctx, crate), ctx.id_hex
    V, vlen = vault_fields(ctx)
    need = {n for n in ("asset", "vault", "mint", "metadata", "updateauthority", "collection", "payer") if n not in A}
    R.ob("anchor", not need and set(V) >= {"discriminator", "state", "bump", "mint", "asset_bump"}, "missing accounts %s; vault fields %s" % (need, sorted(V)))
    ok = [p for p in run.parts if succeeds(run, p)]
    R.ob("anchor", bool(ok), "the instruction never succeeds")
    if need or not ok:
        return
    R.stats["abstract success paths"] = len(ok)
    R.stats["rejecting paths"] = len(run.parts) - len(ok)
    R.stats["functions"] = len(run.I.visited)
    v, m, a = A["vault"], A["mint"], A["asset"]
    mint = key(m)
    states, disc = enum_def(ctx, crate, STATES), enum_def(ctx, crate, "bridge_program::state::Discriminator")
    P = ctx.prog(crate)
    kind = lambda n: md_field(ctx, A["metadata"], n)
    for p in ok:
        where = None
        R.ob("owner:mint", p.must(*[eq(own(m), con(x)) for x in SPL]), "the mint may belong to another program", where)
        R.ob("owner:metadata", p.must(eq(own(A["metadata"]), con(MPL))), "the metadata may belong to another program", where)
        R.ob("metadata:mint", p.must(eq(kind("mint"), mint)), "the metadata may be another mint's", where)
        R.ob("metadata:standard", is_nft(p, kind("token_standard")), "the token may be fungible", where)
        R.ob("metadata:authority", p.must(eq(kind("update_authority"), key(A["updateauthority"]))), "the authority may be another than the metadata's", where)
        col = kind("collection")
        bridged = None
        if not p.must(signer(A["updateauthority"])):
            q = p.given(neg(signer(A["updateauthority"])))
            bridged = q is not None and collection_bridged(ctx, q, col, A, ID, ASSET, P)
            R.ob("authority", bridged, "a path succeeds with neither the authority's signature nor a bridged, verified collection", where)
        else:
            R.ob("authority", True, "")
        vb = derived(p, WORD_V, mint, con(ID), v)
        ab = derived(p, WORD_A, mint, con(ID), a)
        vb = [b for b in vb if isinstance(b, T) and b.tag == "fbump"]
        ab = [b for b in ab if isinstance(b, T) and b.tag == "fbump"]
        R.ob("vault:address", bool(vb), "the vault's address is not the one derived from the mint", where)
        R.ob("asset:address", bool(ab), "the asset's address is not the one derived from the mint", where)
        R.ob("once", p.must(eq(dl(v), 0)), "a vault that exists is not refused", where)
        R.ob("all", not any(e[0] == "invoke_err" for e in p.effs), "a path succeeds after a call failed", where)
        if not vb or not ab:
            continue
        made = mk("made", v)
        want = {"discriminator": disc.get("Vault"), "state": states.get("Idle"), "bump": vb[0], "asset_bump": ab[0], "mint": mint}
        for n, x in want.items():
            got = run.I.load_raw(p.st, made, *V[n])
            good = got is x or as_int(got) == x if isinstance(x, int) else seed_norm(got) is x or got in (vb if n == "bump" else ab if n == "asset_bump" else ())
            R.ob("vault:" + n, good, "the vault's %s is %s, expected %s" % (n, got, x), where)
        for q, calls in calls_on(run, p):
            create_calls(R, run, q, calls, A, V, vlen, vb, ab, mint, ID, ASSET)


def collection_bridged(ctx, p, col, A, ID, ASSET, P):
    t = mk("fld", col, 1, 0)
    vi, ki = None, None
    for ty in P.types:
        if ty["k"] == "adt" and ty.get("def", "").endswith("types::collection::Collection"):
            names = [f[0] for f in ty["v"][0]["f"]]
            vi, ki = names.index("verified"), names.index("key")
    if vi is None:
        return False
    c = A["collection"]
    ver, ck = mk("fld", t, 0, vi), mk("fld", t, 0, ki)
    addr = [mk("fpda", (con(WORD_A), ck), con(ID))]
    disc = enum_def(ctx, "bridge_program", "nifty_asset_types::state::Discriminator").get("Asset", 1)
    return (p.must(eq(mk("discr", col), 1)) and (p.must(ver) if is_lit(ver) else p.must(ne(ver, 0)) or p.must(eq(ver, 1)))
            and p.must(*[eq(x, key(c)) for x in addr]) and p.must(eq(own(c), con(ASSET)))
            and p.must(ne(key(c), con(ID))) and p.must(eq(mk("ld", data(c), 0, 1), disc)) and p.must(ne(dl(c), 0)))


def create_calls(R, run, p, calls, A, V, vlen, vb, ab, mint, ID, ASSET):
    sp = calls[0].span if calls else None
    mk_ = [c for c in calls if c.sys is not None]
    R.ob("vault:made", len(mk_) == 1 and mk_[0].sys[0] == "create_account", "the vault is made by %s" % [c.sys and c.sys[0] for c in mk_], sp)
    for c in mk_:
        if c.sys[0] != "create_account":
            continue
        _f, to, _l, space, owner = c.sys[1]
        R.ob("vault:made", to is key(A["vault"]), "the account made is %s" % (to,), c.span)
        R.ob("vault:made", space == vlen, "the vault is given %s bytes of %s" % (space, vlen), c.span)
        R.ob("vault:made", owner is con(ID), "the vault is given to %s" % (owner,), c.span)
        for s in c.seeds:
            R.ob("seeds", tuple(s) in [(con(WORD_V), mint, b) for b in vb], "signs with %s for the vault" % (s,), c.span)
    rest = [c for c in calls if c.sys is None]
    R.ob("calls", all(c.program is con(ASSET) for c in rest), "calls another program", sp)
    kinds = [c.const_bytes(run, p, 1) for c in rest]
    R.ob("asset:made", kinds.count("02") == 1 and kinds and kinds[-1] == "02" and set(kinds) <= {"02", "04"},
         "the calls to the asset program are %s" % kinds, rest[-1].span if rest else sp)
    for c, k in zip(rest, kinds):
        meta_is(R, "asset:made", c, 0, key(A["asset"]), 1, p, "asset")
        for s in c.seeds:
            R.ob("seeds", tuple(s) in [(con(WORD_A), mint, b) for b in ab], "signs with %s for the asset" % (s,), c.span)
        R.ob("seeds", len(c.seeds) >= 1, "the asset does not sign its creation", c.span)
        if k == "02":
            meta_is(R, "asset:owner", c, 2, key(A["vault"]), None, p, "owner of the new asset")
        for key_, s, _w in c.metas:
            if isinstance(key_, T) and key_.tag == "ld" and key_.a[0].tag == "key":
                R.ob("infos", key_.a[0].a[0] in c.infos, "account %s is named but not passed" % key_.a[0].a[0], c.span)
    order = [("v" if c.sys is not None else "a") for c in calls]
    R.ob("calls", "av" not in "".join(order), "the asset is made before the vault", sp)


# ------------------------------------------------------------------ the proxy
PROXY_EXT = 9
FORWARDED = "nifty_asset_interface::interface::Interface"


def forwards(R, ctx, run, p, n, rule="forward"):
    """A successful path that hands the accounts and the bytes on unchanged."""
    ASSET = ctx.id_hex
    es = [e for e in p.effs if e[0] == "invoke"]
    sp = es[0][5] if es else None
    R.ob(rule, not any(e[0] == "invoke_err" for e in p.effs), "a path succeeds after the call failed", sp)
    if not R.ob(rule, len(es) == 1, "%d calls are made" % len(es), sp):
        return
    for q, calls in calls_on(run, p, False):
        c = calls[0]
        R.ob(rule + ":program", c.program is con(ASSET), "the call goes to %s" % (c.program,), sp)
        if R.ob(rule + ":accounts", len(c.metas) == n, "%d of %d accounts are passed" % (len(c.metas), n), sp):
            for i, (k, s, w) in enumerate(c.metas):
                for q2, k in settle(q, k):
                    R.ob(rule + ":accounts", k is key(i) or q2.must(eq(k, key(i))), "account %d is passed as %s" % (i, k), sp)
                want = 1 if i == 0 else mk("p", "signer", i)
                for q2, s in settle(q, s):
                    R.ob(rule + ":signers", same_flag(q2, s, want), "account %d is passed with signer flag %s" % (i, s), sp)
                for q2, w in settle(q, w):
                    R.ob(rule + ":writable", same_flag(q2, w, mk("p", "writable", i)), "account %d is passed with writable flag %s" % (i, w), sp)
        R.ob(rule + ":infos", c.infos >= set(range(n)), "accounts %s are not passed along" % sorted(set(range(n)) - c.infos)[:4], sp)
        v = agg_of(c.data)
        good = False
        if v is not None and len(v.a[2]) == 2 and v.a[2][1] is N and isinstance(v.a[2][0], T) and v.a[2][0].tag == "vbuf":
            st = q.st.mem.get(v.a[2][0], ())
            good = len(st) == 1 and st[0][0] == 0 and st[0][1] is N and whole_input(st[0][2])
        elif v is not None and len(v.a[2]) == 2 and v.a[2][0] is BUF and v.a[2][1] is N:
            good = True
        R.ob(rule + ":bytes", good, "the instruction bytes are not passed unchanged", sp)
        own_seeds(R, q, c, rule)


def whole_input(x):
    return isinstance(x, T) and x.tag == "slicev" and x.a[0] is BUF and x.a[1] == 0 and x.a[2] is N and not (len(x.a) > 3 and x.a[3])


def same_flag(p, got, want):
    if got is want or isinstance(want, int) and got == want:
        return True
    if isinstance(want, int):
        return is_lit(got) and p.must(got if want else neg(got))
    if isinstance(got, int):
        return p.must(want if got else neg(want))
    return False


def own_seeds(R, p, c, rule):
    """The call is signed with the seeds and bump recorded in account 0, and nothing else."""
    good = (E(0, PROXY_EXT, *PROXY["seeds"]), E(0, PROXY_EXT, *PROXY["bump"]))
    R.ob(rule + ":seeds", len(c.seeds) == 1 and tuple(c.seeds[0]) == good, "signs with %s" % (c.seeds,), c.span)


PROXY = {"program": (0, 32), "seeds": (32, 32), "bump": (64, 1), "authority": (65, 32)}


def C29_layout(ctx, R):
    """The offsets this module uses are the ones the extension is read with."""
    got, problem = view_schema(ctx, "Proxy")
    R.ob("layout", problem is None, "the Proxy extension: %s" % (problem,))
    b32 = ("array", "u8", 32)
    want = (("program", b32), ("seeds", b32), ("bump", "u8"), ("authority", b32))
    R.ob("layout", isinstance(got, tuple) and got[-1] == want, "the Proxy extension is read as %s" % (got,))


def tags_of(ctx):
    return enum_def(ctx, "nifty_asset_interface", FORWARDED)


def tag_paths(R, ok, tags, rule):
    first = mk("ld", BUF, 0, 1)
    for nm, k in sorted(tags.items(), key=lambda x: x[1]):
        R.ob(rule, any(p.sat(eq(first, k)) and p.sat(ne(N, 0)) for p in ok), "%s (%d) is never forwarded" % (nm, k))


def C29_forward(ctx, R):
    crate = "nifty_asset_interface"
    tags = tags_of(ctx)
    P = ctx.prog(crate)
    paths = [p for p in P.by_path if re.search(r"::processor::<impl .*Interface>::process_instruction$", p)]
    if not R.ob("anchor", len(paths) == 1 and len(tags) == 18, "%d forwarders, %d instructions" % (len(paths), len(tags))):
        return
    total = 0
    for n in range(0, NFORWARD + 1):
        run = prog_run(ctx, crate, None, n, paths[0][len(crate):], True)
        ok = [p for p in run.parts if succeeds(run, p)]
        R.ob("undecided", not run.I.unknown, "calls left undecided: %s" % sorted(run.I.unknown)[:4])
        if n == 0:
            R.ob("forward", not ok, "succeeds with no accounts")
            continue
        R.ob("forward", bool(ok), "%d accounts are never forwarded" % n)
        for p in ok:
            total += 1
            forwards(R, ctx, run, p, n)
        tag_paths(R, ok, tags, "every-instruction")
        R.stats["functions"] = max(R.stats.get("functions", 0), len(run.I.visited))
    R.stats["account counts"] = NFORWARD + 1
    R.stats["abstract success paths"] = total


def C29_dispatch(ctx, R):
    """Everything but the proxy's own instruction, updates and transfers is forwarded."""
    crate, n = "proxy_program", 8
    tags = tags_of(ctx)
    if not R.ob("anchor", len(tags) == 18, "%d instructions" % len(tags)):
        return
    own_ = own_variants(ctx, crate)
    R.stats["variants"] = 0
    for nm, k in sorted(tags.items(), key=lambda x: x[1]) + [(None, None)]:
        if nm in ("Transfer", "Update"):
            continue
        run = prog_run(ctx, crate, {"Interface": nm} if nm else {}, n, lookup=True)
        ok = [p for p in run.parts if succeeds(run, p)]
        R.ob("undecided", not run.I.unknown, "calls left undecided: %s" % sorted(run.I.unknown)[:4])
        if nm:
            R.ob("dispatch", bool(ok), "%s is never forwarded" % nm)
            R.ob("dispatch", any(p.sat(eq(mk("ld", BUF, 0, 1), k)) for p in ok), "%s (%d) is refused by its number" % (nm, k))
            R.stats["variants"] += 1
        for p in ok:
            forwards(R, ctx, run, p, n, "dispatch")
    # no bytes are both the proxy's own instruction and one of the asset program's
    byk = {k: nm for nm, k in tags.items()}
    IP = ctx.prog("nifty_asset_interface")
    args = {}
    for t in IP.types:
        if t["k"] == "adt" and t.get("def") == FORWARDED:
            args = {v["n"]: v["f"] for v in t["v"]}
    for nm, (k, fields) in own_.items():
        other = byk.get(k)
        R.ob("overlap", other is None or (not args.get(other) and bool(fields)),
             "%s of the proxy and %s of the asset program share the number %s" % (nm, other, k))


def own_variants(ctx, crate):
    P = ctx.prog(crate)
    nums = enum_def(ctx, crate, crate + "::instruction::Instruction")
    for t in P.types:
        if t["k"] == "adt" and t.get("def") == crate + "::instruction::Instruction":
            return {v["n"]: (nums.get(v["n"]), v["f"]) for v in t["v"]}
    return {}


def proxy_ok(ctx, R, variant):
    run = prog_run(ctx, "proxy_program", variant, 8, lookup=True)
    ok = [p for p in run.parts if succeeds(run, p)]
    R.ob("anchor", bool(ok), "the instruction never succeeds")
    for p in ok:
        R.ob("all", not any(e[0] == "invoke_err" for e in p.effs), "a path succeeds after a call failed")
    R.stats["abstract success paths"] = len(ok)
    R.stats["rejecting paths"] = len(run.parts) - len(ok)
    R.stats["functions"] = len(run.I.visited)
    return run, ok


def no_own_writes(R, p):
    for e in p.effs:
        if e[0] == "write" and isinstance(e[1], T) and e[1].tag in ("data", "ext", "key", "owner"):
            R.ob("writes", False, "writes account memory %s" % (e[1],), e[5])


def piece_vals(c):
    return [x[1] for x in c.pieces] if c.pieces is not None else None


def lit_val(x):
    """Number behind an encoded one-byte piece."""
    return x if isinstance(x, int) else None


def is_none(P, v):
    return variant_name(P, v) == "None"


def C29_update(ctx, R):
    A, _o = accounts_of(ctx, "nifty_asset_interface", "nifty_asset_interface::interface", "update")
    run, ok = proxy_ok(ctx, R, {"Interface": "Update"})
    a, au = A.get("asset"), A.get("authority")
    if not R.ob("anchor", a == 0 and au is not None, "accounts %s" % (A,)):
        return
    rec = E(0, PROXY_EXT, *PROXY["authority"])
    P = run.I.p
    given = {}
    for t in P.types:
        if t["k"] == "adt" and t.get("def", "").endswith("interface::UpdateInput"):
            names = [f[0] for f in t["v"][0]["f"]]
            ti = P.types.index(t)
            given = {nm: mk("fld", mk("sym", "arg.0", ti), 0, k) for k, nm in enumerate(names)}
    R.ob("anchor", {"name", "mutable"} <= set(given), "an update carries %s" % sorted(given))
    for p in ok:
        R.ob("authority:signed", p.must(signer(au)), "a path succeeds without the authority's signature")
        R.ob("authority:recorded", p.must(eq(key(au), rec)), "the authority may be another than the one recorded")
        R.ob("authority:set", p.must(ne(rec, ZERO32)), "an unset authority is accepted")
        no_own_writes(R, p)
        for q, calls in calls_on(run, p):
            sp = calls[0].span if calls else None
            if not R.ob("call", len(calls) == 1, "%d calls are made" % len(calls), sp):
                continue
            c = calls[0]
            asset_call(R, ctx, c, q)
            v = piece_vals(c)
            if not R.ob("call", v is not None and len(v) == 4 and lit_val(v[0]) == 10, "the call carries %s" % (v,), sp):
                continue
            meta_is(R, "call", c, 1, key(0), None, q, "authority of the update")
            for nm, x in (("name", v[1]), ("mutable", v[2])):
                src = given.get(nm)
                if src is None:
                    continue
                some, none = q.must(eq(mk("discr", src), 1)), q.must(ne(mk("discr", src), 1), eq(mk("discr", src), 0))
                good = x is src
                if not good and some:
                    vv = agg_of(x)
                    good = vv is not None and vv.a[1] == 1 and vv.a[2][0] is mk("fld", src, 1, 0)
                elif not good and none:
                    good = is_none(P, x)
                R.ob("arguments", good, "%s is forwarded as %s" % (nm, x), sp)


def asset_call(R, ctx, c, p):
    R.ob("program", c.program is con(ctx.id_hex), "the call goes to %s" % (c.program,), c.span)
    own_seeds(R, p, c, "call")
    meta_is(R, "call", c, 0, key(0), 1, p, "asset")
    for k, s, _w in c.metas:
        if isinstance(k, T) and k.tag == "ld" and k.a[0].tag == "key":
            R.ob("infos", k.a[0].a[0] in c.infos, "account %s is named but not passed" % k.a[0].a[0], c.span)


def C29_transfer(ctx, R):
    A, _o = accounts_of(ctx, "nifty_asset_interface", "nifty_asset_interface::interface", "transfer")
    run, ok = proxy_ok(ctx, R, {"Interface": "Transfer"})
    if not R.ob("anchor", A.get("asset") == 0 and {"signer", "recipient"} <= set(A), "accounts %s" % (A,)):
        return
    P = run.I.p
    for p in ok:
        no_own_writes(R, p)
        for q, calls in calls_on(run, p):
            kinds = [lit_val((piece_vals(c) or [None])[0]) for c in calls]
            sp = calls[-1].span if calls else None
            R.ob("transfer", kinds.count(7) == 1 and set(kinds) <= {7, 10}, "the calls to the asset program are %s" % kinds, sp)
            for c, k in zip(calls, kinds):
                asset_call(R, ctx, c, q)
                v = piece_vals(c)
                if k == 7:
                    R.ob("transfer", len(v) == 1, "the transfer carries %s" % (v,), c.span)
                    meta_is(R, "transfer", c, 1, key(A["signer"]), None, q, "transfer signer")
                    meta_is(R, "transfer", c, 2, key(A["recipient"]), None, q, "recipient")
                    sg = [s for kk, s, _w in c.metas[1:2]]
                    R.ob("transfer", sg == [1] or sg and same_flag(q, sg[0], mk("p", "signer", A["signer"])), "the transfer signer does not sign", c.span)
                elif k == 10:
                    if not R.ob("update", len(v) == 4, "the update carries %s" % (v,), c.span):
                        continue
                    R.ob("update", is_none(P, v[1]) and is_none(P, v[2]), "the transfer updates the asset's name or mutability", c.span)
                    ex = agg_of(v[3])
                    ty = None
                    if ex is not None and ex.a[1] == 1 and agg_of(ex.a[2][0]) is not None:
                        ty = agg_of(ex.a[2][0]).a[2][0]
                    names = enum_def(ctx, "nifty_asset_types", "nifty_asset_types::extensions::ExtensionType")
                    own_data = {names.get("Attributes"), names.get("Blob"), names.get("Properties")}
                    R.ob("update", ty in own_data, "the transfer updates the extension %s" % (ty,), c.span)


def C29_create(ctx, R):
    crate = "proxy_program"
    A, _o = accounts_of(ctx, crate, crate + "::instruction", "create")
    run, ok = proxy_ok(ctx, R, {"Instruction": "Create"})
    ID = con(program_id(ctx, crate))
    need = {x for x in ("asset", "stub", "owner", "authority") if x not in A}
    if not R.ob("anchor", not need, "accounts %s" % (A,)):
        return
    P = run.I.p
    stub = key(A["stub"])
    bump = mk("fbump", (stub,), ID)
    std = enum_def(ctx, "nifty_asset_types", "nifty_asset_types::state::Standard").get("Proxied")
    for p in ok:
        R.ob("signer", p.must(signer(A["authority"])), "a path succeeds without the authority's signature")
        R.ob("signer", p.must(signer(A["stub"])), "a path succeeds without the stub's signature")
        R.ob("address", p.must(eq(mk("fpda", (stub,), ID), key(A["asset"]))), "the asset's address is not derived from the stub")
        no_own_writes(R, p)
        for q, calls in calls_on(run, p):
            sp = calls[0].span if calls else None
            if not R.ob("call", len(calls) == 1, "%d calls are made" % len(calls), sp):
                continue
            c = calls[0]
            R.ob("program", c.program is con(ctx.id_hex), "the call goes to %s" % (c.program,), sp)
            R.ob("seeds", len(c.seeds) == 1 and tuple(c.seeds[0]) == (stub, bump), "signs with %s" % (c.seeds,), sp)
            meta_is(R, "accounts", c, 0, key(A["asset"]), 1, q, "asset")
            meta_is(R, "accounts", c, 1, key(A["asset"]), None, q, "authority of the new asset")
            meta_is(R, "accounts", c, 2, key(A["owner"]), None, q, "owner of the new asset")
            v = piece_vals(c)
            if not R.ob("call", v is not None and len(v) == 5 and lit_val(v[0]) == 2, "the call carries %s" % (v,), sp):
                continue
            R.ob("standard", as_int(v[2]) == std, "the asset is made with standard %s" % (v[2],), sp)
            ext_ = agg_of(v[4])
            items = ext_.a[2][0].a[0] if ext_ is not None and ext_.a[1] == 1 and isinstance(ext_.a[2][0], T) and ext_.a[2][0].tag == "vec" else ()
            px = [agg_of(x) for x in items if agg_of(x) is not None and agg_of(x).a[2][0] == PROXY_EXT]
            if not R.ob("proxy-data", len(px) == 1, "%d proxy extensions" % len(px), sp):
                continue
            f = px[0].a[2]
            d = agg_of(f[2])
            buf = agg_of(d.a[2][0]) if d is not None and d.a[1] == 1 else None
            R.ob("proxy-data", buf is not None and buf.a[2][1] == 97 and f[1] == 97, "the proxy data is %s bytes" % (f[1],), sp)
            if buf is None:
                continue
            want = {"program": ID, "seeds": stub, "bump": bump, "authority": key(A["authority"])}
            for nm, w in want.items():
                got = run.I.load_raw(q.st, buf.a[2][0], *PROXY[nm])
                R.ob("proxy-data", got is w or seed_norm(got) is w, "the recorded %s is %s" % (nm, got), sp)


from p_tables import view_schema  # noqa

ONCE = {"C27": {"bridge": C27_bridge}, "C28": {"create": C28_create},
        "C29": {"layout": C29_layout, "forward": C29_forward, "dispatch": C29_dispatch, "update": C29_update,
                "transfer": C29_transfer, "create": C29_create}}
PER = {}
_CPI = ("The program's own entry function is abstractly interpreted on compiler MIR for each decoded instruction, with accounts whose keys, owners, flags "
        "and data are free. Every cross-program call on a path that succeeds is read off as program, account list with flags, bytes and seeds, and "
        "compared with what the property names; the facts each such path has established must entail the required checks. ")
EXPLAIN = {
    "C27": _CPI + "Direction, recorded state, derivation and signature of both transfers are checked for idle and active vaults.",
    "C28": _CPI + "The vault bytes are followed from account creation to the last store.",
    "C29": _CPI + "The forwarder is interpreted for every account count from 0 to 12 (no instruction takes more than 7) and the proxy for every "
                  "instruction of the asset program, its own instruction, and bytes that decode as neither.",
}
_A = ["PDA derivation is a function of seeds and program; a call that returns Ok did what its program documents",
      "a program's own accounts are not changed by the other programs it calls (the runtime's ownership rule)"]
ASSUME = {
    "C27": _A + ["a vault's recorded state is one of the two the program writes (C27, C28)", "Metaplex TransferV1: discriminator 49, 0, amount; account order of the mpl-token-metadata builder"],
    "C28": _A + ["mpl-token-metadata decodes metadata accounts faithfully"],
    "C29": _A + ["extension lookup finds the extension of that type (decided by C17), decoders agree with the asset program's (C22)"],
}
