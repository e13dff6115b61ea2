"""Rules C17, C25, C26: extension lookups, constraint evaluation, builders and readers."""
from rules import *  # noqa
from p_asset2 import is_load, loads_in, sub_part, ran_loops, walk_heads, lin_parts  # noqa
from p_asset import *  # noqa

TYPES = "nifty_asset_types::"
ASSET = TYPES + "state::asset::Asset::"
EXTN = TYPES + "extensions::Extension::"
WANT = mk("sym", "want", None)


class FnRun(Run):
    """Fixpoint over one library function called with symbolic arguments."""

    def __init__(self, ctx, crate, fn, args, setup=None, facts=()):
        self.name = fn.name
        self.I = I = SolInterp(ctx.prog(crate))
        self.run = self
        I.ext_types = ctx.ext_types
        I.opaque_get = False
        if setup:
            setup(I)
        st = State()
        for f in facts:
            I.assume(st, f)
        if callable(args):
            args = args(I, st)
        self.ctx = ctx
        self.res = I.call(st, fn.id, args)
        self.parts = []
        for s, v in self.res:
            n = len(self.parts)
            self.expand(s, s.effects())
            for p in self.parts[n:]:
                while isinstance(v, T) and v.tag == "ite":
                    d = I.decide(p.st, v.a[0])
                    if d is None:
                        break
                    v = v.a[1] if d else v.a[2]
                p.value = v
        # results joined lazily: one part per alternative
        out = []
        for p in self.parts:
            out += alternatives(p)
        self.parts = out


def alternatives(p, depth=0):
    v = p.value
    if isinstance(v, T) and v.tag == "ite" and depth < 8:
        out = []
        for lit, x in ((v.a[0], v.a[1]), (neg(v.a[0]), v.a[2])):
            q = p.given(lit)
            if q is not None:
                q.value = x
                out += alternatives(q, depth + 1)
        return out
    return [p]


def strip_path(s):
    s = s.split("<")[0]
    return s.rsplit("::", 1)[-1]


def view_of(fn):
    """`<X<'a> as ExtensionData<'a>>::from_bytes` -> X's path."""
    return strip_lt(fn.path[1:].split(" as ", 1)[0])


# ------------------------------------------------------------------ C17: lookups
def opaque_views(I):
    """Make every extension view opaque: only the bytes it is given matter here."""
    for path in list(I.p.by_path):
        if path.startswith("<" + TYPES + "extensions::") and (path.endswith("ExtensionData<'a>>::from_bytes") or
                                                            path.endswith("ExtensionDataMut<'a>>::from_bytes_mut")):
            def h(I, st, fn, args, fr, span):
                r, o, n = slice_parts(I, st, args[0])
                return [(st, mk("view", view_of(fn), fn.path.endswith("_mut"), r, o, n))]
            I.extra[path] = h


def heads(run):
    """Loop symbols that step over the headers of account 0, in every loop of the run."""
    out = []
    for lid in run.I.loops:
        for h in walk_heads(run, lid):
            out.append((lid, h))
    return out


def at(region, h):
    return mk("ld", region, h, 4)


def type_at(p, h, facts=None):
    return [t for t in loads_in(p.st.facts if facts is None else facts, data(0), 4) if eq(t.a[1], h) == 1]


def c17_walk(R, run, rule, passed_ok, subject):
    """Every iteration that goes on to the next header may do so, and the walk is the right one."""
    hs = heads(run)
    for lid in run.I.loops:
        if not any(l == lid for l, _ in hs):
            R.ob("the lookup steps from header to header by recorded boundaries, from the first one", False,
                 "%s: %s" % (subject, [(str(ph), str(run.I.phis[ph]["init"])[:40], [str(s)[:80] for s in run.I.phis[ph]["steps"]])
                                       for ph in run.I.loops[lid]["phis"]][:3]), subject)
    for lid, h in hs:
        for fs in run.I.loops[lid]["backs"]:
            s = sub_part(run, fs)
            s.run = run
            ok = any(passed_ok(s, t) for t in type_at(s, h) or [at(data(0), h)])
            R.ob(rule, ok, "%s: %s" % (subject, [str(f)[:80] for f in sorted(fs, key=lambda t: t.id)][:4]), subject)
    return hs


def header_of(run, hs, h):
    """h is a header the walk visits."""
    if eq(h, A_LEN) == 1:
        return True
    if any(eq(x, h) == 1 for _, x in hs):
        return True
    # a walk with its first step peeled off
    return is_load(h, data(0), 4) and header_of(run, hs, sub(h.a[1], 8))


def stops_ok(R, p, hs, rule, subject, more=lambda t: []):
    """The part ends at an empty header or the end of the data."""
    ok = False
    for _, h in hs or [(None, A_LEN)]:
        end = lt(sub(dl(0), h), 16)
        ts = type_at(p, h) or [at(data(0), h)]
        if p.must(end) or any(p.must(end, eq(t, 0), *more(t)) for t in ts):
            ok = True
    # walks whose first header is examined separately
    h = A_LEN
    ts = type_at(p, h) or [at(data(0), h)]
    if not ok:
        ok = p.must(lt(sub(dl(0), h), 16)) or any(p.must(lt(sub(dl(0), h), 16), eq(t, 0), *more(t)) for t in ts)
    R.ob(rule, ok, "%s: %s" % (subject, [str(f)[:90] for f in sorted(p.st.facts, key=lambda t: t.id)][:5]), subject)


def not_type(ty):
    def f(s, t):
        return s.must(ne(t, ty), le(12, t)) and s.must(ne(t, 0), le(12, t))
    return f


R_NOPASS = "no walk passes over the wanted or an empty header"
R_STOP = "nothing found means an empty header or the end of the data was reached"
R_FOUND = "what is found is the first header of the wanted type"
R_BYTES = "the view covers exactly the recorded bytes of its extension"


def lookup_args(fn, base):
    sl = ref_of(data(0), base, sub(dl(0), base))
    return [sl] if fn.argc == 1 else [WANT, sl]


def is_opt(v, some):
    return isinstance(v, T) and v.tag == "agg" and v.a[1] == (1 if some else 0)


def c17_get(ctx, R, crate, fn, base):
    run = FnRun(ctx, crate, fn, lookup_args(fn, base), opaque_views)
    sub_ = fn.name.split("::extensions::Extension::")[-1] if base else fn.name.split("::state::asset::")[-1]
    ty = view = None
    for p in run.parts:
        v = p.value
        w = v.a[2][0] if is_opt(v, True) else None
        while isinstance(w, T) and w.tag == "agg" and len(w.a[2]) == 1:
            w = w.a[2][0]
        if isinstance(w, T) and w.tag == "view":
            view = w
            ty = ctx.ext_types.get((w.a[0], w.a[1]))
    if not R.ob("every lookup can find its extension", view is not None and ty is not None, sub_, fn.name):
        return
    inst = [k for k in ctx.ext_types if ctx.ext_types[k] == ty]
    R.ob("a lookup returns the kind of view it was asked for", strip_path(view.a[0]) in fn.name and
         view.a[1] == ("get_mut" in fn.path), "%s gives %s" % (sub_, view.a[0]), fn.name)
    hs = c17_walk(R, run, R_NOPASS, not_type(ty), sub_)
    for p in run.parts:
        v = p.value
        if is_opt(v, False):
            stops_ok(R, p, hs, R_STOP, sub_)
            continue
        w = v.a[2][0] if is_opt(v, True) else v
        while isinstance(w, T) and w.tag == "agg" and len(w.a[2]) == 1:
            w = w.a[2][0]
        if not (isinstance(w, T) and w.tag == "view"):
            R.ob(R_FOUND, False, "%s: result %s" % (sub_, str(v)[:120]), fn.name)
            continue
        h = sub(w.a[3], 16)
        ok = w.a[2] is data(0) and header_of(run, hs, h)
        ts = type_at(p, h) or [at(data(0), h)]
        ok = ok and any(p.must(eq(t, ty)) for t in ts)
        R.ob(R_FOUND, ok, "%s: view at %s" % (sub_, str(w.a[3])[:80]), fn.name)
        R.ob(R_BYTES, w.a[2] is data(0) and w.a[4] is not None and p.same(w.a[4], mk("ld", data(0), add(h, 4), 4)),
             "%s: length %s" % (sub_, str(w.a[4])[:80]), fn.name)
    R.stats["lookup functions"] = R.stats.get("lookup functions", 0) + 1


def C17_lookups(ctx, R):
    n = {}
    for crate in ("nifty_asset_types", "asset_program", "proxy_program"):
        P = ctx.prog(crate)
        for path, base in ((ASSET + "get", 0), (ASSET + "get_mut", 0), (EXTN + "get", A_LEN), (EXTN + "get_mut", A_LEN)):
            for fn in P.by_path.get(path, []):
                c17_get(ctx, R, crate, fn, base)
                n[path] = n.get(path, 0) + 1
    for path in (ASSET + "get", ASSET + "get_mut", EXTN + "get", EXTN + "get_mut"):
        R.ob("every lookup has an instance to analyse", n.get(path, 0) > 0, path, path)


def C17_queries(ctx, R):
    P = ctx.prog("nifty_asset_types")
    for what in ("contains", "get_extension"):
        fn = P.by_path[ASSET + what][0]
        run = FnRun(ctx, "nifty_asset_types", fn, lookup_args(fn, 0))
        hs = c17_walk(R, run, R_NOPASS, not_type(WANT), what)
        found = 0
        for p in run.parts:
            v = p.value
            if v == 0 or is_opt(v, False):
                stops_ok(R, p, hs, R_STOP, what)
                continue
            found += 1
            if v == 1:
                ok = any(any(p.must(eq(t, WANT)) for t in type_at(p, h)) for _, h in hs + [(None, A_LEN)])
                R.ob(R_FOUND, ok, what, fn.name)
                continue
            ok = is_opt(v, True)
            if ok:
                r, o = v.a[2][0].a[2]
                reg, h, _ = slice_parts(run.I, p.st, r)
                ok = reg is data(0) and header_of(run, hs, h) and any(p.must(eq(t, WANT)) for t in type_at(p, h))
                R.ob(R_BYTES, ok and eq(o, add(h, 16)) == 1, what, fn.name)
            R.ob(R_FOUND, ok, "%s: %s" % (what, str(v)[:100]), fn.name)
        R.ob("every lookup can find its extension", found > 0, what, fn.name)
    # all types present, in order
    fn = P.by_path[ASSET + "get_extensions"][0]
    run = FnRun(ctx, "nifty_asset_types", fn, lookup_args(fn, 0))
    hs = c17_walk(R, run, "no walk passes over an empty header", lambda s, t: s.must(ne(t, 0), le(12, t)), "get_extensions")
    for p in run.parts:
        stops_ok(R, p, hs, R_STOP, "get_extensions")
        v = p.value
        inf = run.I.phis.get(v) if isinstance(v, T) else None
        ok = inf is not None
        if ok:
            i0 = inf["init"]
            ok = isinstance(i0, T) and i0.tag == "vec" and not i0.a[0]
            for s, fs in zip(inf["steps"], inf["facts"]):
                q = sub_part(run, fs)
                for _, h in hs:
                    ts = type_at(q, h) or [at(data(0), h)]
                    if s is v:
                        ok = ok and any(q.must(le(12, t)) for t in ts)
                    else:
                        ok = ok and isinstance(s, T) and s.tag == "seq" and len(s.a[0]) == 2 and s.a[0][0][1] is v and \
                            s.a[0][1][0] == "1" and any(eq(s.a[0][1][1], t) == 1 for t in ts) and any(q.must(lt(t, 12)) for t in ts)
        elif isinstance(v, T) and v.tag == "vec" and not v.a[0]:
            ok = True
        R.ob("the extension list has exactly the recognised types passed, in order", ok, str(v)[:120], fn.name)
    # first and last
    fn = P.by_path[ASSET + "first_extension"][0]
    run = FnRun(ctx, "nifty_asset_types", fn, lookup_args(fn, 0))
    for p in run.parts:
        v = p.value
        ts = type_at(p, A_LEN) or [at(data(0), A_LEN)]
        if is_opt(v, False):
            R.ob(R_STOP, p.must(lt(sub(dl(0), A_LEN), 16)) or
                 any(p.must(lt(sub(dl(0), A_LEN), 16), eq(t, 0), le(12, t)) for t in ts), "first_extension", fn.name)
        else:
            ok = is_opt(v, True)
            if ok:
                r, o = v.a[2][0].a[2]
                reg, h, _ = slice_parts(run.I, p.st, r)
                ok = reg is data(0) and eq(h, A_LEN) == 1 and eq(o, A_LEN + 16) == 1 and any(p.must(ne(t, 0)) for t in ts)
            R.ob("the first extension is the one right after the fixed header", ok, str(v)[:100], fn.name)
    fn = P.by_path[ASSET + "last_extension"][0]
    run = FnRun(ctx, "nifty_asset_types", fn, lookup_args(fn, 0))
    hs = c17_walk(R, run, "no walk passes over an empty header", lambda s, t: s.must(ne(t, 0)), "last_extension")
    for p in run.parts:
        stops_ok(R, p, hs, R_STOP, "last_extension", lambda t: [le(12, t)])
        R.ob("the last extension is the last header passed", last_ok(run, p, hs, p.value), str(p.value)[:100], fn.name)


def last_ok(run, p, hs, v):
    def is_hdr(x, h):
        if not is_opt(x, True):
            return False
        r, o = x.a[2][0].a[2]
        reg, hh, _ = slice_parts(run.I, p.st, r)
        return reg is data(0) and eq(hh, h) == 1 and eq(o, add(h, 16)) == 1
    inf = run.I.phis.get(v) if isinstance(v, T) else None
    if inf is not None:
        return is_opt(inf["init"], False) and bool(inf["steps"]) and any(
            all(is_hdr(s, h) for s in inf["steps"]) for _, h in hs)
    if is_opt(v, False):
        return True if not hs else any(p.must(eq(h, A_LEN)) for _, h in hs) or not p.sat(*[ne(h, A_LEN) for _, h in hs])
    if is_opt(v, True):
        r, o = v.a[2][0].a[2]
        reg, x, _ = slice_parts(run.I, p.st, r)
        xi = run.I.phis.get(x)
        return reg is data(0) and eq(o, add(x, 16)) == 1 and xi is not None and any(
            all(s is not None and eq(s, h) == 1 for s in xi["steps"]) for _, h in hs)
    return False


# ------------------------------------------------------------------ C17: views
BUF = mk("buf")
N = mk("sym", "n", None)
CUR = mk("sym", "cursor", None)
CONSTRAINT = TYPES + "constraints::Constraint"


def opaque_nested(I):
    """Nested constraints are read by the constraint reader (analysed on its own)."""
    def h(I, st, fn, args, fr, span):
        r, o, n = slice_parts(I, st, args[0])
        ty = fn.locals[0]
        return [(st, mk("agg", ty, 0, (ref_of(r, o), mk("assertable", r, o, n))))]
    for path in I.p.by_path:
        if re.search(r"Constraint<'a> as nifty_asset_types::constraints::FromBytes<'a>>::from_bytes$", path):
            I.extra[path] = h


class Shape:
    """What a view shows, as nested tuples over the bytes of the buffer it was made from."""

    def __init__(self, run):
        self.run = run
        self.I = run.I
        self.lists = []

    def of(self, p, v, ty, depth=0):
        I = self.I
        if depth > 14:
            return ("deep", str(v)[:80])
        t = I.p.types[ty] if ty is not None else {"k": "?", "s": "?"}
        if isinstance(v, T) and v.tag == "ite":
            d = I.decide(p.st, v.a[0])
            if d is not None:
                return self.of(p, v.a[1] if d else v.a[2], ty, depth + 1)
        while isinstance(v, T) and v.tag == "ref" and t["k"] == "adt" and len(t["v"]) == 1 and len(t["v"][0]["f"]) == 1:
            ty = t["v"][0]["f"][0][1]
            t = I.p.types[ty]
        if isinstance(v, T) and v.tag == "ref" and v.a[0].tag == "mem":
            reg, off = v.a[0].a
            if reg in getattr(I, "boxval", {}):
                bt = I.boxty[reg]
                return ("box", base_name(I.p.types[bt]["s"]), self.of(p, I.boxval[reg], bt, depth + 1))
            e = I.p.types[t["e"]] if "e" in t else None
            n = v.a[1]
            if n is None and e is not None:
                n = e.get("size")
            elif e is not None and e["k"] == "slice":
                n = mulc(n, I.p.size(e["e"])) if I.p.size(e["e"]) != 1 else n
            if isinstance(reg, T) and reg.tag == "const" and isinstance(n, int) and isinstance(off, int):
                return ("const", reg.a[0][2 * off:2 * (off + n)])
            return ("ref", reg, off, n)
        if isinstance(v, T) and v.tag == "agg":
            if isinstance(v.a[0], int) and I.p.types[v.a[0]]["k"] == "adt":
                t = I.p.types[v.a[0]]
            fs = t["v"][v.a[1]]["f"] if t["k"] == "adt" else [(str(i), x) for i, x in enumerate(t.get("f", []))]
            fs = list(fs) + [(str(i), None) for i in range(len(fs), len(v.a[2]))]
            sub_ = [(f[0], self.of(p, x, f[1], depth + 1)) for x, f in zip(v.a[2], fs)]
            if len(sub_) == 1:
                return sub_[0][1]
            return ("agg", v.a[1]) + tuple(sorted(sub_, key=lambda x: x[0]))
        if isinstance(v, T) and v in I.phis:
            return ("list", v)
        if t["k"] == "adt" and len(t["v"]) == 1 and len(t["v"][0]["f"]) == 1 and not (isinstance(v, T) and v.tag in ("vec", "seq")):
            return self.of(p, v, t["v"][0]["f"][0][1], depth + 1)
        if isinstance(v, T) and v.tag == "vec" and not v.a[0]:
            return ("list", None)
        return ("val", v)


def base_name(s):
    """Type name without lifetimes, path and the Mut suffix."""
    s = re.sub(r"<'[^>]*>", "", s).replace("&mut ", "&")
    s = re.sub(r"[A-Za-z0-9_]+::", "", s)
    return re.sub(r"([A-Za-z0-9_]+)Mut\b", r"\1", s)


def elem_ty(I, ty):
    """Element type of the list type at (or just inside) ty."""
    for _ in range(4):
        t = I.p.types[ty]
        if t["s"].startswith("alloc::vec::Vec<") or t["s"].startswith("std::vec::Vec<"):
            return t["args"][0]
        if t["k"] == "adt" and len(t["v"]) == 1 and len(t["v"][0]["f"]) == 1:
            ty = t["v"][0]["f"][0][1]
            continue
        return None


class Reader:
    """Summary of a `from_bytes` function over the symbolic bytes BUF[0..N)."""

    def __init__(self, ctx, crate, fn):
        self.fn = fn
        self.run = run = FnRun(ctx, crate, fn, [ref_of(BUF, 0, N)], opaque_nested)
        self.sh = Shape(run)
        self.ty = fn.locals[0]
        self.flat, self.items, self.problems = [], [], []
        lists = set()
        for p in run.parts:
            s = self.sh.of(p, p.value, self.ty)
            if s[0] == "list" and s[1] is not None:
                lists.add(s[1])
                self.exits = getattr(self, "exits", []) + [p]
            elif s[0] == "list":
                self.exits = getattr(self, "exits", []) + [p]
            else:
                self.flat.append((frozenset(p.st.facts), s))
        self.is_list = bool(lists)
        if lists:
            if len(lists) > 1 or self.flat:
                self.problems.append("the result is not one list")
            self.one_list(lists.pop())

    def one_list(self, phi):
        I, run = self.run.I, self.run
        inf = I.phis[phi]
        i0 = inf["init"]
        if not (isinstance(i0, T) and i0.tag == "vec" and not i0.a[0]):
            self.problems.append("the list does not start empty")
        et = elem_ty(I, self.ty)
        lid = phi.a[0]
        cur = None
        cands = [ph for ph in I.loops[lid]["phis"] if ph is not phi and I.phis[ph]["init"] == 0]
        for s in inf["steps"]:
            got = [c for c in cands if occurs(s, lambda x: x is c)]
            cands = [c for c in cands if c in got]
        if len(cands) != 1:
            self.problems.append("no single cursor")
            return
        cur = cands[0]
        self.cur = cur
        m = {cur: CUR}
        for s, step, fs in zip(inf["steps"], I.phis[cur]["steps"], inf["facts"]):
            if not (isinstance(s, T) and s.tag == "seq" and len(s.a[0]) == 2 and s.a[0][0][1] is phi and s.a[0][1][0] == "1"):
                self.problems.append("an iteration does not add exactly one element: %s" % str(s)[:80])
                continue
            p = sub_part(run, fs)
            p.run = run
            shape = self.sh.of(p, s.a[0][1][1], et)
            self.items.append((subst(frozenset(fs), m), subst(shape, m), subst(step, m)))
        for p in self.exits:
            if p.value is phi and not p.must(le(N, cur)):
                self.problems.append("reading stops before the end of the data")
            if p.value is not phi and not p.must(le(N, 0)):
                self.problems.append("reading stops before the end of the data")


def joint(run, a, b):
    """The two sets of facts can hold together (as far as the analysis can tell)."""
    st = State()
    for f in list(a) + list(b):
        if not run.I.assume(st, f):
            return False
    return True


def read_pairs(ctx):
    """Readers of the types crate: {name: [(fn of from_bytes), (fn of from_bytes_mut)]}"""
    P = ctx.prog("nifty_asset_types")
    out = {}
    for path, fns in P.by_path.items():
        m = re.match(r"<(nifty_asset_types::extensions::[a-z_]+::(\w+))(<'a>)? as nifty_asset_types::extensions::ExtensionData(Mut)?<'a>>::from_bytes(_mut)?$", path)
        if m:
            nm = m.group(2)
            mut_ = m.group(5) is not None
            base = nm[:-3] if mut_ and nm.endswith("Mut") else nm
            out.setdefault(base, {})[mut_] = fns[0]
    return out


R_TYPE = "each extension type is read by exactly one view and its mutable twin"
R_SAME = "read-only and mutable views show the same bytes"


def C17_views(ctx, R):
    pairs = read_pairs(ctx)
    names = {v: k for k, v in enum_numbers(ctx, "nifty_asset_types", "nifty_asset_types::extensions::ExtensionType").items()}
    seen = {}
    for (path, mut_), ty in ctx.ext_types.items():
        nm = strip_path(path)
        if not path.startswith(TYPES + "extensions::") or (nm not in pairs and nm[:-3] not in pairs):
            continue
        base = nm[:-3] if mut_ and nm.endswith("Mut") else nm
        R.ob(R_TYPE, names.get(ty) == base, "%s has type %s (%s)" % (nm, ty, names.get(ty)), path)
        seen.setdefault((ty, mut_), []).append(nm)
    for (ty, mut_), l in seen.items():
        R.ob(R_TYPE, len(l) == 1, "type %s is used by %s" % (ty, l), str(l))
    for ty, nm in names.items():
        if ty:
            R.ob(R_TYPE, (ty, False) in seen and (ty, True) in seen, "type %s has %s" % (nm, [m for (t, m) in seen if t == ty]), nm)
    for nm, d in sorted(pairs.items()):
        if not R.ob("every extension has both views", False in d and True in d, nm, nm):
            continue
        a = Reader(ctx, "nifty_asset_types", d[False])
        b = Reader(ctx, "nifty_asset_types", d[True])
        for r, fn in ((a, d[False]), (b, d[True])):
            R.ob("a view covers its extension from the first byte to the last", not r.problems, "%s: %s" % (nm, r.problems[:3]), fn.name)
        if not R.ob(R_SAME, a.is_list == b.is_list and len(a.flat) + len(a.items) > 0, nm, nm):
            continue
        n = 0
        for fa, sa in a.flat:
            for fb, sb in b.flat:
                if joint(a.run, fa, fb):
                    n += 1
                    R.ob(R_SAME, sa == sb, "%s: %s / %s" % (nm, str(sa)[:300], str(sb)[:300]), d[True].name)
        for fa, sa, ta in a.items:
            for fb, sb, tb in b.items:
                if joint(a.run, fa, fb):
                    n += 1
                    R.ob(R_SAME, sa == sb, "%s: %s / %s" % (nm, str(sa)[:300], str(sb)[:300]), d[True].name)
                    R.ob("both views advance by the same amount", eq(ta, tb) == 1, "%s: %s / %s" % (nm, ta, tb), d[True].name)
        R.ob(R_SAME, n > 0, "%s: nothing compared" % nm, nm)
    R.stats["view pairs"] = len(pairs)


def enum_numbers(ctx, crate, path):
    """{variant: number} of a C-like enum type."""
    P = ctx.prog(crate)
    for t in P.types:
        if t["k"] == "adt" and t["s"] == path:
            return {v["n"]: int(v["d"]) for v in t["v"]}
    return {}


# ------------------------------------------------------------------ C26: builders
EXTB = TYPES + "extensions::"
CONB = TYPES + "constraints::"
LPRE = mk("sym", "L", None)
PRE = mk("vbuf", "pre")
CLEN = mk("sym", "clen", None)
CHILD = mk("data", "child")
R_FIELD = "every field the reader shows is the value given to the builder"
R_LEN = "the bytes built are exactly the bytes the reader consumes"
R_KEEP = "adding an entry leaves the entries already built untouched"
R_START = "a builder starts without entries"
R_DATA = "a builder hands out exactly the bytes it built"


def virtual_child(I):
    import bytevec

    def h(I, st, args, dty, fr, span):
        return [(st, bytevec.new_vec(I, st, CLEN, mk("slicev", CHILD, 0, CLEN, ()), dty))]
    I.virtual[CONB + "ConstraintBuilder::build"] = h


def builder_setup(I):
    import bytevec
    opaque_nested(I)
    bytevec.enable(I)
    virtual_child(I)


def vec_value(P, region, length):
    return mk("agg", P.tid("alloc::vec::Vec<u8>"), 0, (region, length))


def find_vec(v):
    """The byte vector inside a builder value."""
    if isinstance(v, T) and v.tag == "agg":
        if len(v.a[2]) == 2 and isinstance(v.a[2][0], T) and v.a[2][0].tag == "vbuf":
            return v
        for x in v.a[2]:
            r = find_vec(x)
            if r is not None:
                return r
    return None


def builder_self(P, bt, length):
    """A builder that already holds `length` bytes; other fields symbolic."""
    fs = P.types[bt]["v"][0]["f"]
    vals = []
    for nm, ft in fs:
        if P.types[ft]["s"] in ("alloc::vec::Vec<u8>", "std::vec::Vec<u8>"):
            vals.append(vec_value(P, PRE, length))
        else:
            vals.append(mk("sym", "field:" + nm, ft))
    return vals[0] if len(vals) == 1 else mk("agg", bt, 0, tuple(vals))


def arg_values(P, k, ty):
    """Symbolic arguments of a builder function: [(value, facts, expected content)]"""
    t = P.types[ty]
    s = t["s"]
    d = mk("data", "a%d" % k)
    n = mk("sym", "n%d" % k, None)
    if s in ("&str",):
        return [(ref_of(d, 0, n), [le(0, n), lt(n, 256)], ("bytes", d, n))]
    if s == "&[u8]":
        return [(ref_of(d, 0, n), [le(0, n)], ("bytes", d, n))]
    if t["k"] == "ref" and P.types[t["e"]]["k"] == "slice":
        es = P.size(P.types[t["e"]]["e"])
        return [(ref_of(d, 0, n), [le(0, n)], ("bytes", d, mulc(n, es)))]
    if "dyn " in s and "ConstraintBuilder" in s:
        return [(mk("ref", mk("mem", mk("childbuilder"), 0), mk("vt", ty)), [], ("bytes", CHILD, CLEN))]
    if t["k"] == "ref":
        return [(ref_of(d, 0), [], ("bytes", d, P.size(t["e"])))]
    if t["k"] == "adt" and s.startswith("core::option::Option<"):
        inner = t["v"][1]["f"][0][1]
        out = [(mk("agg", ty, 0, ()), [], ("none",))]
        for v, f, e in arg_values(P, k, inner):
            out.append((mk("agg", ty, 1, (v,)), f, e))
        return out
    if s == "alloc::string::String":
        v = mk("sym", "a%d" % k, ty)
        return [(v, [lt(mk("len", v), 256), le(0, mk("len", v))], ("string", v))]
    return [(mk("sym", "a%d" % k, ty), [], ("int", mk("sym", "a%d" % k, ty)))]


def yes(I, st, lit):
    return lit == 1 or lit is True or (isinstance(lit, T) and bool(I.decide(st, lit)))


def is_zero(v):
    return v == 0 or (isinstance(v, T) and (v.tag == "zero" or v.tag == "bytes" and set(v.a[0]) <= {"0"}))


def whole(c):
    """A copy of a region that was itself written as a whole is that content."""
    while isinstance(c, T) and c.tag == "slicev" and c.a[1] == 0 and len(c.a) > 3 and c.a[3] and len(c.a[3]) == 1 and \
            c.a[3][0][0] == 0 and eq(c.a[3][0][1], c.a[2]) == 1:
        c = c.a[3][0][2]
    return c


def unwrap(v):
    while isinstance(v, T) and v.tag == "le":
        v = v.a[1]
    return v


def shows(I, st, sh, exp):
    """The bytes a field of a view shows are those expected."""
    if sh[0] == "agg" and len(sh) == 3:
        sh = sh[2][1]
    if sh[0] == "const":
        return exp == ("none",) and set(sh[1]) <= {"0"} or exp[0] == "bytes" and exp[2] == 0
    if sh[0] != "ref":
        return False
    _, reg, off, n = sh
    if n is None:
        return False
    if exp == ("none",):
        return yes(I, st, eq(n, 0)) or is_zero(I.load_raw(st, reg, off, n))
    if exp[0] == "string":
        # the text of a String argument, as a whole
        c = I.load_raw(st, reg, off, n)
        return yes(I, st, eq(n, mk("len", exp[1]))) and isinstance(c, T) and c.tag == "slicev" and c.a[1] == 0 and \
            c.a[2] is n and occurs(c.a[0], lambda x: x is exp[1])
    if exp[0] == "bytes":
        if not yes(I, st, eq(n, exp[2])):
            return False
        if n == 0:
            return True
        c = whole(I.load_raw(st, reg, off, n))
        return isinstance(c, T) and (c is mk("slicev", exp[1], 0, exp[2], ()) or c is mk("ld", exp[1], 0, exp[2]) or
                                     (c.tag in ("slicev", "ld") and c.a[0] is exp[1] and c.a[1] == 0 and
                                      eq(c.a[2], exp[2]) == 1 and (len(c.a) < 4 or not c.a[3])))
    c = unwrap(I.load_raw(st, reg, off, n))
    if is_zero(exp[1]):
        return is_zero(c)
    if c is exp[1]:
        return True
    # booleans written as 1 or 0
    if isinstance(c, T) and c.tag == "ite" and c.a[1] == 1 and c.a[2] == 0:
        return c.a[0] is exp[1] or c.a[0] is truth(exp[1]) or c.a[0] is ne(exp[1], 0)
    if c in (0, 1) and isinstance(c, int) and yes(I, st, ne(exp[1], 0) if c else eq(exp[1], 0)):
        return c == 0 or isinstance(exp[1], T) and exp[1].tag == "sym" and I.p.types[exp[1].a[1]]["s"] == "bool"
    return yes(I, st, eq(c, exp[1]))


def resolve_at(I, st, v, region, cache):
    """Evaluate the loads of BUF in a term against the bytes built in `region`."""
    if not isinstance(v, (T, tuple, frozenset)):
        return v
    if isinstance(v, tuple):
        return tuple(resolve_at(I, st, x, region, cache) for x in v)
    if isinstance(v, frozenset):
        return frozenset(resolve_at(I, st, x, region, cache) for x in v)
    if v in cache:
        return cache[v]
    lds = [t for t in subterms(v) if t.tag == "ld" and t.a[0] is BUF]
    m = {}
    for t in sorted(lds, key=lambda t: t.id):
        off = resolve_at(I, st, t.a[1], region, cache) if isinstance(t.a[1], T) else t.a[1]
        size = t.a[2]
        x = unwrap(I.load_raw(st, region, off, size))
        if is_zero(x):
            x = 0
        m[t] = x
    # innermost first: substituting outermost loads directly is enough, they were resolved above
    r = subst(v, {**m, BUF: region}) if v not in m else m[v]
    cache[v] = r
    return r


def call_builder(ctx, fn, pre, combos):
    """Abstract runs of one builder function: [(I, state, self value, returned value, expected)]"""
    P = ctx.prog("nifty_asset_types")
    out = []
    for combo in combos:
        I = SolInterp(P)
        I.ext_types = ctx.ext_types
        I.opaque_get = False
        builder_setup(I)
        st = State()
        bt = P.types[fn.locals[1]]["e"]
        st.cells[-5] = builder_self(P, bt, pre)
        I.assume(st, le(0, LPRE))
        ok = all(I.assume(st, f) for _, fs, _ in combo for f in fs)
        if not ok:
            continue
        for s, v in I.call(st, fn.id, [mk("ref", mk("cell", -5, ()), None)] + [a[0] for a in combo]):
            out.append((I, s, s.cells.get(-5), v, [a[2] for a in combo]))
    return out


def combos_of(P, fn):
    import itertools
    return list(itertools.product(*[arg_values(P, k, fn.locals[k + 1]) for k in range(1, fn.argc)]))


# builder function -> fields of the view, by argument position (None: checked separately)
FLAT = {
    "blob::BlobBuilder::set_data": ("Blob", {"content_type": 0, "data": 1}),
    "bucket::BucketBuilder::set_data": ("Bucket", {"data": 0}),
    "grouping::GroupingBuilder::set": ("Grouping", {"size": "zero", "max_size": 0, "delegate": 1}),
    "manager::ManagerBuilder::set": ("Manager", {"delegate": 0}),
    "metadata::MetadataBuilder::set": ("Metadata", {"symbol": 0, "description": 1, "uri": 2, "image_uri": 3}),
    "proxy::ProxyBuilder::set": ("Proxy", {"program": 0, "seeds": 1, "bump": 2, "authority": 3}),
}
LISTS = {
    "attributes::AttributesBuilder::add": ("Attributes", {"name": 0, "value": 1}),
    "links::LinksBuilder::add": ("Links", {"name": 0, "uri": 1}),
    "properties::PropertiesBuilder::add_text": ("Properties", {"name": 0, "value": 1}),
    "properties::PropertiesBuilder::add_number": ("Properties", {"name": 0, "value": 1}),
    "properties::PropertiesBuilder::add_boolean": ("Properties", {"name": 0, "value": 1}),
    "properties::PropertiesBuilder::add": ("Properties", {"name": 0, "value": 1}),
}
BOXES = {"&str": "Text", "alloc::string::String": "Text", "u64": "Number", "bool": "Boolean"}


def fields(sh, names):
    """{field: shape} of a view; a view of one field is that field."""
    if sh[0] == "agg" and len(sh) > 2:
        return dict(sh[2:])
    if len(names) == 1:
        return {list(names)[0]: sh}
    return {}


def reader_fn(ctx, nm):
    P = ctx.prog("nifty_asset_types")
    for path, fns in P.by_path.items():
        if re.match(r"<nifty_asset_types::extensions::[a-z_]+::%s(<'a>)? as nifty_asset_types::extensions::ExtensionData<'a>>::from_bytes$" % nm, path):
            return fns[0]


def length_fn(ctx, nm):
    P = ctx.prog("nifty_asset_types")
    for path, fns in P.by_path.items():
        if re.match(r"<nifty_asset_types::extensions::[a-z_]+::%s(<'_>|<'a>)? as nifty_asset_types::extensions::ExtensionData<'.*>>::length$" % nm, path):
            return fns[0]


def expected(want, exps):
    if want == "zero":
        return ("int", 0)
    return exps[want]


def C26_flat(ctx, R):
    P = ctx.prog("nifty_asset_types")
    for key, (nm, names) in FLAT.items():
        fn = P.by_path[EXTB + key][0]
        rd, ln = reader_fn(ctx, nm), length_fn(ctx, nm)
        n = 0
        for I, st, selfv, _, exps in call_builder(ctx, fn, LPRE, combos_of(P, fn)):
            vec = find_vec(selfv)
            if not R.ob(R_LEN, vec is not None, "%s: no bytes" % key, fn.name):
                continue
            reg, total = vec.a[2]
            for s2, view in I.call(st.fork(), rd.id, [ref_of(reg, 0, total)]):
                n += 1
                run = type("X", (), {"I": I})
                p = type("X", (), {"st": s2})
                sh = Shape(run).of(p, view, rd.locals[0])
                fs = fields(sh, names)
                for f, w in names.items():
                    e = expected(w, exps)
                    R.ob(R_FIELD, f in fs and shows(I, s2, fs[f], e),
                         "%s: field %s is %s, expected %s" % (key, f, str(fs.get(f))[:120], e), fn.name)
                s2.cells[-6] = view
                for s3, l in I.call(s2.fork(), ln.id, [mk("ref", mk("cell", -6, ()), None)]):
                    R.ob(R_LEN, yes(I, s3, eq(l, total)),
                         "%s: built %s, length() is %s" % (key, total, str(l)[:100]), ln.name)
                    # whatever the builder held before, the bytes are readable: their number is not something the reader has to hope for
                    R.ob(R_LEN, yes(I, st, eq(l, total)),
                         "%s: built %s, length() is %s, before reading" % (key, total, str(l)[:100]), ln.name)
        R.ob("every builder function can complete", n > 0, key, fn.name)
        R.stats["builder paths"] = R.stats.get("builder paths", 0) + n


def C26_lists(ctx, R):
    P = ctx.prog("nifty_asset_types")
    readers = {}
    for key, (nm, names) in LISTS.items():
        fns = P.by_path.get(EXTB + key, [])
        if not R.ob("every builder function can complete", bool(fns) or key.split("::")[-1].startswith("add_"), key, key):
            continue
        if nm not in readers:
            readers[nm] = Reader(ctx, "nifty_asset_types", reader_fn(ctx, nm))
            R.ob("a view covers its extension from the first byte to the last", not readers[nm].problems and readers[nm].is_list,
                 "%s: %s" % (nm, readers[nm].problems[:2]), nm)
        rdr = readers[nm]
        for fn in fns:
            vty = P.types[fn.locals[3]]["s"]
            n = paths = 0
            for I, st, selfv, _, exps in call_builder(ctx, fn, LPRE, combos_of(P, fn)):
                vec = find_vec(selfv)
                if not R.ob(R_LEN, vec is not None and vec.a[2][0] is PRE, "%s: bytes of %s" % (key, str(selfv)[:60]), fn.name):
                    continue
                reg, total = vec.a[2]
                for w in st.mem.get(reg, ()):
                    R.ob(R_KEEP, w[0] not in ("loop", "ite") and yes(I, st, le(LPRE, w[0])),
                         "%s writes at %s" % (key, str(w[0])[:60]), fn.name)
                n0, paths = n, paths + 1
                for facts, sh, step in rdr.items:
                    s2 = st.fork()
                    m = {CUR: LPRE, N: total}
                    cache = {}
                    live = True
                    for f in sorted(facts, key=lambda t: t.id):
                        g = resolve_at(I, s2, subst(f, m), reg, cache)
                        if g == 0 or (isinstance(g, T) and not I.assume(s2, g)):
                            live = False
                            break
                    if not live:
                        continue
                    n += 1
                    sh2 = resolve_at(I, s2, subst(sh, m), reg, cache)
                    st2 = resolve_at(I, s2, subst(step, m), reg, cache)
                    fs = fields(sh2, names)
                    for f, w in names.items():
                        x = fs.get(f)
                        if x is not None and x[0] == "box":
                            want = BOXES.get(vty)
                            R.ob("a property is read back as the kind of value it was built from", want == x[1],
                                 "%s of %s read as %s" % (key, vty, x[1]), fn.name)
                            x = x[2]
                        e = expected(w, exps)
                        R.ob(R_FIELD, x is not None and shows(I, s2, x, e),
                             "%s: field %s is %s, expected %s" % (key, f, str(x)[:120], e), fn.name)
                    R.ob(R_LEN, yes(I, s2, eq(st2, total)) and yes(I, st, eq(st2, total)),
                         "%s: built up to %s, read up to %s" % (key, str(total)[:80], str(st2)[:80]), fn.name)
                R.ob("what is built can be read, in one way", n == n0 + 1, "%s<%s>: %d readings" % (key, vty, n - n0), fn.name)
            R.ob("every builder function can complete", n > 0, "%s<%s>" % (key, vty), fn.name)
            R.stats["builder paths"] = R.stats.get("builder paths", 0) + n


def fresh_run(ctx):
    P = ctx.prog("nifty_asset_types")
    I = SolInterp(P)
    I.ext_types = ctx.ext_types
    I.opaque_get = False
    builder_setup(I)
    st = State()
    for t in (LPRE, CLEN):
        I.assume(st, le(0, t))
    return P, I, st


SELF = mk("ref", mk("cell", -5, ()), None)


def child_facts(I, st):
    """What every constraint builder guarantees about the bytes it returns."""
    I.assume(st, le(8, CLEN))
    I.assume(st, lt(CLEN, 1 << 32))
    I.assume(st, eq(mk("ld", CHILD, 4, 4), sub(CLEN, 8)))


def C26_more(ctx, R):
    P = ctx.prog("nifty_asset_types")
    # creators: fixed-size entries
    fn = P.by_path[EXTB + "creators::CreatorsBuilder::add"][0]
    bt = P.types[fn.locals[1]]["e"]
    fs = P.types[bt]["v"][0]["f"]
    size = None
    for t in P.types:
        if t["k"] == "adt" and t["s"] == EXTB + "creators::Creator":
            size = t["size"]
            offs = {f[0]: (o, P.size(f[1])) for f, o in zip(t["v"][0]["f"], t["v"][0]["o"])}
    cnt = mk("sym", "k", None)
    names = {"address": 0, "verified": 1, "share": 2}
    n = 0
    for combo in combos_of(P, fn):
        P, I, st = fresh_run(ctx)
        # the invariant of the builder: it holds k whole entries
        I.assume(st, le(0, cnt))
        I.assume(st, lt(cnt, 255))
        pre = mulc(cnt, size)
        vals = [vec_value(P, PRE, pre) if P.types[ft]["s"].endswith("vec::Vec<u8>") else cnt for _, ft in fs]
        st.cells[-5] = vals[0] if len(vals) == 1 else mk("agg", bt, 0, tuple(vals))
        for s, _ in I.call(st, fn.id, [SELF] + [a[0] for a in combo]):
            n += 1
            v = s.cells[-5]
            vec = find_vec(v)
            reg, total = vec.a[2]
            R.ob(R_LEN, reg is PRE and yes(I, s, eq(total, add(pre, size))), "creators: %s bytes" % str(total)[:80], fn.name)
            if v.a[2] is not vec.a[2]:
                for x, (_, ft) in zip(v.a[2], fs):
                    if x is not vec:
                        R.ob("the creators builder counts its entries", yes(I, s, eq(x, add(cnt, 1))), str(x)[:80], fn.name)
            for w in s.mem.get(PRE, ()):
                R.ob(R_KEEP, w[0] not in ("loop", "ite") and yes(I, s, le(pre, w[0])), "creators: writes at %s" % str(w[0])[:60], fn.name)
            for f, k in names.items():
                o, z = offs[f]
                R.ob(R_FIELD, shows(I, s, ("ref", PRE, add(pre, o), z), combo[k][2]), "creators: %s" % f, fn.name)
    R.ob("every builder function can complete", n > 0, "creators", fn.name)
    rd = Reader(ctx, "nifty_asset_types", reader_fn(ctx, "Creators"))
    for facts, sh in rd.flat:
        R.ob("creators are read as consecutive entries of their size", sh[0] == "ref" and sh[1] is BUF and sh[2] == 0 and
             (sh[3] is N or sh[3] is mulc(mk("div", N, size), size)), str(sh)[:100], "Creators")
    # royalties: basis points and a nested constraint
    fn = P.by_path[EXTB + "royalties::RoyaltiesBuilder::set"][0]
    rfn, lfn = reader_fn(ctx, "Royalties"), length_fn(ctx, "Royalties")
    n = 0
    for combo in combos_of(P, fn):
        for I, st, selfv, _, exps in call_builder(ctx, fn, LPRE, [combo]):
            child_facts(I, st)
            vec = find_vec(selfv)
            reg, total = vec.a[2]
            for s2, view in I.call(st.fork(), rfn.id, [ref_of(reg, 0, total)]):
                n += 1
                p = type("X", (), {"st": s2})
                f = fields(Shape(type("X", (), {"I": I})).of(p, view, rfn.locals[0]), {"basis_points": 0, "constraint": 1})
                R.ob(R_FIELD, "basis_points" in f and shows(I, s2, f["basis_points"], exps[0]), "royalties: basis points %s" % (f.get("basis_points"),), fn.name)
                c = f.get("constraint")
                x = dict(c[2:]).get("assertable") if c and c[0] == "agg" else None
                x = x[1] if x and x[0] == "val" and isinstance(x[1], T) and x[1].tag == "assertable" else None
                ok = x is not None and x.a[0] is reg and shows(I, s2, ("ref", reg, x.a[1], x.a[2]), ("bytes", CHILD, CLEN))
                R.ob(R_FIELD, ok, "royalties: constraint %s" % str(c)[:120], fn.name)
                s2.cells[-6] = view
                for s3, l in I.call(s2.fork(), lfn.id, [mk("ref", mk("cell", -6, ()), None)]):
                    R.ob(R_LEN, yes(I, s3, eq(l, total)) and yes(I, st, eq(l, total)), "royalties: built %s, length() is %s" % (total, str(l)[:100]), lfn.name)
    R.ob("every builder function can complete", n > 0, "royalties", fn.name)


def C26_ends(ctx, R):
    """Where builders start and what they hand out."""
    P = ctx.prog("nifty_asset_types")
    keep = {"BlobBuilder", "BucketBuilder", "GroupingBuilder", "ManagerBuilder", "MetadataBuilder", "ProxyBuilder", "RoyaltiesBuilder"}
    n = 0
    for path, fns in P.by_path.items():
        m = re.match(r"<?nifty_asset_types::(extensions|constraints)::[a-z_]+::(\w+Builder)( as .*)?::(\w+)$", path)
        if not m:
            continue
        fn, nm, what = fns[0], m.group(2), m.group(4)
        kind = m.group(1)
        if what in ("default", "with_capacity", "with_buffer"):
            P, I, st = fresh_run(ctx)
            args = [] if fn.argc == 0 else [mk("sym", "cap", None)] if what == "with_capacity" else [vec_value(P, PRE, LPRE)]
            for s, v in I.call(st, fn.id, args):
                vec = find_vec(v)
                n += 1
                if not R.ob(R_START, vec is not None, "%s::%s" % (nm, what), fn.name):
                    continue
                reg, total = vec.a[2]
                ok = total == 0 or what == "with_buffer" and nm in keep and total is LPRE
                if kind == "constraints" and not ok:
                    ok = total == 8
                if nm == "GroupingBuilder" and not ok:
                    ok = total == 48 and is_zero(I.load_raw(s, reg, 0, 48))
                if v.a[2] is not vec.a[2]:
                    ok = ok and all(x is vec or x == 0 for x in v.a[2])
                R.ob(R_START, ok, "%s::%s gives %s" % (nm, what, str(v)[:80]), fn.name)
        elif what == "data" and kind == "extensions":
            P, I, st = fresh_run(ctx)
            bt = P.types[fn.locals[1]]["e"]
            st.cells[-5] = builder_self(P, bt, LPRE)
            for s, v in I.call(st, fn.id, [SELF]):
                n += 1
                vec = find_vec(v)
                R.ob(R_DATA, vec is not None and vec.a[2] == (PRE, LPRE) and not s.mem.get(PRE), "%s: %s" % (nm, str(v)[:80]), fn.name)
                left = s.cells[-5]
                lv = find_vec(left)
                ok = lv is not None and (lv.a[2][1] == 0 or lv.a[2] == (PRE, LPRE) and left is st.cells[-5])
                if ok and lv.a[2][1] == 0 and left.a[2] is not lv.a[2]:
                    ok = all(x is lv or x == 0 for x in left.a[2])
                R.ob("a builder whose bytes were taken starts over", ok, "%s: %s" % (nm, str(left)[:80]), fn.name)
        elif what == "deref":
            P, I, st = fresh_run(ctx)
            bt = P.types[fn.locals[1]]["e"]
            st.cells[-5] = builder_self(P, bt, LPRE)
            for s, v in I.call(st, fn.id, [SELF]):
                loc, _ = I.deref(s, v, None)
                x = I.load(s, loc, None)
                R.ob(R_DATA, find_vec(x) is not None and find_vec(x).a[2] == (PRE, LPRE), "%s: %s" % (nm, str(x)[:80]), fn.name)
                n += 1
    R.stats["builder ends"] = n
    R.ob("every builder function can complete", n >= 40, "%d" % n, "builders")


# ------------------------------------------------------------------ C26: constraints
OPS = ["And", "Not", "Or", "OwnedBy", "PubkeyMatch", "Empty"]


def con_fn(ctx, nm, trait, meth):
    P = ctx.prog("nifty_asset_types")
    rx = re.compile(r"<nifty_asset_types::constraints::(?:[a-z_]+::)?%s(<'\w+>)? as nifty_asset_types::constraints::%s(<'\w+>)?>::%s$" % (nm, trait, meth))
    l = [fns[0] for path, fns in P.by_path.items() if rx.match(path)]
    return l[0] if len(l) == 1 else None


R_HDR = "a built constraint starts with its operator and the length of its payload"
R_PAY = "a constraint's payload is what its reader expects, starting right after the operator"


def C26_constraints(ctx, R):
    P = ctx.prog("nifty_asset_types")
    nums = enum_numbers(ctx, "nifty_asset_types", CONB + "OperatorType")
    ops = [n for n in nums]
    R.ob("every operator is known", set(OPS) <= set(ops), str(ops), "OperatorType")
    for nm in ops:
        b = nm + "Builder"
        fn = con_fn(ctx, b, "ConstraintBuilder", "build")
        if not R.ob("every operator has a builder", fn is not None, nm, nm):
            continue
        bt = P.types[fn.locals[1]]["e"]
        n = 0
        for pre, more in ((LPRE, [le(8, LPRE), lt(LPRE, 1 << 32)]), (0, [])):
            P, I, st = fresh_run(ctx)
            for f in more:
                I.assume(st, f)
            st.cells[-5] = builder_self(P, bt, pre)
            for s, v in I.call(st, fn.id, [SELF]):
                n += 1
                vec = find_vec(v)
                if not R.ob(R_HDR, vec is not None, "%s: %s" % (nm, str(v)[:80]), fn.name):
                    continue
                reg, total = vec.a[2]
                want = pre if pre is LPRE else 8
                ok = eq(total, want) == 1 and (reg is PRE or pre == 0)
                op = as_int(I.load_raw(s, reg, 0, 4))
                ln = as_int(I.load_raw(s, reg, 4, 4))
                R.ob(R_HDR, ok and op == nums[nm] and yes(I, s, eq(ln, sub(want, 8))),
                     "%s: operator %s, length %s of %s" % (nm, op, str(ln)[:60], str(total)[:60]), fn.name)
                for w in s.mem.get(reg, ()):
                    R.ob("building keeps the payload", w[0] not in ("loop", "ite") and (
                        eq(w[0], 0) == 1 or pre == 0 or (yes(I, s, le(add(w[0], w[1]), 8)))), "%s writes at %s" % (nm, str(w)[:60]), fn.name)
                left = find_vec(s.cells[-5])
                R.ob("a builder whose bytes were taken starts over", left is not None and (left.a[2][1] == 0 or left.a[2][0] is reg and left.a[2][1] is total),
                     "%s: %s" % (nm, str(s.cells[-5])[:80]), fn.name)
        R.ob("every builder function can complete", n > 0, b, fn.name)
    # payloads
    for nm, meth in (("And", "add"), ("Or", "add"), ("Not", "set")):
        fn = P.by_path[CONB + {"And": "and", "Or": "or", "Not": "not"}[nm] + "::%sBuilder::%s" % (nm, meth)][0]
        bt = P.types[fn.locals[1]]["e"]
        n = 0
        for pre, more in ((LPRE, [le(8, LPRE)]), (0, [])):
            P, I, st = fresh_run(ctx)
            for f in more:
                I.assume(st, f)
            st.cells[-5] = builder_self(P, bt, pre)
            a = arg_values(P, 1, fn.locals[2])[0]
            for s, v in I.call(st, fn.id, [SELF, a[0]]):
                n += 1
                reg, total = find_vec(s.cells[-5]).a[2]
                at_ = 8 if nm == "Not" or pre == 0 else pre
                ok = yes(I, s, eq(total, add(at_, CLEN))) and shows(I, s, ("ref", reg, at_, CLEN), a[2])
                R.ob(R_PAY, ok, "%s from %s: %s bytes, writes %s" % (nm, pre, str(total)[:60], str(s.mem.get(reg))[:120]), fn.name)
                if nm != "Not" and pre is LPRE:
                    for w in s.mem.get(reg, ()):
                        R.ob(R_KEEP, w[0] not in ("loop", "ite") and yes(I, s, le(pre, w[0])), "%s writes at %s" % (nm, str(w[0])[:60]), fn.name)
        R.ob("every builder function can complete", n > 0, nm, fn.name)
    for nm, path in (("OwnedBy", "owned_by::OwnedByBuilder::set"), ("PubkeyMatch", "pubkey_match::PubkeyMatchBuilder::set")):
        fn = P.by_path[CONB + path][0]
        bt = P.types[fn.locals[1]]["e"]
        n = 0
        for pre, more in ((LPRE, [le(8, LPRE)]), (0, [])):
            P, I, st = fresh_run(ctx)
            for f in more:
                I.assume(st, f)
            st.cells[-5] = builder_self(P, bt, pre)
            a1, a2 = arg_values(P, 1, fn.locals[2])[0], arg_values(P, 2, fn.locals[3])[0]
            for f in a1[1] + a2[1]:
                I.assume(st, f)
            cnt = mk("sym", "n2", None)
            for s, v in I.call(st, fn.id, [SELF, a1[0], a2[0]]):
                n += 1
                reg, total = find_vec(s.cells[-5]).a[2]
                acc = shows(I, s, ("ref", reg, 8, 8), a1[2])
                R.ob(R_PAY, acc, "%s: account field %s" % (nm, str(I.load_raw(s, reg, 8, 8))[:60]), fn.name)
                R.ob(R_PAY, keys_ok(I, s, reg, total, a2[2], cnt), "%s: keys %s to %s" % (nm, str(s.mem.get(reg))[:150], str(total)[:60]), fn.name)
        R.ob("every builder function can complete", n > 0, nm, fn.name)
    R.stats["constraint builders"] = len(ops)


def as_int(v):
    v = unwrap(v)
    if isinstance(v, T) and v.tag == "bytes":
        return int.from_bytes(bytes.fromhex(v.a[0]), "little")
    if is_zero(v):
        return 0
    return v


def keys_ok(I, st, reg, total, exp, cnt):
    """The 32-byte keys of the argument stand one after another from offset 16 to the end."""
    src = exp[1]
    ws = st.mem.get(reg, ())
    if eq(total, add(16, mulc(cnt, 32))) == 1:
        if shows(I, st, ("ref", reg, 16, mulc(cnt, 32)), ("bytes", src, mulc(cnt, 32))):
            return True
    if yes(I, st, eq(total, 16)) and yes(I, st, eq(cnt, 0)):
        return True
    inf = I.phis.get(total) if isinstance(total, T) else None
    if not ws or ws[-1][0] != "loop":
        return False
    li = I.loops[ws[-1][1]]
    recs = li["writes"].get(reg, ())
    if len(recs) != 1:
        return False
    o, z, val = recs[0]
    if z != 32 and not (isinstance(z, int) and z == 32):
        return False
    # the position of the k-th key: 16 + 32 k
    idx = None
    for ph in li["phis"]:
        i = I.phis[ph]
        if i["init"] == 0 and all(eq(s, add(ph, 1)) == 1 for s in i["steps"]):
            if isinstance(val, T) and val.tag in ("ld", "slicev") and val.a[0] is src and eq(val.a[1], mulc(ph, 32)) == 1:
                idx = ph
    if idx is None:
        # pointer walk: a phi that steps by 32 from 0 is the source offset
        for ph in li["phis"]:
            i = I.phis[ph]
            if i["init"] == 0 and all(eq(s, add(ph, 32)) == 1 for s in i["steps"]) and isinstance(val, T) and \
                    val.tag in ("ld", "slicev") and val.a[0] is src and val.a[1] is ph:
                idx = ph
    if idx is None:
        return False
    oi = I.phis.get(o)
    if oi is None or oi["init"] != 16 or not all(eq(s, add(o, 32)) == 1 for s in oi["steps"]):
        return False
    end = inf is not None and total is o
    # the loop visits every key
    full = yes(I, st, le(cnt, idx)) or any(f.tag == "p" and f.a[0] == "forall" and f.a[1] is idx and f.a[3] is cnt for f in st.facts)
    return end and full


def C26_readers(ctx, R):
    P = ctx.prog("nifty_asset_types")
    nums = enum_numbers(ctx, "nifty_asset_types", CONB + "OperatorType")
    byname = {v: k for k, v in nums.items()}
    # the common reader picks the reader of the operator's own name, on exactly the payload
    root = con_fn(ctx, "Constraint", "FromBytes", "from_bytes")

    def setup(I):
        for nm in nums:
            f = con_fn(ctx, nm, "FromBytes", "from_bytes")
            if f is not None:
                def h(I, st, fn, args, fr, span, nm=nm):
                    r, o, n = slice_parts(I, st, args[0])
                    return [(st, mk("payload", nm, r, o, n))]
                I.extra[f.path] = h
    run = FnRun(ctx, "nifty_asset_types", root, [ref_of(BUF, 0, N)], setup)
    seen = set()
    for p in run.parts:
        sh = Shape(run).of(p, p.value, root.locals[0])
        f = fields(sh, {"operator": 0, "assertable": 1})
        R.ob("a constraint is read from its operator", f.get("operator", ())[:3] == ("ref", BUF, 0), str(f.get("operator"))[:80], root.name)
        x = f.get("assertable", ("?",))
        v = x[2][1] if x[0] == "box" and x[2][0] == "val" else None
        ops = [t for t in loads_in(p.st.facts, BUF, 4) if t.a[1] == 0]
        num = [k for k in byname if any(p.must(eq(t, k)) for t in ops)]
        nm = byname[num[0]] if len(num) == 1 else None
        seen.add(nm)
        if x[0] == "box" and x[1] == nm and nm == "Empty":
            ok = True
        else:
            ok = x[0] == "box" and isinstance(v, T) and v.tag == "payload" and v.a[0] == nm == x[1] and v.a[1] is BUF and v.a[2] == 8 and \
                p.same(v.a[3], mk("ld", BUF, 4, 4))
        R.ob("an operator is read by the constraint of its own name, on exactly its payload", ok, "%s: %s" % (nm, str(x)[:100]), root.name)
    R.ob("every operator can be read", seen == set(nums), str(sorted(map(str, seen))), root.name)
    # the payload readers
    for nm in ("And", "Or"):
        f = con_fn(ctx, nm, "FromBytes", "from_bytes")
        r = Reader(ctx, "nifty_asset_types", f)
        R.ob("nested constraints are read one after another to the end", r.is_list and not r.problems, "%s: %s" % (nm, r.problems[:2]), f.name)
        for facts, sh, step in r.items:
            d = fields(sh, {"operator": 0, "assertable": 1})
            ok = d.get("operator", ())[:3] == ("ref", BUF, CUR) and eq(step, add(add(CUR, 8), mk("ld", BUF, add(CUR, 4), 4))) == 1
            R.ob("nested constraints are read one after another to the end", ok, "%s: %s step %s" % (nm, str(d.get("operator"))[:60], str(step)[:60]), f.name)
    f = con_fn(ctx, "Not", "FromBytes", "from_bytes")
    r = Reader(ctx, "nifty_asset_types", f)
    for facts, sh in r.flat:
        d = fields(sh, {"operator": 0, "assertable": 1})
        R.ob("nested constraints are read one after another to the end", d.get("operator", ())[:3] == ("ref", BUF, 0), "Not: %s" % str(sh)[:80], f.name)
    for nm, lst in (("OwnedBy", "owners"), ("PubkeyMatch", "pubkeys")):
        f = con_fn(ctx, nm, "FromBytes", "from_bytes")
        r = Reader(ctx, "nifty_asset_types", f)
        n = 0
        for facts, sh in r.flat:
            n += 1
            d = fields(sh, {"account": 0, lst: 1})
            other = [v for k, v in d.items() if k != "account"]
            ok = d.get("account", ())[:4] == ("ref", BUF, 0, 8) and len(other) == 1 and other[0][:3] == ("ref", BUF, 8) and \
                (eq(other[0][3], sub(N, 8)) == 1 or other[0][3] is mulc(mk("div", sub(N, 8), 32), 32))
            R.ob("an account constraint is read as its account and then its keys", ok, "%s: %s" % (nm, str(d)[:200]), f.name)
        R.ob("every operator can be read", n > 0, nm, f.name)


R_SER = "a constraint serializes to the bytes it was read from"


def C26_serial(ctx, R):
    """as_bytes gives back the operator, then the payload in the reader's order."""
    import bytevec
    P = ctx.prog("nifty_asset_types")
    root = CONB + "Constraint::<'a>::as_bytes"
    rfn = P.by_path.get(root, [None])[0] or con_fn(ctx, "Constraint", "Assertable", "as_bytes")

    def nested(I, st, loc):
        n = mk("clen", loc)
        I.assume(st, le(0, n))
        return [(st, mk("agg", bytevec.vec_ty(I), 0, (mk("vbuf", mk("cbytes", loc)), n)))]

    def h(I, st, fn, args, fr, span):
        return nested(I, st, I.deref(st, args[0], None)[0])

    def hv(I, st, args, dty, fr, span):
        return nested(I, st, I.deref(st, args[0], None)[0])
    K = mk("sym", "k", None)

    def go(fn, root_opaque, val):
        def setup(I):
            bytevec.enable(I)
            if root_opaque:
                I.extra[root] = h
                f = con_fn(ctx, "Constraint", "Assertable", "as_bytes")
                if f is not None:
                    I.extra[f.path] = h
            I.virtual[CONB + "Assertable::as_bytes"] = hv

        def args(I, st):
            st.cells[-5] = val
            I.assume(st, le(0, K))
            return [SELF]
        run = FnRun(ctx, "nifty_asset_types", fn, args, setup)
        out = []
        for p in run.parts:
            for q in alternatives(p):
                v = find_vec(q.value)
                if v is None and isinstance(q.value, T) and q.value.tag == "vec" and not q.value.a[0]:
                    v = mk("agg", 0, 0, (mk("vbuf", "none"), 0))
                if R.ob(R_SER, v is not None, "%s gives %s" % (fn.name, str(q.value)[:80]), fn.name):
                    out.append((run, q, v.a[2][0], v.a[2][1]))
        R.ob("every builder function can complete", bool(out), fn.name, fn.name)
        return out
    stride = None
    for t in P.types:
        if t["k"] == "adt" and re.sub("<.*", "", t["s"]) == CONSTRAINT:
            stride = t["size"]
    for nm in enum_numbers(ctx, "nifty_asset_types", CONB + "OperatorType"):
        fn = con_fn(ctx, nm, "Assertable", "as_bytes")
        if not R.ob(R_SER, fn is not None, nm, nm):
            continue
        sty = P.types[fn.locals[1]]["e"]
        sv = mk("sym", "self", sty)
        fs = P.types[sty]["v"][0]["f"]
        if nm in ("OwnedBy", "PubkeyMatch"):
            sv = mk("agg", sty, 0, tuple(ref_of(BUF, 0) if f[0] == "account" else ref_of(BUF, 8, K) for f in fs))
        for run, p, reg, total in go(fn, True, sv):
            I, st = run.I, p.st
            if nm in ("OwnedBy", "PubkeyMatch"):
                a = unwrap(I.load_raw(st, reg, 0, 8))
                ok = p.must(eq(total, add(8, mulc(K, 32)))) and a is mk("ld", BUF, 0, 8) and \
                    (p.must(eq(K, 0)) or keys_from(I, p, reg, K, total))
            elif nm == "Empty":
                ok = p.must(eq(total, 0))
            elif nm == "Not":
                ok = whole_of(I, st, reg, total, lambda l: True)
            else:
                ok = appended(run, p, reg, total, mk("obj", sv), mk("len", sv), stride)
            R.ob(R_SER, ok, "%s: %s bytes, %s" % (nm, str(total)[:60], str(st.mem.get(reg))[:160]), fn.name)
    sty = P.types[rfn.locals[1]]["e"]
    vals = []
    for f in P.types[sty]["v"][0]["f"]:
        vals.append(ref_of(BUF, 0) if f[0] == "operator" else mk("sym", "assertable", f[1]))
    for run, p, reg, total in go(rfn, False, mk("agg", sty, 0, tuple(vals))):
        I, st = run.I, p.st
        w = [x for x in st.mem.get(reg, ()) if isinstance(x[2], T) and x[2].tag == "slicev" and cbytes(x[2].a[0])]
        op = I.load_raw(st, reg, 0, 8)
        ok = len(w) == 1 and p.must(eq(w[0][0], 8)) and w[0][1] is w[0][2].a[2] and eq(total, add(8, w[0][1])) == 1 and \
            isinstance(op, T) and op.tag in ("ld", "slicev") and op.a[0] is BUF and op.a[1] == 0
        R.ob(R_SER, ok, "Constraint: %s bytes, %s" % (str(total)[:60], str(st.mem.get(reg))[:160]), rfn.name)


def cbytes(r):
    """The nested constraint whose serialization a byte region is."""
    return r.a[0].a[0] if isinstance(r, T) and r.tag == "vbuf" and isinstance(r.a[0], T) and r.a[0].tag == "cbytes" else None


def whole_of(I, st, reg, total, loc_ok):
    ws = st.mem.get(reg, ())
    if not ws and cbytes(reg) is not None:
        return total is mk("clen", cbytes(reg)) and loc_ok(cbytes(reg))
    if len(ws) != 1 or not eq(ws[0][0], 0) == 1:
        return False
    c = ws[0][2]
    return isinstance(c, T) and c.tag == "slicev" and cbytes(c.a[0]) and c.a[1] == 0 and c.a[2] is total and \
        total is mk("clen", cbytes(c.a[0])) and loc_ok(cbytes(c.a[0]))


def keys_from(I, p, reg, K, total):
    n = mulc(K, 32)
    c = I.load_raw(p.st, reg, 8, n)
    if isinstance(c, T) and c.tag in ("slicev", "ld") and c.a[0] is BUF and c.a[1] == 8 and eq(c.a[2], n) == 1 and (len(c.a) < 4 or not c.a[3]):
        return True
    return False


def appended(run, p, reg, total, region, count, stride):
    """The region is the concatenation of every element's bytes, in order."""
    I = run.I
    if p.must(eq(count, 0)) or p.must(le(count, 0)):
        return p.must(eq(total, 0))
    ws = p.st.mem.get(reg, ())
    if not ws or ws[-1][0] != "loop" or any(w[0] != "loop" for w in ws) or len(ws) != 1:
        return False
    li = I.loops[ws[0][1]]
    recs = li["writes"].get(reg, ())
    if len(recs) != 1:
        return False
    o, z, val = recs[0]
    oi = I.phis.get(o)
    if not (isinstance(val, T) and val.tag == "slicev" and cbytes(val.a[0]) and val.a[1] == 0 and val.a[2] is z):
        return False
    loc = cbytes(val.a[0])
    if z is not mk("clen", loc) or total is not o or oi is None or oi["init"] != 0 or not all(eq(s, add(o, z)) == 1 for s in oi["steps"]):
        return False
    if not (loc.tag == "mem" and loc.a[0] is region):
        return False
    for ph in li["phis"]:
        inf = I.phis[ph]
        if inf["init"] == 0 and all(isinstance(s, T) and eq(s, add(ph, 1)) == 1 for s in inf["steps"]) and \
                eq(loc.a[1], mulc(ph, stride)) == 1:
            return p.must(le(count, ph))
    return False


# ------------------------------------------------------------------ C25: evaluation
PASS, FAIL, ERR = 0, 1, 2


def outcomes(ctx):
    """Handler: the result of a nested constraint is one of pass, failure, error."""
    root = con_fn(ctx, "Constraint", "Assertable", "assert")
    rt = root.locals[0]
    nums = enum_numbers(ctx, "nifty_asset_types", CONB + "Assertion")

    def result(I, st, loc):
        o = mk("outcome", loc)
        out = []
        for k in (PASS, FAIL, ERR):
            s = st.fork()
            if I.assume(s, eq(o, k)):
                v = {PASS: nums["Pass"], FAIL: nums["Failure"]}.get(k)
                out.append((s, mk("agg", rt, 0, (v,)) if k != ERR else mk("agg", rt, 1, (mk("errof", loc),))))
        return out

    def h(I, st, fn, args, fr, span):
        return result(I, st, I.deref(st, args[0], None)[0])

    def hv(I, st, args, dty, fr, span):
        return result(I, st, I.deref(st, args[0], None)[0])

    def setup(I):
        I.extra[root.path] = h
    return setup, hv, nums


def verdict(nums, v):
    """PASS, FAIL, ERR (with the error) or None."""
    if isinstance(v, T) and v.tag == "agg" and v.a[1] == 0 and len(v.a[2]) == 1:
        x = v.a[2][0]
        return {nums["Pass"]: (PASS, None), nums["Failure"]: (FAIL, None)}.get(x if isinstance(x, int) else None)
    if isinstance(v, T) and v.tag == "agg" and v.a[1] == 1:
        return ERR, v.a[2][0]
    return None


def inner_alts(p):
    """Split a result whose payload is a conditional."""
    v = p.value
    if isinstance(v, T) and v.tag == "agg" and len(v.a[2]) == 1 and isinstance(v.a[2][0], T) and v.a[2][0].tag == "ite":
        x = v.a[2][0]
        out = []
        for lit, y in ((x.a[0], x.a[1]), (neg(x.a[0]), x.a[2])):
            q = p.given(lit)
            if q is not None:
                q.value = mk("agg", v.a[0], v.a[1], (y,))
                out += inner_alts(q)
        return out
    return [p]


def outs_in(facts):
    return [t for t in subterms(frozenset(facts)) if t.tag == "outcome"]


def in_list(run, p, loc, count, region, stride):
    """loc is element k of the list, with 0 <= k < count."""
    if not (loc.tag == "mem" and loc.a[0] is region):
        return False
    off = loc.a[1]
    c, d = lin_parts(off) if isinstance(off, T) else (off, {})
    if isinstance(off, int):
        return off % stride == 0 and p.must(lt(off // stride, count))
    d = dict(d)
    if c % stride or len(d) != 1:
        return False
    (ph, k), = d.items()
    inf = run.I.phis.get(ph)
    if k != stride or inf is None:
        return False
    return p.must(lt(add(ph, c // stride), count))


def all_elements(run, p, count, region, stride, k):
    """Every element's outcome was k (and all were examined)."""
    if p.must(eq(count, 0)):
        return True
    for lid in run.I.loops:
        li = run.I.loops[lid]
        for ph in li["phis"]:
            inf = run.I.phis[ph]
            if inf["init"] != 0 or not inf["steps"] or not all(isinstance(s, T) and eq(s, add(ph, 1)) == 1 for s in inf["steps"]):
                continue
            if not p.must(le(count, ph)):
                continue
            o = mk("outcome", mk("mem", region, mulc(ph, stride)))
            if all(sub_part(run, fs).must(eq(o, k)) for fs in li["backs"]):
                return True
    return False


def C25_combine(ctx, R):
    P = ctx.prog("nifty_asset_types")
    setup, hv, nums = outcomes(ctx)
    LIST = mk("list")
    CNT = mk("sym", "count", None)
    stride = None
    for t in P.types:
        if t["k"] == "adt" and re.sub("<.*", "", t["s"]) == CONSTRAINT:
            stride = t["size"]
    for nm, stop, rest in (("And", FAIL, PASS), ("Or", PASS, FAIL)):
        fn = con_fn(ctx, nm, "Assertable", "assert")
        st_ty = P.types[fn.locals[1]]["e"]

        def args(I, st):
            st.cells[-5] = mk("sym", "self", st_ty)
            st.cells[-6] = mk("sym", "ctx", P.types[fn.locals[2]]["e"])
            return [SELF, mk("ref", mk("cell", -6, ()), None)]
        run = FnRun(ctx, "nifty_asset_types", fn, args, setup)
        sv = mk("sym", "self", st_ty)
        region, count = mk("obj", sv), mk("len", sv)
        seen = set()
        for p0 in run.parts:
            for p in inner_alts(p0):
                vd = verdict(nums, p.value)
                where = fn.name
                if not R.ob("a combination gives pass, failure or an error", vd is not None, "%s: %s" % (nm, str(p.value)[:80]), where):
                    continue
                k, e = vd
                seen.add(k)
                outs = outs_in(p.st.facts)
                if k == ERR:
                    ok = isinstance(e, T) and e.tag == "errof" and p.must(eq(mk("outcome", e.a[0]), ERR)) and \
                        in_list(run, p, e.a[0], count, region, stride)
                    R.ob("an error of a part is reported as that error", ok, "%s: %s" % (nm, str(e)[:80]), where)
                elif k == stop:
                    ok = any(p.must(eq(o, stop)) and in_list(run, p, o.a[0], count, region, stride) for o in outs)
                    R.ob("%s only when one of its parts does" % ("a conjunction fails" if nm == "And" else "a disjunction passes"), ok,
                         "%s: %s" % (nm, [str(f)[:80] for f in p.st.facts][:4]), where)
                else:
                    R.ob("%s only when all of its parts do" % ("a conjunction passes" if nm == "And" else "a disjunction fails"),
                         all_elements(run, p, count, region, stride, rest),
                         "%s: %s" % (nm, [str(f)[:80] for f in p.st.facts][:4]), where)
        # no part's failure (for And: pass) is skipped without being the result
        for lid, li in run.I.loops.items():
            for fs in li["backs"]:
                q = sub_part(run, fs)
                for o in outs_in(fs):
                    R.ob("evaluation goes on only after a part that does not settle the result", q.must(eq(o, rest)),
                         "%s: %s" % (nm, [str(f)[:60] for f in fs][:4]), fn.name)
        R.ob("a combination can pass, fail and report an error", seen == {PASS, FAIL, ERR}, "%s: %s" % (nm, seen), fn.name)
    # negation
    fn = con_fn(ctx, "Not", "Assertable", "assert")

    def args(I, st):
        st.cells[-5] = mk("sym", "self", P.types[fn.locals[1]]["e"])
        st.cells[-6] = mk("sym", "ctx", P.types[fn.locals[2]]["e"])
        return [SELF, mk("ref", mk("cell", -6, ()), None)]
    run = FnRun(ctx, "nifty_asset_types", fn, args, setup)
    seen = set()
    for p0 in run.parts:
        for p in inner_alts(p0):
            vd = verdict(nums, p.value)
            outs = outs_in(p.st.facts)
            ok = vd is not None and len(outs) == 1
            if ok:
                seen.add(vd[0])
                ok = p.must(eq(outs[0], {PASS: FAIL, FAIL: PASS, ERR: ERR}[vd[0]])) and \
                    (vd[0] != ERR or vd[1] is mk("errof", outs[0].a[0]))
            R.ob("a negation passes exactly when its part fails, and reports its error", ok, str(p.value)[:80], fn.name)
    R.ob("a combination can pass, fail and report an error", seen == {PASS, FAIL, ERR}, "Not: %s" % seen, fn.name)
    # the empty constraint
    fn = con_fn(ctx, "Empty", "Assertable", "assert")
    run = FnRun(ctx, "nifty_asset_types", fn, args, setup)
    for p in run.parts:
        R.ob("the empty constraint always passes", verdict(nums, p.value) == (PASS, None), str(p.value)[:80], fn.name)
    R.ob("the empty constraint always passes", len(run.parts) > 0, "no result", fn.name)
    # a constraint evaluates its own operator
    fn = con_fn(ctx, "Constraint", "Assertable", "assert")

    def only_virtual(I):
        I.virtual[CONB + "Assertable::assert"] = hv
    run = FnRun(ctx, "nifty_asset_types", fn, args, only_virtual)
    seen = set()
    for p0 in run.parts:
        for p in inner_alts(p0):
            vd = verdict(nums, p.value)
            outs = outs_in(p.st.facts)
            ok = vd is not None and len(outs) == 1 and p.must(eq(outs[0], vd[0])) and (vd[0] != ERR or vd[1] is mk("errof", outs[0].a[0]))
            if vd:
                seen.add(vd[0])
            R.ob("a constraint evaluates to what its operator evaluates to", ok, str(p.value)[:80], fn.name)
    R.ob("a combination can pass, fail and report an error", seen == {PASS, FAIL, ERR}, "Constraint: %s" % seen, fn.name)


WHO = ["Asset", "Authority", "Recipient"]


def keyed(f):
    """A disjunction worth splitting: between outcomes, not about a single element."""
    return f.tag == "disj" and f.a[0] is None


def C25_accounts(ctx, R):
    P = ctx.prog("nifty_asset_types")
    _, _, nums = outcomes(ctx)
    acc = enum_numbers(ctx, "nifty_asset_types", CONB + "Account")
    K = mk("sym", "k", None)

    def setup(I):
        def key(I, st, args, dty, fr, span):
            return [(st, ref_of(mk("tkey", target(I, st, args[0])), 0))]

        def owner(I, st, args, dty, fr, span):
            return [(st, ref_of(mk("towner", target(I, st, args[0])), 0))]

        def empty(I, st, args, dty, fr, span):
            return [(st, mk("eq", mk("tempty", target(I, st, args[0])), 1))]
        I.virtual[CONB + "Target::key"] = key
        I.virtual[CONB + "Target::owner"] = owner
        I.virtual[CONB + "Target::is_empty"] = empty

    def target(I, st, r):
        loc, _ = I.deref(st, r, None)
        return loc.a[0].a[0] if loc.tag == "mem" and loc.a[0].tag == "target" else mk("?", loc)

    for nm, what in (("OwnedBy", "towner"), ("PubkeyMatch", "tkey")):
        fn = con_fn(ctx, nm, "Assertable", "assert")
        sty = P.types[fn.locals[1]]["e"]
        cty = P.types[fn.locals[2]]["e"]
        seen = set()
        for rec, who in ((r, w) for r in (0, 1) for w in WHO):
            def args(I, st):
                fs = P.types[sty]["v"][0]["f"]
                st.cells[-5] = mk("agg", sty, 0, tuple(ref_of(BUF, 0) if f[0] == "account" else ref_of(BUF, 8, K) for f in fs))
                cf = P.types[cty]["v"][0]["f"]
                vals = []
                for f in cf:
                    t = mk("ref", mk("mem", mk("target", f[0].capitalize()), 0), mk("vt", f[1]))
                    if P.types[f[1]]["k"] == "adt":
                        t = mk("agg", f[1], rec, (t,) if rec else ())
                    vals.append(t)
                st.cells[-6] = mk("agg", cty, 0, tuple(vals))
                I.assume(st, le(0, K))
                return [SELF, mk("ref", mk("cell", -6, ()), None)]
            sel = mk("ld", BUF, 0, 8)
            run = FnRun(ctx, "nifty_asset_types", fn, args, setup, facts=[eq(sel, acc[who])])
            for p0 in run.parts:
                for p in (q for x in inner_alts(p0) for q in x.cases(keyed)):
                    vd = verdict(nums, p.value)
                    if not R.ob("an account constraint gives pass, failure or an error", vd is not None,
                                "%s: %s for %s" % (nm, str(p.value)[:60], who), fn.name):
                        continue
                    seen.add((who, vd[0]))
                    if vd[0] == ERR:
                        R.ob("an account constraint is in error only when its account is missing", who == "Recipient" and rec == 0,
                             "%s: error for %s" % (nm, who), fn.name)
                        continue
                    R.ob("a constraint on a missing account is an error", not (who == "Recipient" and rec == 0), nm, fn.name)
                    val = mk("ld", mk(what, who), 0, 32)
                    emp = mk("eq", mk("tempty", who), 1)
                    listed = [f for f in p.st.facts if f.tag == "eq" and listed_key(run, p, f, val, K)]
                    if vd[0] == PASS:
                        R.ob("%s passes only for a listed %s of the selected account" % (nm, "owner" if what == "towner" else "address"),
                             bool(listed), "%s on %s: %s" % (nm, who, [str(f)[:80] for f in p.st.facts][:4]), fn.name)
                        if what == "towner":
                            R.ob("an account without data is owned by nobody", p.must(neg(emp)), "%s on %s" % (nm, who), fn.name)
                    else:
                        ok = none_listed(run, p, val, K) or what == "towner" and p.must(emp)
                        R.ob("%s fails only when no listed key matches" % nm, ok, "%s on %s: %s" % (nm, who, [str(f)[:80] for f in p.st.facts][:4]), fn.name)
        want = {(w, k) for w in WHO for k in (PASS, FAIL)} | {("Recipient", ERR)}
        R.ob("every account can be selected, and pass or fail", seen == want, "%s: missing %s, extra %s" % (nm, sorted(want - seen), sorted(seen - want)), fn.name)


def key_load(t):
    return isinstance(t, T) and t.tag == "ld" and t.a[0] is BUF and t.a[2] == 32 and t.a[1] is not None


def listed_key(run, p, f, val, K):
    a, b = f.a
    if b is val:
        a, b = b, a
    if a is not val or not key_load(b):
        return False
    off = sub(b.a[1], 8)
    if isinstance(off, int):
        return off % 32 == 0 and p.must(lt(off // 32, K))
    c, d = lin_parts(off)
    d = dict(d)
    if c % 32 or len(d) != 1:
        return False
    (ph, k), = d.items()
    return k == 32 and p.must(lt(add(ph, c // 32), K))


def none_listed(run, p, val, K):
    if p.must(eq(K, 0)):
        return True
    for lid in run.I.loops:
        li = run.I.loops[lid]
        for ph in li["phis"]:
            inf = run.I.phis[ph]
            if inf["init"] != 0 or not inf["steps"] or not all(isinstance(s, T) and eq(s, add(ph, 1)) == 1 for s in inf["steps"]):
                continue
            if not p.must(le(K, ph)):
                continue
            el = mk("ld", BUF, add(8, mulc(ph, 32)), 32)
            if all(sub_part(run, fs).must(ne(el, val)) for fs in li["backs"]):
                return True
    return False


def C25_targets(ctx, R):
    """What the program hands to a constraint as an account's address, owner and emptiness."""
    P = ctx.prog("asset_program")
    fns = {}
    for path, l in P.by_path.items():
        m = re.match(r"<(.*) as nifty_asset_types::constraints::Target>::(key|owner|is_empty)$", path)
        if m:
            fns.setdefault(m.group(1), {})[m.group(2)] = l[0]
    R.ob("the program's accounts can be constrained", bool(fns), str(list(fns)), "Target")
    for ty, d in fns.items():
        for what, fn in d.items():
            R.stats["targets"] = R.stats.get("targets", 0) + 1
            sty = P.types[fn.locals[1]]["e"]

            def args(I, st):
                st.cells[-5] = mk("agg", sty, 0, (ref_of(ACCOUNTS, 8),))
                return [SELF]
            run = FnRun(ctx, "asset_program", fn, args)
            R.ob("an account's %s can be read" % what, bool(run.parts), ty, fn.name)
            for p in run.parts:
                for q in alternatives(p):
                    v = q.value
                    if what == "is_empty":
                        ok = v is eq(dl(1), 0) or v == 1 and q.must(eq(dl(1), 0)) or v == 0 and q.must(ne(dl(1), 0))
                    else:
                        ok = False
                        if isinstance(v, T) and v.tag == "ref":
                            x = run.I.load_raw(q.st, v.a[0].a[0], v.a[0].a[1], 32) if v.a[0].tag == "mem" else None
                            ok = x is (key(1) if what == "key" else own(1))
                    R.ob("a constraint sees the account's own %s" % what, ok, "%s: %s" % (ty, str(v)[:100]), fn.name)
    R.notes.append("targets: %s" % sorted(fns))


# ------------------------------------------------------------------ registration
PER = {}
ONCE = {"C17": {"lookups": C17_lookups, "queries": C17_queries, "views": C17_views},
        "C25": {"combine": C25_combine, "accounts": C25_accounts, "targets": C25_targets},
        "C26": {"flat": C26_flat, "lists": C26_lists, "more": C26_more, "ends": C26_ends, "constraints": C26_constraints,
                "readers": C26_readers, "serial": C26_serial}}

_AI = "Abstract interpretation of the type-checked MIR of the current source tree (no execution, no solver). "
EXPLAIN = {
    "C17": _AI + "Every lookup of the types library, instantiated for every extension type, is interpreted over an account of "
           "unknown bytes; each result must be the region a canonical walk (first header at the end of the fixed header, next at "
           "the recorded boundary) selects, and read-only and mutable views are compared field by field.",
    "C25": _AI + "Each constraint evaluator is interpreted with nested constraints replaced by an arbitrary outcome (pass, failure, "
           "error) and accounts by arbitrary addresses and owners; loops are summarised with their exit and back-edge facts.",
    "C26": _AI + "Each builder call is interpreted on a builder holding an unknown number of bytes with unknown arguments; the "
           "reader of the same extension is then evaluated on the symbolic bytes built, and every field must show the argument it "
           "was built from and the reader must stop where the builder stopped."}
ASSUME = {
    "C17": ["extension boundaries recorded in an account do not point before their own data (established by C18, C19, C21)"],
    "C25": ["the bytes of a constraint were produced by a builder or validated (C14, C26)"],
    "C26": ["strings behind a one-byte length prefix are at most 255 bytes long, and total lengths stay below 2^32",
            "builder arguments own memory that does not overlap the builder"]}
