"""Rule C36: the client's extension descriptions, as bytes the program's readers understand."""
from p_macro import *  # noqa
from p_tables import view_schema, norm  # noqa
from p_types import ref_of, SELF  # noqa
import models

M = "nifty_asset::mint::"


def read_file(I, st, fn, args, fr, span):
    """The file the description names: unknown bytes, or an error."""
    rt = fn.locals[0] if fn.locals else I.dty
    path = args[0]
    st.effect("file", path)
    ok = mk("agg", rt, 0, (mk("agg", bytevec.vec_ty(I), 0, (mk("vbuf", mk("file")), mk("sym", "filelen", None))),))
    s = st.fork()
    I.assume(st, le(0, mk("sym", "filelen", None)))
    return [(st, ok), (s, mk("agg", rt, 1, (mk("sym", "ioerr", None),)))]


def same_value(I, st, fn, args, fr, span):
    return [(st, args[0])]


def flat_map(I, st, fn, args, fr, span):
    """`flat_map` over a known list: the elements' bytes, one after another."""
    it = args[0]
    if not (isinstance(it, T) and it.tag == "viter" and isinstance(it.a[0], T) and it.a[0].tag == "vec" and isinstance(it.a[2], int)):
        return NotImplemented
    cl = [t for t in fn.targs or () if isinstance(t, int) and I.p.types[t]["k"] == "closure"]
    fd = [t for t in fn.targs or () if isinstance(t, int) and I.p.types[t]["k"] == "fndef" and "inst" in I.p.types[t]]
    body = I.p.by_path.get(I.p.types[cl[0]].get("def")) if cl else [I.p.fns[I.p.types[fd[0]]["inst"]]] if fd else None
    if not body:
        return NotImplemented
    states = [(st, bytevec.new_vec(I, st))]
    for x in it.a[0].a[0][it.a[1]:it.a[2]]:
        nxt = []
        for s, acc in states:
            I.nbox = getattr(I, "nbox", 0) + 1
            env = args[1]
            if cl and I.p.types[body[0].locals[1]]["k"] == "ref":
                s.cells[-1000 - I.nbox] = env
                env = mk("ref", mk("cell", -1000 - I.nbox, ()), None)
            for s2, v in I.call(s, body[0].id, [env, x] if cl else [x]):
                b = buf(v)
                if b is None:
                    return NotImplemented
                bytevec.splice(I, s2, acc.a[2][0], acc.a[2][1], b[0], b[1], span)
                nxt.append((s2, mk("agg", acc.a[0], 0, (acc.a[2][0], add(acc.a[2][1], b[1])))))
        states = nxt
    return [(s, mk("flat", v)) for s, v in states]


def collect(I, st, fn, args, fr, span):
    if isinstance(args[0], T) and args[0].tag == "flat":
        return [(st, args[0].a[0])]
    return models.m_collect(I, st, fn, args, fr, span)


def json_setup(I):
    bytevec.enable(I)
    I.extra["core::iter::traits::iterator::Iterator::flat_map"] = flat_map
    I.extra["core::iter::traits::iterator::Iterator::collect"] = collect
    I.extra["std::fs::read"] = read_file
    I.extra["<std::path::PathBuf as core::convert::From<alloc::string::String>>::from"] = same_value
    I.extra["<std::path::PathBuf as core::convert::From<&T>>::from"] = same_value


def fields_of(P, ty):
    return P.types[ty]["v"][0]["f"]


def sym_struct(P, ty, tag):
    """A value of a struct type whose fields are free: (value, {field: (value, type)})."""
    vals = {n: (mk("sym", "%s.%s" % (tag, n), t), t) for n, t in fields_of(P, ty)}
    return mk("agg", ty, 0, tuple(vals[n][0] for n, _t in fields_of(P, ty))), vals


def value_of(P, ety, var, payload):
    for i, v in enumerate(P.types[ety]["v"]):
        if v["n"] == var:
            return mk("agg", ety, i, (payload,))
    return None


class Pieces:
    """The writes of an appended buffer, taken one after another."""

    def __init__(self, p, reg, total):
        self.p = p
        self.ws = [w for w in p.st.mem.get(reg, ()) if w[0] == "loop" or w[1] != 0]
        self.i = 0
        self.pos = 0
        self.total = total
        self.bad = None

    def take(self, size):
        if self.i >= len(self.ws):
            return None
        w = self.ws[self.i]
        if w[0] == "loop" or not self.same(w[0], self.pos) or size is not None and not self.same(w[1], size):
            return None
        self.i += 1
        self.pos = add(self.pos, w[1])
        return w

    def same(self, a, b):
        return sub(a, b) == 0 or self.p.must(eq(a, b))

    def done(self):
        return self.i == len(self.ws) and self.same(self.pos, self.total)


def bytes_of(v):
    """What stands behind a piece: (term, whole) with encoders removed."""
    v = unwrap(v)
    while isinstance(v, T) and v.tag in ("wr", "le", "ext0") and len(v.a) > 1:
        v = v.a[1]
    return v


def text_len(x):
    return mk("len", x)


def is_text(w, x):
    """The piece is the whole of text (or file) x."""
    c = w[2]
    if isinstance(c, T) and c.tag == "slicev" and c.a[1] == 0 and not c.a[3]:
        c = c.a[0]
        if isinstance(c, T) and c.tag == "vbuf" and isinstance(c.a[0], T) and c.a[0].tag == "of":
            c = c.a[0].a[0]
        elif isinstance(c, T) and c.tag == "obj":
            c = c.a[0]
    return c is x


def plain_is(w, x):
    c = bytes_of(w[2])
    while isinstance(c, T) and c.tag == "ext" and c.a[1] == 0 and c.a[2] == w[1] == 32:
        c = c.a[0]
    if isinstance(c, T) and c.tag == "agg" and len(c.a[2]) == 1:
        c = c.a[2][0]
    return c is x or isinstance(c, T) and c.tag in ("fld", "ld", "slicev", "obj") and str(c).startswith(str(x) + "[0;") or str(c) == "fld(%s,0,0)" % x


def expect(R, p, q, schema, vals, tag):
    """The next pieces are the value's fields as the reader places them."""
    for name, s in schema[2]:
        v = find_field(vals, name)
        if v is None:
            return False, "the description has no %s" % name
        x = v[0]
        if s == ("sized", "u8", ("rest", "string")):
            w = q.take(1)
            if w is None or not q.same(bytes_of(w[2]), text_len(x)):
                return False, "%s: expected the length of %s, found %s" % (tag, name, str(q.ws[q.i - 1:q.i + 1])[:120])
            w = q.take(text_len(x))
            if (w is None or not is_text(w, x)) and not p.must(eq(text_len(x), 0)):
                return False, "%s: expected the text of %s, found %s" % (tag, name, str(q.ws[q.i - 1:q.i + 1])[:120])
        elif s in ("u8", "bool"):
            w = q.take(1)
            if w is None or not plain_is(w, x):
                return False, "%s: expected %s, found %s" % (tag, name, str(q.ws[q.i - 1:q.i + 1])[:120])
        elif s[0] == "array":
            w = q.take(s[2])
            if w is None or not plain_is(w, x):
                return False, "%s: expected %s, found %s" % (tag, name, str(q.ws[q.i - 1:q.i + 1])[:120])
        else:
            return False, "%s: %s has the form %s" % (tag, name, s)
    return True, None


def find_field(vals, name):
    for k, v in vals.items():
        if norm(k) == norm(name):
            return v
    return None


def text_facts(P, vals):
    out = []
    for x, t in vals.values():
        if P.types[t]["s"].endswith("string::String"):
            out += [le(0, text_len(x)), le(text_len(x), 255)]
    return out


def described(ctx, var, build, facts):
    """Run of `into_data` on one kind of description."""
    P = ctx.prog(CRATE)
    fn = P.by_path[CRATE + "::described"][0]
    ety = fn.locals[1]
    return FnRun(ctx, CRATE, fn, lambda I, st: [value_of(P, ety, var, build)], json_setup, facts)


def variant_ty(P, var):
    ety = P.by_path[CRATE + "::described"][0].locals[1]
    for v in P.types[ety]["v"]:
        if v["n"] == var:
            return v["f"][0][1]
    return None


def result_of(R, run, p, what):
    for name in run.I.unknown:
        R.ob("anchor", False, "call left undecided: %s" % name)
    b = buf(p.value)
    if isinstance(p.value, T) and p.value.tag == "vec" and not p.value.a[0]:
        b = (mk("vbuf", -1), 0)
    if not R.ob("data", b is not None, "%s gives %s" % (what, str(p.value)[:80])):
        return None
    R.stats["abstract success paths"] = R.stats.get("abstract success paths", 0) + 1
    return b


def schema_for(ctx, R, nm):
    s, pb = view_schema(ctx, nm)
    R.ob("anchor", s is not None, "the reader of %s: %s" % (nm, pb))
    return s


def C36_lists(ctx, R):
    if not witness(ctx, R, ("described",)):
        return
    P = ctx.prog(CRATE)
    for var, nm in (("JsonCreator", "Creators"), ("JsonAttribute", "Attributes"), ("JsonLink", "Links")):
        s = schema_for(ctx, R, nm)
        vt = variant_ty(P, var)
        if s is None or not R.ob("anchor", vt is not None, "no description %s" % var):
            continue
        et = P.types[vt]["args"][0]
        for k in range(0, 4 if ctx.tier == "quick" else 9):
            els = [sym_struct(P, et, "e%d" % i) for i in range(k)]
            run = described(ctx, var, mk("vec", tuple(e for e, _v in els)), sum((text_facts(P, v) for _e, v in els), []))
            R.ob("anchor", bool(run.parts), "no result for %s" % var)
            for p in run.parts:
                b = result_of(R, run, p, var)
                if b is None:
                    continue
                q = Pieces(p, b[0], b[1])
                ok, why = True, None
                for i, (_e, v) in enumerate(els):
                    ok, why = expect(R, p, q, s[2][0][1][1], v, "%s %d of %d" % (nm, i + 1, k))
                    if not ok:
                        break
                R.ob("encoding", ok, why)
                R.ob("complete", not ok or q.done(), "%s: %s bytes follow after %d elements" % (nm, str(q.ws[q.i:])[:120], k))


def C36_single(ctx, R):
    if not witness(ctx, R, ("described",)):
        return
    P = ctx.prog(CRATE)
    for var, nm in (("JsonBlob", "Blob"), ("JsonMetadata", "Metadata")):
        s = schema_for(ctx, R, nm)
        vt = variant_ty(P, var)
        if s is None or not R.ob("anchor", vt is not None, "no description %s" % var):
            continue
        val, vals = sym_struct(P, vt, "v")
        run = described(ctx, var, val, text_facts(P, vals))
        R.ob("anchor", bool(run.parts), "no result for %s" % var)
        for p in run.parts:
            b = result_of(R, run, p, var)
            if b is None:
                continue
            q = Pieces(p, b[0], b[1])
            fields = s[2]
            tail = None
            if fields[-1][1] == ("rest", "u8"):
                tail, fields = fields[-1], fields[:-1]
            # a reader that accepts a shorter form shows the missing last fields as empty
            fields = tuple(f for i, f in enumerate(fields) if find_field(vals, f[0]) is not None or i < len(fields) - 1)
            ok, why = expect(R, p, q, ("struct", nm, fields), vals, nm)
            R.ob("encoding", ok, why)
            if tail is not None and ok:
                files = [e[1] for e in p.effs if e[0] == "file"]
                R.ob("file", len(files) == 1 and files[0] is vals["path"][0] if "path" in vals else False, "the data comes from the files %s" % (files,))
                w = q.take(mk("sym", "filelen", None))
                R.ob("file", w is not None and isinstance(w[2], T) and w[2].tag == "slicev" and w[2].a[0] is mk("vbuf", mk("file")) and w[2].a[1] == 0,
                     "the data is %s" % str(w)[:120])
            R.ob("complete", not ok or q.done(), "%s: %s follows" % (nm, str(q.ws[q.i:])[:120]))


def operator(ctx, name):
    for x in ctx.prog("nifty_asset_types").types:
        if x["k"] == "adt" and x.get("def", "").endswith("::OperatorType"):
            for v in x["v"]:
                if v["n"] == name:
                    return int(v.get("d", x["v"].index(v)))
    return None


def C36_royalties(ctx, R):
    """Basis points, then the constraint the builders make of the list."""
    if not witness(ctx, R, ("described",)):
        return
    P = ctx.prog(CRATE)
    vt = variant_ty(P, "JsonRoyalities") or variant_ty(P, "JsonRoyalties")
    if not R.ob("anchor", vt is not None, "no description of royalties"):
        return
    fs = dict(fields_of(P, vt))
    kt = fs["kind"]
    kinds = [v["n"] for v in P.types[kt]["v"]]
    for kind in kinds:
        for k in range(0, 4 if ctx.tier == "quick" else 9):
            keys = [mk("sym", "k%d" % i, P.types[fs["items"]]["args"][0]) for i in range(k)]
            bp = mk("sym", "bp", fs["basis_points"])
            vals = {"kind": kinds.index(kind), "basis_points": bp, "items": mk("vec", tuple(keys))}
            fn = P.by_path[CRATE + "::described"][0]
            var = "JsonRoyalities" if variant_ty(P, "JsonRoyalities") is not None else "JsonRoyalties"
            run = described(ctx, var, mk("agg", vt, 0, tuple(vals[n] for n, _t in fields_of(P, vt))), [])
            R.ob("anchor", bool(run.parts), "no result for %s" % kind)
            for p in run.parts:
                b = result_of(R, run, p, kind)
                if b is None:
                    continue
                reg, total = b
                if not R.ob("complete", isinstance(total, int), "%s of %d: %s bytes" % (kind, k, total)):
                    continue
                R.ob("encoding", bytes_of(p.final(reg, 0, 8)) is bp, "the basis points read %s" % str(p.final(reg, 0, 8))[:80])
                at = 8
                chain = ["PubkeyMatch"] if kind == "Allowlist" else ["Not", "OwnedBy"]
                for op in chain:
                    R.ob("encoding", num(p, reg, at, 4) == operator(ctx, op), "%s of %d: operator %s, not %s" % (kind, k, num(p, reg, at, 4), op))
                    R.ob("encoding", num(p, reg, at + 4, 4) == total - at - 8, "%s of %d: %s bytes of %s declared" % (kind, k, num(p, reg, at + 4, 4), total - at - 8))
                    at += 8
                R.ob("complete", total == at + 8 + 32 * k, "%s of %d: %d bytes" % (kind, k, total))
                for i in range(k):
                    v = p.final(reg, at + 8 + 32 * i, 32)
                    R.ob("encoding", plain_is((0, 32, v), keys[i]), "%s: key %d of %d reads %s" % (kind, i + 1, k, str(v)[:80]))


ONCE = {"C36": {"lists": C36_lists, "blob-and-metadata": C36_single, "royalties": C36_royalties}}
PER = {}
EXPLAIN = {"C36": "The encoders of the client's extension descriptions are abstractly interpreted on free values (free texts, numbers and keys; one run per number "
                  "of elements) and the bytes they append are compared, piece by piece, with the places where the program's own reader of that extension "
                  "takes its fields from (computed from the reader's MIR)."}
ASSUME = {"C36": ["texts of at most 255 bytes (the format has one length byte)", "the file named by a blob description is read whole"]}
