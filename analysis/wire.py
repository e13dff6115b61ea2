"""Wire formats: what a borsh encoder writes and a borsh decoder reads, extracted from their MIR.

Encoders and decoders of structs are interpreted in place (a struct has no bytes of its own); those of
strings, vectors, options and enumerations are kept as one opaque piece each, and the enumerations are
analysed on their own, variant by variant."""
import re

from models import *  # noqa
import bytevec

SER = re.compile(r"^<.* as borsh::ser::BorshSerialize>::serialize$")
DE = re.compile(r"^<.* as borsh::de::BorshDeserialize>::deserialize_reader$")
PRIMS = ("u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "bool")


def is_struct(P, ty):
    t = P.types[ty]
    return t["k"] == "adt" and t.get("ak") == "struct" and not re.match(r"^(alloc|std|core|kaigan)::", t["s"]) and not t["s"].startswith("solana_program::pubkey::")


def self_ty(P, fn):
    """The type an encoder or decoder is for."""
    if SER.search(fn.path):
        return P.types[fn.locals[1]]["e"]
    return P.types[fn.locals[0]]["args"][0]


def enable(I, inside=()):
    """Make every encoder/decoder of a non-struct type (outside `inside`) one opaque piece."""
    bytevec.enable(I)
    base = I.model_for
    I.de_count = 0

    def model_for(fn):
        if SER.search(fn.path) and fn.locals:
            ty = self_ty(I.p, fn)
            if ty not in inside and not is_struct(I.p, ty):
                return opaque_ser
        elif DE.search(fn.path) and fn.locals:
            ty = self_ty(I.p, fn)
            if ty not in inside and not is_struct(I.p, ty):
                return opaque_de
        return base(fn)
    I.model_for = model_for


def unit_result(I, fn):
    t = fn.locals[0]
    return mk("agg", t, 0, (mk("agg", I.p.types[t]["args"][0], 0, ()),))


def opaque_ser(I, st, fn, args, fr, span):
    ty = self_ty(I.p, fn)
    w = args[1]
    for _ in range(3):
        loc, _x = I.deref(st, w, None)
        v = I.load(st, loc, None)
        if isinstance(v, T) and v.tag == "ref":
            w = v
            continue
        break
    loc, _x = I.deref(st, args[0], None)
    val = I.load(st, loc, ty)
    loc, v, r, n = bytevec.parts_of(I, st, w)
    size = I.p.size(ty) if I.p.types[ty]["s"] in PRIMS else None
    c = mk("wire", ty, val)
    ln = size if size is not None else mk("wlen", c)
    if size is None:
        I.assume(st, le(0, ln))
    bytevec.write(I, st, r, n, ln, c, span)
    bytevec.put(I, st, loc, v, r, add(n, ln))
    return [(st, unit_result(I, fn))]


def opaque_de(I, st, fn, args, fr, span):
    """Reading a piece: succeeds with a value named after its position, or fails."""
    ty = self_ty(I.p, fn)
    k = sum(1 for e in st.effects() if e[0] == "read")
    tag = getattr(I, "de_tag", None)
    if k == 0 and tag is not None and I.p.types[ty]["s"] == "u8":
        val = tag
    else:
        val = mk("sym", "de%d" % k, ty)
    bad = st.fork()
    st.effect("read", ty, val)
    out = [(st, mk("agg", fn.locals[0], 0, (val,)))]
    bad.effect("readerr")
    out.append((bad, mk("agg", fn.locals[0], 1, (mk("sym", "ioerr", None),))))
    return out


# ------------------------------------------------------------------ schemas
def norm(name):
    return re.sub(r"[_\s]", "", name).lower()


def short(s):
    return re.sub(r"<.*", "", s).split("::")[-1]


class Codec:
    """Schemas of one crate's types as encoded ('ser') or decoded ('de')."""

    def __init__(self, ctx, crate, way):
        self.ctx, self.crate, self.way = ctx, crate, way
        self.P = ctx.prog(crate)
        self.cache = {}
        self.problems = []

    def fn_for(self, ty):
        rx = SER if self.way == "ser" else DE
        for path, l in self.P.by_path.items():
            if rx.search(path):
                for f in l:
                    if f.locals and self_ty(self.P, f) == ty:
                        return f
        return None

    def schema(self, ty):
        if ty in self.cache:
            return self.cache[ty]
        self.cache[ty] = ("rec", short(self.P.types[ty]["s"]))
        self.cache[ty] = r = self._schema(ty)
        return r

    def _schema(self, ty):
        P, t = self.P, self.P.types[ty]
        s = t["s"]
        if s in PRIMS:
            return s
        if s == "alloc::string::String":
            return "string"
        if s.startswith("alloc::vec::Vec<"):
            e = t["args"][0]
            return "bytes" if P.types[e]["s"] == "u8" else ("vec", self.schema(e))
        if s.startswith("core::option::Option<"):
            return ("option", self.schema(t["args"][0]))
        if t["k"] == "array":
            return ("array", self.schema(t["e"]), t["n"])
        if s.startswith("solana_program::pubkey::Pubkey"):
            return ("array", "u8", 32)
        m = re.match(r"^kaigan::types::\w+::(U(\d+))?(Remainder|Prefix)(Vec|Str|String)\b", s)
        if m:
            e = self.schema(t["args"][0]) if m.group(4) == "Vec" else "string"
            return ("rest", e) if m.group(3) == "Remainder" else ("sized", "u" + m.group(2), ("rest", e))
        if t["k"] != "adt":
            return ("?", s)
        fn = self.fn_for(ty)
        if fn is None:
            return ("none", short(s))
        if t.get("ak") == "struct":
            return ("struct", short(s), self.struct(ty, fn))
        return ("enum", short(s), self.enum(ty, fn))

    # -- structs: the ordered pieces, with the fields they come from / go to
    def struct(self, ty, fn):
        from p_types import FnRun
        if self.way == "ser":
            v = mk("sym", "self", ty)
            return self.one(self.ser_pieces(ty, fn, v), ty, v)
        run = self.de_run(fn, None)
        l = self.de_alternatives(run, ty, 0)
        return l[0] if len(l) == 1 else (("?", "%d readings of %s" % (len(l), short(self.P.types[ty]["s"]))),)

    def one(self, l, ty, v):
        if len(l) != 1 or l[0] is None:
            return (("?", "%d encodings of %s" % (len(l), short(self.P.types[ty]["s"]))),)
        return tuple((self.field_of(ty, v, val) if not isinstance(val, int) else "=%d" % val, self.schema(t) if t is not None else "u8")
                     for t, val in l[0])

    def field_of(self, ty, v, val, pre=""):
        """Name of the (nested) field whose value is val."""
        P = self.P
        for vi, var in enumerate(P.types[ty]["v"]):
            for k, (nm, ft) in enumerate(var["f"]):
                for x in [sfield(v, vi, k)] + ([v] if len(var["f"]) == 1 else []):
                    if x is val and not is_struct(P, ft):
                        return nm
                    if is_struct(P, ft):
                        r = self.field_of(ft, x, val, pre + nm + ".")
                        if r is not None:
                            return nm if r.isdigit() else r
        return None

    def ser_pieces(self, ty, fn, val):
        from p_types import FnRun, SELF
        W = mk("cell", -7, ())

        def args(I, st):
            st.cells[-5] = val
            st.cells[-7] = bytevec.new_vec(I, st)
            return [SELF, mk("ref", W, None)]
        run = FnRun(self.ctx, self.crate, fn, args, lambda I: enable(I, (ty,)))
        out = []
        for p in run.parts:
            v = p.value
            if isinstance(v, T) and v.tag == "agg" and v.a[1] == 1:
                continue
            vec = p.st.cells.get(-7)
            out.append(pieces(run.I, p.st, vec))
        return out

    def de_run(self, fn, tag):
        from p_types import FnRun

        def args(I, st):
            st.cells[-7] = mk("sym", "reader", None)
            I.de_tag = tag
            return [mk("ref", mk("cell", -7, ()), None)]
        ty = self_ty(self.P, fn)
        return FnRun(self.ctx, self.crate, fn, args, lambda I: enable(I, (ty,)))

    def de_alternatives(self, run, ty, skip):
        """For every successful reading: the pieces in reading order with their destination fields."""
        out = []
        for p in run.parts:
            v = p.value
            if not (isinstance(v, T) and v.tag == "agg" and v.a[1] == 0):
                continue
            x = v.a[2][0]
            reads = [e for e in p.effs if e[0] == "read"][skip:]
            l = []
            for e in reads:
                l.append((self.dest_of(ty, x, e[2]), self.schema(e[1])))
            l = tuple(l)
            if l not in out:
                out.append(l)
        return out

    def dest_of(self, ty, v, val):
        P = self.P
        if not (isinstance(v, T) and v.tag == "agg"):
            t = P.types[ty]
            one = t["k"] == "adt" and t.get("ak") == "struct" and len(t["v"][0]["f"]) == 1
            return t["v"][0]["f"][0][0] if one and v is val else None
        if v.a[0] != ty:
            # a struct of one field is represented by that field
            t = P.types[ty]
            if t["k"] == "adt" and len(t["v"]) == 1 and len(t["v"][0]["f"]) == 1:
                nm, ft = t["v"][0]["f"][0]
                if v is val:
                    return nm
                return outer(nm, self.dest_of(ft, v, val)) if P.types[ft]["k"] == "adt" else None
            return None
        var = P.types[ty]["v"][v.a[1]]
        for (nm, ft), x in zip(var["f"], v.a[2]):
            if x is val:
                return nm
            if P.types[ft]["k"] == "adt":
                r = self.dest_of(ft, x, val)
                if r is not None:
                    return outer(nm, r)
        return None

    # -- enumerations
    def enum(self, ty, fn):
        P, t = self.P, self.P.types[ty]
        out = []
        if self.way == "ser":
            for k, var in enumerate(t["v"]):
                clike = all(not x["f"] for x in t["v"])
                val = int(var["d"]) if clike else mk("agg", ty, k, tuple(mk("sym", "f:" + f[0], f[1]) for f in var["f"]))
                l = self.ser_pieces(ty, fn, val)
                if len(l) != 1 or not l[0] or not isinstance(l[0][0][1], int):
                    out.append(("?", var["n"], (("?", str(l)[:80]),)))
                    continue
                fs = []
                for pt, pv in l[0][1:]:
                    nm = None
                    for f in var["f"]:
                        sv = mk("sym", "f:" + f[0], f[1])
                        if is_struct(P, f[1]):
                            nm = nm or self.field_of(f[1], sv, pv)
                        elif pv is sv:
                            nm = f[0]
                    fs.append((nm if not isinstance(pv, int) else "=%d" % pv, self.schema(pt) if pt is not None else "u8"))
                out.append((l[0][0][1], var["n"], tuple(fs)))
            return tuple(sorted(out, key=str))
        n = len(t["v"])
        for tag in list(range(n + 2)) + [127, 128, 255]:
            run = self.de_run(fn, tag)
            for p in run.parts:
                v = p.value
                if not (isinstance(v, T) and v.tag == "agg" and v.a[1] == 0):
                    continue
                x = v.a[2][0]
                if isinstance(x, int):
                    var = [y for y in t["v"] if int(y["d"]) == x]
                    nm = var[0]["n"] if var else "?"
                elif isinstance(x, T) and x.tag == "agg":
                    nm = t["v"][x.a[1]]["n"]
                else:
                    nm = "?"
                reads = [e for e in p.effs if e[0] == "read"][1:]
                fs = tuple((self.dest_of(ty, x, e[2]), self.schema(e[1])) for e in reads)
                if (tag, nm, fs) not in out:
                    out.append((tag, nm, fs))
        return tuple(sorted(out, key=str))


def outer(nm, r):
    """A tuple struct's only field goes by the name of the field that holds it."""
    return nm if r is not None and r.isdigit() else r


def sfield(v, vi, k):
    if isinstance(v, T) and v.tag == "agg":
        return v.a[2][k] if v.a[1] == vi and k < len(v.a[2]) else None
    return mk("fld", v, vi, k)


def pieces(I, st, vec):
    """[(type or None, value)] of a byte vector that is a sequence of whole pieces, else None."""
    if not (isinstance(vec, T) and vec.tag == "agg" and len(vec.a[2]) == 2):
        return None
    reg, total = vec.a[2]
    return pieces_of(I, st, reg, st.mem.get(reg, ()), total)


def pieces_of(I, st, reg, ws, total):
    at, out = 0, []
    for w in ws:
        if w[0] in ("loop", "ite"):
            return None
        o, n, c = w
        if eq(o, at) != 1:
            return None
        l = piece(I, st, c, n)
        if l is None:
            return None
        out += l
        at = add(at, n)
    return out if eq(at, total) == 1 else None


def piece(I, st, c, n):
    if isinstance(c, int):
        return [(None, (c >> (8 * k)) & 255) for k in range(n)] if isinstance(n, int) else None
    if isinstance(c, T):
        if c.tag == "wire":
            if I.p.types[c.a[0]]["s"] in ("u8", "bool") and isinstance(c.a[1], int):
                return [(None, c.a[1])]
            return [(c.a[0], c.a[1])]
        if c.tag == "bytes":
            return [(None, b) for b in bytes.fromhex(c.a[0])]
        if c.tag == "le" and isinstance(c.a[1], int):
            return [(None, (c.a[1] >> (8 * k)) & 255) for k in range(c.a[0])]
        if c.tag == "slicev" and c.a[1] == 0:
            return pieces_of(I, st, c.a[0], c.a[3], c.a[2])
        if n == 1:
            return [(None, c)]
    return None


# ------------------------------------------------------------------ comparison
def flat(fields):
    """Inline nested structs: [(normalised name or None, schema)]."""
    out = []
    for nm, s in fields:
        if isinstance(s, tuple) and s and s[0] == "struct":
            out += flat(s[2])
        else:
            out.append((nm, s))
    return out


def clean(nm):
    return None if nm is None or nm.isdigit() else norm(nm)


def differ(a, b, where=""):
    """First difference between two schemas as text, or None."""
    if isinstance(a, tuple) and a and a[0] == "struct" or isinstance(b, tuple) and b and b[0] == "struct":
        fa = flat(a[2]) if isinstance(a, tuple) and a[0] == "struct" else [(None, a)]
        fb = flat(b[2]) if isinstance(b, tuple) and b[0] == "struct" else [(None, b)]
        return differ_fields(fa, fb, where)
    if isinstance(a, str) or isinstance(b, str):
        if a == ("vec", "u8"):
            a = "bytes"
        if b == ("vec", "u8"):
            b = "bytes"
        return None if a == b else "%s: %s / %s" % (where, sname(a), sname(b))
    if a[0] == "rec" or b[0] == "rec":
        return None if norm(a[1]) == norm(b[1]) else "%s: %s / %s" % (where, a[1], b[1])
    if a[0] == "named" or b[0] == "named":
        return None if a[0] in ("named", "enum") and b[0] in ("named", "enum") and norm(a[1]) == norm(b[1]) else "%s: %s / %s" % (where, sname(a), sname(b))
    if a[0] != b[0]:
        return "%s: %s / %s" % (where, sname(a), sname(b))
    if a[0] in ("vec", "option", "rest"):
        return differ(a[1], b[1], where)
    if a[0] == "sized":
        return differ(a[2], b[2], where) or (None if a[1] == b[1] else "%s: length prefixes %s / %s" % (where, a[1], b[1]))
    if a[0] == "array":
        return differ(a[1], b[1], where) or (None if a[2] == b[2] else "%s: lengths %s / %s" % (where, a[2], b[2]))
    if a[0] == "enum":
        da, db = {}, {}
        for d, s in ((da, a), (db, b)):
            for tag, nm, fs in s[2]:
                if tag in d:
                    return "%s: %s has two readings of %s" % (where, s[1], tag)
                d[tag] = (nm, fs)
        for tag in sorted(set(da) | set(db), key=str):
            if tag not in da or tag not in db:
                return "%s: %s: number %s is %s / %s" % (where, a[1], tag, da.get(tag, ("nothing",))[0], db.get(tag, ("nothing",))[0])
            if norm(da[tag][0]) != norm(db[tag][0]):
                return "%s: %s: number %s is %s / %s" % (where, a[1], tag, da[tag][0], db[tag][0])
            r = differ_fields(flat(da[tag][1]), flat(db[tag][1]), "%s: %s::%s" % (where, a[1], da[tag][0]))
            if r:
                return r
        return None
    return "%s: %s / %s" % (where, sname(a), sname(b))


def differ_fields(fa, fb, where):
    if len(fa) != len(fb):
        return "%s: %s / %s" % (where, [(n, sname(s)) for n, s in fa], [(n, sname(s)) for n, s in fb])
    for (na, sa), (nb, sb) in zip(fa, fb):
        ca, cb = clean(na), clean(nb)
        if ca is not None and cb is not None and ca != cb:
            return "%s: field %s / %s" % (where, na, nb)
        r = differ(sa, sb, "%s %s" % (where, na or nb or ""))
        if r:
            return r
    return None


def sname(s):
    if isinstance(s, str):
        return s
    if s[0] in ("vec", "option", "array"):
        return "%s(%s)" % (s[0], sname(s[1]))
    return "%s %s" % (s[0], s[1])


def broken(s):
    """A part of the schema that could not be established."""
    if isinstance(s, str):
        return None
    if s and s[0] in ("?", "none"):
        return str(s)[:120]
    for x in s:
        if isinstance(x, tuple):
            r = broken(x)
            if r:
                return r
        elif x is None:
            return str(s)[:120]
    return None
