"""Rule C30: where an embedded interface description is stored and where it is looked for."""
from p_types import *  # noqa
from p_tables import one_fn, enum_def, agg_of, variant_name  # noqa
import bytevec
from models import targ

CELL = -5
CRATE = "solana_include_idl"
KIND = "solana_include_idl::parse::IdlType"
EXT = re.compile(r"^(alloc|std|core)::(io|fs|path)::|^(<)?(&'?\w* ?(mut )?)?(goblin|flate2|serde_json|scroll)::|std::io::(Read|Write|BufRead)>|"
                 r"::io::(\w+::)*(Read|Write|BufRead)(>|::)|core::str::converts::from_utf8|^core::str::<impl str>::from_utf8|as core::str::traits::FromStr>::from_str|"
                 r"^alloc::string::String::from_utf8")
ARCHES = ("sbf", "bpf")


def text_ref(b):
    return mk("ref", mk("mem", mk("const", b.hex(), ()), 0), len(b))


def text_of(I, st, v):
    """Bytes of a constant string (reference or owned), or None."""
    if isinstance(v, T) and v.tag == "bytes":
        return bytes.fromhex(v.a[0])
    if isinstance(v, T) and v.tag == "ref":
        n = v.a[1] if isinstance(v.a[1], int) else None
        if n is None:
            if v.a[0].tag != "cell":
                return None
            v = I.load(st, I.deref(st, v, None)[0], None)
            return text_of(I, st, v) if isinstance(v, T) and v.tag != "ref" else None
        x = I.read_slice(st, v, n)
        if n == 0:
            return b""
        if isinstance(x, T) and x.tag == "bytes":
            return bytes.fromhex(x.a[0])
    return None


def case_map(way):
    def f(I, st, fn, args, fr, span):
        x = text_of(I, st, args[0])
        if x is None:
            return [(st, mk("fcall", fn.path, (args[0],)))]
        return [(st, mk("bytes", getattr(x.decode("latin-1"), way)().encode("latin-1").hex()))]
    return f


def content(I, st, a):
    """The value behind a reference to an owned object, else the value."""
    if isinstance(a, T) and a.tag == "ref" and a.a[0].tag == "cell":
        return I.load(st, I.deref(st, a, None)[0], None)
    return a


def opaque(I, st, fn, args, fr, span):
    """A call outside the repository is a function of its arguments; the few that write through a reference do so."""
    vals = tuple(content(I, st, a) for a in args)
    if re.search(r"read_to_(end|string)$", fn.path):
        I.store(st, I.deref(st, args[1], None)[0], None, mk("fcall", fn.path, vals[:1]))
        return [(st, mk("fcall", "status", vals[:1]))]
    if re.search(r"::(write_all|write)$", fn.path):
        st.effect("wrote", fn.path, vals[0], slice_text(I, st, args[1]), span)
        return [(st, mk("fcall", "status", vals))]
    if re.search(r"::fs::write$", fn.path) and len(vals) == 2:
        st.effect("wrote", fn.path, mk("fcall", "std::fs::File::create", (vals[0],)), vals[1], span)
    return [(st, mk("fcall", fn.path, vals))]


def slice_text(I, st, r):
    """(region, offset, length) named by a slice reference."""
    if isinstance(r, T) and r.tag == "ref" and r.a[0].tag == "mem":
        return (r.a[0].a[0], r.a[0].a[1], r.a[1])
    return r


def idl_setup(inner=True):
    def setup(I):
        bytevec.enable(I)
        base = I.model_for

        def model_for(fn):
            if EXT.search(fn.path) and (inner or "FromStr" not in fn.path):
                return opaque
            if fn.path.endswith("::to_lowercase") or fn.path.endswith("::to_ascii_lowercase"):
                return case_map("lower")
            if fn.path.endswith("::to_uppercase") or fn.path.endswith("::to_ascii_uppercase"):
                return case_map("upper")
            return base(fn)
        I.model_for = model_for
    return setup


def fld_of(v, *path):
    """v is the payload fld(fld(x, variant, field)...): return x"""
    for var, i in reversed(path):
        if not (isinstance(v, T) and v.tag == "fld" and v.a[1:] == (var, i)):
            return None
        v = v.a[0]
    return v


def is_call(v, rx):
    return isinstance(v, T) and v.tag == "fcall" and re.search(rx, v.a[0]) is not None


def okv(v):
    """The payload of an opaque Result or Option: the call it came from."""
    if isinstance(v, T) and v.tag == "fld" and v.a[1:] in ((0, 0), (1, 0)):
        return v.a[0]
    return v


def field_at(P, tyname, field):
    for t in P.types:
        if t["k"] == "adt" and t.get("ak") == "struct" and t["s"].split("<")[0] == tyname:
            fs = [f[0] for f in t["v"][0]["f"]]
            if field in fs:
                i = fs.index(field)
                return i, t["v"][0]["o"][i], t["size"]
    return None, None, None


# ------------------------------------------------------------------ the places written
def C30_places(ctx, R):
    P = ctx.prog(CRATE)
    f = one_fn(ctx, CRATE, r"parse::parse_idl_from_program_binary$", R, "parser")
    kinds = enum_def(ctx, CRATE, KIND)
    R.ob("kinds", len(kinds) >= 2, "%s has %d alternatives" % (KIND, len(kinds)))
    if f is None or not kinds:
        return
    run = FnRun(ctx, CRATE, f, [ref_of(BUF, 0, N)], idl_setup())
    R.ob("parser", not run.I.unknown, "calls left undecided: %s" % sorted(run.I.unknown)[:4], f.span)
    found = {"kind": [], "data": []}
    good = [p for p in run.parts if (variant_name(P, p.value) or "") == "Ok"]
    R.ob("parser", bool(good), "the parser never succeeds", f.span)
    for p in good:
        pair = agg_of(agg_of(p.value).a[2][0])
        if pair is None or len(pair.a[2]) != 2:
            R.ob("parser", False, "the result is not a kind and a description: %s" % (p.value,), f.span)
            continue
        for role, v in zip(("kind", "data"), pair.a[2]):
            for facts, x in origins(run, v, p.st.facts):
                if (facts, x) not in found[role]:
                    found[role].append((facts, x))
    sh = "goblin::elf::section_header::SectionHeader"
    iname, oname, stride = field_at(P, sh, "sh_name")
    iof, oof, _ = field_at(P, sh, "sh_offset")
    ihd, _, _ = field_at(P, "goblin::elf::Elf", "section_headers")
    istr, _, _ = field_at(P, "goblin::elf::Elf", "shdr_strtab")
    if not R.ob("parser:elf", None not in (oname, oof, ihd, istr), "the ELF types do not have the fields read", f.span):
        pass
    R.stats["places the parser reads"] = sum(map(len, found.values()))
    sections, scans = {}, []
    for role, l in found.items():
        R.ob("parser:" + role, bool(l), "no origin found for the %s" % role, f.span)
        for facts, x in l:
            src, why = source(run.I, role, x)
            if not R.ob("decode:" + role, src is not None, why, f.span):
                continue
            # slice of the binary: address in the low word, length in the second word
            r, off, n = src
            R.ob("slice:" + role, r is BUF, "the %s is not taken from the binary: %s" % (role, r), f.span)
            at, ln = place(off), place(n)
            if not R.ob("slice:" + role, at is not None and ln is not None,
                        "address or length of the %s is not read from the section: %s, %s" % (role, off, n), f.span):
                continue
            base = sub(at[0], 4)
            ok = at[1] in (4,) and ln[1] in (8, 4) and ln[0] is add(base, 8)
            R.ob("slice:" + role, ok, "the address is read at +%s (%s bytes) and the length at +%s (%s bytes) of %s; a loaded reference holds its "
                 "relocated address in the upper half of the first word and its length in the second"
                 % (4, at[1], sub(ln[0], base), ln[1], base), f.span)
            hdr = header(base, ihd, oof, stride, f)
            if not R.ob("slice:" + role, hdr is not None, "%s is not the file offset of a section" % (base,), f.span):
                continue
            elf, idx = hdr
            R.ob("slice:" + role, is_call(elf, r"goblin::elf::Elf.*::parse$") and len(elf.a[1]) == 1 and
                 elf.a[1][0] is ref_of(BUF, 0, N), "the sections are not those of the given binary: %s" % (elf,), f.span)
            names = set()
            for fact in facts:
                if not (isinstance(fact, T) and fact.tag == "eq"):
                    continue
                a, b = fact.a[:2]
                for c, o in ((a, b), (b, a)):
                    if isinstance(c, T) and c.tag == "bytes":
                        n_ = len(c.a[0]) // 2
                        if isinstance(o, T) and o.tag == "pointee" and (o.a[1] == n_ or eq(mk("len", o.a[0]), n_) in facts):
                            o = o.a[0]                # the bytes of a text of that length
                        g = okv(o)
                        if is_call(g, r"Strtab.*::get_at$"):
                            tab, at_ = g.a[1]
                            h2 = header(at_, ihd, oname, stride, f)
                            t2 = fld_of(tab, (0, istr)) if isinstance(tab, T) else None
                            if h2 is not None and h2 == (elf, idx) and t2 is not None and okv(t2) is elf:
                                names.add(bytes.fromhex(c.a[0]).decode("latin-1"))
            R.ob("name:" + role, len(names) == 1, "the section of the %s is selected by %s" % (role, sorted(names) or "no constant name"), f.span)
            sections.setdefault(role, set()).update(names)
            if len(names) == 1:
                ph = [y for y in run.I.phis if any(s_ is not y and any(z is x or agg_of(z) is not None and x in agg_of(z).a[2] for z, _f in splits(s_, frozenset()))
                                                   for s_ in run.I.phis[y]["steps"])]
                scans.append((role, ph, elf, idx, names.copy().pop()))
    scanned(R, run, scans, ihd, istr, oname, stride, f)
    # what the macro writes
    n = 0
    for arch in ARCHES:
        for k in sorted(kinds):
            try:
                W = ctx.prog("idl_witness_%s_%s" % (arch, k.lower()))
            except Exception as e:
                R.ob("stored", False, "include_idl! does not expand for %s on %s: %s" % (k, arch, e))
                continue
            stored = ("description of kind " + k).encode()
            stat = {}
            for path, sec, ty, alloc, kept, _fixed in W.statics:
                stat[sec] = (path, ty, alloc, kept)
            for role in ("kind", "data"):
                n += 1
                sec = sections.get(role, set())
                got = stat.get(next(iter(sec))) if len(sec) == 1 else None
                if not R.ob("stored:" + role, got is not None, "for %s on %s the %s is looked for in %s, but the macro stores sections %s"
                            % (k, arch, role, sorted(sec), sorted(map(str, stat))), f.span):
                    continue
                path, ty, alloc, kept = got
                R.ob("stored:kept", bool(kept), "%s may be dropped by the linker" % path, f.span)
                val = pointed(alloc)
                R.ob("stored:layout", val is not None, "%s is not stored as a reference followed by a length: %s" % (path, str(alloc)[:200]), f.span)
                if val is not None and role == "data":
                    R.ob("stored:data", val == stored, "%s holds %r, not the file's content" % (path, val[:40]), f.span)
                if val is not None and role == "kind":
                    t = name_of_kind(ctx, R, k, kinds[k])
                    R.ob("stored:kind", val == t, "%s holds %r for kind %s whose name is %r" % (path, val, k, t), f.span)
    R.stats["stored sections compared"] = n


def scanned(R, run, scans, ihd, istr, oname, stride, f):
    """The scan of the headers leaves out none, and takes every section of the name looked for."""
    I = run.I
    for role, phs, elf, idx, name in scans:
        c, d = lin_parts(idx)
        if c % stride or len(d) != 1 or len(phs) != 1:
            continue                                  # not a scan of the headers one by one
        (pos, k), = d.items()
        inf = I.phis.get(pos)
        if inf is None or k != stride:
            continue
        R.ob("scan:" + role, inf["init"] == 0 and c == 0 and all(s is add(pos, 1) for s in inf["steps"]),
             "the sections are not looked at one after the other from the first: %s, then %s" % (inf["init"], [str(s)[:60] for s in inf["steps"]][:3]), f.span)
        # the name of the header looked at
        hits = set()
        for x in I.phis[phs[0]]["facts"]:
            for fact in x:
                for t in subterms(fact):
                    if is_call(t, r"Strtab.*::get_at$") and header(t.a[1][1], ihd, oname, stride, f) == (elf, idx):
                        hits.add(t)
        R.ob("scan:" + role, len(hits) == 1, "the name of the section is read in %d ways" % len(hits), f.span)
        if len(hits) != 1:
            continue
        g = hits.pop()
        text = mk("fld", g, 1, 0)
        want = mk("bytes", name.encode("latin-1").hex())
        same = [eq(mk("discr", g), 1), eq(mk("len", text), len(name)), eq(want, text), eq(want, mk("pointee", text, len(name))),
                eq(want, mk("pointee", text, mk("len", text)))]
        y = phs[0]
        n = 0
        for s, fs in zip(I.phis[y]["steps"], I.phis[y]["facts"]):
            for s2, f2 in splits(s, frozenset(fs)):
                n += 1
                if s2 is not y:
                    continue
                R.ob("taken:" + role, not possible(I, [l for l in same if isinstance(l, T)] + list(f2)), "a section named %s can be passed over" % name, f.span)
        R.stats["scan steps"] = R.stats.get("scan steps", 0) + n
        # a scan that did not see everything has found both
        hv = fld_headers(idx, elf, ihd)
        for p in run.parts:
            if not any(t is pos for fact in p.st.facts for t in subterms(fact)):
                continue
            if (variant_name(I.p, p.value) or "") == "Ok":
                continue
            failed = any(isinstance(t, T) and t.tag == "eq" and isinstance(t.a[0], T) and t.a[0].tag == "discr" and is_call(t.a[0].a[0], r"serde_json|from_utf8|FromStr|^status$")
                         and t.a[1] == 1 for t in p.st.facts)
            R.ob("scan:" + role, failed or p.must(le(mk("len", hv), pos)), "the scan gives up before the last section", f.span)


def fld_headers(idx, elf, ihd):
    return mk("fld", mk("fld", elf, 0, 0), 0, ihd)


def possible(I, lits, depth=0):
    """Whether a state in which all the literals hold is left, looking into alternatives."""
    st = State()
    alts = []
    for l in lits:
        if isinstance(l, T) and l.tag == "disj":
            if not (isinstance(l.a[0], T)):
                alts.append(l)
        elif not I.assume(st, l):
            return False
    if not alts or depth > 6:
        return True
    rest = [l for l in lits if l is not alts[0]]
    return any(possible(I, rest + list(c), depth + 1) for c in alts[0].a[1])


def origins(run, v, facts):
    """Where a value may come from: (facts, payload) through loop joins and alternatives."""
    out, seen, todo = [], set(), [(frozenset(facts), v)]
    while todo:
        fs, x = todo.pop()
        if (id(fs), x) in seen:
            continue
        seen.add((id(fs), x))
        if isinstance(x, T) and x.tag == "ite":
            todo += [(fs | {x.a[0]}, x.a[1]), (fs | {neg(x.a[0])}, x.a[2])]
            continue
        y = x
        if isinstance(x, T) and x.tag == "fld" and x.a[1:] == (1, 0):
            y = x.a[0]
        if isinstance(y, T) and y.tag == "phi" and y in run.I.phis:
            inf = run.I.phis[y]
            for s, f in list(zip(inf["steps"], inf["facts"])) + [(inf["init"], frozenset(facts))]:
                if s is y:
                    continue
                for s2, f2 in splits(s, f):
                    if s2 is y:
                        continue
                    if isinstance(s2, T) and s2.tag == "agg" and y is not x:
                        if s2.a[1] == 1 and s2.a[2]:
                            todo.append((frozenset(f2), s2.a[2][0]))
                    elif y is not x:
                        todo.append((frozenset(f2), mk("fld", s2, 1, 0)))
                    else:
                        todo.append((frozenset(f2), s2))
            continue
        if isinstance(y, T) and y.tag == "agg" and y is not x:
            if y.a[1] == 1 and y.a[2]:
                todo.append((fs, y.a[2][0]))
            continue
        out.append((fs, x))
    return out


def splits(v, facts):
    if isinstance(v, T) and v.tag == "ite":
        return splits(v.a[1], facts | {v.a[0]}) + splits(v.a[2], facts | {neg(v.a[0])})
    return [(v, facts)]


def place(v):
    """(offset in the binary, size) of a loaded word, looking through a widening."""
    if isinstance(v, T) and v.tag == "ld" and v.a[0] is BUF:
        return v.a[1], v.a[2]
    return None


def header(v, ihd, off, stride, f):
    """v is read at `off` of entry i of the section headers of an ELF: (elf value, i)"""
    if not (isinstance(v, T) and v.tag == "ld" and isinstance(v.a[0], T) and v.a[0].tag == "obj"):
        return None
    elf = fld_of(v.a[0].a[0], (0, ihd))
    if elf is None:
        return None
    return okv(elf), sub(v.a[1], off)


def source(I, role, x):
    """The slice of the binary a kind or description is decoded from."""
    x0 = x
    x = okv(x)
    if role == "kind":
        if not is_call(x, r"IdlType as core::str::traits::FromStr>::from_str$"):
            return None, "the kind is not read by its own conversion: %s" % (x0,)
        s = x.a[1][0]
        for _ in range(6):
            r = slice_of(s)
            if r is not None and r[0] is BUF:
                return r, ""
            y = inner_obj(s)
            y = okv(y) if y is not None else okv(s)
            if is_call(y, r"from_utf8(_lossy|_unchecked)?$"):
                s = y.a[1][0]
                continue
            break
        return None, "the kind's name is not the stored bytes: %s" % (s,)
    if not is_call(x, r"serde_json::(de::)?from_(slice|str|reader)$"):
        return None, "the description is not read as JSON: %s" % (x0,)
    s = x.a[1][0]
    if not is_call(s, r"Decoder.*::new$"):
        y = inner_obj(s)
        if y is None or not is_call(y, r"read_to_(end|string)$"):
            return None, "the description is not all of the decoder's output: %s" % (s,)
        r = slice_of(s)
        if not (r[1] == 0 and r[2] is mk("len", y)):
            return None, "only part of the decoder's output is read: %s" % (s,)
        s = y.a[1][0]
    if not is_call(s, r"^flate2::.*Decoder.*::new$"):
        return None, "the description is not decompressed: %s" % (s,)
    I.idl_decoder = s.a[0]
    r = slice_of(s.a[1][0])
    return (r, "") if r is not None else (None, "the decoder does not read a slice: %s" % (s,))


def slice_of(s):
    if isinstance(s, T) and s.tag == "ref" and s.a[0].tag == "mem":
        return s.a[0].a[0], s.a[0].a[1], s.a[1]
    return None


def inner_obj(s):
    r = slice_of(s)
    if r is None or not isinstance(r[0], T):
        return None
    y = r[0]
    while isinstance(y, T) and y.tag in ("obj", "vbuf", "of") and len(y.a) == 1:
        y = y.a[0]
    return y


def pointed(alloc):
    """Bytes behind a stored (reference, length) pair: reference in the first word, length in the second."""
    if alloc.get("len") != 16 or len(alloc.get("rel", [])) != 1:
        return None
    at, tgt = alloc["rel"][0]
    m = bytes.fromhex(alloc["m"])
    n = int.from_bytes(m[8:16], "little")
    off = int.from_bytes(m[0:8], "little")
    b = bytes.fromhex(tgt["m"])
    return b[off:off + n] if at == 0 and off + n <= len(b) else None


def name_of_kind(ctx, R, k, v):
    f = one_fn(ctx, CRATE, r"parse::IdlType::as_str$", R, "name")
    if f is None:
        return None

    def args(I, st):
        st.cells[CELL] = v
        return [mk("ref", mk("cell", CELL, ()), None)]
    run = FnRun(ctx, CRATE, f, args)
    out = {text_of(run.I, p.st, p.value) for p in run.parts}
    return out.pop() if len(out) == 1 else None


# ------------------------------------------------------------------ names of kinds
def C30_names(ctx, R):
    P = ctx.prog(CRATE)
    kinds = enum_def(ctx, CRATE, KIND)
    R.ob("kinds", len(kinds) >= 2, "%s has %d alternatives" % (KIND, len(kinds)))
    fs = one_fn(ctx, CRATE, r"<solana_include_idl::parse::IdlType as core::str::traits::FromStr>::from_str$", R, "from_str")
    names = {k: name_of_kind(ctx, R, k, v) for k, v in kinds.items()}
    R.stats["kinds"] = len(kinds)
    R.ob("name", all(names.values()), "kinds without a constant name: %s" % [k for k in names if not names[k]])
    R.ob("name", len(set(names.values())) == len(names), "two kinds share a name: %s" % names)
    disp = [f for l in P.by_path.values() for f in l if re.search(r"<solana_include_idl::parse::IdlType as core::fmt::Display>::fmt$", f.path)]
    back = {v: k for k, v in kinds.items()}
    for k, v in kinds.items():
        nm = names[k]
        if not nm:
            continue
        texts = {("as_str", nm)}
        if disp:
            t = shown(ctx, disp[0], v)
            R.ob("display", t is not None, "the displayed text of %s is not decided" % k, disp[0].span)
            R.ob("display", t is None or t == nm, "%s displays as %r but is named %r" % (k, t, nm), disp[0].span)
        if fs is None:
            continue
        for how, t in sorted(texts):
            run = FnRun(ctx, CRATE, fs, [text_ref(t)], idl_setup(inner=False))
            R.ob("from_str", bool(run.parts) and not run.I.unknown, "conversion of %r is not decided: %s" % (t, sorted(run.I.unknown)[:2]), fs.span)
            for p in run.parts:
                n = variant_name(P, p.value)
                got = back.get(as_int(agg_of(p.value).a[2][0])) if n == "Ok" else n
                R.ob("from_str", got == k, "the name %r of %s converts to %s" % (t.decode("latin-1"), k, got), fs.span)


def decode_fmt(b, args):
    """Text of a compiled format template over constant string arguments."""
    out, i, n = b"", 0, 0
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            return out
        if c < 0x80:
            out += b[i:i + c]
            i += c
        elif c == 0xC0:
            if n >= len(args) or args[n] is None:
                return None
            out += args[n]
            n += 1
        else:
            return None
    return None


def shown(ctx, f, v):
    def setup(I):
        base = I.model_for

        def new_display(I, st, fn, args, fr, span):
            x, ty = args[0], targ(I, fn, 0)
            for _ in range(4):
                t = text_of(I, st, x)
                if t is not None:
                    return [(st, mk("shown", t.hex()))]
                if ty is None or not (isinstance(x, T) and x.tag == "ref"):
                    break
                x = I.load(st, I.deref(st, x, None)[0], ty)
                ty = I.p.types[ty].get("e")
            return [(st, mk("shown", None))]

        def arguments(I, st, fn, args, fr, span):
            if len(args) == 1:
                t = text_of(I, st, args[0])
                return [(st, mk("shown", t.hex() if t is not None else None))]
            tpl = template(I, st, args[0])
            l = content(I, st, args[1])
            l = l.a[0] if isinstance(l, T) and l.tag in ("arr", "vec") else (l,)
            xs = [bytes.fromhex(x.a[0]) if isinstance(x, T) and x.tag == "shown" and x.a[0] is not None else None for x in l]
            t = decode_fmt(tpl, xs) if tpl is not None else None
            return [(st, mk("shown", t.hex() if t is not None else None))]

        def write_(I, st, fn, args, fr, span):
            x = args[1]
            t = x.a[0] if isinstance(x, T) and x.tag == "shown" else None
            if t is None:
                b = text_of(I, st, x)
                t = b.hex() if b is not None else None
            st.effect("text", t)
            return [(st, mk("fcall", "status", ()))]

        def model_for(fn):
            if re.search(r"fmt::rt::Argument.*::new_(display|debug)$", fn.path):
                return new_display
            if re.search(r"core::fmt::Arguments.*::(new|new_const|new_v1|from_str|from_str_nonconst)$", fn.path):
                return arguments
            if re.search(r"core::fmt::Formatter.*::(write_fmt|write_str|pad)$|<core::fmt::Formatter.* as core::fmt::Write>::write_(str|fmt)$|"
                         r"<str as core::fmt::Display>::fmt$|<core::fmt::Formatter.* as core::fmt::Write>", fn.path):
                if "str as core::fmt::Display" in fn.path:
                    return lambda I, st, fn, args, fr, span: write_(I, st, fn, args[::-1], fr, span)
                return write_
            return None if fn.path == f.path else base(fn)
        I.model_for = model_for

    def args(I, st):
        st.cells[CELL] = v
        st.cells[CELL - 1] = mk("sym", "formatter", None)
        return [mk("ref", mk("cell", CELL, ()), None), mk("ref", mk("cell", CELL - 1, ()), None)]
    run = FnRun(ctx, CRATE, f, args, setup)
    out = set()
    for p in run.parts:
        ts = [e[1] for e in p.effs if e[0] == "text"]
        out.add("".join(ts) if ts and None not in ts else None)
    out = out.pop() if len(out) == 1 else None
    return bytes.fromhex(out) if out is not None else None


def template(I, st, r):
    if isinstance(r, T) and r.tag == "ref" and r.a[0].tag == "mem" and r.a[0].a[0].tag == "const":
        return bytes.fromhex(r.a[0].a[0].a[0])
    v = content(I, st, r)
    return bytes.fromhex(v.a[0]) if isinstance(v, T) and v.tag == "bytes" else None


# ------------------------------------------------------------------ codec
CODECS = ("zlib", "gz", "deflate")


def codec_of(path):
    m = re.search(r"flate2::(?:(zlib|gz|deflate)::)?(?:write|bufread|read)?(?:::)?(\w+?)(Encoder|Decoder)", path)
    return m.group(2).lower().replace("multigz", "gz") if m else None


def C30_codec(ctx, R):
    P = ctx.prog(CRATE)
    f = one_fn(ctx, CRATE, r"shrink::compress_idl$", R, "compressor")
    g = one_fn(ctx, CRATE, r"parse::parse_idl_from_program_binary$", R, "parser")
    if f is None or g is None:
        return
    SRC, DST = mk("sym", "idl_path", None), mk("sym", "dest_path", None)

    def args(I, st):
        st.cells[CELL], st.cells[CELL - 1] = SRC, DST
        return [mk("ref", mk("cell", CELL, ()), None), mk("ref", mk("cell", CELL - 1, ()), None)]
    run = FnRun(ctx, CRATE, f, args, idl_setup())
    R.ob("compressor", bool(run.parts) and not run.I.unknown, "calls left undecided: %s" % sorted(run.I.unknown)[:4], f.span)
    enc = set()
    for p in run.parts:
        w = [e for e in p.effs if e[0] == "wrote"]
        into_enc = [e for e in w if is_call(unq(e[2]), r"^flate2::")]
        into_file = [e for e in w if is_call(unq(e[2]), r"fs::File::create$|OpenOptions")]
        R.ob("compressor:out", len(into_file) == 1 and len(w) == len(into_enc) + 1,
             "the destination is written %d times" % len(into_file), f.span)
        R.ob("compressor:in", len(into_enc) == 1, "the encoder is fed %d times" % len(into_enc), f.span)
        for e in into_file:
            file = unq(e[2])
            R.ob("compressor:out", file.a[1][0] is DST, "the output goes to %s" % (file.a[1][0],), f.span)
            y = data_source(e[3])
            fin = okv(y) if y is not None else None
            ok = is_call(fin, r"^flate2::.*Encoder.*::finish$") and full(e[3], y)
            R.ob("compressor:out", ok, "the output is not everything the finished encoder produced: %s" % (e[3],), f.span)
            if ok:
                enc.add(codec_of(fin.a[0]))
                for i in into_enc:
                    R.ob("compressor:in", unq(i[2]) is unq(fin.a[1][0]) or i[2] is fin.a[1][0], "the encoder that was fed is not the one finished", f.span)
        for e in into_enc:
            y = data_source(e[3])
            src = y
            ok = is_call(src, r"read_to_(string|end)$") and full(e[3], y) and is_call(okv(src.a[1][0]), r"fs::File::open$") \
                and okv(src.a[1][0]).a[1][0] is SRC
            ok = ok or (is_call(okv(src), r"fs::read(_to_string)?$") and okv(src).a[1][0] is SRC and full(e[3], y))
            R.ob("compressor:in", ok, "the encoder is not fed the whole source file: %s" % (e[3],), f.span)
    prun = FnRun(ctx, CRATE, g, [ref_of(BUF, 0, N)], idl_setup())
    dec = set()
    for inf in list(prun.I.phis.values()):
        for s in inf["steps"]:
            for t in subterms(s):
                if is_call(t, r"^flate2::.*Decoder.*::new$"):
                    dec.add(codec_of(t.a[0]))
    for p in prun.parts:
        for t in subterms(p.value) if isinstance(p.value, T) else ():
            if is_call(t, r"^flate2::.*Decoder.*::new$"):
                dec.add(codec_of(t.a[0]))
    R.stats["encoders and decoders"] = len(enc) + len(dec)
    R.ob("codec", len(enc) == 1 and None not in enc and enc == dec, "descriptions are compressed with %s and decompressed with %s"
         % (sorted(map(str, enc)), sorted(map(str, dec))), g.span)


def unq(v):
    """The call an object came from."""
    return okv(v)


def data_source(d):
    if isinstance(d, tuple):
        y = d[0]
        while isinstance(y, T) and y.tag in ("obj", "vbuf", "of") and len(y.a) == 1:
            y = y.a[0]
        return y
    return d


def full(d, y):
    return not isinstance(d, tuple) or (d[1] == 0 and d[2] is mk("len", y))


def C30_program(ctx, R):
    """The asset program stores the kind under which its own description is published."""
    P = ctx.prog("asset_program")
    names = {name_of_kind(ctx, R, k, v) for k, v in enum_def(ctx, CRATE, KIND).items()}
    vals = [pointed(a) for _p, _s, _t, a, _k, _x in P.statics if a]
    hit = [v for v in vals if v in names]
    R.stats["statics"] = len(vals)
    R.ob("program", len(hit) == 1, "the program stores %d descriptions' kinds" % len(hit))
    R.ob("program", hit == [] or hit[0] == b"codama", "the published description is the codama one but the program records %s" % hit)


ONCE = {"C30": {"places": C30_places, "names": C30_names, "codec": C30_codec, "program": C30_program}}
PER = {}
EXPLAIN = {"C30": "The include_idl! macro is expanded by the compiler with the on-chain configuration for every kind, and the section, the layout and the "
                  "content of each static it defines are read from the compiler's own dump. The parser and the compressor are abstractly interpreted; calls "
                  "into goblin, flate2, serde_json and std are uninterpreted functions, so what is compared is which section name selects which slice of the "
                  "binary, at which offsets address and length are read, which codec handles it, and that nothing is cut off. Names of kinds are tabulated "
                  "over all alternatives. Nothing is executed and no solver is used."}
ASSUME = {"C30": ["the loader format keeps the address of a relocated reference in the upper half of its first word (solana SBF 64-bit relative relocations)",
                  "flate2's encoder and decoder of the same format invert each other (C33)",
                  "goblin reports section headers and names as the ELF file has them"]}
