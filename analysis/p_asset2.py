"""Rules C13..C21: creators, extension validation, proxies, layout, buffers, rent, creation."""
from rules import *  # noqa
from p_asset import *  # noqa

OLD, NEW = mk("data", "old"), mk("data", "new")
AUTH = mk("data", "auth")


class LifeRun(Run):
    """Fixpoint over the body of the on_create / on_update dispatcher for one extension type."""

    def __init__(self, ctx, what, ty, auth):
        self.name = "%s(%s)" % (what, ty)
        P = ctx.prog("asset_program")
        I = SolInterp(P)
        I.ext_types = ctx.ext_types
        I.record_validate = False
        self.I = I
        st = State()
        fn = P.by_path["nifty_asset_types::extensions::" + what][0]
        self.new_len = mk("sym", "new_len", None)
        self.old_len = mk("sym", "old_len", None)
        args = [ty]
        if what == "on_update":
            args.append(ref_of(OLD, 0, self.old_len))
        args.append(ref_of(NEW, 0, self.new_len))
        args.append(I.opt(fn.locals[fn.argc], ref_of(AUTH)) if auth else I.opt(fn.locals[fn.argc], some=False))
        self.go(ctx, st, fn, args)


# ------------------------------------------------------------------ shared helpers
def sub_part(p, facts):
    """A part that only knows the facts of one loop iteration (loop symbols denote that iteration)."""
    st = State()
    for f in facts:
        p.I.assume(st, f)
    return Part(p.run, st, ())


def guarded(p, effs=None, facts=None, seen=None, loop=None):
    """(part that knows the guards, effect, loop) for every effect, entering loops and branches."""
    seen = set() if seen is None else seen
    q = p if facts is None else sub_part(p, facts)
    for e in (p.effs if effs is None else effs):
        if e[0] == "loop":
            if e[1] in seen:
                continue
            seen.add(e[1])
            for fs, es in p.I.loops[e[1]]["effects"]:
                yield from guarded(p, es, frozenset(fs), seen, e[1])
        elif e[0] == "ite":
            for lit, br in ((e[1], e[2]), (neg(e[1]), e[3])):
                s = q.st.fork()
                if p.I.assume(s, lit):
                    q2 = Part(p.run, s, ())
                    yield from guarded(q2, br, None, seen, loop)
        else:
            yield q, e, loop


def lin_parts(t):
    """Linear term -> (constant, {atom: coefficient})."""
    if isinstance(t, int):
        return t, {}
    if isinstance(t, T) and t.tag == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def elem_of(off, size=34):
    """off = size*index + c -> (index, c)."""
    c, at = lin_parts(off)
    if any(k % size for k in at.values()):
        return None
    ix = c // size
    for a, k in at.items():
        ix = add(ix, mulc(a, k // size))
    return ix, c % size


def mulc(a, k):
    r = 0
    for _ in range(abs(k)):
        r = add(r, a)
    return r if k >= 0 else sub(0, r)


def is_load(t, region, size=None):
    return isinstance(t, T) and t.tag == "ld" and t.a[0] is region and (size is None or t.a[2] == size)


def loads_in(terms, region, size=None):
    out = set()
    for f in terms:
        if isinstance(f, T):
            for t in subterms(f):
                if is_load(t, region, size):
                    out.add(t)
    return sorted(out, key=lambda t: t.id)


def counts_up(I, ph):
    inf = I.phis.get(ph)
    return bool(inf) and inf["init"] == 0 and bool(inf["steps"]) and all(
        s is not None and eq(s, add(ph, 1)) == 1 for s in inf["steps"])


def covers(p, ix, n):
    """The loop whose index is ix ran over 0..n on this part."""
    I = p.I
    if isinstance(ix, T) and ix.tag == "phi" and counts_up(I, ix):
        if p.must(le(n, ix)):
            return True
        for f in p.st.facts:
            if f.tag == "p" and f.a[0] == "forall" and f.a[1] is ix and f.a[2] == 0 and f.a[3] is n:
                return True
    return False


def ran_loops(p):
    out = []
    for e in all_effects(p.I, p.effs):
        if e[0] == "loop":
            out.append(e[1])
    return out


def flag_shows(p, ph, lit_of):
    """ph starts false and only becomes true in an iteration where lit_of(iteration) holds."""
    inf = p.I.phis.get(ph)
    if not inf or inf["init"] != 0 or not inf["steps"]:
        return False
    for s, fs in zip(inf["steps"], inf["facts"]):
        if s is ph or s == 0:
            continue
        if not lit_of(sub_part(p, fs)):
            return False
    return True


def phis_of(p):
    out = set()
    for f in p.st.facts:
        for t in subterms(f):
            if t.tag == "phi":
                out.add(t)
    return sorted(out, key=lambda t: t.id)


# ------------------------------------------------------------------ C13
def C13(ctx, instr, run, R):
    if instr in ("Verify", "Unverify"):
        want = 1 if instr == "Verify" else 0
        reg = ext(0, T_CREATORS)
        for p in run.parts:
            R.ob("creator signed", p.must(signer(1)))
            R.ob("creators looked up", p.must(has(0, T_CREATORS)))
            n = 0
            for q, e, lp in guarded(p):
                if e[0] != "write":
                    R.ob("no other effect", e[0] not in ("memcpy", "realloc", "assign", "sys_transfer", "unknown"), "%r" % (e,), e[-1])
                    continue
                n += 1
                ix = elem_of(e[2]) if e[1] is reg else None
                if not R.ob("only a verified flag of a creator entry is written",
                            ix is not None and ix[1] == 32 and e[3] == 1, "%r[%r;%r]" % e[1:4], e[-1]):
                    continue
                R.ob("flag becomes %s" % ("set" if want else "clear"), teval(e[4], {}) == want, "%r" % (e[4],), e[-1])
                addr = mk("ld", reg, sub(e[2], 32), 32)
                R.ob("entry belongs to the signer", q.must(eq(addr, key(1))) or any(
                    q.must(eq(t, key(1))) for t in loads_in(q.st.facts, reg, 32) if eq(t.a[1], sub(e[2], 32)) == 1),
                     "entry written without matching its address to the signer", e[-1])
            R.ob("success writes the flag", n > 0)
            match = lambda s: any(s.must(eq(t, key(1))) for t in loads_in(s.st.facts, reg, 32))  # noqa: E731
            R.ob("fails when the signer is not listed",
                 match(p) or any(p.must(ne(ph, 0)) and flag_shows(p, ph, match) for ph in phis_of(p)),
                 "success without a matching entry")
            for lid in ran_loops(p):
                for fs, es in p.I.loops[lid]["effects"]:
                    s = sub_part(p, fs)
                    if match(s):
                        R.ob("every matching entry is written", any(e[0] == "write" for e in all_effects(p.I, es)))
        R.ob("%s succeeds on some path" % instr, bool(run.parts))
        return
    # elsewhere the flags only change through validation that names the signing authority
    for p in run.parts:
        for q, e, lp in guarded(p):
            if e[0] == "validate":
                a = e[4]
                none = isinstance(a, T) and a.tag == "none"
                is_key = isinstance(a, T) and a.tag == "ref" and repr(a) == repr(ref_of(mk("key", 1), 0))
                R.ob("authority passed to validation is the given authority or none", none or is_key, "%r" % (a,), e[-1])
                if is_key:
                    R.ob("authority passed to validation signed", q.must(signer(1)) or p.must(signer(1)),
                         "creators of a non-signing authority would be verified", e[-1])
        if instr not in ("Create", "Update", "Allocate", "Write", "Remove"):
            for r, o, s, v, l in p.writes():
                R.ob("creator entries untouched", not (r.tag == "ext" and r.a[2] == T_CREATORS), "%r" % (r,), p.span_of(r))


def share_total(R, p, n):
    """Some accumulator ranges over all entries, adds each share without wrapping, and must equal 100."""
    I = p.I
    good = False
    why = "no total of all shares is compared with 100"
    for ph in phis_of(p):
        if not p.must(eq(ph, 100)):
            continue
        inf = I.phis[ph]
        ok = inf["init"] == 0 and bool(inf["steps"])
        width = 8
        for s, fs in zip(inf["steps"], inf["facts"]):
            ls = [t for t in loads_in([s], NEW, 1)]
            if len(ls) != 1:
                ok = False
                why = "step %r" % (s,)
                continue
            ix = elem_of(ls[0].a[1])
            if ix is None or ix[1] != 33 or not covers(p, ix[0], n):
                ok = False
                why = "share read at %r, or not every entry counted" % (ls[0],)
                continue
            q = [f for f in fs if any(t is ph or t is ls[0] for t in subterms(f))]
            widths = {t.a[0] for t in subterms(s) if t.tag == "wr"} | {t.a[1] for t in subterms(s) if t.tag == "p" and t.a[0] == "ovf"}
            width = max(widths | {8})
            top = 1 << width
            for cur in sorted(set(range(0, 512)) | set(range(max(0, top - 300), top)) if width <= 16 else range(0, 512)):
                if width == 8 and cur > 255 and widths:
                    break
                for sh in range(256):
                    env = {ph: cur, ls[0]: sh}
                    if any(teval(f, env) == 0 for f in q):
                        continue
                    v = teval(s, env)
                    if v is None or (v != cur + sh if cur + sh <= 100 else v <= 100):
                        ok = False
                        why = "total %d plus share %d gives %r" % (cur, sh, v)
                        break
                if not ok:
                    break
        good |= ok
    R.ob("creator shares total exactly 100", good, why)


def creators_body(ctx, R, what):
    for auth in (True, False):
        run = LifeRun(ctx, what, T_CREATORS, auth)
        R.stats["parts %s %s authority" % (what, "with" if auth else "without")] = len(run.parts)
        R.ob("validation can succeed", bool(run.parts))
        for p in run.parts:
            n = None
            for e in [1]:
                n = mk_div(run.new_len, 34)
            flags = set()
            for q, e, lp in guarded(p):
                if e[0] != "write":
                    R.ob("no other effect", e[0] == "lookup", "%r" % (e,))
                    continue
                ix = elem_of(e[2]) if e[1] is NEW else None
                if not R.ob("validation only rewrites verified flags", ix is not None and ix[1] == 32 and e[3] == 1,
                            "%r[%r;%r]" % e[1:4], e[-1]):
                    continue
                if covers(p, ix[0], n):
                    flags.add(lp)
                v, addr = e[4], [t for t in loads_in(list(q.st.facts) + [e[4]], NEW, 32) if eq(t.a[1], sub(e[2], 32)) == 1]
                addr = addr or [mk("ld", NEW, sub(e[2], 32), 32)]
                matched = None
                if what == "on_update":
                    for t in loads_in(q.st.facts, OLD, 32):
                        if any(q.must(eq(t, a)) for a in addr) and elem_of(t.a[1]) and elem_of(t.a[1])[1] == 0:
                            matched = t
                    if matched is not None:
                        R.ob("existing creator keeps its flag", is_load(v, OLD, 1) and eq(v.a[1], add(matched.a[1], 32)) == 1,
                             "flag becomes %r" % (v,), e[-1])
                        continue
                    R.ob("a creator is new only if no existing entry has its address", no_match(q, addr, mk_div(run.old_len, 34)),
                         "", e[-1])
                ak = mk("ld", AUTH, 0, 32)
                truth = v if isinstance(v, T) and v.tag in ("eq", "not", "p", "lt0", "disj") else ne(v, 0)
                if isinstance(v, int):
                    truth = 1 if v else 0
                R.ob("new creator verified only as signing authority",
                     truth == 0 or (auth and (q.given(truth) is None or any(
                         q.given(truth).must(eq(ak, a)) for a in addr))), "flag becomes %r" % (v,), e[-1])
                if auth:
                    g = q.given(eq(ak, addr[0]))
                    R.ob("signing authority starts verified", g is None or truth == 1 or (not isinstance(truth, int) and g.must(truth)),
                         "flag becomes %r" % (v,), e[-1])
            # every entry's flag is rewritten in every iteration of a loop over all entries
            full = False
            for lid in flags:
                if lid is None:
                    continue
                full |= all(any(e[0] == "write" and e[1] is NEW for e in all_effects(p.I, es)) or
                            any(e[0] == "ite" and both_write(e) for e in es) for fs, es in p.I.loops[lid]["effects"])
            R.ob("every stored flag is recomputed", full, "some entry keeps the flag it came with")
            if what == "on_update":
                kept = False
                on = mk_div(run.old_len, 34)
                for lid in ran_loops(p):
                    info = p.I.loops[lid]
                    for ph in info["phis"]:
                        if not covers(p, ph, on):
                            continue
                        ok = True
                        for fs in info["backs"]:
                            s = sub_part(p, fs)
                            fl = [t for t in loads_in(s.st.facts, OLD, 1) if elem_of(t.a[1]) == (ph, 32)]
                            ad = [t for t in loads_in(s.st.facts, OLD, 32) if elem_of(t.a[1]) == (ph, 0)]
                            nw = [t for t in loads_in(s.st.facts, NEW, 32) if elem_of(t.a[1]) and elem_of(t.a[1])[1] == 0]
                            ok &= bool(fl) and any(s.must(eq(fl[0], 0), eq(t, a)) or s.must(eq(fl[0], 0)) for t in nw or [0] for a in ad or [1])
                        kept |= ok and bool(info["backs"])
                R.ob("a verified creator cannot be dropped", kept, "no loop over all existing creators requires it")


def both_write(e):
    return all(any(x[0] == "write" for x in b) or any(x[0] == "ite" and both_write(x) for x in b) for b in e[2:4])


def no_match(q, addr, n):
    """A search over all n existing entries found no entry with this address."""
    for f in q.st.facts:
        if f.tag == "p" and f.a[0] == "forall" and f.a[2] == 0 and f.a[3] is n:
            ph = f.a[1]
            inf = q.I.phis.get(ph)
            if inf and inf["facts"] and all(
                    any(sub_part(q, fs).must(ne(t, a)) for t in loads_in(fs, OLD, 32) if elem_of(t.a[1]) == (ph, 0) for a in addr)
                    for fs in inf["facts"]):
                return True
    return False


def mk_div(a, k):
    return mk("div", a, k)


def C13_create(ctx, R):
    creators_body(ctx, R, "on_create")


def C13_update(ctx, R):
    creators_body(ctx, R, "on_update")


# ------------------------------------------------------------------ C14
def header_stores(p):
    """{header offset: {"type","len","bound"}} stored outside loops by this part, from 4-byte or whole-header stores."""
    cand = {}
    for e in p.effs:
        for q, x, lp in ((p, e, None),):
            if x[0] == "write" and x[1] is data(0) and x[3] in (4, 12, 16) and not (isinstance(x[2], int) and x[2] < A_LEN):
                if x[3] == 4:
                    cand[x[2]] = x[4]
                else:
                    for k in range(0, 12, 4):
                        try:
                            cand[add(x[2], k)] = p.I.extract(p.st, x[4], k, 4)
                        except Exception:
                            cand[add(x[2], k)] = None
    out = {}
    for o in cand:
        if add(o, 4) in cand and add(o, 8) in cand:
            out[o] = {"type": unzero(cand[o]), "len": unzero(cand[add(o, 4)]), "bound": unzero(cand[add(o, 8)])}
    return out


def source_of(v):
    """slicev term -> (region, off, len, writes)"""
    if isinstance(v, T) and v.tag == "slicev":
        return v.a
    return None


def same_slice(p, a, b):
    return a[0] is b[0] and p.same(a[1], b[1]) and p.same(a[2], b[2])


def ext_writes(p):
    """Effects that change account 0's bytes from the end of the fixed header on."""
    for q, e, lp in guarded(p):
        if e[0] == "write" and root_acct(e[1]) == 0 and e[1].tag in ("data", "ext"):
            if e[1].tag == "data" and isinstance(e[3], int) and isinstance(e[2], int) and e[2] + e[3] <= A_LEN:
                continue
            yield q, e, lp


def C14(ctx, instr, run, R):
    if instr == "Create":
        for p in run.parts:
            create_walk(R, p, lambda s, h: True, "validated")
        R.ob("Create succeeds on some path", bool(run.parts))
        return
    seen = set()
    for p in run.parts:
        if p.must(ne(D(0, F_DISC), 1)) or p.must(eq(dl(0), 0)):
            R.ob("buffers are not assets yet", True)
            continue
        if instr != "Update":
            for q, e, lp in ext_writes(p):
                if e[1].tag == "ext":
                    R.ob("only counters and flags are written in place", e[1].a[2] in (T_GROUPING, T_CREATORS) and e[3] in (1, 8),
                         "%r[%r;%r]" % e[1:4], e[-1])
                elif instr == "Remove":
                    sv = source_of(e[4])
                    R.ob("removal only moves existing data or adjusts boundaries",
                         (sv is not None and sv[0] is data(0)) or e[3] == 0 or (e[3] == 4 and boundary_of_self(e)), "%r" % (e,), e[-1])
                else:
                    R.ob("no extension data is stored", False, "%r" % (e,), e[-1])
            continue
        vals = [(q, e) for q, e, lp in guarded(p) if e[0] == "validate" and lp is None]
        hs = header_stores(p)
        if not vals and not hs:
            for q, e, lp in ext_writes(p):
                R.ob("extension area only changes with a validated extension", False, "%r" % (e,), e[-1])
            continue
        if not R.ob("stored extension was validated once", len(vals) == 1, "%d validations" % len(vals), p.span_of(data(0))):
            continue
        if not R.ob("one extension header is stored", len(hs) == 1, "%r" % (sorted(map(str, hs)),), vals[0][1][-1]):
            continue
        (h, hd), (q, ve) = list(hs.items())[0], vals[0]
        what, ty, recs = ve[1], ve[2], ve[3]
        seen.add(what)
        R.ob("validated for the stored type", p.same(ty, hd["type"]), "%r vs %r" % (ty, hd["type"]), ve[-1])
        R.ob("stored length is the validated length", p.same(recs[-1][2], hd["len"]), "%r vs %r" % (recs[-1][2], hd["len"]), ve[-1])
        if what == "on_update":
            old = recs[0]
            R.ob("update is validated against the current data",
                 old[0] is data(0) and p.same(old[1], add(h, 16)) and is_load(old[2], data(0), 4) and eq(old[2].a[1], add(h, 4)) == 1,
                 "%r" % (old,), ve[-1])
            R.ob("current data has the same type", any(p.must(eq(t, ty)) for t in loads_in(p.st.facts, data(0), 4) if eq(t.a[1], h) == 1),
                 "", ve[-1])
        else:
            R.ob("new extension does not replace an existing one", free_slot(p, h), "", ve[-1])
        stored = False
        for q2, e, lp in ext_writes(p):
            o, n, v = e[2], e[3], e[4]
            if lp is None and any(eq(o, add(h, k)) == 1 for k in (0, 4, 8)) and n in (4, 12, 16):
                continue
            if n == 0:
                continue
            if lp is not None and n == 4:
                continue            # boundary of a following extension: C18
            sv = source_of(v)
            if sv is not None and sv[0] is data(0):
                continue            # moved data: C18
            ok = sv is not None and p.same(o, add(h, 16)) and same_slice(p, sv, recs[-1])
            if ok:
                ok = validated_last(p, sv, what, ty)
            R.ob("stored bytes are exactly the validated bytes", ok, "%r[%r;%r]=%r" % (e[1], o, n, v), e[-1])
            stored |= ok and p.same(n, recs[-1][2])
        R.ob("validated bytes are stored", stored or p.must(eq(recs[-1][2], 0)), "", ve[-1])
    if instr == "Update":
        R.ob("existing and new extensions are both validated", seen == {"on_update", "on_create"}, "%r" % seen)


def boundary_of_self(e):
    """The 4-byte store only shifts a value that was read as an extension boundary (placement: C18)."""
    v = e[4]
    while isinstance(v, T) and v.tag == "ite":
        v = v.a[2] if isinstance(v.a[1], int) else v.a[1]
    c, at = lin_parts(v)
    return any(is_load(t, data(0), 4) and k == 1 for t, k in at.items())


def validated_last(p, sv, what, ty):
    """The source region was last changed by the validation of exactly these bytes."""
    ws = [w for w in sv[3] if w[0] not in ("ite",)]
    if not ws or len(ws[-1]) != 3:
        return False
    o, n, v = ws[-1]
    return p.same(o, sv[1]) and p.same(n, sv[2]) and isinstance(v, T) and v.tag == "validated" and v.a[0] == what and p.same(v.a[1], ty)


def free_slot(p, h):
    """h is where the walk over the existing extensions ended: an empty header, or no room for one."""
    end = [le(add(dl(0), 1), add(h, 16))]
    for t in loads_in(p.st.facts, data(0), 4):
        if eq(t.a[1], h) == 1:
            if p.must(eq(t, 0), *end):
                return True
    return p.must(*end)


def walk_heads(p, lid):
    """Loop symbols of lid that step from header to header of account 0: (symbol, base) with header = symbol+base."""
    I = p.I
    out = []
    for ph in I.loops[lid]["phis"]:
        inf = I.phis[ph]
        if not isinstance(inf["init"], int) or not inf["steps"]:
            continue
        b = A_LEN - inf["init"]
        if all(is_load(add(s, b), data(0), 4) and eq(add(s, b).a[1], add(ph, b + 8)) == 1 for s in inf["steps"] if s is not None):
            if None not in inf["steps"]:
                out.append(add(ph, b))
    return out


def create_walk(R, p, pred, rule):
    """Every extension present when the asset becomes initialized was validated in place by a walk that
    starts at the end of the header, visits every header, and ends only at an empty header or the end of
    the data; nothing is stored there afterwards."""
    I = p.I
    dlen = p.final(mk("dlen", 0), 0, 8)
    best, why = None, "no loop validates the extensions"
    if p.must(lt(dlen, A_LEN + 16)):
        R.ob("every extension of a new asset is %s" % rule, True)   # no room for any
        return None
    for lid in [e[1] for e in p.effs if e[0] == "loop"]:
        info = I.loops[lid]
        if not any(e[0] == "validate" for fs, es in info["effects"] for e in all_effects(I, es)):
            continue
        for h in walk_heads(p, lid):
            ok = True
            for fs, es in info["effects"]:
                vs = [e for e in all_effects(I, es) if e[0] == "validate"]
                good = [e for e in vs if e[1] == "on_create" and is_load(e[2], data(0), 4) and eq(e[2].a[1], h) == 1 and
                        e[3][0][0] is data(0) and eq(e[3][0][1], add(h, 16)) == 1 and is_load(e[3][0][2], data(0), 4) and
                        eq(e[3][0][2].a[1], add(h, 4)) == 1]
                if not good:
                    ok = False
                    why = "an iteration does not validate the extension it visits: %r" % (vs[:1],)
            ends = [lt(sub(dlen, h), 16)]
            tys = [t for t in loads_in(p.st.facts, data(0), 4) if eq(t.a[1], h) == 1]
            if ok and not (p.must(*ends) or any(p.must(eq(t, 0), *ends) for t in tys)):
                ok = False
                why = "the walk may stop before the last extension"
            if ok:
                best = lid
    R.ob("every extension of a new asset is %s" % rule, best is not None, why, p.span_of(data(0), 0))
    if best is None:
        return None
    after = False
    for w in p.st.mem.get(data(0), ()):
        if w[0] == "loop":
            after = w[1] == best or after
            if after and w[1] != best:
                R.ob("nothing is stored after validation", False, w[1])
        elif after:
            R.ob("nothing is stored after validation", p.must(le(add(w[0], w[1]), A_LEN)) if w[1] is not None else False,
                 "%r" % (w,), p.span_of(data(0), w[0]))
    return best


def C14_body(ty):
    def f(ctx, R):
        for what in ("on_create", "on_update"):
            for auth in (True, False):
                run = LifeRun(ctx, what, ty, auth)
                R.stats["parts %s %s" % (what, auth)] = len(run.parts)
                R.ob("validation can succeed", bool(run.parts))
                for p in run.parts:
                    if ty == T_CREATORS:
                        share_total(R, p, mk_div(run.new_len, 34))
                    elif ty == T_ROYALTIES:
                        R.ob("%s: basis points at most 10000" % what, p.must(le(mk("ld", NEW, 0, 8), 10000)), "not bounded")
                    elif ty == T_GROUPING:
                        size, mx = p.final(NEW, 0, 8), p.final(NEW, 8, 8)
                        if what == "on_create":
                            R.ob("new group has size zero", p.must(eq(size, 0)), "%r" % (size,))
                        else:
                            R.ob("update keeps the group's size", p.same(size, mk("ld", OLD, 0, 8)), "%r" % (size,))
                            R.ob("maximum is unset or not below the size", p.must(eq(mx, 0), le(mk("ld", OLD, 0, 8), mx)), "%r" % (mx,))
                            R.ob("maximum is the one given", p.same(mx, mk("ld", NEW, 8, 8)))
                        for r, o, s, v, l in p.writes():
                            R.ob("validation writes nothing else", r is NEW and (o, s) == (0, 8), "%r[%r;%r]" % (r, o, s))
                    for r, o, s, v, l in p.writes():
                        R.ob("validation leaves the current data alone", r is not OLD, "%r[%r]" % (r, o))
                        if ty not in (T_CREATORS, T_GROUPING) and root_any(r):
                            R.ob("validation leaves the given data as it is", r is not NEW, "%r[%r]" % (r, o))
    return f


def root_any(r):
    return r in (OLD, NEW, AUTH)


# ------------------------------------------------------------------ C15
def C15(ctx, instr, run, R):
    for p in run.parts:
        R.ob("a proxied asset given first must have signed",
             p.must(signer(0), ne(D(0, F_STD), 3), ne(own(0), ctx.ID), ne(D(0, F_DISC), 1), eq(dl(0), 0), le(NACC, 0)),
             "proxied asset accepted without signature")
        if instr == "Create":
            q = p.given(eq(p.fin(0, F_STD), 3))
            if q is None:
                continue
            pd = None
            for f in q.st.facts:
                for t in subterms(f):
                    if t.tag == "pda" and q.must(eq(t, key(0))):
                        pd = t
            if not R.ob("proxied asset lives at a derived address", pd is not None, "no derivation compared with the asset's address"):
                continue
            R.ob("derivation succeeded", q.must(neg(mk("p", "pdaerr", pd))))
            seeds, prog = pd.a[0], pd.a[1]
            flatseeds = []
            for s in seeds if isinstance(seeds, tuple) else (seeds,):
                flatseeds.extend(s.a[0] if isinstance(s, T) and s.tag == "arr" else [s])
            regs = {t.a[0] for t in [prog] + flatseeds if isinstance(t, T) and t.tag == "ld"}
            reg = regs.pop() if len(regs) == 1 else None
            ok = reg is not None and reg.tag == "ext" and reg.a[0] is data(0) and reg.a[1] == A_LEN and reg.a[2] == T_PROXY
            R.ob("derivation uses the recorded proxy data", ok, "%r" % (pd,))
            if ok:
                R.ob("program and seeds are the recorded ones",
                     (prog.a[1], prog.a[2]) == (0, 32) and [(t.a[1], t.a[2]) for t in flatseeds if isinstance(t, T) and t.tag == "ld"]
                     == [(32, 32), (64, 1)] and len([x for x in flatseeds if isinstance(x, T) and x.tag == "ld"]) == len(
                         [x for x in flatseeds if not isinstance(x, int)]), "%r" % (pd,))
                R.ob("the recorded data is the stored data", fresh_epoch(q, reg), "%r" % (reg.a[3],))
        elif instr not in ("Update", "Remove", "Allocate", "Write", "Resize"):
            for r, o, s, v, l in p.writes():
                R.ob("derivation data is never written", not (r.tag == "ext" and r.a[2] == T_PROXY), "%r" % (r,), p.span_of(r))
        if instr != "Create":
            header_frame(R, p, instr, ["standard"], "proxied standard stays")
    if instr == "Create":
        R.ob("proxied assets can be created", any(p.sat(eq(p.fin(0, F_STD), 3)) for p in run.parts))


def fresh_epoch(p, reg):
    """Nothing was stored in the extension area since this view of it was taken."""
    ws = p.st.mem.get(data(0), ())
    ep = reg.a[3]
    rest = [w for w in ws if w not in ep]
    return all(len(w) == 3 and w[1] is not None and p.must(le(add(w[0], w[1]), A_LEN)) for w in rest)


def C15_body(ctx, R):
    for auth in (True, False):
        run = LifeRun(ctx, "on_update", T_PROXY, auth)
        R.ob("proxy data can be updated", bool(run.parts))
        for p in run.parts:
            for nm, o, s in (("program", 0, 32), ("seeds", 32, 32), ("bump", 64, 1)):
                R.ob("update keeps the recorded %s" % nm, p.same(p.final(NEW, o, s), mk("ld", OLD, o, s)), "%r" % (p.final(NEW, o, s),))
            for r, o, s, v, l in p.writes():
                R.ob("current data untouched", r is not OLD)


# ------------------------------------------------------------------ C16
def seen_types(p):
    """[(lid, header, list symbol)] of walks that collect the type of every extension in a list."""
    I = p.I
    out = []
    for lid in ran_loops(p):
        for h in walk_heads(p, lid):
            for ph in I.loops[lid]["phis"]:
                inf = I.phis[ph]
                i0 = inf["init"]
                if not (isinstance(i0, T) and i0.tag == "vec" and not i0.a[0]):
                    continue
                if all(appends(s, ph, h) for s in inf["steps"]):
                    out.append((lid, h, ph))
    return out


def appends(s, ph, h):
    if not (isinstance(s, T) and s.tag == "seq" and len(s.a[0]) == 2):
        return False
    a, b = s.a[0]
    return a[0] == "n" and a[1] is ph and str(b[0]) == "1" and is_load(b[1], data(0), 4) and eq(b[1].a[1], h) == 1


def shows_type(p, ty, present):
    """The part establishes that an extension of type ty is (not) among the extensions of account 0."""
    lists = [v for _, _, v in seen_types(p)]
    carried = [ph for lid in ran_loops(p) if walk_heads(p, lid) for ph in p.I.loops[lid]["phis"]]

    def tells(t):
        if t.tag == "obj":
            return t.a[0] in lists
        if t.tag == "p":
            return t.a[0] == "has" and t.a[3] == ty or t.a[0] == "forall" and any(t.a[3] is mk("len", v) for v in lists)
        return t.tag == "phi" and t in carried

    def about(f):
        return len(f.a[1]) > 1 and any(tells(t) for t in subterms(f))
    return shows_type1(p, ty, present) or all(shows_type1(q, ty, present) for q in p.cases(about))


def shows_type1(p, ty, present):
    I = p.I
    if not present and p.must(lt(p.final(mk("dlen", 0), 0, 8), A_LEN + 16)):
        return True
    for f in p.st.facts:
        g = f.a[0] if f.tag == "not" else f
        if g.tag == "p" and g.a[0] == "has" and g.a[1] is data(0) and g.a[2] == A_LEN and g.a[3] == ty:
            if p.must(g if present else neg(g)) and fresh_epoch(p, mk("ext", *g.a[1:])):
                return True
    if not present:
        # the lookup itself is total: presence is refuted when its literal is
        pass
    for lid, h, v in seen_types(p):
        el = [t for f in p.st.facts for t in subterms(f) if t.tag == "ld" and isinstance(t.a[0], T) and t.a[0].tag == "obj" and t.a[0].a[0] is v]
        if present and any(p.must(eq(t, ty)) for t in el):
            return True
        if not present:
            n = mk("len", v)
            for f in p.st.facts:
                if f.tag == "p" and f.a[0] == "forall" and f.a[2] == 0 and f.a[3] is n:
                    ph = f.a[1]
                    inf = I.phis.get(ph)
                    if inf and inf["facts"] and all(any(sub_part(p, fs).must(ne(t, ty)) for f2 in fs for t in subterms(f2)
                                                        if t.tag == "ld" and isinstance(t.a[0], T) and t.a[0].tag == "obj" and
                                                        t.a[0].a[0] is v and t.a[1] is ph) for fs in inf["facts"]):
                        return True
            if p.must(eq(n, 0)):
                return True
    # a flag carried by the walk
    for lid in ran_loops(p):
        for h in walk_heads(p, lid):
            for ph in I.loops[lid]["phis"]:
                inf = I.phis[ph]
                if inf["init"] != 0 or not p.must(ne(ph, 0) if present else eq(ph, 0)):
                    continue
                ok = True
                for s, fs in zip(inf["steps"], inf["facts"]):
                    q = sub_part(p, fs)
                    ts = [t for t in loads_in(list(fs) + [s], data(0), 4) if eq(t.a[1], h) == 1]
                    if not ts:
                        ok = False
                        continue
                    yes, no = q.given(eq(ts[0], ty)), q.given(ne(ts[0], ty))
                    truth = s if isinstance(s, T) and s.tag in ("eq", "not", "p", "lt0", "disj") else (ne(s, 0) if isinstance(s, T) else s)
                    if yes is not None and present is False:
                        ok &= truth == 1 or (not isinstance(truth, int) and yes.must(truth))
                    if no is not None and present:
                        ok &= s is ph or truth == 0 or (not isinstance(truth, int) and no.must(neg(truth), ne(ph, 0)))
                if ok and inf["steps"]:
                    return True
    return False


def C16(ctx, instr, run, R):
    if instr == "Create":
        std = mk("fld", mk("fld", mk("sym", "ix", None), INSTRS.index("Create"), 0), 0, 1)
        hits = set()
        for p in run.parts:
            v = p.fin(0, F_STD)
            for ty, k in ((T_MANAGER, 1), (T_PROXY, 3)):
                nm = "manager" if ty == T_MANAGER else "proxy"
                a, b = p.given(eq(v, k)), p.given(ne(v, k))
                if a is not None:
                    hits.add(k)
                    R.ob("the matching standard requires %s data" % nm, shows_type(a, ty, True), "standard %d without type %d" % (k, ty))
                if b is not None:
                    hits.add(-k)
                    R.ob("%s data requires its standard" % nm, shows_type(b, ty, False), "type %d without standard %d" % (ty, k))
        R.ob("all standards can be created", hits == {1, -1, 3, -3}, "%r" % hits)
    elif instr == "Update":
        for p in run.parts:
            for h, hd in header_stores(p).items():
                there = [t for t in loads_in(p.st.facts, data(0), 4) if eq(t.a[1], h) == 1]
                if any(p.must(eq(t, hd["type"])) for t in there) and not free_slot(p, h):
                    R.ob("replacing keeps the type", True)
                    continue
                for ty in (T_MANAGER, T_PROXY):
                    R.ob("type %d cannot be added" % ty, p.must(ne(hd["type"], ty)), "%r" % (hd["type"],), p.span_of(data(0), h))
    elif instr == "Remove":
        for p in run.parts:
            mv = [e for e in p.effects("memcpy") if e[2][0] is data(0)]
            if not R.ob("removal moves the following data", len(mv) == 1, "%d moves" % len(mv)):
                continue
            h = mv[0][2][1]
            ts = [t for t in loads_in(p.st.facts, data(0), 4) if eq(t.a[1], h) == 1]
            for ty in (T_MANAGER, T_PROXY):
                R.ob("type %d cannot be removed" % ty, any(p.must(ne(t, ty)) for t in ts), "", mv[0][-1])
    else:
        for p in run.parts:
            if p.must(ne(D(0, F_DISC), 1)) or p.must(eq(dl(0), 0)):
                continue
            for q, e, lp in ext_writes(p):
                R.ob("no extension header changes", e[1].tag == "ext", "%r" % (e,), e[-1])
            header_frame(R, p, instr, ["standard"], "standard fixed")


# ------------------------------------------------------------------ C21
def C21(ctx, instr, run, R):
    if instr != "Create":
        for p in run.parts:
            if instr in EXISTING or instr in ("Allocate", "Write", "Close"):
                q = p.given(ne(D(0, F_DISC), 1))
                if q is not None and not p.effects("create_account"):
                    R.ob("only creation initializes an asset", q.keeps(0, F_DISC), "%r" % q.fin(0, F_DISC), p.span_of(data(0), 0))
        return
    ix = INSTRS.index("Create")
    arg = lambda k: mk("fld", mk("fld", mk("sym", "ix", None), ix, 0), 0, k)  # noqa: E731
    kinds = set()
    for p in run.parts:
        R.ob("asset account signed", p.must(signer(0)))
        R.ob("account is not yet an asset", p.must(eq(dl(0), 0), eq(D(0, F_DISC), 0)), "initialized account accepted")
        R.ob("account with data belongs to the program", p.must(eq(dl(0), 0), eq(own(0), ctx.ID)))
        for e in p.effects("create_account"):
            R.ob("fresh account belongs to the program", e[2] == 0 and p.same(e[5], ctx.ID) and p.must(le(A_LEN, e[4])), "%r" % (e,), e[-1])
        R.ob("account is created or exists", p.must(ne(dl(0), 0)) or bool(p.effects("create_account")))
        q = created(p)
        if q is None:
            continue
        w = p.span_of(data(0), 0)
        R.ob("marked as asset", q.becomes(0, F_DISC, 1), "%r" % q.fin(0, F_DISC), w)
        R.ob("owner is the given owner", q.becomes(0, F_OWNER, key(2)), "%r" % q.fin(0, F_OWNER), w)
        R.ob("authority is the given authority", q.becomes(0, F_AUTH, key(1)), "%r" % q.fin(0, F_AUTH), w)
        R.ob("standard is the requested one", q.becomes(0, F_STD, arg(1)), "%r" % q.fin(0, F_STD), w)
        R.ob("mutability is the requested one", q.becomes(0, F_MUT, arg(2)), "%r" % q.fin(0, F_MUT), w)
        nm = q.fin(0, F_NAME)
        R.ob("name is the requested one", isinstance(nm, T) and nm.tag == "podstr" and nm.a[0] == 35 and nm.a[1] is arg(0), "%r" % nm, w)
        R.ob("starts unlocked", q.becomes(0, F_STATE, 0), "%r" % q.fin(0, F_STATE), w)
        R.ob("starts without delegate", q.becomes(0, F_DELEG, ZERO32) and q.becomes(0, F_ROLES, 0), "%r" % q.fin(0, F_DELEGATE), w)
        g = q.given(eq(key(3), ctx.ID))
        if g is not None:
            kinds.add("alone")
            R.ob("no group unless given", g.becomes(0, F_GROUP, ZERO32), "%r" % g.fin(0, F_GROUP), w)
        g = q.given(ne(key(3), ctx.ID))
        if g is not None:
            kinds.add("group")
            R.ob("given group recorded", g.becomes(0, F_GROUP, key(3)), "%r" % g.fin(0, F_GROUP), w)
            gs = [e for e in p.effects("write") if e[1] is ext(3, T_GROUPING)]
            R.ob("given group accepted it", bool(gs) and g.all(*ctx.genuine(3)), "", w)
    R.ob("creation with and without a group is possible", kinds == {"alone", "group"}, "%r" % kinds)


PER = {"C13": (C13, INSTRS), "C14": (C14, INSTRS), "C15": (C15, INSTRS), "C16": (C16, INSTRS), "C21": (C21, INSTRS)}
ONCE = {"C13": {"on_create(Creators)": C13_create, "on_update(Creators)": C13_update},
        "C14": {"validation(%s)" % n: C14_body(k) for k, n in enumerate(
            ["None", "Attributes", "Blob", "Creators", "Links", "Metadata", "Grouping", "Royalties", "Manager", "Proxy",
             "Properties", "Bucket"])},
        "C15": {"on_update(Proxy)": C15_body}}
