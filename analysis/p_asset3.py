"""Rules C17..C20: extension layout, buffers, rent."""
from rules import *  # noqa
from p_asset import *  # noqa
from p_asset2 import *  # noqa


def unsat_ite(p, v):
    """A saturating subtraction/addition denotes its unsaturated value wherever that is positive."""
    while isinstance(v, T) and v.tag == "ite":
        br = [x for x in v.a[1:3] if not isinstance(x, int)]
        if len(br) != 1:
            return v
        s = p.st.fork()
        if not p.I.assume(s, lt(0, br[0])):
            return v
        d = p.I.decide(s, v.a[0])
        if d is None:
            return v
        w = v.a[1] if d else v.a[2]
        if w is not br[0]:
            return v
        v = w
    return v


def is_pad(p, b, h, n):
    """b = h + 16 + n rounded up to a multiple of 8."""
    want = add(h, add(n, 16))
    if b is None or isinstance(b, tuple):
        return False
    if eq(b, pad(want, 8)) == 1:
        return True
    c, d = lin_parts(b)
    pads = [t for t, k in d.items() if t.tag == "pad" and t.a[1] == 8 and k == 1]
    if len(pads) != 1 or c % 8 or any(k % 8 for t, k in d.items() if t is not pads[0]):
        return False
    return p.same(add(pads[0].a[0], sub(b, pads[0])), want)


def moves(p):
    """(position, dst, src, n, effect) of every copy inside account 0's data."""
    return [(i, e[2][1], e[3][1], e[4], e) for i, e in enumerate(p.effs)
            if e[0] == "memcpy" and e[2][0] is data(0) and e[3][0] is data(0)]


def last_bound(t):
    return is_load(t, data(0), 4) and any(
        x.tag == "lasthdr" and x.a[0] is data(0) and x.a[1] == A_LEN and eq(t.a[1], add(x, 8)) == 1 for x in subterms(t.a[1]))


def reaches_end(p, end):
    """end is the end of the last extension, or of the account."""
    end = unsat_ite(p, end)
    return last_bound(end) or p.same(end, dl(0)) or p.must(le(dl(0), end))


def well_formed(p, h):
    """Layout invariant of an asset account, for a header h reached by the walk: its boundary lies behind it,
    and neither behind the last boundary nor the end of the account."""
    b = mk("ld", data(0), add(h, 8), 4)
    out = [le(A_LEN, h), le(add(h, 16), b), le(b, dl(0)), le(A_LEN, sub(add(dl(0), h), b))]
    for f in list(p.st.facts) + [x for e in p.effs if e[0] in ("realloc", "memcpy") for x in e if isinstance(x, T)]:
        for t in subterms(f):
            if t.tag == "lasthdr" and t.a[0] is data(0):
                lb = mk("ld", data(0), add(t, 8), 4)
                out += [le(b, lb), le(lb, dl(0))]
    return out


def search_ok(R, p, h, ty, where):
    """h was found by a walk that starts at the first extension header, moves by recorded boundaries and
    does not pass over an extension of the given type."""
    ok, why = False, "the header is not reached by a walk over all headers"
    for lid in ran_loops(p):
        if not any(eq(x, h) == 1 for x in walk_heads(p, lid)):
            continue
        ok = True
        for fs in p.I.loops[lid]["backs"]:
            s = sub_part(p, fs)
            ts = [t for t in loads_in(s.st.facts, data(0), 4) if eq(t.a[1], h) == 1]
            if not any(s.must(ne(t, ty), le(12, t)) for t in ts):
                ok, why = False, "the walk may pass over an extension of the type"
            if not any(s.must(ne(t, 0), le(12, t)) for t in ts):
                ok, why = False, "the walk may pass over an empty header"
        if ok:
            break
    return R.ob("extension is located by walking all headers", ok, why, where)


def shift_loops(p, frm, to, delta, mv, R, where):
    """Some loop adjusts the boundary of every following extension by delta."""
    I = p.I
    why = "no loop adjusts the boundaries of the following extensions"
    for pos, e in enumerate(p.effs):
        if e[0] != "loop":
            continue
        info = I.loops[e[1]]
        ws = flat_writes(info["writes"].get(data(0), ()))
        if not ws:
            continue
        after = mv is None or pos > mv
        start = to if after else frm
        for ph in info["phis"]:
            inf = I.phis[ph]
            base = 0
            if eq(inf["init"], start) != 1 and not p.same(inf["init"], start):
                continue
            good = bool(inf["steps"])
            for st_ in inf["steps"]:
                v = unsat_ite(p, st_)
                ld = [t for t in loads_in([v], data(0), 4) if eq(t.a[1], add(ph, 8)) == 1]
                want = [add(t, delta) if after else t for t in ld]
                if not any(eq(v, x) == 1 or p.same(v, x) for x in want):
                    good, why = False, "the walk steps to %r" % (st_,)
            for w in ws:
                v = unsat_ite(p, w[2]) if len(w) == 3 else None
                if len(w) != 3 or w[1] != 4 or eq(w[0], add(ph, 8)) != 1:
                    good, why = False, "the walk writes %r" % (w,)
                    continue
                ld = [t for t in loads_in([v], data(0), 4) if eq(t.a[1], add(ph, 8)) == 1]
                if not any(eq(v, add(t, delta)) == 1 or p.same(v, add(t, delta)) for t in ld):
                    good, why = False, "boundary becomes %r" % (w[2],)
            for fs, es in info["effects"]:
                if not any(x[0] == "write" and x[1] is data(0) for x in all_effects(I, es)):
                    good, why = False, "an iteration does not adjust the boundary it visits"
                q = sub_part(p, fs)
                ts = [t for t in loads_in(q.st.facts, data(0), 4) if eq(t.a[1], ph) == 1]
                if not any(q.must(ne(t, 0), le(12, t)) for t in ts):
                    good, why = False, "an iteration may adjust bytes that are no extension header"
            if not good:
                continue
            dlen = p.final(mk("dlen", 0), 0, 8) if after else dl(0)
            ends = [lt(sub(dlen, ph), 16)]
            if not after:
                ends.append(le(dl(0), ph))
            tys = [t for t in loads_in(p.st.facts, data(0), 4) if eq(t.a[1], ph) == 1]
            if p.must(*ends) or any(p.must(eq(t, 0), *ends) for t in tys):
                return True, e[1]
            why = "the walk may stop before the last extension"
    return False, why


def C18(ctx, instr, run, R):
    if instr == "Resize":
        for p in run.parts:
            for e in p.effects("realloc"):
                last = mk("p", "haslast", data(0), A_LEN, ())
                R.ob("resizing keeps every extension",
                     p.must(le(dl(0), e[3])) or last_bound(e[3]) or (p.must(neg(last)) and p.must(le(A_LEN, e[3]))),
                     "size becomes %r" % (e[3],), e[-1])
                if p.must(neg(last)):
                    R.ob("resizing keeps the fixed header", p.must(le(A_LEN, e[3])), "%r" % (e[3],), e[-1])
            for q, e, lp in ext_writes(p):
                R.ob("resizing writes no data", False, "%r" % (e,), e[-1])
        R.ob("resizing is possible", bool(run.parts))
        return
    kinds = set()
    for p in run.parts:
        hs = header_stores(p)
        mv = moves(p)
        if instr == "Update" and not hs:
            R.ob("no extension changes without its header", not mv and not p.effects("realloc") and not list(ext_writes(p)),
                 "", p.span_of(data(0)))
            continue
        if instr == "Update":
            if not R.ob("one extension is stored", len(hs) == 1, "%r" % (list(hs),)):
                continue
            (h, hd), = hs.items()
            where = p.span_of(data(0), add(h, 8)) or p.span_of(data(0), h)
            ty, n, newB = hd["type"], hd["len"], hd["bound"]
            R.ob("stored boundary is the aligned end of the stored data", is_pad(p, newB, h, n), "%r" % (newB,), where)
            R.ob("the empty type is not stored", p.must(ne(ty, 0)), "type %r" % (ty,), where)
            new = free_slot(p, h)
        else:
            if not R.ob("removal moves the following data once", len(mv) == 1, "%d moves" % len(mv)):
                continue
            h = unsat_ite(p, mv[0][1])
            where = mv[0][4][-1]
            ty = mk("fld", mk("sym", "ix", None), INSTRS.index("Remove"), 0)
            ts = [t for t in loads_in(p.st.facts, data(0), 4) if eq(t.a[1], h) == 1]
            R.ob("removed extension has the requested type", any(p.must(eq(t, ty)) for t in ts), "", where)
            R.ob("an empty header is not removed", p.must(ne(ty, 0)), "", where)
            newB, n, new = h, None, False
        search_ok(R, p, h, ty, where)
        if not new:
            p = p.given(*well_formed(p, h))
            if p is None:
                R.ob("paths that need malformed boundaries are not asset states", True)
                continue
        oldL, oldB = mk("ld", data(0), add(h, 4), 4), mk("ld", data(0), add(h, 8), 4)
        if new:
            kinds.add("new")
            R.ob("a new extension moves nothing", not mv, "", where)
            rs = [(i, e) for i, e in enumerate(p.effs) if e[0] == "realloc"]
            R.ob("account ends with the new extension", p.same(p.final(mk("dlen", 0), 0, 8), newB),
                 "%r" % (p.final(mk("dlen", 0), 0, 8),), where)
        else:
            kinds.add("move" if mv else "inplace")
            delta = sub(newB, oldB)
            unmoved = instr == "Update" and (p.must(eq(oldL, n)) or p.must(eq(newB, oldB)))
            R.ob("following data is moved when the size changes", unmoved or len(mv) == 1, "%d moves" % len(mv), where)
            for i, dst, src, cnt, e in mv:
                dst, src, cnt = unsat_ite(p, dst), unsat_ite(p, src), unsat_ite(p, cnt)
                R.ob("data moves to the new boundary", p.same(dst, newB), "%r" % (dst,), e[-1])
                R.ob("data moves from the old boundary", p.same(src, oldB), "%r" % (src,), e[-1])
                R.ob("everything that follows is moved", reaches_end(p, add(src, cnt)) or p.must(le(cnt, 0)), "%r bytes" % (cnt,), e[-1])
                size = dl(0)
                for j, x in enumerate(p.effs):
                    if x[0] != "realloc":
                        continue
                    if j < i:
                        R.ob("account is not cut before its data is moved", p.must(le(add(src, cnt), x[3])), "%r" % (x[3],), x[-1])
                        size = x[3]
                    else:
                        R.ob("account is not cut below the moved data", p.must(le(add(dst, cnt), x[3])), "%r" % (x[3],), x[-1])
                R.ob("data is not moved outside the account", p.must(le(dst, src)) or p.must(le(add(dst, cnt), size)),
                     "%r bytes to %r" % (cnt, dst), e[-1])
            if not mv:
                for x in p.effects("realloc"):
                    R.ob("account is not resized without moving data", p.same(x[3], dl(0)), "%r" % (x[3],), x[-1])
            ok, lid = shift_loops(p, oldB, newB, delta, mv[0][0] if mv else None, R, where)
            if not ok and unmoved:
                ok = not any(e[0] == "loop" and p.I.loops[e[1]]["writes"].get(data(0)) for e in p.effs)
            if not ok and p.must(eq(newB, oldB)):
                ok = True
            R.ob("boundaries of the following extensions are shifted by the same amount", ok, str(lid), where)
        # nothing else is stored
        for i, e in enumerate(p.effs):
            if e[0] != "write" or e[1] is not data(0) or isinstance(e[2], int) and isinstance(e[3], int) and e[2] + e[3] <= A_LEN:
                continue
            off, cnt = e[2], e[3]
            if cnt == 0 or any(x[4][-1] == e[-1] and p.same(off, x[1]) for x in mv):
                continue
            if instr == "Update" and cnt in (4, 12, 16) and any(eq(off, add(h, k)) == 1 for k in (0, 4, 8)):
                continue
            if instr == "Update" and p.same(off, add(h, 16)) and p.same(cnt, n):
                if mv:
                    R.ob("following data is moved out of the way first", i > mv[0][0] or p.must(le(newB, oldB)), "", e[-1])
                continue
            if cnt == 4 and p.same(unsat_ite(p, e[4]), mk("ld", data(0), off, 4)):
                continue
            R.ob("no other extension is written", False, "%r[%r;%r]" % (e[1], off, cnt), e[-1])
        for i, e in enumerate(p.effs):
            if e[0] == "loop" and p.I.loops[e[1]]["writes"].get(data(0)):
                R.ob("only following boundaries are rewritten", new or e[1] == lid, e[1], where)
    want = {"new", "move", "inplace"} if instr == "Update" else {"move"}
    R.ob("all kinds of change are possible", kinds >= want, "%r" % kinds)


# ------------------------------------------------------------------ C19
def arg(instr, *path):
    t = mk("fld", mk("sym", "ix", None), INSTRS.index(instr), 0)
    for k in path:
        t = mk("fld", t, 0, k)
    return t


def buffer_guard(ctx, R, p, owned):
    R.ob("buffer account signed", p.must(signer(0)), "no signature of the buffer")
    R.ob("not an initialized asset", p.must(eq(dl(0), 0), eq(D(0, F_DISC), 0)), "initialized account accepted")
    R.ob("account with data belongs to the program", p.must(eq(own(0), ctx.ID)) if owned else p.must(eq(dl(0), 0), eq(own(0), ctx.ID)))


def above_header(R, p):
    for e in p.effects("write"):
        o, n = e[2], e[3]
        if e[1] is data(0) and n != 0:
            c, at = lin_parts(o)
            ok = isinstance(o, int) and o >= A_LEN or p.must(le(A_LEN, o)) or \
                c >= A_LEN and all(k > 0 for k in at.values())
            R.ob("the fixed header stays empty", ok, "write at %r" % (o,), e[-1])


HASLAST = mk("p", "haslast", data(0), A_LEN, ())
LAST = mk("lasthdr", data(0), A_LEN, ())
LAST_LEN, LAST_B = mk("ld", data(0), add(LAST, 4), 4), mk("ld", data(0), add(LAST, 8), 4)


def C19(ctx, instr, run, R):
    if instr == "Close":
        for p in run.parts:
            buffer_guard(ctx, R, p, True)
            R.ob("recipient receives the whole balance", p.same(p.lam_after(1), add(lam(1), lam(0))), "%r" % (p.lam_after(1),))
            R.ob("buffer keeps no balance", p.same(p.lam_after(0), 0), "%r" % (p.lam_after(0),))
            R.ob("buffer is emptied", p.same(p.final(mk("dlen", 0), 0, 8), 0), "%r" % (p.final(mk("dlen", 0), 0, 8),))
            R.ob("buffer returns to the system program", any(e[1] == 0 and p.same(e[2], ZERO32) for e in p.effects("assign")))
            only_touches(R, p, {0: lambda *a: True, 1: lambda k, *a: k == "lam"}, "nothing else changes")
        R.ob("closing is possible", bool(run.parts))
        return
    kinds = set()
    for p in run.parts:
        buffer_guard(ctx, R, p, instr == "Write")
        above_header(R, p)
        dlenF = p.final(mk("dlen", 0), 0, 8)
        if instr == "Allocate":
            ty, ln = arg(instr, 0), arg(instr, 1)
            hs = header_stores(p)
            if not R.ob("one extension is allocated", len(hs) == 1, "%r" % (list(hs),)):
                continue
            (h, hd), = hs.items()
            w = p.span_of(data(0), h)
            R.ob("a type is allocated at most once", p.must(eq(dl(0), 0), neg(mk("p", "has", data(0), A_LEN, ty, ()))), "", w)
            R.ob("previous extension is complete",
                 p.must(eq(dl(0), 0), neg(HASLAST), le(add(LAST, add(LAST_LEN, 16)), dl(0))), "", w)
            for q, where_ in ((p.given(eq(dl(0), 0)), A_LEN), (p.given(ne(dl(0), 0), neg(HASLAST)), A_LEN),
                              (p.given(ne(dl(0), 0), HASLAST), LAST_B)):
                if q is not None:
                    kinds.add(str(where_))
                    R.ob("allocated at the end of the previous extension", q.same(h, where_), "%r" % (h,), w)
            R.ob("declared type recorded", p.same(hd["type"], ty), "%r" % (hd["type"],), w)
            R.ob("the empty type is not allocated", p.must(ne(ty, 0)), "type %r" % (ty,), w)
            R.ob("declared length recorded", p.same(hd["len"], ln), "%r" % (hd["len"],), w)
            R.ob("boundary is the aligned end of the declared data", is_pad(p, hd["bound"], h, hd["len"]), "%r" % (hd["bound"],), w)
            n = 0
            for e in p.effects("write"):
                if e[1] is not data(0) or e[3] in (4, 12, 16) and any(eq(e[2], add(h, k)) == 1 for k in (0, 4, 8)) or e[3] == 0:
                    continue
                sv = source_of(e[4])
                given = mk("fld", arg(instr, 2), 1, 0)
                R.ob("given data follows the header", p.same(e[2], add(h, 16)), "%r" % (e[2],), e[-1])
                R.ob("stored data is the given data", sv is not None and sv[0] is mk("obj", given) and sv[1] == 0 and not sv[3]
                     and p.same(e[3], mk("len", given)), "%r" % (e[4],), e[-1])
                n = e[3]
                R.ob("given data fits the declared length", p.must(le(n, ln)), "", e[-1])
            end = add(h, add(n, 16))

            def ends(q):
                return q.same(dlenF, end) or q.must(le(hd["bound"], dlenF)) and q.must(eq(n, ln)) or \
                    q.same(dlenF, dl(0)) and q.must(le(end, dlenF))
            mine = lambda f: any(t is ln or t is dl(0) for t in subterms(f))
            R.ob("account ends where the next write continues", ends(p) or all(ends(q) for q in p.cases(mine)),
                 "length %r" % (dlenF,), w)
        else:
            over, bytes_ = arg(instr, 0), arg(instr, 1)
            R.ob("an extension was allocated", p.must(HASLAST))
            ws = [e for e in p.effs if e[0] == "write" and e[1] is data(0) and e[3] != 0]
            if not R.ob("data is written once", len(ws) <= 1, "%d writes" % len(ws)):
                continue
            n = mk("len", bytes_)
            for e in ws:
                sv = source_of(e[4])
                R.ob("stored data is the given data", sv is not None and sv[0] is mk("obj", bytes_) and sv[1] == 0 and not sv[3]
                     and p.same(e[3], n), "%r" % (e[4],), e[-1])
                a, b = p.given(ne(over, 0)), p.given(eq(over, 0))
                if a is not None:
                    kinds.add("overwrite")
                    R.ob("overwriting starts at the extension's data", a.same(e[2], add(LAST, 16)), "%r" % (e[2],), e[-1])
                if b is not None:
                    kinds.add("append")
                    R.ob("appending starts at the end of the data so far", b.same(e[2], dl(0)), "%r" % (e[2],), e[-1])
                end = add(e[2], n)
                R.ob("data stays within the declared length", p.must(le(end, add(LAST, add(LAST_LEN, 16)))), "", e[-1])
                R.ob("account ends with the data so far", p.same(dlenF, end) or (
                    p.must(eq(end, add(LAST, add(LAST_LEN, 16)))) and p.same(dlenF, LAST_B)), "length %r" % (dlenF,), e[-1])
            R.ob("account is not longer than its extensions before", p.must(le(dl(0), add(LAST, add(LAST_LEN, 16)))))
        only_touches(R, p, {0: lambda *a: True, 1: lambda k, *a: k == "lam"}, "nothing else changes")
    R.ob("both kinds of %s are possible" % instr.lower(), len(kinds) >= 2, "%r" % kinds)


# ------------------------------------------------------------------ C20
SHRINK_TO = {"Update": 4, "Remove": 3, "Resize": 2, "Write": 1, "Allocate": 1, "Create": 5, "Close": 1}
PAYER = {"Update": (4, 5), "Resize": (2, 3), "Write": (1, 2), "Allocate": (1, 2), "Create": (5, 6)}
MAX_INCREASE = 10240


def lam_base(terms, i):
    """The term for account i's balance on entry to a path: its only load, or the plain one."""
    out = {t for x in terms for t in subterms(x) if t.tag == "ld" and t.a[0] is mk("lam", i)}
    return out.pop() if len(out) == 1 else lam(i) if not out else None


def paths_of(p):
    """(part, effects, in a loop) for the straight-line effects of a part and of every loop iteration on it."""
    yield p, [e for e in p.effs if e[0] != "loop"], False
    todo, seen = [e[1] for e in p.effs if e[0] == "loop"], set()
    while todo:
        lid = todo.pop()
        if lid in seen:
            continue
        seen.add(lid)
        for fs, es in p.I.loops[lid]["effects"]:
            todo += [e[1] for e in es if e[0] == "loop"]
            if any(money(e) for e in all_effects(p.I, es)):
                for q, fe in split_path(p, fs, es):
                    yield q, [e for e in fe if e[0] != "loop"], True


def stable(t):
    """The fact is about the accounts as the instruction received them."""
    return all(x.tag not in ("phi", "sym", "disj") and not (x.tag == "ld" and len(x.a) > 3) for x in subterms(t)
               if x is not NACC and x is not STACK)


def split_path(p, fs, es):
    q = sub_part(p, frozenset(fs) | {f for f in p.st.facts if stable(f)})
    r = Run.__new__(Run)
    r.I, r.parts, r.ctx, r.name = p.I, [], None, None
    r.expand(q.st, es)
    return [(x, x.effs) for x in r.parts]


def money(e):
    return e[0] in ("sys_transfer", "create_account", "realloc") or \
        e[0] == "write" and isinstance(e[1], T) and e[1].tag == "lam"


def C20(ctx, instr, run, R):
    kinds = set()
    for p in run.parts:
        for q, effs, inloop in paths_of(p):
            if any(money(e) for e in effs):
                c20_path(ctx, instr, R, q, effs, kinds)
    want = {"shrink"} if instr in ("Remove", "Burn", "Close") else {"grow"} if instr == "Create" else \
        {"shrink", "grow", "funded"} if instr in PAYER else set()
    R.ob("lamports move only when an account is created, resized or closed", kinds <= {"shrink", "grow", "funded", "create"}
         and (instr in SHRINK_TO or instr == "Burn" or not kinds), "%r" % kinds)
    R.ob("every kind of resize is analysed", kinds >= want, "%r" % kinds)


def c20_path(ctx, instr, R, p, effs, kinds):
    terms = [x for e in effs for x in e if isinstance(x, T)]
    who = set()
    for e in effs:
        if e[0] == "write" and e[1].tag == "lam":
            who.add(e[1].a[0])
        elif e[0] in ("sys_transfer", "create_account"):
            who |= {e[1], e[2]}
    base = {i: lam_base(terms + list(p.st.facts), i) for i in who}
    if not R.ob("every balance is read once before it changes", all(isinstance(i, int) and base[i] is not None for i in who),
                "%r" % (who,), effs[0][-1]):
        return
    cur, sent, made = dict(base), {}, {}
    for e in effs:
        if e[0] == "write" and e[1].tag == "lam":
            i = e[1].a[0]
            R.ob("a balance is written as a whole", e[2] == 0 and e[3] == 8, "%r" % (e,), e[-1])
            if i in made and e[4] is not made[i]:
                base[i] = made[i]
            cur[i] = e[4]
        elif e[0] == "create_account":
            _, frm, to, amt, space, owner, w = e
            kinds.add("create")
            pay = PAYER.get(instr)
            R.ob("only the asset account is created", to == 0 and p.same(owner, ctx.ID), "account %r" % (to,), w)
            R.ob("creation is paid by a payer that signed", pay is not None and frm == pay[0] and
                 p.must(signer(frm)), "payer %r" % (frm,), w)
            R.ob("creation goes through the genuine system program", pay is not None and p.must(eq(key(pay[1]), ZERO32)), "", w)
            R.ob("created account is rent exempt", p.same(amt, mk("rentmin", space)), "%r" % (amt,), w)
            cur[to] = base[to] = made[to] = amt
            cur.pop(frm, None), base.pop(frm, None)
        elif e[0] == "sys_transfer":
            _, frm, to, amt, w = e
            kinds.add("funded")
            pay = PAYER.get(instr)
            R.ob("funding comes from the payer", pay is not None and frm == pay[0], "account %r" % (frm,), w)
            R.ob("the payer signed", p.must(signer(frm)), "account %r" % (frm,), w)
            R.ob("funding goes through the genuine system program", pay is not None and p.must(eq(key(pay[1]), ZERO32)), "", w)
            cur[frm], cur[to] = sub(cur.get(frm, lam(frm)), amt), add(cur.get(to, lam(to)), amt)
            base.setdefault(frm, lam(frm)), base.setdefault(to, lam(to))
            sent[to] = add(sent.get(to, 0), amt)
    w = next((e[-1] for e in effs if e[0] == "write"), effs[0][-1])
    ca, cb = 0, 0
    for i in cur:
        ca, cb = add(ca, cur[i]), add(cb, base[i])
    R.ob("lamports are neither created nor destroyed", not cur or p.same(ca, cb), "%r becomes %r" % (cb, ca), w)
    rs = {}
    for e in effs:
        if e[0] == "realloc":
            rs.setdefault(e[1], []).append(e)
    R.ob("only the account itself is resized", set(rs) <= {0}, "%r" % (list(rs),), w)
    for a, es in rs.items():
        old, new, w = es[0][2], es[-1][3], es[-1][-1]
        c, b = cur.get(a), base.get(a)
        if b is None:
            b = c = lam_base(list(p.st.facts), a)
            if b is None:
                R.ob("every balance is read once before it changes", False, "", w)
                continue
        others = {i for i in cur if i != a and not p.same(cur[i], base[i])}
        rent = mk("rentmin", new)

        def enough(q):
            return q.dnf([eq(c, rent), le(rent, b)], [eq(c, b), le(b, rent)])

        def funded(q):
            return q.dnf([eq(c, rent), le(b, rent)], [eq(c, b), le(rent, b)])
        rentf = lambda f: any(t.tag == "rentmin" or t is b for t in subterms(f))
        for q in ([p.given(lt(new, old))] if not p.must(le(old, new)) else
                  [p.given(eq(new, 0))] if instr in ("Close", "Burn") else []):
            if q is None:
                continue
            kinds.add("shrink")
            z = q.given(eq(new, 0))
            if z is not None:
                R.ob("an emptied account keeps no balance", z.same(c, 0), "%r" % (c,), w)
            z = q.given(ne(new, 0))
            if z is not None:
                R.ob("shrinking moves exactly the excess over the rent minimum",
                     enough(z) or all(enough(x) for x in z.cases(rentf)), "balance %r becomes %r" % (b, c), w)
            to = SHRINK_TO.get(instr)
            if instr == "Burn":
                R.ob("the balance goes to the recipient, or the signer when none is given",
                     len(others) == 1 and others <= {1, 2} and p.must(ctx.present(2) if others == {2} else eq(key(2), ctx.ID)),
                     "accounts %r" % (others,), w)
            else:
                R.ob("the excess goes to the designated account", others <= {to}, "accounts %r" % (others,), w)
                if others and instr in ("Update", "Allocate", "Create"):
                    R.ob("the designated account is given", p.must(ctx.present(to)), "", w)
            R.ob("shrinking takes nothing from anyone", not sent or p.same(c, b), "%r" % (sent,), w)
        for q in ([p.given(le(old, new), ne(new, 0))] if not p.must(lt(new, old)) else []):
            if q is None:
                continue
            kinds.add("grow")
            R.ob("growing adds exactly what is missing", funded(q) or all(funded(x) for x in q.cases(rentf)),
                 "balance %r becomes %r" % (b, c), w)
            R.ob("growth is funded by transfer", q.same(c, add(b, sent.get(a, 0))), "%r" % (c,), w)
            lim = [le(sub(new, old), MAX_INCREASE)] + [neg(mk("p", "reallocerr", a, x[3])) for x in es]
            R.ob("growth is limited", q.must(lim[0]) or all(q.must(x) for x in lim[1:]), "by %r" % (sub(new, old),), w)


PER = {"C20": (C20, INSTRS), "C19": (C19, ["Allocate", "Write", "Close"]), "C18": (C18, ["Update", "Remove", "Resize"])}
ONCE = {}
