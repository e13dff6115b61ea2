"""C37: an update does exactly what it was asked, and creation stores every extension it is given."""
from rules import *
from p_asset import FIELDS, HEADER_MAY
from p_asset2 import (header_stores, source_of, ext_writes, guarded, created, sub_part, same_slice)
from p_asset3 import ran_loops, all_effects, moves
from terms import *

FIXED = ("discriminator", "state", "standard", "owner", "group", "authority", "delegate")


def some(t):
    return eq(mk("discr", t), 1)


def payload(t):
    return mk("fld", t, 1, 0)


def C37_update(ctx, run, R):
    arg = mk("fld", mk("sym", "ix", None), INSTRS.index("Update"), 0)
    name, mut, ex = (mk("fld", arg, 0, k) for k in range(3))
    kinds = set()
    for p in run.parts:
        for given, f, label, same in (
                (name, F_NAME, "name", lambda v, x: isinstance(v, T) and v.tag == "podstr" and v.a[0] == 35 and v.a[1] is x),
                (mut, F_MUT, "mutability", None)):
            w = p.span_of(data(0), f[0])
            q = p.given(some(given))
            if q is not None:
                kinds.add("%s given" % label)
                v = q.fin(0, f)
                ok = same(v, payload(given)) if same else q.becomes(0, f, payload(given))
                R.ob("a given %s becomes the asset's" % label, ok, "%r" % (v,), w)
            q = p.given(neg(some(given)))
            if q is not None:
                kinds.add("%s kept" % label)
                ok = q.keeps(0, f)
                if f is F_MUT and not ok:
                    # the same truth value, whatever byte stands for it
                    ok = q.must(ne(D(0, f), 0)) and q.must(ne(q.fin(0, f), 0)) or q.must(eq(D(0, f), 0)) and q.must(eq(q.fin(0, f), 0))
                R.ob("a %s that is not given stays" % label, ok, "%r" % (q.fin(0, f),), w)
        for f in FIXED:
            R.ob("%s stays" % f, p.keeps(0, FIELDS[f]), "%r" % (p.fin(0, FIELDS[f]),), p.span_of(data(0), FIELDS[f][0]))
        buf = ne(key(2), ctx.ID)
        q = p.given(neg(some(ex)), neg(buf))
        if q is not None:
            kinds.add("none")
            ws = [e for _, e, _ in ext_writes(q)]
            R.ob("without an extension nothing else changes", not ws and not q.effects("realloc"),
                 "%r" % (ws[:1],), ws[0][-1] if ws else None)
        for lits, kind in (((some(ex), neg(buf)), "argument"), ((neg(some(ex)), buf), "buffer"), ((some(ex), buf), "both")):
            q = p.given(*lits)
            if q is None:
                continue
            kinds.add(kind)
            hs = header_stores(q)
            w = q.span_of(data(0))
            if kind == "both":
                R.ob("not from two sources", False, "an extension argument and a buffer are both accepted", w)
                continue
            if not R.ob("the given extension is stored once", len(hs) == 1, "%d headers stored" % len(hs), w):
                continue
            (h, hd), = hs.items()
            w = q.span_of(data(0), h) or w
            if kind == "buffer":
                src = (data(2), A_LEN + 16, mk("ld", data(2), A_LEN + 4, 4))
                ty = mk("ld", data(2), A_LEN, 4)
                n = src[2]
            else:
                x = payload(ex)
                d = mk("fld", x, 0, 2)
                ty, n = mk("fld", x, 0, 0), mk("fld", x, 0, 1)
                src = (mk("obj", payload(d)), 0, mk("len", payload(d)))
                if q.must(neg(some(d))):
                    R.ob("no data means an empty extension", q.must(eq(n, 0)) and q.must(eq(hd["len"], 0)), "%r" % (hd["len"],), w)
                    src = None
            R.ob("the given type is recorded", q.same(hd["type"], ty), "%r" % (hd["type"],), w)
            R.ob("the given length is recorded", q.same(hd["len"], n) or (src is not None and q.same(hd["len"], src[2])),
                 "%r" % (hd["len"],), w)
            vs = [e for _, e, _ in guarded(q) if e[0] == "validate"]
            got = False
            for _, e, lp in ext_writes(q):
                sv = source_of(e[4])
                if sv is None or sv[0] is data(0):
                    continue
                ok = src is not None and sv[0] is src[0] and q.same(sv[1], src[1]) and q.same(e[3], src[2]) and q.same(e[2], add(h, 16))
                R.ob("the stored bytes are the given bytes", ok, "%r" % (sv[:3],), e[-1])
                got |= ok
            R.ob("the given bytes are stored", got or src is None or q.must(eq(src[2], 0)) or q.must(eq(hd["len"], 0)), "", w)
    for k in ("name given", "name kept", "mutability given", "mutability kept", "none", "argument", "buffer"):
        R.ob("update possible with %s" % k, k in kinds, "%r" % sorted(kinds))


def element_of(I, lid, t):
    """t belongs to the element a pass of loop lid takes out of the given list: (list, element, phi)"""
    out = []
    for ph in I.loops[lid]["phis"]:
        inf = I.phis[ph]
        ks = set()
        for s in inf["steps"]:
            if isinstance(s, T) and s.tag == "removed" and s.a[0] is ph:
                ks.add(s.a[1])
            else:
                ks.add(None)
        if len(ks) == 1 and None not in ks:
            out.append((inf["init"], mk("idx", ph, ks.pop()), ph, "removed"))
        elif inf["init"] == 0 and inf["steps"] and all(eq(s, add(ph, 1)) == 1 for s in inf["steps"]):
            out.append((t, mk("idx", t, ph), ph, "index"))
    return out


def C37_create(ctx, run, R):
    arg = mk("fld", mk("sym", "ix", None), INSTRS.index("Create"), 0)
    exts = mk("fld", arg, 0, 3)
    seen = False
    done = {}
    for p in run.parts:
        q = p.given(some(exts))
        if q is None:
            continue
        seen = True
        I = q.I
        V = payload(exts)
        why = "no pass over the given extensions"
        ok = q.must(eq(mk("len", V), 0))
        where = None
        for e in q.effs:
            if e[0] != "loop" or ok:
                continue
            lid = e[1]
            for lst, el, ph, how in element_of(I, lid, V):
                if lst is not V:
                    continue
                if (lid, ph) not in done:
                    done[(lid, ph)] = each_pass(q, lid, el, R)
                good, w, where2 = done[(lid, ph)]
                if not good:
                    if w:
                        why, where = w, where2
                    continue
                end = q.must(eq(mk("len", ph), 0)) if how == "removed" else q.must(le(mk("len", V), ph))
                if end:
                    ok = True
                else:
                    why = "the pass may end before the last one"
        R.ob("every given extension is stored", ok, why, where)
    R.ob("creation with extensions is possible", seen)


def each_pass(q, lid, el, R):
    """Each pass stores one header made from the element, followed by the element's data."""
    I = q.I
    ty, n, d = (mk("fld", el, 0, k) for k in range(3))
    info = I.loops[lid]
    any_ = False
    for fs, es in info["effects"]:
        s = sub_part(q, fs)
        ws = [e for e in es if e[0] == "write" and e[1] is data(0)]
        heads = [e for e in ws if e[3] in (4, 12, 16)]
        if not heads:
            return False, ("a pass stores no header" if any_ else None), None
        any_ = True
        cand = {e[2]: e[4] for e in heads if e[3] == 4}
        hs = [o for o in cand if add(o, 4) in cand and add(o, 8) in cand]
        if len(hs) != 1:
            return False, "a pass stores %d headers" % len(hs), heads[0][-1]
        h = hs[0]
        if not s.same(cand[h], ty):
            return False, "stored type is %r" % (cand[h],), heads[0][-1]
        if not s.same(cand[add(h, 4)], n):
            return False, "stored length is %r" % (cand[add(h, 4)],), heads[0][-1]
        data_ok = s.must(neg(some(d)), eq(mk("len", payload(d)), 0))
        for e in ws:
            if e in heads and e[2] in (h, add(h, 4), add(h, 8)):
                continue
            sv = source_of(e[4])
            if sv is None or sv[0] is not mk("obj", payload(d)) or sv[1] != 0 or not s.same(e[2], add(h, 16)) \
                    or not s.same(e[3], mk("len", payload(d))):
                return False, "a pass stores %r" % (e[:5],), e[-1]
            data_ok = True
        if not data_ok:
            return False, "a pass may drop the data of its extension", heads[0][-1]
    return any_, None, None


def C37(ctx, instr, run, R):
    (C37_update if instr == "Update" else C37_create)(ctx, run, R)


PER = {"C37": (C37, ["Update", "Create"])}
ONCE = {}
EXPLAIN = {"C37": "Update and Create are abstractly interpreted on compiler MIR with free arguments. For an update every abstract success path is "
           "split by which arguments are given; the final name, mutability, other header fields, stored extension header and stored bytes "
           "are compared with the arguments (or the buffer's first extension). For a creation the loop over the given extensions must "
           "take every element (summary of the loop), and each pass must store one header with the element's type and length and the "
           "element's data right behind it."}
ASSUME = {"C37": ["a given name longer than the field is cut by the field's own conversion (PodStr), which is taken as it is",
                  "Vec and iterator operations behave as documented (library models)"]}
