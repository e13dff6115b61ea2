"""Rule C32: every loop moves towards its end, and nested constraints are parsed from smaller pieces."""
from p_types import *  # noqa
from p_types import FnRun, lookup_args, TYPES, ASSET, EXTN, opaque_views
from terms import lin_parts, lin_make, subterms, occurs


def linear(f):
    """Fact as a linear form known to be negative: (form, strict) or None."""
    if isinstance(f, T) and f.tag == "lt0":
        return f.a[0]
    if isinstance(f, T) and f.tag == "not" and isinstance(f.a[0], T) and f.a[0].tag == "lt0":
        c, d = lin_parts(f.a[0].a[0])
        return lin_make(-c - 1, {t: -k for t, k in d.items()})
    return None


def bounded(ph, phis, fs, unit):
    """A fact of the iteration keeps ph below something the loop does not move."""
    for f in fs:
        L = linear(f)
        if L is not None:
            c, d = lin_parts(L)
            if d.get(ph, 0) > 0 and not any(t in phis for t in d if t is not ph):
                return True
        if unit and isinstance(f, T) and f.tag == "not" and isinstance(f.a[0], T) and f.a[0].tag == "eq" and ph in subterms(f.a[0]):
            return True
    return False


def leaves(s, depth=0):
    """Values a step can take; a saturated subtraction counts as its unsaturated value."""
    if isinstance(s, T) and s.tag == "ite" and depth < 6:
        a, b = s.a[1], s.a[2]
        if a == 0 or b == 0:
            return leaves(b if a == 0 else a, depth + 1)
        return leaves(a, depth + 1) + leaves(b, depth + 1)
    c, d = lin_parts(s)
    for t, k in d.items():
        if t.tag == "ite" and depth < 6:
            rest = sub(s, mulc(t, k))
            return [x for y in leaves(t, depth + 1) for x in leaves(add(rest, mulc(y, k)), depth + 1)]
    return [s]


def recorded(ph, phis, s):
    """The step is the boundary recorded in the header at the cursor, moved by something fixed."""
    c, d = lin_parts(s)
    bs = [t for t, k in d.items() if t.tag == "ld" and k == 1 and t.a[2] == 4 and isinstance(t.a[0], T) and t.a[0].tag == "data"
          and isinstance(sub(t.a[1], ph), int)]
    if len(bs) != 1 or any(ph2 in phis for t in d if t is not bs[0] for ph2 in subterms(t)):
        return False
    return True


def forward(ph, phis, s, base):
    """(moves forward, by one)"""
    d = sub(s, ph)
    if isinstance(d, int):
        return d >= 1, d == 1
    # the length of something is added to at least one
    c, parts = lin_parts(d)
    if c >= 1 and parts and all(k > 0 and (t.tag in ("len", "pad") or t.tag == "ld") for t, k in parts.items()):
        return True, False
    return recorded(ph, phis, s), False


def shrinks(ph, s):
    while isinstance(s, T) and s.tag == "removed":
        s = s.a[0]
        if s is ph:
            return True
    return False


def ranked(I, lid):
    """What makes a loop end, or None."""
    info = I.loops[lid]
    phis = set(info["phis"])
    if not info["backs"]:
        return "no second pass"
    for ph in info["phis"]:
        inf = I.phis[ph]
        if not inf["steps"] or len(inf["steps"]) != len(inf["facts"]):
            continue
        ok = True
        for s, fs in zip(inf["steps"], inf["facts"]):
            if s is None:
                ok = False
                break
            if shrinks(ph, s):
                continue
            for x in leaves(s):
                f, unit = forward(ph, phis, x, inf["init"])
                ok = ok and f and bounded(ph, phis, fs, unit)
            if not ok:
                break
        if ok:
            return ph
    # counting down
    for ph in info["phis"]:
        inf = I.phis[ph]
        if inf["steps"] and all(isinstance(sub(s, ph), int) and sub(s, ph) <= -1 for s in inf["steps"] if s is not None) and None not in inf["steps"]:
            return ph
    return None


def explain_loop(I, lid):
    return str([(str(ph), [str(s)[:70] for s in I.phis[ph]["steps"]][:3]) for ph in I.loops[lid]["phis"]][:3])


def check_loops(R, I, subject):
    for lid in I.loops:
        R.stats["loops"] = R.stats.get("loops", 0) + 1
        R.ob("every loop moves towards its end", ranked(I, lid) is not None, "%s: %s" % (subject, explain_loop(I, lid)), I.loops[lid].get("fn", lid))


def C32_instr(ctx, instr, run, R):
    check_loops(R, run.I, instr)


def C32_lookups(ctx, R):
    for crate in ("nifty_asset_types", "asset_program", "proxy_program"):
        P = ctx.prog(crate)
        for path, base in ((ASSET + "get", 0), (ASSET + "get_mut", 0), (EXTN + "get", A_LEN), (EXTN + "get_mut", A_LEN)):
            for fn in P.by_path.get(path, []):
                check_loops(R, FnRun(ctx, crate, fn, lookup_args(fn, base), opaque_views).I, "%s %s" % (crate, fn.name))
                R.stats["lookups"] = R.stats.get("lookups", 0) + 1
    P = ctx.prog("nifty_asset_types")
    for what in ("contains", "get_extension", "get_extensions", "first_extension", "last_extension"):
        fn = P.by_path[ASSET + what][0]
        check_loops(R, FnRun(ctx, "nifty_asset_types", fn, lookup_args(fn, 0)).I, what)
        R.stats["lookups"] = R.stats.get("lookups", 0) + 1


def insts(x):
    if isinstance(x, dict):
        if isinstance(x.get("inst"), int):
            yield x["inst"]
        for v in x.values():
            yield from insts(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from insts(v)


def cycles(P, own):
    """Groups of functions of the workspace that call each other (by id)."""
    fns = P.fns.values() if isinstance(P.fns, dict) else P.fns
    g = {f.id: set(insts(f.blocks or [])) for f in fns}
    idx, low, stack, on, out, n = {}, {}, [], set(), [], [0]
    for root in g:
        if root in idx:
            continue
        work = [(root, iter(g.get(root, ())))]
        idx[root] = low[root] = n[0]
        n[0] += 1
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            w = next(it, None)
            if w is not None:
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(g.get(w, ()))))
                elif w in on:
                    low[v] = min(low[v], idx[w])
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                comp = set()
                while True:
                    w = stack.pop()
                    on.discard(w)
                    comp.add(w)
                    if w == v:
                        break
                if len(comp) > 1 or v in g.get(v, ()):
                    out.append(comp)
    return [c for c in out if any(own(P.fns[i].path) for i in c)]


def own_code(path):
    return any(x in path for x in ("nifty_asset", "asset_program", "bridge", "proxy_program"))


BYTES = mk("data", 0)


def slice_arg(P, fn):
    """Index of the byte slice among a function's arguments."""
    for i in range(fn.argc):
        t = P.types[fn.locals[1 + i]]
        if t["k"] == "ref" and P.types[t["e"]]["k"] == "slice" and P.types[P.types[t["e"]]["e"]]["s"] == "u8":
            return i
    return None


def C32_recursion(ctx, R):
    P = ctx.prog("asset_program")
    for comp in cycles(P, own_code):
        names = {P.fns[i].path: i for i in comp}
        same = {}
        for i in comp:
            fn = P.fns[i]
            k = slice_arg(P, fn) if fn.locals else None
            if not R.ob("every recursion is over ever smaller pieces of bytes", k is not None, "%s takes no bytes" % fn.path, fn.path):
                continue
            seen = []

            def setup(I):
                def h(I, st, f, args, fr, span):
                    j = slice_arg(P, f)
                    n = I.slice_len(st, args[j], f.locals[1 + j])
                    if I.holds(st, lt(n, N)):
                        seen.append((f.path, 1, span))
                    elif I.holds(st, le(n, N)):
                        seen.append((f.path, 0, span))
                    else:
                        seen.append((f.path, -1, span))
                    return [(st, mk("parsed", f.path, args[j]))]
                for q in names:
                    if q != fn.path:
                        I.extra[q] = h
                inner = I.extra.get(fn.path)
                state = {"n": 0}

                def self_call(I, st, f, args, fr, span):
                    if state["n"] == 0:
                        state["n"] = 1
                        return NotImplemented
                    return h(I, st, f, args, fr, span)
                I.extra[fn.path] = self_call
            args = [mk("sym", "arg%d" % j, fn.locals[1 + j]) for j in range(fn.argc)]
            args[k] = ref_of(BYTES, 0, N)
            run = FnRun(ctx, "asset_program", fn, args, setup, [le(0, N), lt(N, 1 << 32)])
            check_loops(R, run.I, fn.name)
            R.stats["recursive functions"] = R.stats.get("recursive functions", 0) + 1
            for q, how, span in seen:
                R.stats["recursive calls"] = R.stats.get("recursive calls", 0) + 1
                R.ob("every recursion is over ever smaller pieces of bytes", how >= 0, "%s hands %s more bytes than it was given" % (fn.path, q), span)
                if how == 0:
                    same.setdefault(i, set()).add(names[q])
        # calls that hand on everything must not lead back
        left = dict(same)
        while True:
            ends = [i for i in left if not any(j in left for j in left[i])]
            if not ends:
                break
            for i in ends:
                del left[i]
        R.ob("every recursion is over ever smaller pieces of bytes", not left, "these can call each other on the same bytes: %s" % [P.fns[i].path[:80] for i in left])


def C32_readers(ctx, R):
    """The views of extension data, shared and mutable."""
    crate = "nifty_asset_types"
    P = ctx.prog(crate)
    for path in sorted(P.by_path):
        if not (path.startswith("<" + TYPES + "extensions::") and path.endswith(("ExtensionData<'a>>::from_bytes", "ExtensionDataMut<'a>>::from_bytes_mut"))):
            continue
        for fn in P.by_path[path]:
            if not fn.blocks:
                continue
            run = FnRun(ctx, crate, fn, [ref_of(BYTES, 0, N)], lenient, [le(0, N), lt(N, 1 << 32)])
            check_loops(R, run.I, path)
            R.stats["readers"] = R.stats.get("readers", 0) + 1
    R.ob("anchor", R.stats.get("readers", 0) >= 11, "%d readers" % R.stats.get("readers", 0))


def lenient(I):
    pass


ONCE = {"C32": {"lookups": C32_lookups, "readers": C32_readers, "recursion": C32_recursion}}
ALLI = ["Close", "Burn", "Create", "Approve", "Allocate", "Lock", "Revoke", "Transfer", "Unlock", "Unverify", "Update", "Verify", "Write", "Group",
        "Ungroup", "Handover", "Remove", "Resize"]
PER = {"C32": (C32_instr, ALLI)}
EXPLAIN = {"C32": "Every loop of every instruction handler, lookup and constraint parser is found by the abstract interpreter together with the value each "
                  "pass gives its loop variables. A loop must have a ranking: a cursor that each pass moves on (by a positive amount, or to the end recorded in "
                  "the header it stands at) below a bound the loop does not move, or a collection that each pass makes smaller. Functions that call each "
                  "other in a circle must hand on strictly smaller byte slices on every circle."}
ASSUME = {"C32": ["the end recorded in an extension header lies behind that header (layout established by C18, C19, C21)",
                  "loops whose number of passes the interpreter knows are unrolled and end by themselves",
                  "library iterators end"]}
