"""Interprocedural, disjunctive (trace-partitioned) must-fact dataflow over MIR.

Abstract state = values of live cells (locals), byte-addressed regions with the
list of writes made to them, and the set of literals that hold on every concrete
execution the state stands for.  Control-flow joins keep the partitions apart
(and re-merge partitions that differ only in one complementary literal); loops
whose trip count is not a constant are widened to a head state in which every
changed location is an unconstrained loop symbol.  No solver is involved: a
branch is pruned only when its literal contradicts a literal already held
(directly, through an interval, or through the equality classes).
"""
import re
import json
import os
import sys

from terms import *  # noqa

_ID = re.compile(r"(#|\bbox\()(\d+)")

sys.setrecursionlimit(20000)


def put_at(v, path, x):
    """v with the component at path replaced by x."""
    if not path:
        return x
    i = path[0]
    if isinstance(v, tuple):
        return v[:i] + (put_at(v[i], path[1:], x),) + v[i + 1:]
    a = list(v.a)
    a[i] = put_at(a[i], path[1:], x)
    return mk(v.tag, *a)


class Limit(Exception):
    pass


class Split(Exception):
    def __init__(self, lit):
        self.lit = lit


UNIT = mk("unit")


def _k0(x):
    return x[0]


def _tid(t):
    return t.id


def _mix(i):
    return (i * 0x9E3779B97F4A7C15 + 0x7F4A7C15) & 0xffffffffffffffff



# ------------------------------------------------------------------ program
class Fn:
    __slots__ = ("id", "path", "name", "kind", "targs", "crate", "span", "argc", "locals", "spread",
                 "names", "blocks", "loops", "_succ", "live", "rpo", "drain")

    def __init__(self, d):
        for k in ("id", "path", "name", "kind", "targs", "crate", "span"):
            setattr(self, k, d.get(k))
        self.argc = d.get("argc")
        self.locals = d.get("locals")
        self.spread = d.get("spread")
        self.names = d.get("names")
        self.blocks = d.get("blocks")
        self.drain = d.get("drain")
        self.loops = None
        self.live = None
        self.rpo = None

    def succs(self, b):
        t = b["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None and t[3] >= 0 else [])
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] >= 0 else []
        if k == "assert":
            return [t[3]]
        return []


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d["crate"]
        self.types = d["types"]
        self.roots = d["roots"]
        self.consts = d["consts"]
        self.statics = d.get("statics", [])
        self.fns = {f["id"]: Fn(f) for f in d["fns"]}
        self.by_path = {}
        for f in self.fns.values():
            self.by_path.setdefault(f.path, []).append(f)
        self._nt = {}
        self._sc = {}
        self._tyid = {}
        for i, t in enumerate(self.types):
            self._tyid.setdefault(t["s"], i)

    # -- types
    def tid(self, s):
        return self._tyid.get(s)

    def size(self, t):
        return self.types[t].get("size") or 0

    def newtype(self, t):
        """Index of the only sized field of a struct of the same size, else None."""
        r = self._nt.get(t, -1)
        if r != -1:
            return r
        ty = self.types[t]
        r = None
        if ty["k"] == "adt" and ty.get("ak") == "struct" and ty.get("v") and ty.get("size"):
            fs = ty["v"][0]["f"]
            nz = [i for i, (_, ft) in enumerate(fs) if ft is not None and self.types[ft].get("size") != 0]
            if len(nz) == 1 and self.types[fs[nz[0]][1]].get("size") == ty["size"] \
                    and ty["def"] not in NO_COLLAPSE:
                r = nz[0]
        self._nt[t] = r
        return r

    def strip(self, t):
        while True:
            n = self.newtype(t)
            if n is None:
                return t
            t = self.types[t]["v"][0]["f"][n][1]

    def clike(self, t):
        ty = self.types[t]
        return (ty["k"] == "adt" and ty.get("ak") == "enum" and ty.get("v")
                and all(not v["f"] for v in ty["v"]) and len(ty["v"]) > 0 and ty.get("size", 0) > 0)

    def scalar(self, t):
        r = self._sc.get(t)
        if r is None:
            s = self.strip(t)
            k = self.types[s]["k"]
            r = 1 if k in ("int", "bool", "char") or self.clike(s) else 0
            self._sc[t] = r
        return r

    def signed(self, t):
        ty = self.types[self.strip(t)]
        return ty["k"] == "int" and ty.get("signed")

    def fields(self, t, variant=0):
        ty = self.types[t]
        k = ty["k"]
        if k == "adt":
            v = ty["v"][variant or 0]
            return [f[1] for f in v["f"]], v.get("o")
        if k in ("tuple", "closure"):
            return ty["f"], ty.get("o")
        if k == "array":
            n = ty["n"]
            e = ty["e"]
            return [e] * n, [i * self.size(e) for i in range(n)]
        return [], []


NO_COLLAPSE = set()


# ------------------------------------------------------------------ loops
def find_loops(fn):
    """Natural loops by header: header -> set(blocks)."""
    if fn.loops is not None:
        return fn.loops
    n = len(fn.blocks)
    succ = [[] if b is None else [s for s in fn.succs(b) if fn.blocks[s] is not None] for b in fn.blocks]
    # reverse postorder
    order, seen = [], set()
    stack = [(0, iter(succ[0]))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    preds = {b: [] for b in order}
    for b in order:
        for s in succ[b]:
            if s in idx:
                preds[s].append(b)
    idom = {0: 0}
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                changed = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]

    loops = {}
    for b in order:
        for s in succ[b]:
            if s in idx and dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
    fn.loops = loops
    return loops


def _uses_place(pl, out, as_def):
    if not (as_def and not pl[1]):
        out.add(pl[0])
    for e in pl[1]:
        if e[0] == "i":
            out.add(e[1])


def _uses_operand(o, out):
    if isinstance(o, dict) and "p" in o:
        _uses_place(o["p"], out, False)


def _uses_rvalue(r, out):
    for x in r:
        if isinstance(x, dict):
            _uses_operand(x, out)
        elif isinstance(x, list):
            if x and isinstance(x[0], int) and len(x) == 2 and isinstance(x[1], list):
                _uses_place(x, out, False)
            else:
                for y in x:
                    if isinstance(y, dict):
                        _uses_operand(y, out)


def live_in(fn):
    """Per block: locals whose value may still be mentioned (assignment of a whole local kills it)."""
    if getattr(fn, "live", None) is not None:
        return fn.live
    n = len(fn.blocks)
    gen, kill = [set() for _ in range(n)], [set() for _ in range(n)]
    for i, b in enumerate(fn.blocks):
        if b is None:
            continue
        g, k = gen[i], kill[i]
        for s in b["s"]:
            u = set()
            d = None
            if s[0] == "=":
                _uses_rvalue(s[2], u)
                _uses_place(s[1], u, True)
                d = s[1][0] if not s[1][1] else None
            elif s[0] == "sd":
                u.add(s[1][0])
            else:
                _uses_rvalue(s[1:], u)
            g |= u - k
            if d is not None and d not in u:
                k.add(d)
        t = b["t"]
        u = set()
        if t[0] == "switch" or t[0] == "assert":
            _uses_operand(t[1], u)
        elif t[0] == "drop":
            _uses_place(t[1], u, False)
        elif t[0] == "call":
            if "ind" in t[1]:
                _uses_operand(t[1]["ind"], u)
            for a in t[2]:
                _uses_operand(a, u)
            _uses_place(t[3], u, True)
            if not t[3][1] and t[3][0] not in u:
                g |= u - k
                k.add(t[3][0])
                u = set()
        elif t[0] == "ret":
            u.add(0)
        g |= u - k
    live = [set() for _ in range(n)]
    changed = True
    while changed:
        changed = False
        for i in range(n - 1, -1, -1):
            b = fn.blocks[i]
            if b is None:
                continue
            o = set()
            for x in fn.succs(b):
                if fn.blocks[x] is not None:
                    o |= live[x]
            v = gen[i] | (o - kill[i])
            if v != live[i]:
                live[i] = v
                changed = True
    fn.live = live
    return live


def rpo_index(fn):
    if fn.rpo is not None:
        return fn.rpo
    find_loops(fn)
    succ = [[] if b is None else [x for x in fn.succs(b) if fn.blocks[x] is not None] for b in fn.blocks]
    order, seen = [], {0}
    stack = [(0, iter(succ[0]))]
    while stack:
        b, it = stack[-1]
        for x in it:
            if x not in seen:
                seen.add(x)
                stack.append((x, iter(succ[x])))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    # keep loop bodies contiguous: blocks after a loop come after all of its blocks
    fn.rpo = {b: i for i, b in enumerate(order)}
    return fn.rpo


# ------------------------------------------------------------------ state
class State:
    __slots__ = ("cells", "mem", "facts", "bnd", "rep", "eff", "ncell", "borrow", "forks", "trace", "dead",
                 "neq")

    def __init__(self):
        self.cells = {}
        self.mem = {}
        self.facts = set()
        self.bnd = {}
        self.rep = {}
        self.neq = ()
        self.eff = ()
        self.ncell = 0
        self.borrow = {}
        self.forks = 0
        self.trace = ()
        self.dead = False

    def fork(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.mem = dict(self.mem)
        s.facts = set(self.facts)
        s.bnd = dict(self.bnd)
        s.rep = dict(self.rep)
        s.neq = self.neq
        s.eff = self.eff
        s.ncell = self.ncell
        s.borrow = dict(self.borrow)
        s.forks = self.forks
        s.trace = self.trace
        s.dead = self.dead
        return s

    def newcell(self, v):
        self.ncell += 1
        if v is not None:
            self.cells[self.ncell] = v
        return self.ncell

    def effect(self, *e):
        self.eff = (self.eff, e)

    def effects(self):
        out = []
        e = self.eff
        while e:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out


def canon_ids(v):
    """Text of a term with the numbers of inner loops and fresh symbols renumbered by first occurrence:
    every widening round of an outer loop meets the same inner loops under new numbers."""
    m = {}
    return _ID.sub(lambda k: k.group(1) + m.setdefault(k.group(2), str(len(m))), repr(v))


def effects_between(eff, base):
    out = []
    e = eff
    while e is not base and e:
        out.append(e[1])
        e = e[0]
    out.reverse()
    return out


def ite_weight(ws):
    n = 0
    for w in ws:
        n += 1
        if w and w[0] == "ite":
            n += ite_weight(w[2]) + ite_weight(w[3])
        if n > 1000:
            break
    return n


def flat_writes(ws):
    """All writes of a write list, both branches of lazily joined ones."""
    for w in ws:
        if w[0] == "ite":
            yield from flat_writes(w[2])
            yield from flat_writes(w[3])
        else:
            yield w


FILTER_NEXT = "<core::iter::adapters::filter::Filter<I, P> as core::iter::traits::iterator::Iterator>::next"


class Frame:
    __slots__ = ("fn", "loc", "depth", "site", "bb")

    def __init__(self, fn, loc, depth, site):
        self.bb = None
        self.fn = fn
        self.loc = loc
        self.depth = depth
        self.site = site


# ------------------------------------------------------------------ interpreter
class Interp:
    MAXDEPTH = 60

    def __init__(self, prog, models=None, maxstates=40000):
        self.p = prog
        self.models = models or {}
        self.phis = {}       # phi -> dict(init, steps)
        self.loops = {}      # loop instance -> info
        self.unknown = {}    # path -> count
        self.visited = {}    # fn path -> count
        self.nsteps = 0
        self.nsplit = 0
        self.nfresh = 0
        self.maxsteps = 4000000
        self.panics = 0
        self.invariant_lower = None   # hook: term -> lower bound or None
        self.stack = []
        self.decided_exit = [False]
        self.undecided_next = [False]
        self.call_hook = None
        self.trace_calls = set()
        self.virtual = {}
        self.dty = None
        self._idsum = {}
        self._lbusy = {}

    # -- fresh
    def fresh(self, what, ty=None):
        self.nfresh += 1
        return mk("sym", "%s#%d" % (what, self.nfresh), ty)

    # ---------------------------------------------------------- bounds & facts
    def dflt_bounds(self, st, t):
        tag = t.tag
        if tag == "ld":
            sz = t.a[2]
            lo = 0
            if self.invariant_lower:
                x = self.invariant_lower(self, st, t)
                if x is not None:
                    lo = x
            if len(t.a) > 3 and t.a[0].tag == "dlen" and t.a[3] and t.a[3][-1][0] == "loop":
                lo = max(lo, self.loop_lower(st, t))
            if t.a[0].tag == "dlen":
                return lo, 1 << 32          # account data is limited to 10 MiB by the runtime
            return lo, ((1 << (8 * sz)) - 1 if isinstance(sz, int) and sz <= 8 else None)
        if tag in ("lasthdr", "exthdr"):
            return 0, 1 << 32               # offset inside an account
        if tag == "len":
            return 0, (1 << 32) - 1         # a slice lives in one region of the virtual machine
        if tag == "phi":
            inf = self.phis.get(t)
            lo = 0
            if inf is not None and inf["init"] is not None and self.invariant_lower and self.is_cursor(t):
                return max(0, self.lower(st, inf["init"])), None
            if inf is not None and not inf.get("busy"):
                inf["busy"] = True
                try:
                    cand = self.lower(st, inf["init"]) if inf["init"] is not None and not isinstance(inf["init"], tuple) else 0
                    ok = True
                    inf["cand"] = cand
                    for s in inf["steps"]:
                        if s is None or self.lower(st, s) < cand:
                            ok = False
                    lo = cand if ok and cand > 0 else 0
                finally:
                    inf["busy"] = False
                    inf.pop("cand", None)
            elif inf is not None:
                lo = max(0, inf.get("cand", 0))
            return lo, None
        if tag == "pad":
            lo, hi = self.bounds(st, t.a[0])
            return (max(lo, 0) if lo is not None else 0), (hi + 8 if hi is not None else None)
        if tag in LIT:
            return 0, 1
        if tag == "and":
            hi = None
            for x in t.a:
                if isinstance(x, int):
                    hi = x if hi is None else min(hi, x)
            return 0, hi
        return 0, None

    def loop_lower(self, st, t):
        """Lower bound of a length that a loop keeps rewriting: the least of its entry value and
        everything stored to it in the loop (inductively assuming the bound)."""
        b = self._lbusy.get(t)
        if b is not None:
            return b
        region, off, size, ws = t.a
        try:
            pre = self.load_raw(st, region, off, size, ws[:-1])
        except Split:
            return 0
        cand = self.lower(st, pre) if isinstance(pre, (int, T)) else 0
        if cand <= 0:
            return 0
        self._lbusy[t] = cand
        try:
            for w in self.loops[ws[-1][1]]["writes"].get(region, ()):
                v = w[2]
                if w[0] != 0 or w[1] != 8 or v is None or isinstance(v, tuple) or self.lower(st, v) < cand:
                    return 0
        finally:
            del self._lbusy[t]
        return cand

    def is_cursor(self, ph):
        """Loop symbol that walks extension headers: every step follows the recorded boundary
        of the header it stands on (possibly shifted by the distance the data was moved)."""
        inf = self.phis[ph]
        steps = inf["steps"]
        if not steps or isinstance(inf["init"], tuple) or inf["init"] is None:
            return False
        if inf.get("ckey") == steps:
            return inf["cval"]
        inf["ckey"] = list(steps)
        inf["cval"] = all(self.cursor_step(ph, inf["init"], s) for s in steps)
        return inf["cval"]

    def cursor_step(self, ph, init, s):
        if s is None or isinstance(s, (int, tuple)):
            return False
        if s is ph:
            return True
        if s.tag == "ite":
            a, b = s.a[1], s.a[2]
            ra, rb = self.cursor_step(ph, init, a), self.cursor_step(ph, init, b)
            # saturation at zero: the other branch is the exact value, which is never negative here
            return (ra or a == 0) and (rb or b == 0) and (ra or rb)
        c, d = lin_parts(s)
        own = [t for t, k in d.items() if k == 1 and t.tag == "ld" and t.a[2] == 4 and t.a[0].tag == "data"
               and eq(t.a[1], add(ph, 8)) == 1]
        if len(own) != 1:
            return False
        extra = sub(s, own[0])
        if extra == 0:
            return True
        # moved data: extra = init - (old boundary of an earlier header)
        x = sub(init, extra)
        return isinstance(x, T) and self.boundary_load(x)

    def boundary_load(self, t):
        if t.tag != "ld" or t.a[2] != 4 or t.a[0].tag != "data":
            return False
        h = sub(t.a[1], 8)
        if isinstance(h, int):
            return h == 168
        return h.tag in ("lasthdr", "exthdr") or (h.tag == "phi" and h in self.phis)

    def bounds(self, st, v):
        if isinstance(v, int):
            return v, v
        b = st.bnd.get(v)
        if v.tag == "lin":
            lo = hi = v.a[0]
            for t, k in v.a[1]:
                l, h = self.bounds(st, t)
                if k < 0:
                    l, h = h, l
                lo = None if lo is None or l is None else lo + k * l
                hi = None if hi is None or h is None else hi + k * h
            c = v.a[0]
            P = lin_make(0, dict(v.a[1]))
            neg_ = False
            b = st.bnd.get(P)
            if b is None:
                P2 = mulc(P, -1)
                b2 = st.bnd.get(P2)
                if b2 is not None:
                    b = (None if b2[1] is None else -b2[1], None if b2[0] is None else -b2[0])
            if b is not None:
                if b[0] is not None:
                    lo = b[0] + c if lo is None else max(lo, b[0] + c)
                if b[1] is not None:
                    hi = b[1] + c if hi is None else min(hi, b[1] + c)
            return lo, hi
        lo, hi = self.dflt_bounds(st, v)
        if b is not None:
            if b[0] is not None:
                lo = b[0] if lo is None else max(lo, b[0])
            if b[1] is not None:
                hi = b[1] if hi is None else min(hi, b[1])
        return lo, hi

    def lower(self, st, v):
        lo, _ = self.bounds(st, v)
        return lo if lo is not None else -(1 << 62)

    def find(self, st, t):
        r = st.rep
        while isinstance(t, T) and t in r:
            t = r[t]
        return t

    def decide(self, st, l):
        """1, 0 or None."""
        if isinstance(l, int):
            return 1 if l else 0
        if l.tag == "not":
            r = self.decide(st, l.a[0])
            return None if r is None else 1 - r
        if l in st.facts:
            return 1
        if mk("not", l) in st.facts:
            return 0
        if l.tag == "lt0":
            lo, hi = self.bounds(st, l.a[0])
            if hi is not None and hi < 0:
                return 1
            if lo is not None and lo >= 0:
                return 0
            return None
        if l.tag == "eq":
            a, b = l.a
            if isinstance(b, int):
                lo, hi = self.bounds(st, a)
                if lo is not None and hi is not None and lo == hi:
                    return 1 if lo == b else 0
                if (lo is not None and lo > b) or (hi is not None and hi < b):
                    return 0
            ra, rb = self.find(st, a), self.find(st, b)
            if ra is rb or (isinstance(ra, int) and ra == rb):
                return 1
            if self.isconst(ra) and self.isconst(rb):
                return 0
            for x, y in st.neq:
                x, y = self.find(st, x), self.find(st, y)
                if (x is ra and y is rb) or (x is rb and y is ra):
                    return 0
            return None
        return None

    @staticmethod
    def isconst(v):
        return isinstance(v, int) or (isinstance(v, T) and v.tag == "bytes")

    def assume(self, st, l):
        """Add literal; False if contradictory."""
        if isinstance(l, int):
            return bool(l)
        r = self.decide(st, l)
        if r is not None:
            return bool(r)
        st.facts.add(l)
        if l.tag == "disj":
            return True
        pos = l.tag != "not"
        x = l if pos else l.a[0]
        if x.tag == "lt0":
            P, c = split_lt0(x.a[0])
            lo, hi = st.bnd.get(P, (None, None))
            if pos:      # P < -c
                h = -c - 1
                hi = h if hi is None else min(hi, h)
            else:        # P >= -c
                lo = -c if lo is None else max(lo, -c)
            if lo is not None and hi is not None and lo > hi:
                return False
            st.bnd[P] = (lo, hi)
        elif x.tag == "eq":
            a, b = x.a
            if pos:
                if isinstance(b, int):
                    lo, hi = self.bounds(st, a)
                    if (lo is not None and lo > b) or (hi is not None and hi < b):
                        return False
                    st.bnd[a] = (b, b)
                ra, rb = self.find(st, a), self.find(st, b)
                if ra is not rb:
                    if self.isconst(ra):
                        ra, rb = rb, ra
                    if isinstance(ra, T):
                        st.rep[ra] = rb
                        # propagate intervals between class members
                        if not isinstance(rb, int) and (a in st.bnd or b in st.bnd) and isinstance(b, T):
                            l1, h1 = st.bnd.get(a, (None, None))
                            l2, h2 = st.bnd.get(b, (None, None))
                            lo = l1 if l2 is None else l2 if l1 is None else max(l1, l2)
                            hi = h1 if h2 is None else h2 if h1 is None else min(h1, h2)
                            st.bnd[a] = st.bnd[b] = (lo, hi)
                            if lo is not None and hi is not None and lo > hi:
                                return False
                    for u, v in st.neq:
                        u, v = self.find(st, u), self.find(st, v)
                        if u is v:
                            return False
            else:
                st.neq = st.neq + ((a, b),)
                if isinstance(b, int):
                    lo, hi = self.bounds(st, a)
                    blo, bhi = st.bnd.get(a, (None, None))
                    if lo == b:
                        blo = b + 1
                    if hi == b:
                        bhi = b - 1
                    if blo is not None and bhi is not None and blo > bhi:
                        return False
                    if (blo, bhi) != (None, None):
                        st.bnd[a] = (blo, bhi)
        return True

    def split(self, st, lit):
        """[(state, 0/1)] for the feasible truth values of lit."""
        r = self.decide(st, lit)
        if r is not None:
            return [(st, r)]
        self.nsplit += 1
        b = st.fork()
        out = []
        if self.assume(st, lit):
            st.forks += 1
            out.append((st, 1))
        if self.assume(b, neg(lit)):
            b.forks += 1
            out.append((b, 0))
        return out

    def disjs(self, st):
        return sorted((f for f in st.facts if f.tag == "disj"), key=_tid)

    def live_cases(self, st, d):
        """Disjuncts of a disjunction that are still consistent with the state (None: guard open)."""
        guard, conjs = d.a
        if guard is not None and self.decide(st, guard) != 1:
            return None
        out = []
        for c in conjs:
            s = st.fork()
            s.facts.discard(d)
            if all(self.assume(s, x) for x in sorted(c, key=_tid)):
                if any(x.tag == "disj" and self.live_cases(s, x) == [] for x in c):
                    continue
                out.append(s)
        return out

    def holds(self, st, lit, depth=3):
        """Entailment used by the rules: direct, or by resolving the joined/lifted disjunctions."""
        return self.holds_any(st, (lit,), depth)

    def holds_any(self, st, lits, depth=3):
        """Is the disjunction of lits entailed?"""
        for l in lits:
            if self.decide(st, l) == 1:
                return True
        if depth <= 0:
            return False
        ds = self.disjs(st)
        if not ds:
            return False
        # assume the negation of the goal: dead disjuncts then resolve further
        s = st.fork()
        for l in lits:
            if not self.assume(s, neg(l)):
                return True
        return self.contradictory(s, depth)

    def contradictory(self, st, depth):
        """Does case analysis on the recorded disjunctions refute the state?"""
        while True:
            unit = None
            best = None
            for d in self.disjs(st):
                cs = self.live_cases(st, d)
                if cs is None:
                    continue
                if not cs:
                    return True
                if len(cs) == 1:
                    unit = cs[0]
                    break
                if best is None or len(cs) < len(best):
                    best = cs
            if unit is None:
                break
            st = unit
        if best is None or depth <= 1 or len(best) > 64:
            return False
        return all(self.contradictory(c, depth - 1) for c in best)

    # ---------------------------------------------------------- values
    def norm(self, v, ty):
        if isinstance(v, T) and v.tag == "bytes" and ty is not None and self.p.scalar(ty):
            b = bytes.fromhex(v.a[0])
            return int.from_bytes(b, "little", signed=bool(self.p.signed(ty)))
        if isinstance(v, T) and v.tag == "le" and ty is not None and self.p.scalar(ty) and self.p.size(ty) == v.a[0]:
            return v.a[1]
        return v

    def resolve(self, st, v):
        """Lazily joined value: pick the branch, splitting the partition if it is open."""
        while isinstance(v, T) and v.tag == "ite":
            d = self.decide(st, v.a[0])
            if d is None:
                raise Split(v.a[0])
            v = v.a[1] if d else v.a[2]
        return v

    def extract(self, st, v, d, size, ty=None):
        """Bytes [d, d+size) of a stored value."""
        v = self.resolve(st, v)
        if v is None:
            return None
        if isinstance(v, int):
            if d == 0:
                return v if size >= 16 else (v if v < 0 else v & ((1 << (8 * size)) - 1))
            if isinstance(d, int):
                return (v >> (8 * d)) & ((1 << (8 * size)) - 1)
        tag = v.tag
        if tag == "bytes" and isinstance(d, int) and isinstance(size, int):
            if d == 0 and size * 2 == len(v.a[0]):
                return v
            return mk("bytes", v.a[0][2 * d:2 * (d + size)])
        if tag == "ld":
            if isinstance(d, int) and d == 0 and v.a[2] is size:
                return v
            if d == 0 and v.a[2] == size:
                return v
            return mk("ld", v.a[0], add(v.a[1], d), size, *v.a[3:])
        if tag == "agg" and isinstance(d, int):
            ty0 = v.a[0]
            if d == 0 and size == self.p.size(ty0):
                return v
            fs, os_ = self.p.fields(ty0, v.a[1])
            for f, o, x in zip(fs, os_ or [], v.a[2]):
                fsz = self.p.size(f)
                if fsz and o <= d and d + size <= o + fsz:
                    return self.extract(st, x, d - o, size, ty)
            tyd = self.p.types[ty0]
            if tyd.get("tag") and tyd["tag"]["enc"] == "direct" and d == tyd["tag"]["o"] and size == tyd["tag"]["size"]:
                return tyd["v"][v.a[1]]["d"]
        if tag == "arr" and isinstance(d, int):
            es = self.p.size(v.a[1])
            if es and d // es < len(v.a[0]) and (d % es) + size <= es:
                return self.extract(st, v.a[0][d // es], d % es, size, ty)
        if tag == "rep" and isinstance(d, int):
            es = self.p.size(v.a[2])
            if es and (d % es) + size <= es:
                return self.extract(st, v.a[0], d % es, size, ty)
        if tag == "zero":
            return mk("bytes", "00" * size) if isinstance(size, int) else v
        if tag == "slicev":
            return self.load_raw(st, v.a[0], add(v.a[1], d), size, v.a[3])
        if tag == "cat":
            pos = 0
            for x, n in v.a[0]:
                if isinstance(n, int) and isinstance(d, int) and pos <= d and d + size <= pos + n:
                    return self.extract(st, x, d - pos, size, ty)
                if not isinstance(n, int):
                    break
                pos += n
        return mk("ext", v, d, size)

    def vsize(self, v):
        return None

    # ---------------------------------------------------------- memory
    def load_raw(self, st, region, off, size, writes=None):
        if writes is None:
            writes = st.mem.get(region, ())
        if region.tag == "const":
            return self.load_const(region, off, size)
        i = len(writes)
        while i > 0:
            w = writes[i - 1]
            if w[0] == "ite":
                d = self.decide(st, w[1])
                if d is not None:
                    writes = writes[:i - 1] + (w[2] if d else w[3])
                    i = len(writes)
                    continue
                if all(x[0] not in ("loop", "ite") and self.disjoint(st, off, size, x[0], x[1]) for x in w[2] + w[3]):
                    i -= 1
                    continue
                raise Split(w[1])
            if w[0] == "loop":
                li = self.loops.get(w[1])
                recs = li["writes"].get(region, ()) if li else ()
                hit = False
                for (wo, ws, wv) in recs:
                    if not self.disjoint(st, off, size, wo, ws):
                        hit = True
                        break
                if hit:
                    return mk("ld", region, off, size, writes[:i])
                i -= 1
                continue
            wo, ws, wv = w
            d = sub(off, wo)
            if ws is not None and isinstance(d, int) and isinstance(ws, int) and isinstance(size, int):
                if d == 0 and size == ws:
                    return self.resolve(st, wv)
                if 0 <= d and d + size <= ws:
                    return self.extract(st, wv, d, size)
                if d >= ws or d + size <= 0:
                    i -= 1
                    continue
                # partial overlap: compose
                lo = max(0, d)
                pieces = []
                if d < 0:
                    pieces.append((self.load_raw(st, region, off, -d, writes[:i]), -d))
                a = max(d, 0)
                b = min(d + size, ws)
                pieces.append((self.extract(st, wv, a, b - a), b - a))
                if d + size > ws:
                    n = d + size - ws
                    pieces.append((self.load_raw(st, region, add(wo, ws), n, writes[:i - 1]), n))
                return self.mkcat(pieces)
            if ws is not None:
                if self.disjoint(st, off, size, wo, ws):
                    i -= 1
                    continue
                if self.decide(st, le(0, d)) == 1 and self.decide(st, le(add(off, size), add(wo, ws))) == 1:
                    if size is ws or size == ws:
                        return self.resolve(st, wv)
                    return self.extract(st, wv, d, size)
            return mk("ld", region, off, size, writes[:i])
        return mk("ld", region, off, size)

    def mkcat(self, pieces):
        if all(isinstance(x, T) and x.tag == "bytes" for x, _ in pieces):
            return mk("bytes", "".join(x.a[0] for x, _ in pieces))
        # contiguous pieces of one load
        out = []
        for x, n in pieces:
            if out and isinstance(x, T) and isinstance(out[-1][0], T) and x.tag == "ld" and out[-1][0].tag == "ld":
                y, m = out[-1]
                if x.a[0] is y.a[0] and x.a[3:] == y.a[3:] and eq(add(y.a[1], m), x.a[1]) == 1:
                    out[-1] = (mk("ld", y.a[0], y.a[1], add(m, n), *y.a[3:]), add(m, n))
                    continue
            out.append((x, n))
        if len(out) == 1:
            return out[0][0]
        return mk("cat", tuple(out))

    def disjoint(self, st, o1, s1, o2, s2):
        if s2 is None or s1 is None:
            # unknown extent upwards: only disjoint if strictly below
            if s2 is None and s1 is not None and self.decide(st, le(add(o1, s1), o2)) == 1:
                return True
            return False
        return self.decide(st, le(add(o1, s1), o2)) == 1 or self.decide(st, le(add(o2, s2), o1)) == 1

    def load_const(self, region, off, size):
        hexs, rels = region.a[0], region.a[1]
        if isinstance(off, int) and isinstance(size, int):
            for ro, tgt in rels:
                if ro == off and size >= 8:
                    if size == 8:
                        return tgt if tgt.tag == "fnref" else mk("ref", mk("mem", tgt, 0), None)
                    if size == 16:
                        ln = int.from_bytes(bytes.fromhex(hexs[2 * (off + 8):2 * (off + 16)]), "little")
                        return mk("ref", mk("mem", tgt, 0), ln)
            return mk("bytes", hexs[2 * off:2 * (off + size)])
        return mk("ld", region, off, size)

    def load(self, st, loc, ty, lazy=False):
        if loc.tag == "cell":
            v = st.cells.get(loc.a[0])
            for s in loc.a[1]:
                v = self.project(st, self.resolve(st, v), s)
            if isinstance(v, T) and v.tag == "ite":
                if lazy:
                    return v
                v = self.resolve(st, v)
            return self.norm(v, ty)
        if loc.tag == "mem":
            size = self.p.size(ty)
            if size == 0:
                return UNIT
            region = loc.a[0]
            v = self.load_raw(st, region, loc.a[1], size)
            if region.tag == "const" and isinstance(v, T) and v.tag == "bytes":
                v2 = self.const_struct(region, loc.a[1], ty)
                if v2 is not None:
                    return v2
            return self.norm(v, ty)
        raise Limit("load from %r" % (loc,))

    def const_struct(self, region, off, ty):
        """Decode an aggregate constant that holds pointers or niches."""
        if not region.a[1]:
            tyd = self.p.types[self.p.strip(ty)]
            if not (tyd["k"] == "adt" and tyd.get("ak") == "enum" and not self.p.clike(self.p.strip(ty))):
                return None
        return self.decode_const(region, off, ty)

    def decode_const(self, region, off, ty):
        p = self.p
        n = p.newtype(ty)
        if n is not None:
            f, o = p.fields(ty)
            return self.decode_const(region, off + o[n], f[n])
        tyd = p.types[ty]
        k = tyd["k"]
        size = p.size(ty)
        if size == 0:
            if k == "array":
                return mk("arr", (), tyd["e"])
            return UNIT
        if k in ("ref", "ptr"):
            for ro, tgt in region.a[1]:
                if ro == off:
                    meta = None
                    if size == 16:
                        meta = int.from_bytes(bytes.fromhex(region.a[0][2 * (off + 8):2 * (off + 16)]), "little")
                    base = int.from_bytes(bytes.fromhex(region.a[0][2 * off:2 * off + 16]), "little")
                    return mk("ref", mk("mem", tgt, base if tgt.tag == "const" else 0), meta)
            return self.norm(self.load_const(region, off, size), ty)
        if k == "fnptr":
            for ro, tgt in region.a[1]:
                if ro == off:
                    return tgt
        if p.scalar(ty):
            return self.norm(mk("bytes", region.a[0][2 * off:2 * (off + size)]), ty)
        if k == "adt" and tyd.get("ak") == "enum":
            tag = tyd.get("tag")
            if tag and tag["enc"] == "direct":
                tv = int.from_bytes(bytes.fromhex(region.a[0][2 * (off + tag["o"]):2 * (off + tag["o"] + tag["size"])]), "little")
                for i, v in enumerate(tyd["v"]):
                    if int(v["d"]) & ((1 << (8 * tag["size"])) - 1) == tv:
                        fs, os_ = p.fields(ty, i)
                        return mk("agg", ty, i, tuple(self.decode_const(region, off + o, f) for f, o in zip(fs, os_)))
            elif tag:
                to = off + tag["o"]
                un, lo, hi, start = tag["nv"]
                i = un
                if not any(ro == to for ro, _ in region.a[1]):
                    tv = int.from_bytes(bytes.fromhex(region.a[0][2 * to:2 * (to + tag["size"])]), "little")
                    rel = (tv - int(start)) & ((1 << (8 * tag["size"])) - 1)
                    if rel <= hi - lo:
                        i = lo + rel
                fs, os_ = p.fields(ty, i)
                return mk("agg", ty, i, tuple(self.decode_const(region, off + o, f) for f, o in zip(fs, os_)))
            return mk("bytes", region.a[0][2 * off:2 * (off + size)])
        if k == "array" and p.size(tyd["e"]) == 1 and not region.a[1]:
            return mk("bytes", region.a[0][2 * off:2 * (off + size)])
        fs, os_ = p.fields(ty)
        vals = tuple(self.decode_const(region, off + o, f) for f, o in zip(fs, os_))
        if k == "array":
            return mk("arr", vals, tyd["e"])
        return mk("agg", ty, 0, vals)

    def project(self, st, v, s):
        """One projection step on a value. s = ('f', parent_ty, variant, idx) | ('i', idx, elem_ty, parent)"""
        if s[0] == "f":
            _, pty, var, idx = s
            p = self.p
            n = p.newtype(pty)
            if n is not None:
                return v if idx == n else UNIT
            if v is None:
                return None
            if isinstance(v, T) and v.tag == "agg":
                if idx < len(v.a[2]):
                    return v.a[2][idx]
                return mk("bad", v, idx)
            tyd = p.types[pty]
            if tyd["k"] == "adt" and tyd.get("ak") == "union":
                return v
            fs, os_ = p.fields(pty, var)
            fty = fs[idx]
            if isinstance(v, int) or v.tag in ("ld", "bytes", "cat", "slicev", "zero", "ext"):
                if os_ is not None:
                    if p.size(fty) == 0:
                        return UNIT
                    return self.norm(self.extract(st, v, os_[idx], p.size(fty)), fty)
            return self.field(v, var or 0, idx, fty)
        if s[0] == "i":
            i, ety = s[1], s[2]
            if v is None:
                return None
            if isinstance(v, T):
                if v.tag == "arr" and isinstance(i, int) and i < len(v.a[0]):
                    return v.a[0][i]
                if v.tag == "rep":
                    return v.a[0]
                if v.tag in ("ld", "bytes", "cat", "zero"):
                    es = self.p.size(ety)
                    if v.tag != "bytes" or isinstance(i, int):
                        return self.norm(self.extract(st, v, mulc(i, es), es), ety)
                if v.tag == "vec":
                    if isinstance(i, int) and i < len(v.a[0]):
                        return v.a[0][i]
            return mk("idx", v, i)
        if s[0] == "b":       # byte range of a cell viewed as bytes
            return self.extract(st, v, s[1], s[2])
        if s[0] == "buf":
            return v
        raise Limit("project %r" % (s,))

    def field(self, v, var, idx, fty):
        return mk("fld", v, var, idx)

    def setpath(self, st, v, path, new):
        if not path:
            return new
        v = self.resolve(st, v)
        s = path[0]
        if s[0] == "f":
            _, pty, var, idx = s
            n = self.p.newtype(pty)
            if n is not None:
                return self.setpath(st, v, path[1:], new) if idx == n else v
            tyd = self.p.types[pty]
            if tyd["k"] == "adt" and tyd.get("ak") == "union":
                return self.setpath(st, v, path[1:], new)
            fs, _o = self.p.fields(pty, var)
            if isinstance(v, T) and v.tag == "agg" and v.a[1] == (var or 0) and len(v.a[2]) == len(fs):
                vals = list(v.a[2])
            else:
                vals = [None if v is None else self.project(st, v, ("f", pty, var, i)) for i in range(len(fs))]
            vals[idx] = self.setpath(st, vals[idx], path[1:], new)
            return mk("agg", pty, var or 0, tuple(vals))
        if s[0] == "i":
            i, ety = s[1], s[2]
            if isinstance(v, T) and v.tag in ("arr", "vec") and isinstance(i, int) and i < len(v.a[0]):
                vals = list(v.a[0])
                vals[i] = self.setpath(st, vals[i], path[1:], new)
                return mk(v.tag, tuple(vals), *v.a[1:])
            if isinstance(v, T) and v.tag == "rep" and isinstance(i, int) and isinstance(v.a[1], int) and v.a[1] <= 64:
                vals = [v.a[0]] * v.a[1]
                vals[i] = self.setpath(st, vals[i], path[1:], new)
                return mk("arr", tuple(vals), v.a[2])
            if isinstance(v, T) and v.tag == "bytes" and isinstance(i, int) and self.p.size(ety) == 1 and isinstance(new, int) and len(path) == 1:
                h = v.a[0]
                return mk("bytes", h[:2 * i] + "%02x" % (new & 255) + h[2 * i + 2:])
            return mk("upd", v, i, new)
        if s[0] == "b":
            return mk("updb", v, s[1], s[2], new)
        if s[0] == "buf":
            return self.setpath(st, v, path[1:], new)
        raise Limit("setpath %r" % (s,))

    def store(self, st, loc, ty, v, span=None):
        if loc.tag == "cell":
            cid, path = loc.a
            if not path:
                st.cells[cid] = v
            else:
                st.cells[cid] = self.setpath(st, st.cells.get(cid), path, v)
            return
        size = self.p.size(ty)
        if size == 0:
            return
        self.write(st, loc.a[0], loc.a[1], size, v, span)

    def write(self, st, region, off, size, v, span=None):
        st.mem[region] = st.mem.get(region, ()) + ((off, size, v),)
        st.effect("write", region, off, size, v, span)

    # ---------------------------------------------------------- places
    def place(self, st, fr, pl):
        """-> (loc, ty, meta, variant)"""
        loc = mk("cell", fr.loc[pl[0]], ())
        ty = fr.fn.locals[pl[0]]
        meta = None
        var = None
        p = self.p
        for e in pl[1]:
            k = e[0]
            if k == "*":
                v = self.load(st, loc, ty)
                ety = p.types[p.strip(ty)].get("e")
                if ety is None:
                    # Box<T> deref
                    args = p.types[ty].get("args") or []
                    ety = args[0] if args else None
                loc, meta = self.deref(st, v, ety)
                ty = ety
                var = None
            elif k == "f":
                loc = self.loc_field(loc, ty, var, e[1])
                ty = e[2]
                var = None
            elif k == "d":
                var = e[1]
            elif k in ("i", "ci"):
                ety = p.types[ty]["e"]
                if k == "i":
                    i = self.load(st, mk("cell", fr.loc[e[1]], ()), None)
                elif e[3]:
                    n = meta if meta is not None else p.types[ty].get("n")
                    i = sub(n, e[1])
                else:
                    i = e[1]
                loc = self.loc_index(st, loc, i, ety)
                ty = ety
                meta = None
            elif k == "ss":
                ety = p.types[ty]["e"]
                n = meta if meta is not None else p.types[ty].get("n")
                a = e[1]
                b = sub(n, e[2]) if e[3] else e[2]
                loc = self.loc_index(st, loc, a, ety)
                meta = sub(b, a)
            else:
                raise Limit("place elem %r" % (e,))
        return loc, ty, meta, var

    def loc_field(self, loc, ty, var, idx):
        p = self.p
        if loc.tag == "mem":
            n = p.newtype(ty)
            if n is not None and idx == n:
                return loc
            fs, os_ = p.fields(ty, var)
            tyd = p.types[ty]
            if tyd["k"] == "adt" and tyd.get("ak") == "union":
                return loc
            if not os_:
                return mk("mem", mk("subf", loc.a[0], loc.a[1], var or 0, idx), 0)
            return mk("mem", loc.a[0], add(loc.a[1], os_[idx]))
        return mk("cell", loc.a[0], loc.a[1] + (("f", ty, var, idx),))

    def loc_index(self, st, loc, i, ety):
        if loc.tag == "mem":
            return mk("mem", loc.a[0], add(loc.a[1], mulc(i, self.p.size(ety))))
        path = loc.a[1]
        # merge nested element offsets (slices into a cell array)
        if path and path[-1][0] == "i" and len(path[-1]) > 3 and path[-1][3] == "base":
            return mk("cell", loc.a[0], path[:-1] + (("i", add(path[-1][1], i), ety),))
        return mk("cell", loc.a[0], path + (("i", i, ety),))

    def deref(self, st, v, ety=None):
        if isinstance(v, T):
            if v.tag == "ref":
                return v.a[0], v.a[1]
            if v.tag == "agg" and len(v.a[2]) >= 1:   # Box / Unique wrappers
                return self.deref(st, v.a[2][0], ety)
            meta = None
            if ety is not None and self.p.types[ety]["k"] in ("slice", "str"):
                meta = mk("len", v)
            return mk("mem", mk("obj", v), 0), meta
        return mk("mem", mk("obj", mk("badptr", v)), 0), None

    # ---------------------------------------------------------- operands
    def const(self, c):
        k = c["c"]
        if k == "i":
            v = int(c["v"])
            ty = self.p.types[c["t"]]
            if ty["k"] == "adt" and not self.p.scalar(c["t"]):
                # scalar-represented aggregate constant (e.g. Option<u8>::None)
                size = self.p.size(c["t"])
                h = (v & ((1 << (8 * size)) - 1)).to_bytes(size, "little").hex()
                return self.decode_const(mk("const", h, ()), 0, c["t"])
            return v
        if k == "z":
            ty = self.p.types[c["t"]]
            if ty["k"] == "fndef":
                return mk("fndef", c["t"])
            if ty["k"] == "closure":
                return mk("agg", c["t"], 0, ())
            if ty["k"] == "array":
                return mk("arr", (), ty["e"])
            return UNIT
        if k == "p":
            r = self.alloc(c["a"])
            if r.tag == "fnref":
                return r
            return mk("ref", mk("mem", r, c["a"].get("off", 0) or 0), None)
        if k == "s":
            r = self.alloc(c["a"])
            return mk("ref", mk("mem", r, c["a"].get("off", 0) or 0), c["len"])
        if k == "m":
            r = self.alloc(c["a"])
            v = self.decode_const(r, c["a"].get("off", 0) or 0, c["t"])
            return v
        if k == "fn":
            return mk("fndef", c["t"])
        return mk("sym", "const:%s" % (c.get("name") or c.get("t")), c.get("t"))

    def alloc(self, a):
        if "fn" in a:
            return mk("fnref", a["fn"])
        if "static" in a:
            for x in self.p.statics:
                if x[0] == a["static"] and x[5] and x[3]:
                    return self.alloc(x[3])
            return mk("static", a["static"])
        if "m" not in a:
            return mk("static", json.dumps(a, sort_keys=True)[:200])
        rels = tuple((o, self.alloc(x)) for o, x in a.get("rel") or [])
        return mk("const", a["m"], rels)

    def operand(self, st, fr, o, lazy=False):
        if "p" in o:
            loc, ty, _, _ = self.place(st, fr, o["p"])
            return self.load(st, loc, ty, lazy)
        return self.const(o)

    def op_ty(self, fr, o):
        if "p" in o:
            return self.place_ty(fr, o["p"])
        return o["t"]

    def place_ty(self, fr, pl):
        ty = fr.fn.locals[pl[0]]
        for e in pl[1]:
            k = e[0]
            if k == "*":
                t = self.p.types[self.p.strip(ty)]
                ty = t.get("e") if t.get("e") is not None else (self.p.types[ty].get("args") or [None])[0]
            elif k == "f":
                ty = e[2]
            elif k in ("i", "ci"):
                ty = self.p.types[ty]["e"]
        return ty

    # ---------------------------------------------------------- rvalues
    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1], True)
        if k == "ref":
            loc, ty, meta, _ = self.place(st, fr, r[1])
            return mk("ref", loc, meta)
        if k == "bin":
            return self.binop(st, fr, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]),
                              self.op_ty(fr, r[2]), dty)
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                ty = self.p.types[self.p.strip(dty)]
                if ty["k"] == "bool":
                    return neg(truth(a))
                bits = 8 * self.p.size(dty)
                if isinstance(a, int):
                    return (~a) & ((1 << bits) - 1)
                return mk("bnot", bits, a)
            if r[1] == "Neg":
                return mulc(a, -1)
            if r[1] == "PtrMetadata":
                return self.metadata(st, a, self.op_ty(fr, r[2]))
            return mk("un", r[1], a)
        if k == "cast":
            return self.cast(st, fr, r[1], self.operand(st, fr, r[2]), self.op_ty(fr, r[2]), r[3])
        if k == "discr":
            loc, ty, _, _ = self.place(st, fr, r[1])
            return self.discr(st, self.load(st, loc, ty), ty)
        if k == "agg":
            vals = tuple(self.operand(st, fr, o, True) for o in r[3])
            return self.aggregate(st, r[1], r[2], vals, dty, r)
        if k == "rep":
            v = self.operand(st, fr, r[1])
            n = r[2]
            ety = self.p.types[dty]["e"]
            if isinstance(n, int) and isinstance(v, int) and self.p.size(ety) == 1 and n <= 4096:
                return mk("bytes", ("%02x" % (v & 255)) * n)
            return mk("rep", v, n, ety)
        if k == "other":
            return self.fresh("other:%s" % (r[1:],))
        raise Limit("rvalue %s" % k)

    def metadata(self, st, a, ty):
        if isinstance(a, T):
            if a.tag == "ref":
                if a.a[1] is not None:
                    return a.a[1]
                e = self.p.types[self.p.strip(ty)].get("e")
                if e is not None and self.p.types[e]["k"] == "array":
                    return self.p.types[e]["n"]
                return UNIT
            if a.tag == "agg" and a.a[2]:
                return self.metadata(st, a.a[2][0], ty)
            return mk("len", a)
        return UNIT

    as_iter = None

    def aggregate(self, st, kind, variant, vals, ty, r=None):
        p = self.p
        t = p.types[ty]
        if kind == "array":
            e = t["e"]
            if p.size(e) == 1 and vals and all(isinstance(v, int) for v in vals):
                return mk("bytes", "".join("%02x" % (v & 255) for v in vals))
            return mk("arr", vals, e)
        if kind == "rawptr":
            ptr, meta = vals
            if isinstance(ptr, T) and ptr.tag == "ref":
                return mk("ref", ptr.a[0], None if meta is UNIT else meta)
            return mk("ref", mk("mem", mk("obj", ptr if isinstance(ptr, T) else mk("badptr", ptr)), 0),
                      None if meta is UNIT else meta)
        if kind == "adt":
            if p.clike(ty):
                return int(t["v"][variant]["d"])
            n = p.newtype(ty)
            if n is not None:
                return vals[n]
            if t.get("ak") == "union":
                return vals[0] if vals else None
            if t.get("def") in ("core::slice::iter::Iter", "core::slice::iter::IterMut") and self.as_iter:
                return self.as_iter(self, mk("agg", ty, variant, vals), t["args"][0])
            return mk("agg", ty, variant, vals)
        if p.size(ty) == 0 and not vals and kind == "tuple":
            return UNIT
        return mk("agg", ty, 0, vals)

    def discr(self, st, v, ty):
        t = self.p.types[ty]
        if isinstance(v, int):
            return v
        if v is None:
            return mk("undefdiscr", ty)
        if v.tag == "agg":
            if t["k"] == "adt":
                return int(t["v"][v.a[1]]["d"])
            return 0
        if self.p.clike(ty):
            return v
        if v.tag in ("ld", "bytes", "cat", "slicev", "zero", "ext") and t.get("tag") and t["tag"]["enc"] == "direct":
            x = self.extract(st, v, t["tag"]["o"], t["tag"]["size"])
            if isinstance(x, T) and x.tag == "bytes":
                x = int.from_bytes(bytes.fromhex(x.a[0]), "little")
            return x
        if t["k"] == "adt" and len(t["v"]) == 1:
            return int(t["v"][0]["d"])
        return mk("discr", v)

    def wrapn(self, st, v, bits, signed):
        if isinstance(v, int):
            v &= (1 << bits) - 1
            if signed and v >> (bits - 1):
                v -= 1 << bits
            return v
        if bits <= 16:
            lo, hi = self.bounds(st, v)
            if not signed and lo is not None and lo >= 0 and hi is not None and hi < (1 << bits):
                return v
            return mk("wr", bits, v)
        return v

    def binop(self, st, fr, op, a, b, ty, dty):
        p = self.p
        sty = p.types[p.strip(ty)] if ty is not None else {"k": "int"}
        bits = 8 * (p.size(ty) if ty is not None else 8)
        sgn = sty["k"] == "int" and sty.get("signed")
        isbool = sty["k"] == "bool"
        if op in ("Eq", "Ne"):
            if sty["k"] in ("ptr", "ref", "fnptr"):
                l = self.ptr_eq(a, b)
            elif isbool and not (isinstance(a, int) or isinstance(b, int)):
                la = truth(a)
                d = self.decide(st, la)
                if d is None:
                    d2 = self.decide(st, truth(b))
                    if d2 is None:
                        raise Split(la)
                    l = la if d2 else neg(la)
                else:
                    l = truth(b) if d else neg(truth(b))
            elif isbool:
                if isinstance(a, int):
                    a, b = b, a
                l = truth(a) if (isinstance(b, int) and b) else neg(truth(a)) if isinstance(b, int) else eq(a, b)
                if isinstance(a, int):
                    l = 1 if bool(a) == bool(b) else 0
            else:
                l = self.eqlit(st, a, b)
            return l if op == "Eq" else neg(l)
        if op in ("Lt", "Le", "Gt", "Ge"):
            if sty["k"] in ("ptr", "ref"):
                return mk("p", "ptr" + op, a, b)
            l = {"Lt": lambda: lt(a, b), "Le": lambda: le(a, b), "Gt": lambda: lt(b, a), "Ge": lambda: le(b, a)}[op]()
            return self.fixcmp(st, l)
        if op in ("Add", "AddUnchecked", "Sub", "SubUnchecked", "Mul", "MulUnchecked"):
            if a is None or b is None:
                return mk("arith", op, a, b)
            v = add(a, b) if op[0] == "A" else sub(a, b) if op[0] == "S" else mul(a, b)
            return self.wrapn(st, v, bits, sgn)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            v = add(a, b) if op[0] == "A" else sub(a, b) if op[0] == "S" else mul(a, b)
            if isinstance(v, int):
                w = self.wrapn(st, v, bits, sgn)
                return mk("agg", dty, 0, (w, 0 if w == v else 1))
            if op[0] == "S" and not sgn:
                return mk("agg", dty, 0, (v, lt(a, b)))
            lo, hi = self.bounds(st, v)
            if hi is not None and hi < (1 << bits) and lo is not None and lo >= 0:
                return mk("agg", dty, 0, (v, 0))
            return mk("agg", dty, 0, (v, mk("p", "ovf", bits, v)))
        if op == "BitAnd":
            if isbool:
                return self.boolop(st, a, b, True)
            if isinstance(a, int) and isinstance(b, int):
                return a & b
            if a == 0 or b == 0:
                return 0
            full = (1 << bits) - 1
            if a == full:
                return b
            if b == full:
                return a
            for x, y in ((a, b), (b, a)):
                if isinstance(x, int) and not isinstance(y, int) and x == full & ~7 and bits > 8:
                    return floor_to(y, 8)
            return self.mkand(a, b)
        if op == "BitOr":
            if isbool:
                return self.boolop(st, a, b, False)
            if isinstance(a, int) and isinstance(b, int):
                return a | b
            return self.mkor(a, b)
        if op == "BitXor":
            if isbool:
                la, lb = truth(a), truth(b)
                d = self.decide(st, la)
                if d is None:
                    raise Split(la)
                return neg(lb) if d else lb
            if isinstance(a, int) and isinstance(b, int):
                return a ^ b
            return mk("xor", *self.order(a, b))
        if op in ("Shl", "ShlUnchecked"):
            if isinstance(b, int):
                return self.wrapn(st, mulc(a, 1 << b), bits, sgn) if isinstance(a, int) or b < 32 else mk("shl", a, b)
            return mk("shl", a, b)
        if op in ("Shr", "ShrUnchecked"):
            if isinstance(a, int) and isinstance(b, int):
                return a >> b
            return mk("shr", a, b)
        if op in ("Div", "Rem"):
            if isinstance(a, int) and isinstance(b, int) and b:
                return a // b if op == "Div" else a % b
            if isinstance(b, int) and b and op == "Div":
                c, d = lin_parts(a)
                if c % b == 0 and all(k % b == 0 for k in d.values()):
                    return lin_make(c // b, {t: k // b for t, k in d.items()})
            if op == "Rem" and b == 8:
                return sub(a, floor_to(a, 8))
            return mk("div" if op == "Div" else "rem", a, b)
        if op == "Offset":
            # pointer + n elements
            e = p.types[p.strip(ty)].get("e")
            if isinstance(a, T) and a.tag == "ref":
                return mk("ref", self.loc_offset(st, a.a[0], b, e), a.a[1])
            return mk("ptroff", a, mulc(b, p.size(e)))
        if op == "Cmp":
            # Ordering: -1, 0, 1
            for l, r in ((lt(a, b), -1), (self.eqlit(st, a, b), 0)):
                d = self.decide(st, l)
                if d is None:
                    raise Split(l)
                if d:
                    return r
            return 1
        return mk("bin", op, a, b)

    def loc_offset(self, st, loc, n, ety):
        if loc.tag == "mem":
            return mk("mem", loc.a[0], add(loc.a[1], mulc(n, self.p.size(ety))))
        if n == 0:
            return loc
        path = loc.a[1]
        if path and path[-1][0] == "i":
            last = path[-1]
            return mk("cell", loc.a[0], path[:-1] + (("i", add(last[1], n), last[2]) + last[3:],))
        return mk("cell", loc.a[0], path + (("i", n, ety),))

    def mkand(self, a, b):
        a, b = self.order(a, b)
        return mk("and", a, b)

    def mkor(self, *xs):
        """Flattened, deduplicated bit-or with one constant part."""
        parts, c = [], 0
        for x in xs:
            if isinstance(x, int):
                c |= x
            elif x.tag == "or":
                for y in x.a:
                    if isinstance(y, int):
                        c |= y
                    elif y not in parts:
                        parts.append(y)
            elif x not in parts:
                parts.append(x)
        parts.sort(key=lambda t: t.id)
        if not parts:
            return c
        if c:
            parts.append(c)
        return parts[0] if len(parts) == 1 else mk("or", *parts)

    def fixcmp(self, st, l):
        """and(x,single bit) > 0 style comparisons become bit literals."""
        if isinstance(l, int):
            return l
        pos = l.tag != "not"
        x = l if pos else l.a[0]
        if x.tag == "lt0":
            P, c = split_lt0(x.a[0])
            if isinstance(P, T) and P.tag == "and" and c == -1:
                # and < 1  <=> and == 0
                r = self.eqlit(st, P, 0)
                return r if pos else neg(r)
            if c == -1 and isinstance(P, T) and P.tag != "lin" and not is_lit(P):
                # x < 1 <=> x == 0 (unsigned)
                r = eq(P, 0)
                return r if pos else neg(r)
        return l

    @staticmethod
    def order(a, b):
        if isinstance(a, int):
            return b, a
        if isinstance(b, int):
            return a, b
        return (a, b) if a.id < b.id else (b, a)

    def eqlit(self, st, a, b):
        if isinstance(a, int):
            a, b = b, a
        if isinstance(a, T) and a.tag == "and" and isinstance(b, int) and isinstance(a.a[1], int):
            m = a.a[1]
            if m and m & (m - 1) == 0:
                bit = mk("bit", a.a[0], m.bit_length() - 1)
                if b == 0:
                    return neg(bit)
                if b == m:
                    return bit
                return 0
        if a is None or b is None:
            return mk("p", "undefcmp", a, b)
        if isinstance(a, T) and a.tag == "agg" and isinstance(b, T) and b.tag == "agg" and len(a.a[2]) == len(b.a[2]):
            if a.a[1] != b.a[1]:
                return 0
        return eq(a, b)

    def ptr_eq(self, a, b):
        if a is b:
            return 1
        if isinstance(a, T) and isinstance(b, T) and a.tag == "ref" and b.tag == "ref":
            la, lb = a.a[0], b.a[0]
            if la.tag == "mem" and lb.tag == "mem" and la.a[0] is lb.a[0]:
                return eq(la.a[1], lb.a[1])
        return mk("p", "ptreq", *self.order(a, b))

    def boolop(self, st, a, b, conj):
        la, lb = truth(a), truth(b)
        for x, y in ((la, lb), (lb, la)):
            d = self.decide(st, x)
            if d is not None:
                if conj:
                    return y if d else 0
                return 1 if d else y
        raise Split(la)

    def cast(self, st, fr, kind, v, sty, dty):
        p = self.p
        if kind == "int":
            if isinstance(v, int):
                return self.wrapn(st, v, 8 * p.size(dty), p.signed(dty))
            db, sb = p.size(dty), p.size(sty)
            if db < sb and db <= 2:
                return self.wrapn(st, v, 8 * db, p.signed(dty))
            return v
        if kind == "coerce:Unsize" or kind.startswith("coerce"):
            if kind == "coerce:Unsize":
                return self.unsize(st, v, sty, dty)
            return v
        if kind in ("ptr", "transmute", "BoxDerefTransmute"):
            dt, stt = p.types[p.strip(dty)], p.types[p.strip(sty)]
            if isinstance(v, T) and v.tag == "ref" and dt["k"] in ("ptr", "ref"):
                e = dt.get("e")
                if e is not None and p.types[e]["k"] not in ("slice", "str", "dyn") and v.a[1] is not None \
                        and kind == "ptr" and p.size(dty) == 8:
                    return mk("ref", v.a[0], None)
                return v
            if kind == "transmute" or kind == "BoxDerefTransmute":
                return self.norm(v, dty)
            return v
        return mk("cast", kind, v)

    def unsize(self, st, v, sty, dty):
        p = self.p
        if isinstance(v, T) and v.tag == "ref":
            e = p.types[p.strip(sty)].get("e")
            if e is None:
                args = p.types[sty].get("args")
                e = args[0] if args else None
            if e is not None and p.types[e]["k"] == "array":
                loc = v.a[0]
                if loc.tag == "cell":
                    loc = mk("cell", loc.a[0], loc.a[1] + (("i", 0, p.types[e]["e"], "base"),))
                return mk("ref", loc, p.types[e]["n"])
            if e is not None:
                return mk("ref", v.a[0], mk("vt", e))
        return v

    # ---------------------------------------------------------- calls
    def call(self, st, fid, args, fr=None, span=None):
        """Inline call. -> [(state, ret)]"""
        fn = self.p.fns[fid]
        depth = (fr.depth + 1) if fr else 0
        h = self.models.get(fn.path)
        if h is None:
            h = self.model_for(fn)
        if h is not None:
            args = [self.resolve(st, a) for a in args]
            r = h(self, st, fn, args, fr, span)
            if r is not NotImplemented:
                return r
        if fn.blocks is None or depth > self.MAXDEPTH or self.stack.count(fid) >= 2:
            return self.havoc_call(st, fn, args, fr)
        if len(args) == 1 and isinstance(args[0], T) and fn.argc == 1 and args[0].tag != "ite":
            r = self.identity_summary(st, fn, args[0])
            if r is not None:
                return r
        return self.run_fn(st, fn, args, depth, span)

    def identity_summary(self, st, fn, v):
        """Scalar->scalar conversions (`T::try_from(u32)` and friends) whose body maps every
        accepted k to k are summarised as the identity on [0,n) instead of n partitions.
        The summary is computed from the body, so a broken table is not summarised."""
        c = self._idsum.get(fn.id, 0)
        if c == 0:
            c = self._idsum[fn.id] = self.compute_identity(fn)
        if c is None:
            return None
        n, wrap, other = c
        out = []
        for s, tv in self.split(st, lt(v, n)):
            if tv:
                out.append((s, v if wrap is None else mk("agg", wrap, 0, (v,))))
            elif other is not None:
                out.append((s, other))
        return out

    def compute_identity(self, fn):
        p = self.p
        aty, rty = fn.locals[1], fn.locals[0]
        if not p.scalar(aty) or p.types[p.strip(aty)]["k"] == "bool":
            return None
        wrap = None
        if not p.scalar(rty):
            t = p.types[rty]
            if t.get("def") != "core::result::Result" or not p.scalar(t["args"][0]):
                return None
            wrap = rty
        if not any(b is not None and b["t"][0] == "switch" and len(b["t"][2]) >= 4 for b in fn.blocks):
            return None
        x = mk("sym", "idarg:%s" % fn.path, aty)
        s0 = State()
        save = self.nsteps, self.nsplit, self.panics
        try:
            res = self.run_fn(s0, fn, [x], 0, None)
        except Limit:
            return None
        ks, other = set(), None
        for s, v in res:
            if s.eff or s.mem:
                return None
            b = s.bnd.get(x)
            k = b[0] if b and b[0] is not None and b[0] == b[1] else None
            if wrap is not None:
                if not (isinstance(v, T) and v.tag == "agg" and v.a[0] == wrap):
                    return None
                if v.a[1] != 0:
                    if other is not None and other is not v:
                        return None
                    other = v
                    continue
                v = v.a[2][0]
            if v is x and k is None:
                continue
            if k is None or not isinstance(v, int) or v != k:
                return None
            ks.add(k)
        if ks != set(range(len(ks))) or len(ks) < 3:
            return None
        if wrap is None and other is None and not p.clike(p.strip(aty)):
            return None
        return len(ks), wrap, other

    def model_for(self, fn):
        return None

    def havoc_call(self, st, fn, args, fr, rty=None):
        self.unknown[fn.path] = self.unknown.get(fn.path, 0) + 1
        st.effect("unknown", fn.path, tuple(args))
        for a in args:
            self.havoc_ref(st, a)
        return [(st, self.fresh("call:" + fn.path))]

    def havoc_ref(self, st, a):
        if isinstance(a, T) and a.tag == "ref" and a.a[0].tag == "cell":
            loc = a.a[0]
            old = self.load(st, loc, None)
            if isinstance(old, T) and old.tag == "ref":
                return
            # only written through if &mut; caller types are not tracked here, so be conservative
            self.store(st, loc, None, self.fresh("havoc"))

    def run_fn(self, st, fn, args, depth, site):
        self.visited[fn.path] = self.visited.get(fn.path, 0) + 1
        base = st.ncell
        loc = {}
        # rust-call ABI: closures take the tuple exploded
        args = list(args)
        if len(args) != fn.argc and len(args) == 2:
            tup = self.resolve(st, args[1])
            n = fn.argc - 1
            if isinstance(tup, T) and tup.tag == "agg":
                args = [args[0]] + list(tup.a[2])
            elif tup is UNIT:
                args = [args[0]]
            else:
                args = [args[0]] + [mk("fld", tup, 0, i) for i in range(n)]
        elif len(args) == 2 and "{closure" in fn.path:
            tup = self.resolve(st, args[1])
            if isinstance(tup, T) and tup.tag == "agg" and len(tup.a[2]) == 1 and tup.a[0] is not None and tup.a[0] != fn.locals[2] \
                    and self.p.types[tup.a[0]]["k"] == "tuple":
                args = [args[0], tup.a[2][0]]
        nl = len(fn.locals)
        for i in range(nl):
            loc[i] = st.newcell(None)
        for i, a in enumerate(args):
            st.cells[loc[i + 1]] = a
        # closure env by reference
        if args and fn.argc >= 1 and "{closure" in fn.path:
            t1 = self.p.types[fn.locals[1]]
            if t1["k"] == "ref" and not (isinstance(args[0], T) and args[0].tag == "ref"):
                c = st.newcell(args[0])
                st.cells[loc[1]] = mk("ref", mk("cell", c, ()), None)
        fr = Frame(fn, loc, depth, site)
        self.stack.append(fn.id)
        try:
            outs = self.run_blocks(fr, st, 0, None)
        finally:
            self.stack.pop()
        rets = []
        for kind, s, _b in outs:
            v = s.cells.get(loc[0])
            if fn.locals and self.p.types[fn.locals[0]]["k"] == "tuple" and self.p.size(fn.locals[0]) == 0:
                v = UNIT
            for c in [c for c in s.cells if c > base]:
                if not self.keep_cell(v, c):
                    del s.cells[c]
            s.ncell = max(s.cells) if s.cells else 0
            s.ncell = max(s.ncell, base)
            rets.append((s, v))
        return self.merge(rets)

    def keep_cell(self, v, c):
        return False

    def memkey(self, s):
        return tuple(sorted(((r.id, w) for r, w in s.mem.items()), key=lambda x: x[0]))

    def merge(self, rets, lazy=True):
        """Join partitions: equal values/memory/effects are merged (exactly, or keeping the
        difference as a disjunction); partitions that differ in one complementary literal are
        joined lazily (ite values), to be split again only where the difference is inspected."""
        if len(rets) < 2:
            return rets
        groups = {}
        for s, v in rets:
            k = (v, tuple(sorted(s.cells.items(), key=_k0)), self.memkey(s),
                 self.effkey(s.eff), tuple(sorted(s.borrow.items(), key=str)))
            groups.setdefault(k, []).append((s, v))
        if len(groups) == len(rets):
            out = rets
        else:
            out = []
            for g in groups.values():
                out.extend(self.merge_group(g) if len(g) > 1 else g)
        if lazy and 1 < len(out):
            out = self.merge_lazy(out)
        return out

    MAXDIFF = 4

    def merge_lazy(self, rets):
        work = [(s, v, frozenset(s.facts)) for s, v in rets]
        while len(work) > 1:
            idx = {}
            for i, x in enumerate(work):
                h = 0
                for f in x[2]:
                    h ^= _mix(f.id)
                idx.setdefault(h, []).append((i, x))
            used = set()
            new = []
            for h, lst in list(idx.items()):
                for i, x in lst:
                    if i in used:
                        continue
                    hit = None
                    for f in x[2]:
                        if f.tag == "not" or f.tag == "disj":
                            continue
                        nf = neg(f)
                        for j, y in idx.get(h ^ _mix(f.id) ^ _mix(nf.id), ()):
                            if j != i and j not in used and len(y[2]) == len(x[2]) and y[2] == (x[2] - {f}) | {nf}:
                                m = self.join_lazy(f, x, y)
                                if m is not None:
                                    hit = (j, m)
                                    break
                        if hit:
                            break
                    if hit:
                        used.add(i)
                        used.add(hit[0])
                        new.append(hit[1])
            if not new:
                break
            work = [x for i, x in enumerate(work) if i not in used] + new
        return [(s, v) for s, v, _ in work]

    def lazyval(self, a, b):
        if a is None or b is None:
            return False
        for x in (a, b):
            if isinstance(x, T) and x.tag in ("guard", "iter", "viter"):
                return False
        return True

    def join_lazy(self, lit, x, y):
        """Partition x holds lit, y holds not(lit), all else equal in facts."""
        (sa, va, fa), (sb, vb, fb) = x, y
        if sa.borrow != sb.borrow:
            return None
        if va is not vb and not (isinstance(va, int) and va == vb):
            if not self.lazyval(va, vb) or self.is_result(va) or self.is_result(vb):
                return None
        ks = set(sa.cells) | set(sb.cells)
        diff = [k for k in ks if sa.cells.get(k) is not sb.cells.get(k) and not
                (isinstance(sa.cells.get(k), int) and isinstance(sb.cells.get(k), int) and sa.cells.get(k) == sb.cells.get(k))]
        if len(diff) > self.MAXDIFF:
            return None
        for k in diff:
            a, b = sa.cells.get(k), sb.cells.get(k)
            if not self.lazyval(a, b) or self.is_result(a) or self.is_result(b):
                return None
        mem = {}
        for r in set(sa.mem) | set(sb.mem):
            wa, wb = sa.mem.get(r, ()), sb.mem.get(r, ())
            if wa == wb:
                mem[r] = wa
                continue
            if r.tag != "data":
                return None
            n = 0
            while n < len(wa) and n < len(wb) and wa[n] == wb[n]:
                n += 1
            if len(wa) - n > 3 or len(wb) - n > 3:
                return None
            if ite_weight(wa[n:]) + ite_weight(wb[n:]) > 24:
                return None
            mem[r] = wa[:n] + (("ite", lit, wa[n:], wb[n:]),)
        ea, eb = effects_between(sa.eff, ()), effects_between(sb.eff, ())
        n = 0
        while n < len(ea) and n < len(eb) and ea[n] == eb[n]:
            n += 1
        ra, rb = ea[n:], eb[n:]
        if len(ra) > 3 or len(rb) > 3:
            return None
        if any(e[0] not in ("write", "lookup", "ite") for e in ra + rb):
            return None
        facts = fa - {lit}
        s = self.refact(sa, facts)
        s.mem = mem
        for k in diff:
            s.cells[k] = mk("ite", lit, sa.cells[k], sb.cells[k])
        if ra or rb:
            e = sa.eff
            for _ in ra:
                e = e[0]
            s.eff = (e, ("ite", lit, tuple(ra), tuple(rb)))
        v = va if va is vb or isinstance(va, int) and va == vb else mk("ite", lit, va, vb)
        return (s, v, frozenset(facts))

    def is_result(self, v):
        if isinstance(v, T) and v.tag == "agg":
            return self.p.types[v.a[0]].get("def") in ("core::result::Result", "core::ops::control_flow::ControlFlow")
        return False

    def effkey(self, eff):
        out = []
        while eff:
            e = eff[1]
            eff = eff[0]
            if e[0] == "lookup":
                continue
            if e[0] == "loop":
                i = self.loops.get(e[1])
                if i and not i["writes"] and not any(x[1] for x in i["effects"]):
                    continue
            out.append(e[:5] if e[0] == "write" else e)
        return tuple(out)

    WEAKP = frozenset(("ovf", "aliasborrow", "reallocerr", "layouterr", "renterr", "pdaerr", "decodeerr"))

    def weak(self, l):
        x = l.a[0] if l.tag == "not" else l
        if x.tag == "lt0":
            return self.weak_term(x.a[0])
        if x.tag == "p" and x.a[0] in self.WEAKP:
            return True
        return False

    def weak_term(self, t):
        """Linear form over slice lengths, account sizes and loop counters only."""
        for x in lin_parts(t)[1]:
            if x.tag in ("len", "phi", "div"):
                continue
            if x.tag == "ld" and x.a[0].tag == "dlen":
                continue
            if x.tag == "sym" and x.a[0] in ("naccounts", "ixlen"):
                continue
            return False
        return True

    def merge_group(self, g):
        """Partitions with equal values, memory and effects. Exact merges (one complementary
        literal) first; then merges that also drop weak (bounds/resource-failure) literals, which
        only enlarges the partition."""
        g = [(s, v, frozenset(s.facts)) for s, v in g]
        while len(g) > 1:
            # duplicates and subsumption
            g.sort(key=lambda x: len(x[2]))
            if len(g) <= 300:
                keep = []
                for x in g:
                    if not any(y[2] <= x[2] for y in keep):
                        keep.append(x)
            else:
                seen = set()
                keep = []
                for x in g:
                    if x[2] not in seen:
                        seen.add(x[2])
                        keep.append(x)
            g = keep
            if len(g) < 2:
                break
            idx = {x[2]: i for i, x in enumerate(g)}
            hs = {}
            for i, x in enumerate(g):
                h = 0
                for f in x[2]:
                    h ^= _mix(f.id)
                hs.setdefault(h, []).append(i)
            used = set()
            new = []
            for i, x in enumerate(g):
                if i in used:
                    continue
                h = 0
                for f in x[2]:
                    h ^= _mix(f.id)
                hit = None
                for f in x[2]:
                    if f.tag == "disj":
                        continue
                    nf = neg(f)
                    h2 = h ^ _mix(f.id) ^ _mix(nf.id)
                    for j in hs.get(h2, ()):
                        if j != i and j not in used and g[j][2] == (x[2] - {f}) | {nf}:
                            hit = (j, x[2] - {f})
                            break
                    if hit:
                        break
                if hit:
                    used.add(i)
                    used.add(hit[0])
                    new.append((self.refact(x[0], hit[1]), x[1], frozenset(hit[1])))
            if new:
                g = [x for i, x in enumerate(g) if i not in used] + new
                continue
            # weak merges
            done = False
            n = len(g)
            if n > 400:
                break
            for i in range(n):
                A = g[i][2]
                for j in range(i + 1, n):
                    B = g[j][2]
                    da, db = A - B, B - A
                    if len(da) + len(db) > 12:
                        continue
                    if any(x.tag == "disj" for x in da) or any(x.tag == "disj" for x in db):
                        continue
                    sa = [x for x in da if not self.weak(x)]
                    sb = [x for x in db if not self.weak(x)]
                    if (not sa and not sb) or (len(sa) == 1 and len(sb) == 1 and neg(sa[0]) is sb[0]):
                        s = self.refact(g[i][0], A & B)
                        g = [q for m, q in enumerate(g) if m not in (i, j)] + [(s, g[i][1], frozenset(A & B))]
                        done = True
                        break
                if done:
                    break
            if not done:
                break
        if 1 < len(g):
            common = g[0][2]
            for x in g[1:]:
                common = common & x[2]
            conjs = sorted((frozenset(x[2] - common) for x in g), key=lambda c: sorted(t.id for t in c))
            s = self.refact(g[0][0], common)
            if len(conjs) <= self.MAXDISJ:
                s.facts.add(mk("disj", None, tuple(conjs)))
            return [(s, g[0][1])]
        return [(s, v) for s, v, _ in g]

    MAXDISJ = 64

    def refact(self, st, facts):
        s = st.fork()
        s.facts = set()
        s.bnd = {}
        s.rep = {}
        s.neq = ()
        for f in sorted(facts, key=_tid):
            self.assume(s, f)
        return s

    # ---------------------------------------------------------- blocks
    def run_blocks(self, fr, st, bb, loop):
        """Outcomes [(kind, state, bb)], kind in ret/exit/back."""
        fn = fr.fn
        loops = find_loops(fn)
        rpo = rpo_index(fn)
        outs = []
        pend = {}

        def push(s2, b2):
            if loop is not None:
                if b2 == loop[0]:
                    outs.append(("back", s2, b2))
                    return
                if b2 not in loop[1]:
                    outs.append(("exit", s2, b2))
                    return
            pend.setdefault(b2, []).append(s2)

        def step(s1, b1):
            nxt = self.run_block(fr, s1, b1, loop)
            for x, y in nxt:
                if x == "ret":
                    outs.append(("ret", y, None))
                else:
                    push(x, y)

        if loop is not None and bb == loop[0] or bb not in loops:
            step(st, bb)
        else:
            pend[bb] = [st]
        while pend:
            b1 = min(pend, key=lambda x: rpo.get(x, 1 << 30))
            sts = pend.pop(b1)
            if len(sts) > 1:
                sts = self.join_at(fr, b1, sts)
            if b1 in loops:
                for kind, s2, b2 in self.run_loop(fr, sts, b1, loops[b1]):
                    if kind == "ret":
                        outs.append((kind, s2, b2))
                    else:
                        push(s2, b2)
                continue
            for s1 in sts:
                step(s1, b1)
        return outs

    def join_at(self, fr, bb, sts):
        """Clear dead locals and re-merge the partitions meeting at a block."""
        live = live_in(fr.fn)[bb]
        mine = set(fr.loc.values())
        for s in sts:
            self.gc(s, fr, live, mine)
        return [s for s, _ in self.merge([(s, None) for s in sts])]

    def gc(self, s, fr, live, mine):
        keep = {fr.loc[i] for i in live if i in fr.loc}
        cells = s.cells
        for c, v in cells.items():
            if c not in mine:
                keep |= cellrefs(v)
        work = list(keep)
        while work:
            c = work.pop()
            for d in cellrefs(cells.get(c)):
                if d not in keep:
                    keep.add(d)
                    work.append(d)
        for c in mine:
            if c in cells and c not in keep:
                del cells[c]


    def run_block(self, fr, st, bb, loop):
        """Execute a block. -> [(state, next bb)] or [('ret', state)]"""
        blk = fr.fn.blocks[bb]
        if blk is None:
            return []
        self.nsteps += 1
        if self.nsteps > self.maxsteps:
            raise Limit("step limit")
        states = [(st, 0)]
        result = []
        stmts = blk["s"]
        n = len(stmts)
        while states:
            s, i = states.pop()
            try:
                while i < n:
                    self.stmt(s, fr, stmts[i])
                    i += 1
                fr.bb = bb
                r = self.term(s, fr, blk["t"], loop)
                result.extend(r)
            except Split as e:
                for s2, _ in self.split(s, e.lit):
                    states.append((s2, i))
        return result

    def stmt(self, st, fr, s):
        if s[0] == "=":
            dty = self.place_ty(fr, s[1])
            v = self.rvalue(st, fr, s[2], dty)
            loc, ty, _, _ = self.place(st, fr, s[1])
            self.store(st, loc, ty, v, s[3] if len(s) > 3 else None)
        elif s[0] == "sd":
            loc, ty, _, _ = self.place(st, fr, s[1])
            old = self.load(st, loc, ty)
            if isinstance(old, T) and old.tag == "agg" and old.a[1] == s[2]:
                return
            self.store(st, loc, ty, mk("agg", ty, s[2], ()))
        elif s[0] == "copy":
            src = self.operand(st, fr, s[1])
            dst = self.operand(st, fr, s[2])
            cnt = self.operand(st, fr, s[3])
            e = self.p.types[self.p.strip(self.op_ty(fr, s[1]))].get("e")
            self.copy_bytes(st, src, dst, mulc(cnt, self.p.size(e)) if e is not None else cnt, None)
        elif s[0] == "assume":
            l = truth(self.operand(st, fr, s[1]))
            self.assume(st, l)

    def copy_bytes(self, st, src, dst, n, span):
        """memcpy/memmove of n bytes between references."""
        v = self.read_slice(st, src, n)
        if isinstance(dst, T) and dst.tag == "ref" and dst.a[0].tag == "mem":
            self.write(st, dst.a[0].a[0], dst.a[0].a[1], n, v, span)
        elif isinstance(dst, T) and dst.tag == "ref":
            loc = dst.a[0]
            path = loc.a[1]
            if path and path[-1][0] == "i" and path[-1][1] == 0:
                cur = self.load(st, mk("cell", loc.a[0], path[:-1]), None)
                clen = self.seqlen(cur)
                if clen is not None and eq(clen, n) == 1:
                    self.store(st, mk("cell", loc.a[0], path[:-1]), None, v)
                else:
                    self.store(st, mk("cell", loc.a[0], path[:-1]), None, mk("patched", cur, 0, n, v))
            elif path and path[-1][0] == "i":
                cur = self.load(st, mk("cell", loc.a[0], path[:-1]), None)
                self.store(st, mk("cell", loc.a[0], path[:-1]), None, mk("patched", cur, path[-1][1], n, v))
            else:
                self.store(st, loc, None, v)
        else:
            st.effect("copy_unknown", dst, n, v)

    def seqlen(self, v):
        if isinstance(v, T):
            if v.tag == "bytes":
                return len(v.a[0]) // 2
            if v.tag == "arr":
                return len(v.a[0])
            if v.tag == "rep":
                return v.a[1]
            if v.tag == "ld":
                return v.a[2]
            if v.tag == "vec":
                return len(v.a[0])
            if v.tag == "slicev":
                return v.a[2]
        return None

    def settle(self, st, ws):
        """Writes with the alternatives that the facts decide."""
        if not any(w[0] == "ite" for w in ws):
            return ws
        out = ()
        for w in ws:
            if w[0] == "ite":
                d = self.decide(st, w[1])
                if d is not None:
                    out += self.settle(st, w[2] if d else w[3])
                    continue
            out += (w,)
        return out

    def read_slice(self, st, ref, n):
        """Value of the n bytes a (slice) reference points to."""
        if not (isinstance(ref, T) and ref.tag == "ref"):
            return mk("pointee", ref, n)
        loc = ref.a[0]
        if loc.tag == "mem":
            region, off = loc.a
            if isinstance(n, int) and n <= 4096:
                if n == 0:
                    return mk("bytes", "")
                return self.load_raw(st, region, off, n)
            if region.tag == "const":
                return mk("slicev", region, off, n, ())
            return mk("slicev", region, off, n, self.settle(st, st.mem.get(region, ())))
        path = loc.a[1]
        if path and path[-1][0] == "i" and path[-1][1] == 0:
            v = self.load(st, mk("cell", loc.a[0], path[:-1]), None)
            l = self.seqlen(v)
            if l is not None and eq(l, n) == 1:
                return v
            if l is None and len(path[-1]) > 3:
                return v if not isinstance(v, int) else mk("bytes", v.to_bytes(n, "little").hex())
            return mk("take", v, 0, n)
        if path and path[-1][0] == "i":
            v = self.load(st, mk("cell", loc.a[0], path[:-1]), None)
            if isinstance(v, T) and v.tag == "bytes" and isinstance(n, int) and isinstance(path[-1][1], int):
                return mk("bytes", v.a[0][2 * path[-1][1]:2 * (path[-1][1] + n)])
            return mk("take", v, path[-1][1], n)
        return self.load(st, loc, None)

    # ---------------------------------------------------------- terminators
    def term(self, st, fr, t, loop):
        k = t[0]
        if k == "goto":
            return [(st, t[1])]
        if k == "ret":
            return [("ret", st)]
        if k == "switch":
            return self.switch(st, fr, t, loop)
        if k == "call":
            return self.term_call(st, fr, t)
        if k == "drop":
            loc, ty, _, _ = self.place(st, fr, t[1])
            try:
                v = self.load(st, loc, ty)
                self.drop_value(st, v)
            except Limit:
                pass
            return [(st, t[2])]
        if k == "assert":
            c = truth(self.operand(st, fr, t[1]))
            want = c if t[2] else neg(c)
            d = self.decide(st, want)
            if d == 0:
                self.panics += 1
                return []
            if d is None and not self.assume(st, want):
                return []
            return [(st, t[3])]
        if k in ("unreachable", "abort"):
            return []
        raise Limit("terminator %s" % k)

    def drop_value(self, st, v):
        if isinstance(v, T):
            if v.tag == "guard":
                self.release(st, v)
            elif v.tag == "agg":
                for x in v.a[2]:
                    if isinstance(x, T) and x.tag in ("guard", "agg"):
                        self.drop_value(st, x)

    def release(self, st, g):
        pass

    def switch(self, st, fr, t, loop):
        v = self.operand(st, fr, t[1])
        targets = [(int(x[0]), x[1]) for x in t[2]]
        other = t[3]
        ty = self.op_ty(fr, t[1])

        def note(bb):
            if loop is not None and (any(x[1] not in loop[1] for x in targets) or (other is not None and other >= 0 and other not in loop[1])):
                self.decided_exit[-1] = True
            return bb

        if v is None:
            v = self.fresh("undef")
        if isinstance(v, int):
            tyd = self.p.types[self.p.strip(ty)] if ty is not None else None
            bits = 8 * self.p.size(ty) if ty is not None else 64
            for val, b in targets:
                if val == v or (v < 0 and val == v & ((1 << bits) - 1)):
                    return [(st, note(b))]
            return [(st, note(other))] if other is not None and other >= 0 else []
        out = []
        if is_lit(v) or (ty is not None and self.p.types[self.p.strip(ty)]["k"] == "bool"):
            l = truth(v)
            d = self.decide(st, l)
            tgt = {val: b for val, b in targets}
            bt, bf = tgt.get(1, other), tgt.get(0, other)
            if d is not None:
                b = bt if d else bf
                return [(st, note(b))] if b is not None and b >= 0 else []
            res = self.split(st, l)
            for s, tv in res:
                b = bt if tv else bf
                if b is not None and b >= 0:
                    out.append((s, b))
            return out
        # multi-way on a term
        cur = st
        for val, b in targets:
            l = self.eqlit(cur, v, val)
            d = self.decide(cur, l)
            if d == 1:
                out.append((cur, note(b) if not out else b))
                return out
            if d == 0:
                continue
            o = cur.fork()
            if self.assume(o, l):
                o.forks += 1
                out.append((o, b))
            if not self.assume(cur, neg(l)):
                return out
        if other is not None and other >= 0 and self.feasible_other(cur, v, ty, targets, fr, t):
            cur.forks += 1
            if fr.fn.blocks[other] is not None and fr.fn.blocks[other]["t"][0] == "unreachable":
                return out
            out.append((cur, other))
        return out

    def feasible_other(self, st, v, ty, targets, fr, t):
        return True

    def dispatch(self, st, inst, vals):
        """(implementation, arguments) of a trait-object call whose receiver is a known box, or None."""
        r = vals[0] if vals else None
        t = None
        for _ in range(4):
            if not (isinstance(r, T) and r.tag == "ref"):
                return None
            if isinstance(r.a[1], T) and r.a[1].tag == "vt" and self.p.types[r.a[1].a[0]]["k"] == "adt":
                t = r.a[1].a[0]
                break
            if r.a[0].tag == "mem":
                break
            r = self.load(st, r.a[0], None)
        else:
            return None
        if t is None:
            t = getattr(self, "boxty", {}).get(r.a[0].a[0])
        if t is None:
            return None
        path = self.p.fns[inst].path
        trait, meth = path.rsplit("::", 1)
        lt = lambda s: re.sub(r"<'[^>]*>", "", s)
        want = lt("<%s as %s>::%s" % (self.p.types[t]["s"], trait, meth))
        cache = self.__dict__.setdefault("_vdisp", {})
        if want not in cache:
            cache[want] = [f for k, fs in self.p.by_path.items() if lt(k) == want for f in fs]
        if len(cache[want]) != 1:
            return None
        return cache[want][0].id, [mk("ref", r.a[0], None)] + list(vals[1:])

    def term_call(self, st, fr, t):
        callee, args, dest, target, span = t[1], t[2], t[3], t[4], t[5]
        vals = [self.operand(st, fr, a, True) for a in args]
        rets = None
        again = ()
        self.dty = self.place_ty(fr, dest)
        if "ind" in callee:
            f = self.operand(st, fr, callee["ind"])
            if isinstance(f, T) and f.tag == "fnref":
                rets = self.call(st, f.a[0], vals, fr, span)
            elif isinstance(f, T) and f.tag == "fndef" and self.p.types[f.a[0]].get("inst") is not None:
                rets = self.call(st, self.p.types[f.a[0]]["inst"], vals, fr, span)
            else:
                rets = [(st, self.fresh("indirect"))]
                st.effect("unknown", "indirect", tuple(vals))
        elif callee.get("virtual") and self.p.fns[callee["inst"]].path in self.virtual:
            vals = [self.resolve(st, a) for a in vals]
            rets = self.virtual[self.p.fns[callee["inst"]].path](self, st, vals, self.dty, fr, span)
        elif callee.get("virtual") and self.dispatch(st, callee["inst"], vals) is not None:
            inst, vals = self.dispatch(st, callee["inst"], vals)
            rets = self.call(st, inst, vals, fr, span)
        elif callee.get("inst") is not None:
            if fr.bb in find_loops(fr.fn) and self.p.fns[callee["inst"]].path == FILTER_NEXT:
                rets, again = self.filter_next(st, self.p.fns[callee["inst"]], vals, fr, span)
            if rets is None:
                rets = self.call(st, callee["inst"], vals, fr, span)
        elif callee.get("path") in self.virtual:
            rets = self.virtual[callee["path"]](self, st, vals, self.dty, fr, span)
        else:
            self.unknown[callee.get("path")] = self.unknown.get(callee.get("path"), 0) + 1
            rets = [(st, self.fresh("unresolved:" + str(callee.get("path"))))]
        if target < 0:
            return []
        out = []
        for s, v in rets:
            loc, ty, _, _ = self.place(s, fr, dest)
            if v is not UNIT or self.p.size(ty):
                self.store(s, loc, ty, v, span)
            else:
                self.store(s, loc, ty, UNIT)
            out.append((s, target))
        out.extend((s, fr.bb) for s in again)
        return out

    def filter_next(self, st, fn, vals, fr, span):
        """The next element of a filtered iterator, taken at the head of a loop: an element the
        predicate turns down is the next round of that loop. -> (returns, states to go round again)"""
        if not fn.drain:
            return None, ()
        bb = fr.bb
        rets, again = [], []
        loc, _ = self.deref(st, vals[0], None)
        if loc is None or loc.tag != "cell":
            return None, ()
        ty = self.p.types[fn.locals[1]]["e"]
        inner = mk("ref", self.loc_field(loc, ty, 0, 0), None)
        pred = mk("ref", self.loc_field(loc, ty, 0, 1), None)
        for s, v in self.call(st.fork(), fn.drain[0], [inner], fr, span):
            v = self.resolve(s, v)
            if not (isinstance(v, T) and v.tag == "agg"):
                return None, ()
            if not v.a[2]:
                rets.append((s, v))
                continue
            c = -500 - fr.depth
            s.cells[c] = v.a[2][0]
            for s2, ok in self.call(s, fn.drain[1], [pred, mk("ref", mk("cell", c, ()), None)], fr, span):
                s2.cells.pop(c, None)
                for s3, yes in self.split(s2, ok):
                    if yes:
                        rets.append((s3, v))
                    else:
                        again.append(s3)
        fr.bb = bb
        return rets, again

    # ---------------------------------------------------------- loops
    UNROLL_DECIDED = 80
    UNROLL_FORKED = 8

    def run_loop(self, fr, sts, head, body):
        loop = (head, body)
        outs, rest = [], []
        for st in sts:
            saved = st.fork()
            r = self.unroll(fr, st, loop)
            if r is None:
                rest.append(saved)
            else:
                outs.extend(r)
        groups = {}
        live = live_in(fr.fn)[head]
        mine = set(fr.loc.values())
        for st in rest:
            self.gc(st, fr, live, mine)
            k = (tuple(sorted(st.cells.items(), key=_k0)), self.memkey(st), tuple(sorted(st.borrow.items(), key=str)))
            groups.setdefault(k, []).append(st)
        for g in groups.values():
            outs.extend(self.widen_loop(fr, g, loop))
        return outs

    def unroll(self, fr, st, loop):
        """Constant trip count: run the iterations one by one. None if the count is not decided."""
        outs = []
        frontier = [st]
        rounds = 0
        while frontier:
            rounds += 1
            nf = []
            for s in frontier:
                self.decided_exit.append(False)
                self.undecided_next.append(False)
                try:
                    r = self.run_blocks(fr, s, loop[0], loop)
                finally:
                    dec = self.decided_exit.pop()
                    und = self.undecided_next.pop()
                backs = [x[1] for x in r if x[0] == "back"]
                if backs and (und or not dec):
                    return None
                nf.extend(backs)
                outs.extend(x for x in r if x[0] != "back")
            frontier = self.join_at(fr, loop[0], nf)
            if rounds > self.UNROLL_DECIDED or len(frontier) > 12 or (rounds > self.UNROLL_FORKED and len(outs) > 64):
                return None
        return outs

    def widen_loop(self, fr, sts, loop):
        """Entry partitions with equal cells and memory are widened together, so that the
        loop symbols of all of them coincide."""
        self.nfresh += 1
        st = sts[0]
        born = self.nfresh
        lid = "%s@%d#%d" % (fr.fn.path.split("::")[-1], loop[0], self.nfresh)
        info = {"id": lid, "fn": fr.fn.path, "writes": {}, "backs": [], "phis": [], "effects": [], "site": fr.fn.span}
        self.loops[lid] = info
        W = st.fork()
        W.effect("loop", lid)
        heads = [x.fork() for x in sts]
        for x in heads:
            x.effect("loop", lid)
        wreg = set()
        rounds = 0
        while True:
            rounds += 1
            if rounds > 12:
                raise Limit("loop widening does not stabilise: " + lid)
            r = []
            runs = []
            for x in heads:
                head = x.fork()
                head.cells = dict(W.cells)
                head.mem = dict(W.mem)
                f0 = set(head.facts)
                e0 = head.eff
                self.decided_exit.append(False)
                self.undecided_next.append(False)
                try:
                    rr = self.run_blocks(fr, head, loop[0], loop)
                finally:
                    self.decided_exit.pop()
                    self.undecided_next.pop()
                if len(rr) > 1:
                    bk = self.join_at(fr, loop[0], [y[1] for y in rr if y[0] == "back"])
                    rr = [y for y in rr if y[0] != "back"] + [("back", y, loop[0]) for y in bk]
                runs.append((f0, e0, rr))
                r.extend(rr)
            backs = [x[1] for x in r if x[0] == "back"]
            changed = False
            newcells = {}
            for c, v in list(W.cells.items()):
                nv = v
                for b in backs:
                    x = b.cells.get(c)
                    while isinstance(x, T) and x.tag == "ite" and (isinstance(nv, T) and nv.tag == "agg" or any(
                            isinstance(y, T) and y.tag == "removed" for y in x.a[1:])):
                        d = self.decide(b, x.a[0])
                        if d is None:
                            break
                        x = b.cells[c] = x.a[1] if d else x.a[2]
                    nv = self.antiunify(nv, x, lid, (c,), info)
                if nv is not v:
                    newcells[c] = nv
                    changed = True
            # regions written in the body
            info["backs"] = []
            info["effects"] = []
            recs = {}
            for f0, e0, rr in runs:
                for kind, b, _ in rr:
                    if kind == "back":
                        info["backs"].append(frozenset(b.facts - f0))
                        info["effects"].append((frozenset(b.facts - f0), effects_between(b.eff, e0)))
            for b in backs:
                for reg, ws in b.mem.items():
                    ws0 = W.mem.get(reg, ())
                    if ws is ws0 or ws == ws0:
                        continue
                    if reg.tag in ("box", "vbuf") and reg not in W.mem and isinstance(reg.a[0], int) and reg.a[0] > born:
                        continue        # allocated by this iteration
                    if reg not in wreg:
                        wreg.add(reg)
                        changed = True
                    new = ws[len(ws0):] if ws[:len(ws0)] == ws0 else ((0, None, None),)
                    lst = recs.setdefault(reg, [])
                    for w in flat_writes(new):
                        if w[0] == "loop":
                            inner = self.loops.get(w[1])
                            for x in (inner["writes"].get(reg, ()) if inner else ()):
                                if x not in lst:
                                    lst.append(x)
                        elif w not in lst:
                            lst.append(w)
            for reg, lst in recs.items():
                old = info["writes"].get(reg)
                if old is None or set(map(canon_ids, old)) != set(map(canon_ids, lst)):
                    if old is None or len(lst) >= len(old):
                        info["writes"][reg] = lst
                        changed = True
                elif old != lst:
                    info["writes"][reg] = lst
            # record phi steps
            for ph in info["phis"]:
                steps = []
                for b in backs:
                    steps.append(self.phi_value(ph, b))
                if self.phis[ph]["steps"] != steps and \
                        list(map(canon_ids, self.phis[ph]["steps"])) != list(map(canon_ids, steps)):
                    changed = True
                self.phis[ph]["steps"] = steps
                self.phis[ph]["facts"] = info["backs"]
            for ph, (e, a) in list(info.get("rel", {}).items()):
                if not all(self.rel_holds(self.phi_value(ph, b), e, a, ph, self.phi_value(a, b)) for b in backs):
                    del info["rel"][ph]
                    info.setdefault("norel", set()).add(ph)
                    info["phis"].append(ph)
                    for c, v in list(W.cells.items()):
                        if c == ph.a[1][0]:
                            newcells[c] = put_at(newcells.get(c, v), ph.a[1][1:], ph)
                    changed = True
            if not changed:
                new = self.relate(info, backs)
                if not new:
                    break
                info.setdefault("rel", {}).update(new)
                info["phis"] = [x for x in info["phis"] if x not in new]
                m = {k: v[0] for k, v in new.items()}
                for c, v in list(W.cells.items()):
                    if isinstance(v, T):
                        newcells[c] = subst(v, m, {})
                for reg in list(info["writes"]):
                    info["writes"][reg] = []
                rounds -= 1
            for c, nv in newcells.items():
                W.cells[c] = nv
            for reg in wreg:
                ws = W.mem.get(reg, ())
                if not (ws and ws[-1] == ("loop", lid)):
                    W.mem[reg] = ws + (("loop", lid),)
        info["rounds"] = rounds
        outs = []
        for f0, e0, rr in runs:
            own = [frozenset(s.facts - f0) for kind, s, b in rr if kind == "back"]
            for kind, s, b in rr:
                if kind == "back":
                    continue
                self.lift_forall(s, info, f0, own)
                outs.append((kind, s, b))
        return outs

    STRUCT = ("agg", "ref", "mem", "iter", "viter", "arr", "vec", "guard", "cell")

    def antiunify(self, a, b, lid, key, info):
        if a is b or (isinstance(a, int) and isinstance(b, int) and a == b and type(a) == type(b)):
            return a
        if isinstance(a, T) and a.tag == "phi" and a.a[0] == lid:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.antiunify(x, y, lid, key + (i,), info) for i, (x, y) in enumerate(zip(a, b)))
        if isinstance(a, T) and isinstance(b, T) and a.tag == b.tag and a.tag in self.STRUCT and len(a.a) == len(b.a):
            if a.tag == "agg" and (a.a[0] != b.a[0] or a.a[1] != b.a[1]):
                return self.phi(lid, key, a, info)
            if a.tag in ("arr", "vec") and len(a.a[0]) != len(b.a[0]):
                return self.phi(lid, key, a, info)
            if a.tag == "mem" and a.a[0] is not b.a[0]:
                return self.phi(lid, key, a, info)
            if a.tag == "cell" and a is not b:
                return self.phi(lid, key, a, info)
            if a.tag == "ref" and (a.a[0].tag != b.a[0].tag or a.a[0].tag == "cell" and a.a[0] is not b.a[0]
                                   or a.a[0].tag == "mem" and a.a[0].a[0] is not b.a[0].a[0]):
                return self.phi(lid, key, a, info)
            na = tuple(self.antiunify(x, y, lid, key + (i,), info) for i, (x, y) in enumerate(zip(a.a, b.a)))
            return a if na == a.a and all(x is y for x, y in zip(na, a.a)) else mk(a.tag, *na)
        if a is None:
            return None
        return self.phi(lid, key, a, info)

    def rel_holds(self, nb, e, a, ph, na):
        """The loop symbol ph equals e (an expression over the symbol a) again after the step."""
        if nb is None or na is None or isinstance(nb, tuple) or isinstance(na, tuple):
            return False
        return eq(subst(nb, {ph: e}, {}), subst(subst(e, {a: na}, {}), {ph: e}, {})) == 1

    NUMERIC = ("lin", "ld", "len", "phi", "sym", "pad", "fld", "wr", "mul", "div", "dataoff")

    def relate(self, info, backs):
        """Loop symbols that move in step: b = a + c or b = c - a, inductively."""
        out = {}
        if not backs:
            return out
        phs = [ph for ph in info["phis"] if ph not in info.get("norel", ())
               and (type(self.phis[ph]["init"]) is int or isinstance(self.phis[ph]["init"], T)
                    and self.phis[ph]["init"].tag in self.NUMERIC)
               and all(type(x) is int or isinstance(x, T) and x.tag in self.NUMERIC for x in self.phis[ph]["steps"])]
        for j, b in enumerate(phs):
            for a in phs[:j]:
                if a in out:
                    continue
                ia, ib = self.phis[a]["init"], self.phis[b]["init"]
                for e in (add(a, sub(ib, ia)), sub(add(ib, ia), a)):
                    if all(self.rel_holds(self.phi_value(b, k), e, a, b, self.phi_value(a, k)) for k in backs):
                        out[b] = (e, a)
                        break
                if b in out:
                    break
        return out

    def phi(self, lid, key, init, info):
        ph = mk("phi", lid, key)
        if ph in info.get("rel", ()):
            return info["rel"][ph][0]
        if ph not in self.phis:
            self.phis[ph] = {"init": init, "steps": [], "key": key, "loop": lid}
            info["phis"].append(ph)
        return ph

    def phi_value(self, ph, st):
        key = ph.a[1]
        v = st.cells.get(key[0])
        for i in key[1:]:
            if isinstance(v, T):
                v = v.a[i] if i < len(v.a) else None
            elif isinstance(v, tuple):
                v = v[i] if i < len(v) else None
            else:
                return None
        return v

    def lift_forall(self, st, info, f0, own):
        """On exhaustion of a counted loop, lift the per-iteration facts."""
        delta = st.facts - f0
        for ph in info["phis"]:
            inf = self.phis[ph]
            if not isinstance(inf["init"], int) or not inf["steps"]:
                continue
            if any(s is None or eq(s, add(ph, 1)) != 1 for s in inf["steps"]):
                continue
            for l in list(delta):
                # n <= phi   i.e. not(phi - n < 0)  or its mirrored form
                lim = self.limit_of(l, ph)
                if lim is None:
                    continue
                conjs = tuple(own)
                fa = mk("p", "forall", ph, inf["init"], lim)
                st.facts.add(fa)
                info.setdefault("foralls", []).append((ph, inf["init"], lim))
                for k in range(inf["init"], inf["init"] + 8):
                    m = {ph: k}
                    cache = {}
                    inst = []
                    for c in conjs:
                        lits = []
                        dead = False
                        for x in c:
                            y = subst(x, m, cache)
                            if isinstance(y, int):
                                if y == 0:
                                    dead = True
                                    break
                                continue
                            lits.append(y)
                        if not dead:
                            inst.append(frozenset(lits))
                    g = lt(k, lim)
                    if g != 0:
                        st.facts.add(mk("disj", None if g == 1 else g, tuple(inst)))
                break

    def limit_of(self, l, ph):
        """If literal l says  lim <= ph  (or ph == lim) return lim."""
        if l.tag == "not" and l.a[0].tag == "lt0":
            # L >= 0
            c, d = lin_parts(l.a[0].a[0])
            if d.get(ph) == 1:
                d = dict(d)
                del d[ph]
                return mulc(lin_make(c, d), -1)
        if l.tag == "lt0":
            c, d = lin_parts(l.a[0])   # L<0  => -L-1 >= 0
            if d.get(ph) == -1:
                d = dict(d)
                del d[ph]
                return lin_make(c + 1, d)
        if l.tag == "eq":
            if l.a[0] is ph:
                return l.a[1]
            if l.a[1] is ph:
                return l.a[0]
            if isinstance(l.a[0], T) and l.a[0].tag == "lin" and isinstance(l.a[1], int):
                c, d = lin_parts(l.a[0])
                if d.get(ph) == 1:
                    d = dict(d)
                    del d[ph]
                    return mulc(lin_make(c - l.a[1], d), -1)
                if d.get(ph) == -1:
                    d = dict(d)
                    del d[ph]
                    return lin_make(c - l.a[1], d)
        return None
