"""Obligation framework: every rule quantifies over all abstract success paths.

A `Run` is the fixpoint result for one instruction of the on-chain program; each of
its `Part`s over-approximates a set of successful executions (facts = what must have
held on entry, memory = what the accounts hold afterwards).  Rules state obligations
over parts.  An obligation that is not entailed is a violation, reported with the
instruction, the rule and the construct (source location) it is about.
"""
import time

from models import *  # noqa
import models

ZERO32 = mk("bytes", "00" * 32)
A_LEN = 168
F_DISC, F_STATE, F_STD, F_MUT = (0, 1), (1, 1), (2, 1), (3, 1)
F_OWNER, F_GROUP, F_AUTH = (4, 32), (36, 32), (68, 32)
F_DELEG, F_ROLES, F_DELEGATE, F_NAME = (100, 32), (132, 1), (100, 33), (133, 35)
FIELDS = {"discriminator": F_DISC, "state": F_STATE, "standard": F_STD, "mutable": F_MUT, "owner": F_OWNER,
          "group": F_GROUP, "authority": F_AUTH, "delegate": F_DELEGATE, "name": F_NAME}
T_GROUPING, T_ROYALTIES, T_MANAGER, T_PROXY, T_CREATORS = 6, 7, 8, 9, 3
ROLE_TRANSFER, ROLE_LOCK, ROLE_BURN = 0, 1, 2
INSTRS = ["Close", "Burn", "Create", "Approve", "Allocate", "Lock", "Revoke", "Transfer", "Unlock", "Unverify",
          "Update", "Verify", "Write", "Group", "Ungroup", "Handover", "Remove", "Resize"]


def data(i):
    return mk("data", i)


def D(i, f):
    return mk("ld", data(i), f[0], f[1])


def key(i):
    return mk("ld", mk("key", i), 0, 32)


def own(i):
    return mk("ld", mk("owner", i), 0, 32)


def lam(i):
    return mk("ld", mk("lam", i), 0, 8)


def dl(i):
    return mk("ld", mk("dlen", i), 0, 8)


def signer(i):
    return mk("p", "signer", i)


def ext(i, ty):
    return mk("ext", data(i), A_LEN, ty, ())


def has(i, ty):
    return mk("p", "has", data(i), A_LEN, ty, ())


def E(i, ty, off, size):
    return mk("ld", ext(i, ty), off, size)


def bit(v, k):
    return mk("bit", v, k)


def ne(a, b):
    return neg(eq(a, b))


NACC = mk("sym", "naccounts", None)
STACK = mk("sym", "stack_height", None)


class Violation(Exception):
    pass


class Report:
    """Obligations of one rule run over one subject (instruction, function, table)."""

    def __init__(self, prop, subject):
        self.prop = prop
        self.subject = subject
        self.n = 0
        self.viol = {}      # key -> detail
        self.parts = 0
        self.notes = []
        self.stats = {}
        self.seen = {}

    def ob(self, rule, ok, detail="", where=None):
        self.n += 1
        self.seen[rule] = self.seen.get(rule, 0) + 1
        if not ok:
            k = "%s|%s" % (self.subject, rule)
            d = self.viol.setdefault(k, {"where": where, "detail": detail, "count": 0})
            d["count"] += 1
        return ok


def _undecided(I, st, effs):
    """First open lazy-join literal in effects or memory of a final state."""
    for e in effs:
        if e[0] == "ite":
            if I.decide(st, e[1]) is None:
                return e[1]
            l = _undecided(I, st, e[2] if I.decide(st, e[1]) else e[3])
            if l is not None:
                return l
    for r, ws in st.mem.items():
        l = _undec_w(I, st, ws)
        if l is not None:
            return l
    return None


def _undec_w(I, st, ws):
    for w in ws:
        if w[0] == "ite":
            d = I.decide(st, w[1])
            if d is None:
                return w[1]
            l = _undec_w(I, st, w[2] if d else w[3])
            if l is not None:
                return l
        elif len(w) == 3:
            l = _undec_v(I, st, w[2])
            if l is not None:
                return l
    return None


def _undec_v(I, st, v):
    if isinstance(v, T) and v.tag == "ite":
        d = I.decide(st, v.a[0])
        if d is None:
            return v.a[0]
        return _undec_v(I, st, v.a[1] if d else v.a[2])
    return None


def _flat_eff(I, st, effs, out):
    for e in effs:
        if e[0] == "ite":
            _flat_eff(I, st, e[2] if I.decide(st, e[1]) else e[3], out)
        else:
            out.append(e)
    return out


def _flat_w(I, st, ws):
    out = []
    for w in ws:
        if w[0] == "ite":
            out.extend(_flat_w(I, st, w[2] if I.decide(st, w[1]) else w[3]))
        elif len(w) == 3:
            v = w[2]
            while isinstance(v, T) and v.tag == "ite":
                v = v.a[1] if I.decide(st, v.a[0]) else v.a[2]
            out.append((w[0], w[1], v))
        else:
            out.append(w)
    return out


def root_acct(region):
    """Account whose data/lamports/owner/length a region belongs to, or None for locals."""
    if not isinstance(region, T):
        return None
    if region.tag in ("data", "lam", "dlen", "owner", "key"):
        return region.a[0]
    if region.tag == "ext":
        return root_acct(region.a[0])
    return None


class Part:
    def __init__(self, run, st, effs):
        self.run = run
        self.I = run.I
        self.st = st
        self.effs = effs

    # -- entailment
    def must(self, *alts):
        return self.I.holds_any(self.st, alts, 4)

    def all(self, *lits):
        return all(self.must(l) for l in lits)

    def dnf(self, *conjs):
        """Entailment of a disjunction of conjunctions."""
        import itertools
        for c in conjs:
            if all(self.must(l) for l in c):
                return True
        for ch in itertools.product(*conjs):
            if not self.must(*ch):
                return False
        return True

    def given(self, *lits):
        """Refinement of the part under extra assumptions, or None if impossible."""
        s = self.st.fork()
        for l in lits:
            if not self.I.assume(s, l):
                return None
        if self.I.contradictory(s, 3):
            return None
        q = Part(self.run, s, self.effs)
        if hasattr(self, "value"):
            q.value = self.value
        return q

    def sat(self, *lits):
        return self.given(*lits) is not None

    def cases(self, want=lambda f: True, limit=64):
        """Refinements in which every disjunction that want() selects is resolved to one of its cases."""
        out, todo = [], [self]
        while todo:
            q = todo.pop()
            d = None
            for f in sorted(q.st.facts, key=lambda t: t.id):
                if f.tag == "disj" and f not in getattr(q, "done", ()) and want(f):
                    d = f
                    break
            if d is None or len(out) + len(todo) > limit:
                out.append(q)
                continue
            alts = [tuple(c) for c in d.a[1]]
            if d.a[0] is not None:
                alts = [(neg(d.a[0]),)] + [c + (d.a[0],) for c in alts]
            for c in alts:
                r = q.given(*c)
                if r is not None:
                    r.done = getattr(q, "done", frozenset()) | {d}
                    todo.append(r)
        return out

    # -- final memory
    def final(self, region, off, size):
        try:
            return self.I.load_raw(self.st, region, off, size)
        except Split:
            return mk("sym", "open", None)

    def fin(self, i, f):
        return self.final(data(i), f[0], f[1])

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        a, b = flat(a), flat(b)
        a, b = unzero(a), unzero(b)
        if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
            return True
        if a is None or b is None:
            return False
        if isinstance(a, T) and a.tag == "cat" or isinstance(b, T) and b.tag == "cat":
            return False
        return self.must(eq(a, b)) if not (isinstance(a, tuple) or isinstance(b, tuple)) else False

    def keeps(self, i, f):
        """Field f of account i has its entry value on exit."""
        v = self.fin(i, f)
        if v is D(i, f):
            return True
        return self.same(v, D(i, f))

    def becomes(self, i, f, v):
        return self.same(self.fin(i, f), v)

    def lam_after(self, i):
        return self.final(mk("lam", i), 0, 8)

    # -- writes
    def writes(self):
        """(region, off, size, value, loop) of every store on the part."""
        for r, ws in self.st.mem.items():
            for w in ws:
                if w[0] == "loop":
                    for x in flat_writes(self.I.loops[w[1]]["writes"].get(r, ())):
                        if x[0] == "loop":
                            for y in self.I.loops[x[1]]["writes"].get(r, ()):
                                yield (r,) + tuple(y) + (x[1],)
                        else:
                            yield (r,) + tuple(x) + (w[1],)
                else:
                    yield (r,) + tuple(w) + (None,)

    def span_of(self, region=None, off=None):
        for e in all_effects(self.I, self.effs):
            if e[0] == "write" and (region is None or e[1] is region) and (off is None or e[2] == off):
                return e[-1]
        return None

    def touched(self):
        """{account: [(kind, off, size)]} for everything this part may have changed."""
        out = {}
        for r, o, s, v, l in self.writes():
            a = root_acct(r)
            if a is None:
                continue
            kind = r.tag
            out.setdefault(a, []).append((kind, r, o, s, v, l))
        return out

    def effects(self, *kinds):
        return [e for e in all_effects(self.I, self.effs) if e[0] in kinds]


def unzero(v):
    """Short byte strings as the integers they spell."""
    if isinstance(v, T) and v.tag == "bytes" and len(v.a[0]) <= 16:
        return int.from_bytes(bytes.fromhex(v.a[0]), "little")
    return v


def flat(v):
    """Aggregate of bytes -> bytes, newtypes stripped."""
    while isinstance(v, T) and v.tag == "agg" and len(v.a[2]) == 1:
        v = v.a[2][0]
    if isinstance(v, T) and v.tag == "agg":
        fs = [flat(x) for x in v.a[2]]
        return mk("aggf", *fs) if all(isinstance(x, (int, T)) for x in fs) else v
    return v


def all_effects(I, effs, seen=None):
    seen = set() if seen is None else seen
    for e in effs:
        if e[0] == "loop":
            if e[1] in seen:
                continue
            seen.add(e[1])
            yield e
            for facts, es in I.loops[e[1]]["effects"]:
                yield from all_effects(I, es, seen)
        elif e[0] == "ite":
            yield from all_effects(I, e[2], seen)
            yield from all_effects(I, e[3], seen)
        else:
            yield e


def layout_invariant(I, st, t):
    """Well-formed accounts: a recorded boundary lies after the header that records it (maintained
    by every writer of headers, see C18/C19/C21), so it is never inside the fixed header."""
    return A_LEN + 16 if I.boundary_load(t) else None


class Run:
    def __init__(self, ctx, name):
        self.name = name
        P = ctx.prog("asset_program")
        I = SolInterp(P)
        I.ext_types = ctx.ext_types
        I.invariant_lower = layout_invariant
        self.I = I
        ix = mk("sym", "ix", None)
        I.ix_value = ix
        st = State()
        names = ctx.instr_names
        I.assume(st, eq(mk("discr", ix), names.index(name)))
        args = [ref_of(mk("const", ctx.id_hex, ())), ref_of(ACCOUNTS, 0, NACC),
                ref_of(mk("ixdata"), 0, mk("sym", "ixlen", None))]
        self.go(ctx, st, ctx.entry, args)

    def go(self, ctx, st, fn, args):
        t0 = time.time()
        res = self.I.call(st, fn.id, args)
        self.ok, self.err, self.odd = [], 0, 0
        for s, v in res:
            if isinstance(v, T) and v.tag == "agg" and v.a[1] == 0:
                self.ok.append(s)
            elif isinstance(v, T) and v.tag == "agg":
                self.err += 1
            else:
                self.odd += 1
                self.ok.append(s)
        self.parts = []
        for s in self.ok:
            self.expand(s, s.effects())
        self.time = time.time() - t0
        self.ctx = ctx

    def expand(self, st, effs, depth=0):
        l = _undecided(self.I, st, effs)
        if l is None or depth > 12:
            if self.I.contradictory(st, 2):
                return
            s = st.fork()
            for r in list(s.mem):
                s.mem[r] = tuple(_flat_w(self.I, s, s.mem[r]))
            self.parts.append(Part(self, s, _flat_eff(self.I, s, effs, [])))
            return
        for s, tv in self.I.split(st.fork(), l):
            self.expand(s, effs, depth + 1)


class Ctx:
    def __init__(self, mirdir, tier="quick"):
        self.tier = tier
        self.dir = mirdir
        self._prog = {}
        self._runs = {}

    def prog(self, crate):
        if crate not in self._prog:
            self._prog[crate] = Prog("%s/%s.json" % (self.dir, crate))
        return self._prog[crate]

    def prepare(self):
        P = self.prog("asset_program")
        self.ext_types = ext_type_table(self.prog("nifty_asset_types").consts)
        self.entry = P.by_path["asset_program::processor::process_instruction"][0]
        it = next(t for t in P.types if t["s"] == "asset_program::instruction::Instruction")
        self.instr_names = [v["n"] for v in it["v"]]
        self.id_hex = [c for n, c in P.consts if n == "asset_program::ID"][0]["a"]["m"]
        self.ID = mk("bytes", self.id_hex)

    def run(self, name):
        if name not in self._runs:
            self._runs[name] = Run(self, name)
        return self._runs[name]

    # literals that need the program id
    def genuine(self, i):
        """Account i is an initialized asset of this program."""
        return [eq(own(i), self.ID), eq(D(i, F_DISC), 1)]

    def present(self, i):
        return ne(key(i), self.ID)


# ------------------------------------------------------------------ evaluation of closed terms
def teval(v, env):
    """Value of a term under a valuation of its leaves (None: depends on something else)."""
    if isinstance(v, int):
        return v
    if v is None or not isinstance(v, T):
        return None
    if v in env:
        return env[v]
    t, a = v.tag, v.a
    if t == "lin":
        r = a[0]
        for x, k in a[1]:
            y = teval(x, env)
            if y is None:
                return None
            r += k * y
        return r
    if t in ("and", "or", "xor", "shl", "shr", "mul", "div", "rem"):
        if t in ("and", "or"):
            xs = [teval(x, env) for x in a]
            if t == "and" and any(x == 0 for x in xs):
                return 0
            if any(x is None for x in xs):
                return None
            r = xs[0]
            for x in xs[1:]:
                r = r & x if t == "and" else r | x
            return r
        x, y = teval(a[0], env), teval(a[1], env)
        if x is None or y is None:
            return None
        if t == "xor":
            return x ^ y
        if t == "shl":
            return x << y if 0 <= y < 64 else None
        if t == "shr":
            return x >> y if 0 <= y < 64 else None
        if t == "mul":
            return x * y
        if y == 0:
            return None
        return x // y if t == "div" else x % y
    if t == "pad":
        x = teval(a[0], env)
        return None if x is None else -(-x // a[1]) * a[1]
    if t == "wr":
        x = teval(a[1], env)
        return None if x is None else x & ((1 << a[0]) - 1)
    if t == "bnot":
        x = teval(a[1], env)
        return None if x is None else ~x & ((1 << a[0]) - 1)
    if t in ("trunc", "cast"):
        x = teval(a[-1], env)
        return x
    if t == "p" and a[0] == "ovf":
        x = teval(a[2], env)
        return None if x is None else int(x < 0 or x >= 1 << a[1])
    if t == "not":
        x = teval(a[0], env)
        return None if x is None else 1 - x
    if t == "eq":
        x, y = teval(a[0], env), teval(a[1], env)
        return None if x is None or y is None else int(x == y)
    if t == "lt0":
        x = teval(a[0], env)
        return None if x is None else int(x < 0)
    if t == "bit":
        x = teval(a[0], env)
        return None if x is None else (x >> a[1]) & 1
    if t == "ite":
        c = teval(a[0], env)
        return None if c is None else teval(a[1] if c else a[2], env)
    if t == "disj":
        g = 1 if a[0] is None else teval(a[0], env)
        if g == 0:
            return 1
        vals = []
        for c in a[1]:
            xs = [teval(x, env) for x in c]
            vals.append(0 if any(x == 0 for x in xs) else 1 if all(x == 1 for x in xs) else None)
        if any(x == 1 for x in vals):
            return 1
        if all(x == 0 for x in vals) and g == 1:
            return 0
        return None
    if t == "ext" and len(a) == 3 and isinstance(a[1], int) and isinstance(a[2], int):
        x = teval(a[0], env)
        return None if x is None else (x >> (8 * a[1])) & ((1 << (8 * a[2])) - 1)
    if t == "agg" and len(a[2]) == 1:
        return teval(a[2][0], env)
    return None


def consistent(facts, env):
    return all(teval(f, env) != 0 for f in facts)
