"""Hash-consed abstract values and literals of the dataflow domain.

Integers are plain Python ints.  Everything else is an interned `T`, so two
abstract values are equal exactly when they are the same object.

Literals (boolean facts) are the tags in LIT:
  eq(a,b)    equality of two values (ordered by id), or of a linear form and a constant
  lt0(L)     linear form L (leading coefficient > 0) is negative
  p(name,..) uninterpreted predicate
  bit(x,k)   bit k of x is set
  not(l)     negation of one of the above
"""


class T:
    __slots__ = ("tag", "a", "id", "cr")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __lt__(self, o):
        return self.id < o.id


_tab = {}


def mk(tag, *a):
    k = (tag, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.tag = tag
        t.a = a
        t.id = len(_tab)
        t.cr = None
        _tab[k] = t
    return t


EMPTY = frozenset()


def cellrefs(v):
    """Ids of the cells a value refers to."""
    if isinstance(v, T):
        r = v.cr
        if r is None:
            if v.tag == "cell":
                r = frozenset((v.a[0],)) | cellrefs(v.a[1])
            else:
                r = EMPTY
                for x in v.a:
                    if isinstance(x, (T, tuple)):
                        y = cellrefs(x)
                        if y:
                            r = r | y
            v.cr = r
        return r
    if isinstance(v, tuple):
        r = EMPTY
        for x in v:
            if isinstance(x, (T, tuple)):
                y = cellrefs(x)
                if y:
                    r = r | y
        return r
    return EMPTY


LIT = frozenset(("eq", "lt0", "p", "bit", "not"))


def is_lit(v):
    return isinstance(v, T) and v.tag in LIT


def neg(l):
    if isinstance(l, int):
        return 0 if l else 1
    if l.tag == "not":
        return l.a[0]
    return mk("not", l)


# ---------------------------------------------------------------- linear forms
def lin_parts(v):
    if isinstance(v, int):
        return v, {}
    if v.tag == "lin":
        return v.a[0], dict(v.a[1])
    return 0, {v: 1}


def lin_make(c, d):
    items = [(t, k) for t, k in d.items() if k]
    for t, k in items:
        if t.tag == "div" and t.a[1] == 8 and k % 8 == 0:      # 8 * (x / 8)
            d = dict(d)
            del d[t]
            return add(lin_make(c, d), mulc(floor_to(t.a[0], 8), k // 8))
    if not items:
        return c
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: x[0].id)
    return mk("lin", c, tuple(items))


def pad(v, n):
    """v rounded up to a multiple of n; parts that are multiples of n are taken out."""
    if isinstance(v, int):
        return -(-v // n) * n
    c, d = lin_parts(v)
    out, rest = {}, {}
    for t, k in d.items():
        (out if k % n == 0 or t.tag == "pad" and t.a[1] % n == 0 else rest)[t] = k
    if not rest:
        return add(lin_make(0, out), pad(c, n))
    first = min(rest, key=lambda t: t.id)
    if rest[first] < 0:                                         # ceil(-y) = -floor(y)
        return sub(lin_make(0, out), floor_to(lin_make(-c, {t: -k for t, k in rest.items()}), n))
    return add(lin_make(c - c % n, out), mk("pad", lin_make(c % n, rest), n))


def floor_to(v, n):
    return pad(sub(v, n - 1), n)


def add(a, b, kb=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + kb * b
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + kb * k
    return lin_make(ca + kb * cb, d)


def sub(a, b):
    return add(a, b, -1)


def mulc(a, k):
    if isinstance(a, int):
        return a * k
    c, d = lin_parts(a)
    return lin_make(c * k, {t: n * k for t, n in d.items()})


def mul(a, b):
    if isinstance(a, int):
        return mulc(b, a)
    if isinstance(b, int):
        return mulc(a, b)
    return mk("mul", *sorted((a, b)))


# ---------------------------------------------------------------- literals
def numeric(v):
    return isinstance(v, int) or v.tag == "lin"


def eq(a, b):
    """Literal a == b."""
    if a is b or (isinstance(a, int) and isinstance(b, int)):
        return 1 if a == b else 0
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int) and is_lit(a):
        if b == 0:
            return neg(a)
        if b == 1:
            return a
        return 0
    if a.tag == "bytes" and isinstance(b, T) and b.tag == "bytes":
        return 1 if a.a == b.a else 0
    if numeric(a) or numeric(b):
        c, d = lin_parts(sub(a, b))
        if not d:
            return 1 if c == 0 else 0
        items = sorted(d.items(), key=lambda x: x[0].id)
        if items[0][1] < 0:
            c, d = -c, {t: -k for t, k in d.items()}
        # all coefficients share a factor that does not divide the constant
        p = lin_make(0, d)
        return mk("eq", p, -c)
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def lt(a, b):
    """Literal a < b over the integers."""
    d = sub(a, b)
    if isinstance(d, int):
        return 1 if d < 0 else 0
    return _lt0(d)


def _lt0(L):
    c, d = lin_parts(L)
    items = sorted(d.items(), key=lambda x: x[0].id)
    if items[0][1] < 0:
        # L < 0  <=>  not(-L-1 < 0)
        return mk("not", mk("lt0", lin_make(-c - 1, {t: -k for t, k in d.items()})))
    return mk("lt0", lin_make(c, d))


def le(a, b):
    return neg(lt(b, a))


def truth(v):
    """Literal for `v != 0` of a boolean-ish value."""
    if isinstance(v, int):
        return 1 if v else 0
    if v.tag in LIT:
        return v
    return neg(eq(v, 0))


def split_lt0(L):
    """(linear part P without constant, c):  L = P + c."""
    c, d = lin_parts(L)
    return lin_make(0, d), c


# ---------------------------------------------------------------- substitution
def subst(v, m, cache=None):
    if cache is None:
        cache = {}
    if isinstance(v, T):
        if v in m:
            return m[v]
        r = cache.get(v)
        if r is not None:
            return r
        if v.tag == "lin":
            r = v.a[0]
            for t, k in v.a[1]:
                r = add(r, mulc(_num(subst(t, m, cache)), k))
        elif v.tag == "not":
            r = neg(subst(v.a[0], m, cache))
        elif v.tag == "pad":
            r = pad(subst(v.a[0], m, cache), v.a[1])
        elif v.tag == "eq":
            r = eq(subst(v.a[0], m, cache), subst(v.a[1], m, cache))
        elif v.tag == "lt0":
            L = subst(v.a[0], m, cache)
            r = (1 if L < 0 else 0) if isinstance(L, int) else _lt0(L)
        else:
            na = tuple(subst(x, m, cache) for x in v.a)
            r = v if na == v.a else mk(v.tag, *na)
        cache[v] = r
        return r
    if isinstance(v, tuple):
        return tuple(subst(x, m, cache) for x in v)
    if isinstance(v, frozenset):
        return frozenset(subst(x, m, cache) for x in v)
    return v


def _num(v):
    return v


def occurs(v, pred, seen=None):
    """Does any subterm of v satisfy pred?"""
    if seen is None:
        seen = set()
    if isinstance(v, T):
        if v in seen:
            return False
        seen.add(v)
        if pred(v):
            return True
        return any(occurs(x, pred, seen) for x in v.a)
    if isinstance(v, (tuple, frozenset)):
        return any(occurs(x, pred, seen) for x in v)
    return False


def subterms(v, out=None):
    if out is None:
        out = set()
    if isinstance(v, T):
        if v not in out:
            out.add(v)
            for x in v.a:
                subterms(x, out)
    elif isinstance(v, (tuple, frozenset)):
        for x in v:
            subterms(x, out)
    return out


SHOWD = 14


# ---------------------------------------------------------------- printing
def show(v, depth=0):
    if depth > SHOWD:
        return "…"
    d = depth + 1
    if v is None:
        return "undef"
    if isinstance(v, (int, str)):
        return str(v)
    if isinstance(v, tuple):
        return "(" + ",".join(show(x, d) for x in v) + ")"
    if isinstance(v, frozenset):
        return "{" + " & ".join(sorted(show(x, d) for x in v)) + "}"
    t, a = v.tag, v.a
    if t == "lin":
        s = "+".join((show(x, d) if k == 1 else "%d*%s" % (k, show(x, d))) for x, k in a[1])
        return s + ("%+d" % a[0] if a[0] else "")
    if t == "eq":
        return "%s==%s" % (show(a[0], d), show(a[1], d))
    if t == "not":
        x = a[0]
        if x.tag == "eq":
            return "%s!=%s" % (show(x.a[0], d), show(x.a[1], d))
        if x.tag == "lt0":
            P, c = split_lt0(x.a[0])
            return "%s>=%d" % (show(P, d), -c)
        return "!" + show(x, d)
    if t == "lt0":
        P, c = split_lt0(a[0])
        return "%s<%d" % (show(P, d), -c)
    if t == "bytes":
        h = a[0]
        if len(h) > 8 and set(h) == {"0"}:
            return "zero[%d]" % (len(h) // 2)
        return "0x" + (h if len(h) <= 16 else h[:8] + "…")
    if t == "ld":
        return "%s[%s;%s]" % (show(a[0], d), show(a[1], d), show(a[2], d)) + ("'" if len(a) > 3 else "")
    if t == "data":
        return "data(%s)" % show(a[0], d)
    if t == "sym":
        return str(a[0])
    if t == "agg":
        return "{%s:%s}" % (a[1], ",".join(show(x, d) for x in a[2]))
    if t == "ref":
        return "&%s%s" % (show(a[0], d), "" if a[1] is None else "[%s]" % show(a[1], d))
    return "%s(%s)" % (t, ",".join(show(x, d) for x in a))
