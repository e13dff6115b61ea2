"""Calls between programs: account infos, clones, and `invoke`/`invoke_signed` as recorded effects."""
import re

from models import *  # noqa
import bytevec
import wire

CLONE = re.compile(r"^<(.*) as core::clone::Clone>::clone$")
INFO = "solana_program::account_info::AccountInfo"


def through(I, st, a):
    """The value behind a (possibly repeated) reference."""
    for _ in range(4):
        if not (isinstance(a, T) and a.tag == "ref"):
            return a
        loc, _x = I.deref(st, a, None)
        if isinstance(loc, T) and loc.tag != "cell":
            return a
        a = I.load(st, loc, None)
    return a


def clone_model(I, st, fn, args, fr, span):
    loc, _x = I.deref(st, args[0], None)
    return [(st, I.load(st, loc, fn.locals[0] if fn.locals else None))]


def invoke(I, st, fn, args, fr, span):
    signed = args[2] if len(args) > 2 else None
    ix = through(I, st, args[0])
    data = None
    if isinstance(ix, T) and ix.tag == "agg" and len(ix.a[2]) == 3:
        data = ix.a[2][2]
        ps = wire.pieces(I, st, data)
        if ps is not None:
            data = mk("pieces", tuple(ps))
    infos = list_of(I, st, args[1])
    seeds = seed_list(I, st, signed) if signed is not None else ()
    st.effect("invoke", ix, data, infos, seeds, span)
    bad = st.fork()
    bad.effect("invoke_err")
    rt = fn.locals[0] if fn.locals else I.dty
    t = I.p.types[rt]
    return [(st, mk("agg", rt, 0, (mk("agg", t["args"][0], 0, ()),))),
            (bad, mk("agg", rt, 1, (mk("sym", "cpierr", None),)))]


def list_of(I, st, v, ety=None):
    """Elements behind a reference to a vector, slice or array: tuple of ("1", value) / ("n", content, len), or the value."""
    n = None
    for _ in range(4):
        if not (isinstance(v, T) and v.tag == "ref"):
            break
        n = v.a[1] if v.a[1] is not None else n
        if v.a[1] == 0 and not isinstance(v.a[1], bool):
            return ()
        loc, _x = I.deref(st, v, None)
        if not (isinstance(loc, T) and loc.tag == "cell"):
            return ("opaque", v)
        path = loc.a[1]
        if path and path[-1][0] == "i" and path[-1][1] == 0 and len(path[-1]) > 3:
            loc = mk("cell", loc.a[0], path[:-1])
        v = I.load(st, loc, None)
    if isinstance(v, T) and v.tag == "seq":
        out = []
        for e in v.a[0]:
            x = e[1]
            if e[0] == "n" and isinstance(x, T) and x.tag == "take" and x.a[1] == 0:
                x = x.a[0]
            if e[0] == "n" and isinstance(x, T) and x.tag in ("vec", "arr") and len(x.a[0]) == e[2]:
                out += [("1", y) for y in x.a[0]]
            else:
                out.append(e)
        return tuple(out)
    if isinstance(v, T) and v.tag in ("vec", "arr"):
        return tuple(("1", x) for x in v.a[0])
    if isinstance(v, T) and v.tag == "agg" and (n is None or n == len(v.a[2])):
        return tuple(("1", x) for x in v.a[2])
    return ("opaque", v)


def seed_list(I, st, v):
    """&[&[&[u8]]] -> tuple of tuples of seed contents."""
    if not isinstance(v, T):
        return v
    outer = list_of(I, st, v)
    if outer and outer[0] == "opaque":
        return outer
    out = []
    for e in outer:
        if e[0] != "1":
            return ("opaque", v)
        x = e[1]
        if isinstance(x, T) and x.tag == "ref" and not isinstance(x.a[1], int):
            l = list_of(I, st, x)
            if l and l[0] == "opaque":
                return l
            out.append(tuple(seed_value(I, st, y[1]) for y in l))
        else:
            out.append(seeds_of(I, st, x))
    return tuple(out)


def seed_value(I, st, s):
    if isinstance(s, T) and s.tag == "ref":
        return I.read_slice(st, s, s.a[1]) if s.a[1] is not None else I.rd(st, s)
    return mk("unknownseed", 0, s)


def box_cell(I, st, fn, args, fr, span):
    # outlives the frame that made it
    I.nbox = getattr(I, "nbox", 0) + 1
    st.cells[-1000 - I.nbox] = args[0]
    return [(st, mk("ref", mk("cell", -1000 - I.nbox, ()), None))]


def box_uninit(I, st, fn, args, fr, span):
    I.nbox = getattr(I, "nbox", 0) + 1
    st.cells[-1000 - I.nbox] = None
    return [(st, mk("ref", mk("cell", -1000 - I.nbox, ()), None))]


def box_vec(I, st, fn, args, fr, span):
    """The vector made of a boxed array (`vec![..]`)."""
    r = args[0]
    v = I.load(st, I.deref(st, r, None)[0], None)
    while isinstance(v, T) and v.tag == "agg" and len(v.a[2]) == 1 and isinstance(v.a[2][0], T) and v.a[2][0].tag in ("agg", "arr"):
        v = v.a[2][0]
    if isinstance(v, T) and v.tag == "arr":
        return [(st, mk("vec", tuple(v.a[0])))]
    if isinstance(v, T) and v.tag == "agg":
        return [(st, mk("vec", tuple(v.a[2])))]
    return NotImplemented


def enable(I, clones=True):
    I.extra["solana_program::program::invoke"] = invoke
    I.extra["solana_program::program::invoke_signed"] = invoke
    I.extra["alloc::boxed::Box::<T>::new"] = box_cell
    I.extra["alloc::boxed::Box::<T>::new_uninit"] = box_uninit
    I.extra["alloc::boxed::box_assume_init_into_vec_unsafe"] = box_vec
    base = I.model_for

    def model_for(fn):
        m = CLONE.match(fn.path)
        if m and clones and fn.locals and not re.match(r"^(nifty|asset|bridge|proxy)\w*::.*(Builder|Cpi|Accounts)$", m.group(1).split("<")[0]):
            return clone_model
        return base(fn)
    I.model_for = model_for
