"""Byte vectors as memory: Vec<u8> = (buffer region, length), content in the region's store list.

Used where the analysed code builds byte buffers (extension and constraint builders, instruction
data), so that writes through sub-slices and reads by the corresponding reader meet in one store."""
import re

from models import *  # noqa
import models


def enable(I):
    I.byte_vecs = True
    I.bv_base = I.model_for
    I._mcache = {}

    def model_for(fn):
        k = ("bv", fn.id)
        h = I._mcache.get(k, 0)
        if h == 0:
            h = None
            if is_u8(I, fn):
                for rx, hh in BV:
                    if rx.search(fn.path):
                        h = hh
                        break
            if h is None and fn.path == "core::mem::take" and I.p.types[targ(I, fn)]["s"] == "alloc::vec::Vec<u8>":
                h = bv_take
            I._mcache[k] = h
        return h or I.bv_base(fn)
    I.model_for = model_for


def is_u8(I, fn):
    t = targ(I, fn)
    return t is not None and I.p.types[t]["s"] == "u8"


BV = []


def bv(rx):
    def d(f):
        BV.append((re.compile(rx), f))
        return f
    return d


def vec_ty(I):
    return I.p.tid("alloc::vec::Vec<u8>")


def new_vec(I, st, length=0, content=None, ty=None):
    I.nfresh += 1
    r = mk("vbuf", I.nfresh)
    if content is not None and length != 0:
        st.mem[r] = ((0, length, content),)
    return mk("agg", ty if ty is not None else vec_ty(I), 0, (r, length))


def parts_of(I, st, ref):
    """(location, value, region, length) of the vector behind a reference."""
    loc, _ = I.deref(st, ref, None)
    v = I.load(st, loc, vec_ty(I))
    if isinstance(v, T) and v.tag == "vec" and not v.a[0]:
        v = new_vec(I, st)
        I.store(st, loc, vec_ty(I), v)
    if isinstance(v, T) and v.tag == "agg" and len(v.a[2]) == 2 and isinstance(v.a[2][0], T) and v.a[2][0].tag == "vbuf":
        return loc, v, v.a[2][0], v.a[2][1]
    # a vector of unknown content
    r = mk("vbuf", mk("of", v))
    return loc, v, r, mk("len", v)


def put(I, st, loc, v, region, length):
    ty = v.a[0] if isinstance(v, T) and v.tag == "agg" else vec_ty(I)
    I.store(st, loc, ty, mk("agg", ty, 0, (region, length)))


def write(I, st, region, off, n, val, span):
    if n == 0:
        return
    st.mem[region] = st.mem.get(region, ()) + ((off, n, val),)
    st.effect("write", region, off, n, val, span)


@bv(r"^alloc::vec::Vec::<T>::(new|with_capacity)$|^<alloc::vec::Vec<T> as core::default::Default>::default$")
def bv_new(I, st, fn, args, fr, span):
    return [(st, new_vec(I, st))]


@bv(r"^alloc::vec::from_elem$")
def bv_from_elem(I, st, fn, args, fr, span):
    v = mk("zero") if args[0] == 0 else mk("rep", args[0], args[1])
    return [(st, new_vec(I, st, args[1], zero_val(args[1]) if args[0] == 0 else v))]


def zero_val(n):
    return mk("bytes", "00" * n) if isinstance(n, int) and n <= 4096 else mk("zero")


@bv(r"^alloc::vec::Vec::<T, A>::push(_mut)?$")
def bv_push(I, st, fn, args, fr, span):
    loc, v, r, n = parts_of(I, st, args[0])
    write(I, st, r, n, 1, args[1], span)
    put(I, st, loc, v, r, add(n, 1))
    return [(st, UNIT)]


@bv(r"^alloc::vec::Vec::<T, A>::extend_from_slice$|^<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<&'a T>>::extend$|^alloc::vec::Vec::<T, A>::append_elements$")
def bv_extend(I, st, fn, args, fr, span):
    loc, v, r, n = parts_of(I, st, args[0])
    src = args[1]
    if not (isinstance(src, T) and src.tag == "ref"):
        return NotImplemented
    k = I.slice_len(st, src, fn.locals[2] if len(fn.locals) > 2 else None)
    content = I.read_slice(st, src, k)
    write(I, st, r, n, k, content, span)
    put(I, st, loc, v, r, add(n, k))
    return [(st, UNIT)]


def splice(I, st, r, n, o, k, span):
    """Bytes [0, k) of vector `o` become those from `n` on of vector `r`."""
    ws = st.mem.get(o, ())
    if isinstance(o.a[0], int) and all(len(w) == 3 and w[0] != "loop" for w in ws) and \
            (len(ws) > 1 or len(ws) == 1 and (ws[0][0] != 0 or ws[0][1] is not k and ws[0][1] != k)):
        # a vector built here: its bytes where they land now
        for w in ws:
            write(I, st, r, add(n, w[0]), w[1], w[2], span)
    elif len(ws) == 1 and len(ws[0]) == 3 and ws[0][0] == 0 and (ws[0][1] is k or ws[0][1] == k):
        write(I, st, r, n, k, ws[0][2], span)
    else:
        write(I, st, r, n, k, I.read_slice(st, ref_of(o, 0, k), k), span)


@bv(r"^<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend$")
def bv_extend_owned(I, st, fn, args, fr, span):
    ty = I.p.types[fn.locals[2]]["s"] if len(fn.locals) > 2 else ""
    m = re.match(r"^\[u8; (\d+)\]$", ty)
    loc, v, r, n = parts_of(I, st, args[0])
    src = args[1]
    if m:
        k = int(m.group(1))
        if isinstance(src, T) and src.tag == "arr" and len(src.a[0]) == k:
            for j, x in enumerate(src.a[0]):
                write(I, st, r, add(n, j), 1, x, span)
        elif isinstance(src, T) and src.tag == "agg" and len(src.a[2]) == k:
            for j, x in enumerate(src.a[2]):
                write(I, st, r, add(n, j), 1, x, span)
        else:
            write(I, st, r, n, k, src, span)
        put(I, st, loc, v, r, add(n, k))
        return [(st, UNIT)]
    if ty != "alloc::vec::Vec<u8>":
        got = models.drain(I, st, fn, src, span)
        if got is None:
            return NotImplemented
        out = []
        for s, els in got:
            loc, v, r, n = parts_of(I, s, args[0])
            for j, x in enumerate(els):
                write(I, s, r, add(n, j), 1, x, span)
            put(I, s, loc, v, r, add(n, len(els)))
            out.append((s, UNIT))
        return out
    if isinstance(src, T) and src.tag == "vec" and not src.a[0]:
        return [(st, UNIT)]
    if isinstance(src, T) and src.tag == "agg" and len(src.a[2]) == 2 and isinstance(src.a[2][0], T) and src.a[2][0].tag == "vbuf":
        o, k = src.a[2]
    else:
        o, k = mk("vbuf", mk("of", src)), mk("len", src)
    splice(I, st, r, n, o, k, span)
    put(I, st, loc, v, r, add(n, k))
    return [(st, UNIT)]


@bv(r"^alloc::vec::Vec::<T, A>::append$")
def bv_append(I, st, fn, args, fr, span):
    loc, v, r, n = parts_of(I, st, args[0])
    oloc, ov, orr, k = parts_of(I, st, args[1])
    splice(I, st, r, n, orr, k, span)
    put(I, st, loc, v, r, add(n, k))
    put(I, st, oloc, ov, new_vec(I, st).a[2][0], 0)
    return [(st, UNIT)]


@bv(r"^alloc::vec::Vec::<T, A>::clear$")
def bv_clear(I, st, fn, args, fr, span):
    loc, v, r, n = parts_of(I, st, args[0])
    put(I, st, loc, v, new_vec(I, st).a[2][0], 0)
    return [(st, UNIT)]


@bv(r"^alloc::vec::Vec::<T, A>::(truncate|resize)$")
def bv_resize(I, st, fn, args, fr, span):
    loc, v, r, n = parts_of(I, st, args[0])
    want = args[1]
    out = []
    for s, small in I.split(st, le(want, n)):
        if small:
            put(I, s, loc, v, r, want)
        elif fn.path.endswith("resize"):
            write(I, s, r, n, sub(want, n), zero_val(sub(want, n)) if args[2] == 0 else mk("rep", args[2], sub(want, n)), span)
            put(I, s, loc, v, r, want)
        out.append((s, UNIT))
    return out


@bv(r"^alloc::vec::Vec::<T, A>::(len|is_empty)$")
def bv_len(I, st, fn, args, fr, span):
    loc, v, r, n = parts_of(I, st, args[0])
    return [(st, eq(n, 0) if fn.path.endswith("is_empty") else n)]


@bv(r"^<alloc::vec::Vec<T, A> as core::ops::deref::Deref(Mut)?>::deref(_mut)?$|^alloc::vec::Vec::<T, A>::as_(mut_)?slice$|^<alloc::vec::Vec<T, A> as core::convert::As(Ref|Mut)<\[T\]>>::as_(ref|mut)$|^<alloc::vec::Vec<T, A> as core::borrow::Borrow(Mut)?<\[T\]>>::borrow(_mut)?$|^alloc::vec::Vec::<T, A>::as_(mut_)?ptr$")
def bv_deref(I, st, fn, args, fr, span):
    loc, v, r, n = parts_of(I, st, args[0])
    return [(st, ref_of(r, 0, n))]


@bv(r"^<alloc::vec::Vec<T, A> as core::ops::index::Index(Mut)?<I>>::index(_mut)?$")
def bv_index(I, st, fn, args, fr, span):
    loc, v, r, n = parts_of(I, st, args[0])
    return models.slice_index(I, st, fn, ref_of(r, 0, n), args[1], fr, span)


@bv(r"^<alloc::vec::Vec<T, A> as core::clone::Clone>::clone$")
def bv_clone(I, st, fn, args, fr, span):
    loc, v, r, n = parts_of(I, st, args[0])
    nv = new_vec(I, st)
    st.mem[nv.a[2][0]] = st.mem.get(r, ())
    return [(st, mk("agg", nv.a[0], 0, (nv.a[2][0], n)))]


@bv(r"^alloc::slice::<impl \[T\]>::to_vec$|^alloc::slice::<impl alloc::borrow::ToOwned for \[T\]>::to_owned$")
def bv_tovec(I, st, fn, args, fr, span):
    n = I.slice_len(st, args[0], fn.locals[1] if fn.locals else None)
    return [(st, new_vec(I, st, n, I.read_slice(st, args[0], n)))]


def bv_take(I, st, fn, args, fr, span):
    loc, v, r, n = parts_of(I, st, args[0])
    put(I, st, loc, v, new_vec(I, st).a[2][0], 0)
    return [(st, mk("agg", v.a[0] if isinstance(v, T) and v.tag == "agg" else vec_ty(I), 0, (r, n)))]
