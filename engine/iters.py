"""Models of the standard iterators: state machines in the value domain.

`It(kind, parts, x)` is an iterator value; `x` carries the types of the inner iterators, because the
implementation of `next` is chosen by type (the program may define iterators of its own)."""
from .program import *
from .values import *
from .interp import Abrupt
from .natives import T, nat, call_trait, call, omatch, vmatch, scal, peq, ordering

ITER = "core::iter::traits::iterator::Iterator"
DEI = "core::iter::traits::double_ended::DoubleEndedIterator"
INTO = "core::iter::traits::collect::IntoIterator"
RANGE = "core::ops::range::Range"
RANGEI = "core::ops::range::RangeInclusive"
MAXIT = 400


def item_ty(I, t):
    return I.P.proj(ITER + "::Item", (t,))


def inner(r, k):
    return Ref(r.root, r.path + (("n", k),))


def nxt(I, r, ty, sp=None):
    """Iterator::next on the place r holding an iterator of type ty"""
    return call_trait(I, ITER, "next", (ty,), [r], ("adt", OPTION, (item_ty(I, ty),)), sp=sp)


def nback(I, r, ty, sp=None):
    return call_trait(I, DEI, "next_back", (ty,), [r], ("adt", OPTION, (item_ty(I, ty),)), sp=sp)


def usz(x):
    return x


def skip_symbolic(I, r, v, p, sp, k):
    if k > MAXIT:
        raise Unknown("skip over an unbounded iterator")
    n = I.deref(p)

    def more():
        I.write(p.root, p.path, t_arith("sub", n, ONE))
        return omatch(I, nxt(I, inner(r, 0), v.x[0], sp), lambda x: skip_symbolic(I, r, v, p, sp, k + 1), lambda: NONE)
    return I.fork(t_cmp("eq", n, ZERO), lambda: nxt(I, inner(r, 0), v.x[0], sp), more)


def native_next(I, r, ty, back=False, sp=None):
    v = I.resolve(I.deref(r))
    if isinstance(v, Ref):
        t = ty[1] if ty[0] == "ref" else ty
        return (nback if back else nxt)(I, v, t, sp)
    if isinstance(v, VIte):
        def side(w):
            def f():
                I.write(r.root, r.path, w)
                return native_next(I, r, ty, back, sp)
            return f
        return I.fork(v.c, side(v.a), side(v.b))
    if isinstance(v, Opq):
        it = v.ty if v.ty is not None else item_ty(I, ty)
        return I.opaque_event(r, "next_back" if back else "next", [], ("adt", OPTION, (it,)))
    if isinstance(v, Adt) and v.d in (RANGE, "core::ops::range::RangeFrom"):
        if v.d == RANGE:
            lo, hi = v.fs
            if back:
                def f():
                    n = t_arith("sub", hi, ONE)
                    I.write(r.root, r.path, Adt(v.d, 0, (lo, n), v.ta))
                    return some(n)
            else:
                def f():
                    I.write(r.root, r.path, Adt(v.d, 0, (t_arith("add", lo, ONE), hi), v.ta))
                    return some(lo)
            return I.fork(t_cmp("lt", lo, hi), f, lambda: NONE)
        I.write(r.root, r.path, Adt(v.d, 0, (t_arith("add", v.fs[0], ONE),), v.ta))
        return some(v.fs[0])
    if isinstance(v, Adt) and v.d == RANGEI:
        lo, hi = v.fs[0], v.fs[1]
        ex = v.fs[2] if len(v.fs) > 2 else FALSE

        def f():
            def last_():
                I.write(r.root, r.path, Adt(v.d, 0, (lo, hi, TRUE), v.ta))
                return some(lo)

            def more():
                if back:
                    n = (lo, t_arith("sub", hi, ONE), FALSE)
                else:
                    n = (t_arith("add", lo, ONE), hi, FALSE)
                I.write(r.root, r.path, Adt(v.d, 0, n, v.ta))
                return some(hi if back else lo)
            return I.fork(t_cmp("eq", lo, hi), last_, more)
        return I.fork(t_and(t_not(ex), t_cmp("le", lo, hi)), f, lambda: NONE)
    if not isinstance(v, It):
        raise unk("next on iterator of type %s " % I.tname(ty), v)
    k = v.k
    if k in ("arr", "sl", "list"):
        base, lo, hi = v.fs

        def get(i):
            if k == "sl":
                return Ref(base.root, base.path + (("i", i),))
            return I.resolve(I.index_val(base, i))

        def f():
            if back:
                n = t_arith("sub", hi, ONE)
                I.write(r.root, r.path, It(k, (base, lo, n), v.x))
                return some(get(n))
            I.write(r.root, r.path, It(k, (base, t_arith("add", lo, ONE), hi), v.x))
            return some(get(lo))
        return I.fork(t_cmp("lt", lo, hi), f, lambda: NONE)
    step = nback if back else nxt
    if k == "map":
        return omatch(I, step(I, inner(r, 0), v.x[0], sp), lambda x: some(call(I, inner(r, 1), [x], v.x[1])), lambda: NONE)
    if k == "zip":
        if back:
            na, nb = length(I, inner(r, 0), v.x[0]), length(I, inner(r, 1), v.x[1])
            if na is not nb:
                raise Unknown("next_back of a zip of unequal lengths")
        return omatch(I, step(I, inner(r, 0), v.x[0], sp),
                      lambda x: omatch(I, step(I, inner(r, 1), v.x[1], sp), lambda y: some(tup(x, y)), lambda: NONE),
                      lambda: NONE)
    if k == "enumerate":
        if back:
            n = length(I, inner(r, 0), v.x[0])
            pos = I.deref(inner(r, 1))
            return omatch(I, step(I, inner(r, 0), v.x[0], sp), lambda x: some(tup(t_arith("sub", t_arith("add", pos, n), ONE), x)), lambda: NONE)

        def f(x):
            p = inner(r, 1)
            c = I.deref(p)
            I.write(p.root, p.path, t_arith("add", c, ONE))
            return some(tup(c, x))
        return omatch(I, nxt(I, inner(r, 0), v.x[0], sp), f, lambda: NONE)
    if k == "rev":
        return (nxt if back else nback)(I, inner(r, 0), v.x[0], sp)
    if k == "cloned":
        t = item_ty(I, v.x[0])
        t = t[1] if t[0] == "ref" else t
        return omatch(I, step(I, inner(r, 0), v.x[0], sp),
                      lambda x: some(call_trait(I, "core::clone::Clone", "clone", (t,), [x], t)), lambda: NONE)
    if k == "take" and not back:
        p = inner(r, 1)
        n = I.deref(p)

        def f():
            I.write(p.root, p.path, t_arith("sub", n, ONE))
            return nxt(I, inner(r, 0), v.x[0], sp)
        return I.fork(t_cmp("lt", ZERO, n), f, lambda: NONE)
    if k == "skip" and not back:
        p = inner(r, 1)
        for _ in range(MAXIT):
            n = I.resolve(I.deref(p))
            if not isint(n):
                return skip_symbolic(I, r, v, p, sp, 0)
            if ival(n) == 0:
                return nxt(I, inner(r, 0), v.x[0], sp)
            I.write(p.root, p.path, t_arith("sub", n, ONE))
            o = nxt(I, inner(r, 0), v.x[0], sp)
            o = I.resolve(o)
            if not isinstance(o, Adt):
                raise Unknown("skip over an unknown iterator")
            if o.v == 0:
                return NONE
    if k == "step_by" and not back:
        first = I.deref(inner(r, 2))
        p = inner(r, 2)
        st = I.deref(inner(r, 1))
        n = 1 if first is TRUE else ival(st)
        I.write(p.root, p.path, FALSE)

        def go(j):
            o = nxt(I, inner(r, 0), v.x[0], sp)
            if j == 1:
                return o
            return omatch(I, o, lambda x: go(j - 1), lambda: NONE)
        return go(n)
    if k == "chain":
        if back:
            def second():
                return omatch(I, nback(I, inner(r, 1), v.x[1], sp), lambda x: some(x), lambda: nback(I, inner(r, 0), v.x[0], sp))
            return second()
        p = inner(r, 2)

        def first_():
            def end():
                I.write(p.root, p.path, FALSE)
                return nxt(I, inner(r, 1), v.x[1], sp)
            return omatch(I, nxt(I, inner(r, 0), v.x[0], sp), lambda x: some(x), end)
        return I.fork(I.deref(p), first_, lambda: nxt(I, inner(r, 1), v.x[1], sp))
    if k in ("filter", "filter_map"):
        def go(n):
            if n > MAXIT:
                raise Unknown("filter over an unbounded iterator")

            def f(x):
                if k == "filter":
                    c = call(I, inner(r, 1), [I.temp(x)], ("prim", "bool"))
                    return I.fork(c, lambda: some(x), lambda: go(n + 1))
                o = call(I, inner(r, 1), [x], v.x[1])
                return omatch(I, o, lambda y: some(y), lambda: go(n + 1))
            return omatch(I, step(I, inner(r, 0), v.x[0], sp), f, lambda: NONE)
        return go(0)
    if k in ("take_while", "map_while") and not back:
        p = inner(r, 2)

        def f(x):
            if k == "map_while":
                return call(I, inner(r, 1), [x], v.x[1])
            c = call(I, inner(r, 1), [I.temp(x)], ("prim", "bool"))

            def stop():
                I.write(p.root, p.path, TRUE)
                return NONE
            return I.fork(c, lambda: some(x), stop)
        return I.fork(I.deref(p), lambda: NONE, lambda: omatch(I, nxt(I, inner(r, 0), v.x[0], sp), f, lambda: NONE))
    if k == "skip_while" and not back:
        p = inner(r, 2)

        def go(n):
            if n > MAXIT:
                raise Unknown("skip_while")

            def f(x):
                def chk():
                    c = call(I, inner(r, 1), [I.temp(x)], ("prim", "bool"))

                    def stop():
                        I.write(p.root, p.path, TRUE)
                        return some(x)
                    return I.fork(c, lambda: go(n + 1), stop)
                return I.fork(I.deref(p), lambda: some(x), chk)
            return omatch(I, nxt(I, inner(r, 0), v.x[0], sp), f, lambda: NONE)
        return go(0)
    if k == "scan" and not back:
        return omatch(I, nxt(I, inner(r, 0), v.x[0], sp), lambda x: call(I, inner(r, 2), [inner(r, 1), x], v.x[1]), lambda: NONE)
    if k == "inspect":
        def f(x):
            call(I, inner(r, 1), [I.temp(x)], UNIT_T)
            return some(x)
        return omatch(I, step(I, inner(r, 0), v.x[0], sp), f, lambda: NONE)
    if k == "fuse":
        p = inner(r, 1)

        def go():
            def end():
                I.write(p.root, p.path, TRUE)
                return NONE
            return omatch(I, step(I, inner(r, 0), v.x[0], sp), lambda x: some(x), end)
        return I.fork(I.deref(p), lambda: NONE, go)
    if k == "peekable" and not back:
        p = inner(r, 1)
        o = I.resolve(I.deref(p))

        def f(w):
            I.write(p.root, p.path, NONE)
            return w
        return omatch(I, o, f, lambda: nxt(I, inner(r, 0), v.x[0], sp))
    if k == "flatten" and not back:
        front = inner(r, 1)
        ity, uty = v.x[1], v.x[2]  # inner iterator type, inner IntoIterator type

        def go(n):
            if n > MAXIT:
                raise Unknown("flatten over an unbounded iterator")

            def adv():
                def f(x):
                    if v.x[3]:
                        x = call(I, inner(r, 2), [x], uty)
                    it = into_iter(I, x, uty)
                    I.write(front.root, front.path, some(it))
                    return go(n + 1)
                return omatch(I, nxt(I, inner(r, 0), v.x[0], sp), f, lambda: NONE)

            def cur(_):
                def end():
                    I.write(front.root, front.path, NONE)
                    return adv()
                return omatch(I, nxt(I, Ref(front.root, front.path + (("v", 1, 0),)), ity, sp), lambda x: some(x), end)
            return omatch(I, I.deref(front), cur, adv)
        return go(0)
    if k == "cycle" and not back:
        def again():
            I.write(r.root, r.path + (("n", 0),), v.fs[1])
            return nxt(I, inner(r, 0), v.x[0], sp)
        return omatch(I, nxt(I, inner(r, 0), v.x[0], sp), lambda x: some(x), again)
    if k == "repeat":
        return some(v.fs[0])
    if k == "repeat_with":
        return some(call(I, inner(r, 0), [], v.x[0]))
    if k == "from_fn":
        return call(I, inner(r, 0), [], v.x[0])
    if k == "successors":
        p = inner(r, 0)

        def f(x):
            nx = call(I, inner(r, 1), [I.temp(x)], ("adt", OPTION, (v.x[0],)))
            I.write(p.root, p.path, nx)
            return some(x)
        return omatch(I, I.deref(p), f, lambda: NONE)
    raise Unknown("iterator %s%s" % (k, " backwards" if back else ""))


UNIT_T = ("tup", ())


@nat(ITER + "::next")
def _(I, a, ta, ety, sp):
    return native_next(I, a[0], ta[0], False, sp)


@nat(DEI + "::next_back")
def _(I, a, ta, ety, sp):
    return native_next(I, a[0], ta[0], True, sp)


def into_iter(I, v, ty):
    if ty[0] in ("param", "proj") or (ty[0] == "adt" and ty[1] not in I.P.adts and isinstance(v, It)):
        return v
    return call_trait(I, INTO, "into_iter", (ty,), [v], I.P.proj(INTO + "::IntoIter", (ty,)))


def slice_iter(I, r):
    n = I.length(I.deref(r))
    return It("sl", (Ref(r.root, r.path), ZERO, n))


@nat(INTO + "::into_iter")
def _(I, a, ta, ety, sp):
    t = ta[0]
    v = a[0]
    if t[0] == "arr":
        return It("arr", (v, ZERO, I.length(v)))
    if t[0] == "ref" and t[1][0] in ("arr", "slice"):
        return slice_iter(I, v)
    if isinstance(v, Term) and t[0] in ("param", "proj") and ety is not None and ety != t:
        return I.symval(ety, Term("fn:IntoIterator::into_iter", v))
    if isinstance(v, (It, Opq)) or t[0] in ("param", "proj", "opaque"):
        return v
    if isinstance(v, Adt) and v.d.startswith("core::ops::range"):
        return v
    if t[0] == "ref" and isinstance(v, Ref):
        return v
    if t[0] == "adt" and t[1] == OPTION:
        return omatch(I, v, lambda x: It("list", (Arr([x]), ZERO, ONE)), lambda: It("list", (Arr([]), ZERO, ZERO)))
    if I.P.find_impl(ITER, (t,)) is not None:
        return v
    return NotImplemented


@nat("core::slice::iter", "core::slice::iter_mut", "core::array::iter", "core::array::iter_mut")
def _(I, a, ta, ety, sp):
    return slice_iter(I, a[0])


T["core::array::into_iter"] = lambda I, a, ta, ety, sp: It("arr", (a[0], ZERO, I.length(a[0])))


@nat("core::ops::range::RangeInclusive::new", "core::ops::range::new")
def _(I, a, ta, ety, sp):
    return Adt(RANGEI, 0, (a[0], a[1], FALSE), ta)


@nat("core::slice::chunks_exact", "core::slice::chunks", "core::slice::windows", "core::slice::chunks_mut", "core::slice::chunks_exact_mut")
def _(I, a, ta, ety, sp):
    raise Unknown("chunks")


def chunker(kind):
    def f(I, a, ta, ety, sp):
        r, c = a
        n = I.length(I.deref(r))
        if not (isint(n) and isint(c)):
            raise Unknown("chunks of symbolic size")
        n, c = ival(n), ival(c)
        if c == 0:
            I.panic("chunk size of zero", sp)
        out = []
        if kind == "windows":
            for i in range(n - c + 1):
                out.append((i, c))
        else:
            i = 0
            while i < n:
                m = min(c, n - i)
                if m < c and kind.startswith("chunks_exact"):
                    break
                out.append((i, m))
                i += c
        return It("list", (Arr([Ref(r.root, r.path + (("s", num(i), num(m)),)) for i, m in out]), ZERO, num(len(out))))
    return f


for _k in ("chunks", "chunks_mut", "chunks_exact", "chunks_exact_mut", "windows"):
    T["core::slice::" + _k] = chunker(_k)


def ad(name, f):
    T[ITER + "::" + name] = f


ad("by_ref", lambda I, a, ta, ety, sp: a[0])
ad("map", lambda I, a, ta, ety, sp: It("map", (a[0], a[1]), (ta[0], ta[1] if len(ta) > 1 else None)))
ad("rev", lambda I, a, ta, ety, sp: It("rev", (a[0],), (ta[0],)))
ad("enumerate", lambda I, a, ta, ety, sp: It("enumerate", (a[0], ZERO), (ta[0],)))
ad("cloned", lambda I, a, ta, ety, sp: It("cloned", (a[0],), (self_inner(I, ta, ety),)))
ad("copied", lambda I, a, ta, ety, sp: It("cloned", (a[0],), (self_inner(I, ta, ety),)))
ad("take", lambda I, a, ta, ety, sp: It("take", (a[0], a[1]), (ta[0],)))
ad("skip", lambda I, a, ta, ety, sp: It("skip", (a[0], a[1]), (ta[0],)))
ad("step_by", lambda I, a, ta, ety, sp: It("step_by", (a[0], a[1], TRUE), (ta[0],)))
ad("filter", lambda I, a, ta, ety, sp: It("filter", (a[0], a[1]), (ta[0],)))
ad("filter_map", lambda I, a, ta, ety, sp: It("filter_map", (a[0], a[1]), (ta[0], ("adt", OPTION, (ta[1],)))))
ad("map_while", lambda I, a, ta, ety, sp: It("map_while", (a[0], a[1], FALSE), (ta[0], ("adt", OPTION, (ta[1],)))))
ad("take_while", lambda I, a, ta, ety, sp: It("take_while", (a[0], a[1], FALSE), (ta[0],)))
ad("skip_while", lambda I, a, ta, ety, sp: It("skip_while", (a[0], a[1], FALSE), (ta[0],)))
ad("inspect", lambda I, a, ta, ety, sp: It("inspect", (a[0], a[1]), (ta[0],)))
ad("fuse", lambda I, a, ta, ety, sp: It("fuse", (a[0], FALSE), (ta[0],)))
ad("peekable", lambda I, a, ta, ety, sp: It("peekable", (a[0], NONE), (ta[0],)))
ad("cycle", lambda I, a, ta, ety, sp: It("cycle", (a[0], a[0]), (ta[0],)))
ad("scan", lambda I, a, ta, ety, sp: It("scan", (a[0], a[1], a[2]), (ta[0], ("adt", OPTION, (ta[2],)))))
ad("flatten", lambda I, a, ta, ety, sp: flat(I, a, ta[0], item_ty(I, ta[0]), None))
ad("flat_map", lambda I, a, ta, ety, sp: flat(I, a, ta[0], ta[1], a[1]))


def self_inner(I, ta, ety):
    return ta[0]


def flat(I, a, ty, uty, f):
    ity = I.P.proj(INTO + "::IntoIter", (uty,))
    return It("flatten", (a[0], NONE) + ((f,) if f is not None else ()), (ty, ity, uty, f is not None))


@nat(ITER + "::zip")
def _(I, a, ta, ety, sp):
    return zip2(I, a[0], ta[0], a[1], ta[1])


def zip2(I, x, tx, y, tyy):
    jt = I.P.proj(INTO + "::IntoIter", (tyy,))
    if jt[0] == "proj":
        jt = tyy
    return It("zip", (x, into_iter(I, y, tyy)), (tx, jt))


@nat("core::iter::adapters::zip::zip")
def _(I, a, ta, ety, sp):
    it = I.P.proj(INTO + "::IntoIter", (ta[0],))
    if it[0] == "proj":
        it = ta[0]
    return zip2(I, into_iter(I, a[0], ta[0]), it, a[1], ta[1])


@nat(ITER + "::chain")
def _(I, a, ta, ety, sp):
    jt = I.P.proj(INTO + "::IntoIter", (ta[1],))
    if jt[0] == "proj":
        jt = ta[1]
    return It("chain", (a[0], into_iter(I, a[1], ta[1]), TRUE), (ta[0], jt))


T["core::iter::sources::once::once"] = lambda I, a, ta, ety, sp: It("list", (Arr([a[0]]), ZERO, ONE))
T["core::iter::sources::empty::empty"] = lambda I, a, ta, ety, sp: It("list", (Arr([]), ZERO, ZERO))
T["core::iter::sources::repeat::repeat"] = lambda I, a, ta, ety, sp: It("repeat", (a[0],))
T["core::iter::sources::repeat_n::repeat_n"] = lambda I, a, ta, ety, sp: It("list", (Arr([a[0]] * ival(a[1])), ZERO, a[1]))
T["core::iter::sources::repeat_with::repeat_with"] = lambda I, a, ta, ety, sp: It("repeat_with", (a[0],), (ta[0],))
T["core::iter::sources::from_fn::from_fn"] = lambda I, a, ta, ety, sp: It("from_fn", (a[0],), (("adt", OPTION, (ta[0],)),))
T["core::iter::sources::successors::successors"] = lambda I, a, ta, ety, sp: It("successors", (a[0], a[1]), (ta[0],))


@nat("core::iter::adapters::peekable::peek")
def _(I, a, ta, ety, sp):
    r = a[0]
    v = I.deref(r)
    p = inner(r, 1)

    def fill():
        o = nxt(I, inner(r, 0), v.x[0], sp)
        I.write(p.root, p.path, o)
        return omatch(I, o, lambda x: some(Ref(p.root, p.path + (("v", 1, 0),))), lambda: NONE)
    return omatch(I, I.deref(p), lambda x: some(Ref(p.root, p.path + (("v", 1, 0),))), fill)


# ------------------------------------------------------------------ sizes
def length(I, r, ty):
    """exact number of remaining items, when the structure determines it"""
    v = I.resolve(I.deref(r))
    if isinstance(v, Ref):
        return length(I, v, ty[1] if ty[0] == "ref" else ty)
    if isinstance(v, Adt) and v.d == RANGE:
        d = t_arith("sub", v.fs[1], v.fs[0])
        if isint(d) and ival(d) < 0:
            return ZERO
        return d
    if isinstance(v, It):
        k = v.k
        if k in ("arr", "sl", "list"):
            return t_arith("sub", v.fs[2], v.fs[1])
        if k in ("map", "enumerate", "rev", "cloned", "inspect"):
            return length(I, inner(r, 0), v.x[0])
        if k == "zip":
            a, b = length(I, inner(r, 0), v.x[0]), length(I, inner(r, 1), v.x[1])
            if isint(a) and isint(b):
                return num(min(ival(a), ival(b)))
            return t_ite(I.decide(t_cmp("le", a, b)), a, b)
        if k == "take":
            a, b = length(I, inner(r, 0), v.x[0]), v.fs[1]
            if isint(a) and isint(b):
                return num(min(ival(a), ival(b)))
        if k == "skip":
            a, b = length(I, inner(r, 0), v.x[0]), v.fs[1]
            if isint(a) and isint(b):
                return num(max(ival(a) - ival(b), 0))
        if k == "chain":
            a = length(I, inner(r, 0), v.x[0]) if v.fs[2] is TRUE else ZERO
            return t_arith("add", a, length(I, inner(r, 1), v.x[1]))
    raise Unknown("length of iterator %r" % (v,))


@nat("core::iter::traits::exact_size::ExactSizeIterator::len")
def _(I, a, ta, ety, sp):
    try:
        return length(I, a[0], ta[0])
    except Unknown:
        m = I.P.find_impl(ITER, (ta[0],))
        if m is None:
            raise
        h = call_trait(I, ITER, "size_hint", (ta[0],), [a[0]], None)
        return h.fs[0]


T["core::slice::iter::len"] = T["core::array::iter::len"] = lambda I, a, ta, ety, sp: length(I, a[0], None)


@nat("core::slice::iter::as_slice", "core::array::iter::as_slice")
def _(I, a, ta, ety, sp):
    v = I.deref(a[0])
    if v.k == "sl":
        return Ref(v.fs[0].root, v.fs[0].path + (("s", v.fs[1], t_arith("sub", v.fs[2], v.fs[1])),))
    p = inner(a[0], 0)
    return Ref(p.root, p.path + (("s", v.fs[1], t_arith("sub", v.fs[2], v.fs[1])),))


@nat(ITER + "::size_hint")
def _(I, a, ta, ety, sp):
    t = ta[0]
    if I.local_self(ITER, t):
        m = I.P.find_impl(ITER, (t,))
        # provided default
        if m is not None:
            return tup(ZERO, NONE)
    v = I.deref_all(a[0])
    if isinstance(v, Opq):
        return I.symval(("tup", (("prim", "usize"), ("adt", OPTION, (("prim", "usize"),)))), Term("hint", v.ver))
    n = length(I, a[0], t)
    return tup(n, some(n))


# ------------------------------------------------------------------ consumers
def drive(I, a, ty, step, done, sp=None):
    """step(x, again): called with each item; again() continues the loop; done(): at the end"""
    r = a if isinstance(a, Ref) and ty[0] != "ref" else I.temp(a)
    cnt = [0]

    def again():
        cnt[0] += 1
        if cnt[0] > MAXIT:
            raise Unknown("iteration over an unbounded iterator")
        return omatch(I, nxt(I, r, ty, sp), lambda x: step(x, again), done)
    return again()


def own_fold(I, t):
    """an iterator of the library that replaces the provided fold, through which the provided consumers go"""
    if t[0] != "adt" or not I.local_self(ITER, t):
        return False
    m = I.P.find_impl(ITER, (t,))
    return m is not None and any(it["n"] == "fold" for it in m[0]["items"])


def drain(I, a, ty, each, done, sp=None):
    """every remaining item, in order, of an iterator that is consumed"""
    if own_fold(I, ty):
        def f(args):
            each(args[1])
            return UNIT
        call_trait(I, ITER, "fold", (ty, UNIT_T, UNIT_T), [I.deref(a) if isinstance(a, Ref) else a, UNIT, NatFn(f)], UNIT_T, tn=1, sp=sp)
        return done()

    def step(x, again):
        each(x)
        return again()
    return drive(I, a, ty, step, done, sp)


def byval(I, v):
    return I.temp(v)


@nat(ITER + "::fold")
def _(I, a, ta, ety, sp):
    f = I.temp(a[2])
    cell = I.temp(a[1])
    return drive(I, byval(I, a[0]), ta[0], lambda x, again: (I.write(cell.root, cell.path, call(I, f, [I.deref(cell), x], ety)), again())[1], lambda: I.deref(cell), sp)


@nat(ITER + "::reduce")
def _(I, a, ta, ety, sp):
    r = byval(I, a[0])
    f = I.temp(a[1])

    def first(x):
        cell = I.temp(x)
        return drain(I, r, ta[0], lambda y: I.write(cell.root, cell.path, call(I, f, [I.deref(cell), y], item_ty(I, ta[0]))), lambda: some(I.deref(cell)), sp)
    return omatch(I, nxt(I, r, ta[0], sp), first, lambda: NONE)


@nat(ITER + "::for_each")
def _(I, a, ta, ety, sp):
    f = I.temp(a[1])
    return drain(I, byval(I, a[0]), ta[0], lambda x: call(I, f, [x], UNIT_T), lambda: UNIT, sp)


def quant(stop_on, res):
    def fn(I, a, ta, ety, sp):
        f = I.temp(a[1])

        def step(x, again):
            c = call(I, f, [x], ("prim", "bool"))
            if stop_on:
                return I.fork(c, lambda: TRUE, again)
            return I.fork(c, again, lambda: FALSE)
        return drive(I, a[0], ta[0], step, lambda: boolt(not stop_on), sp)
    return fn


ad("any", quant(True, True))
ad("all", quant(False, False))


@nat(ITER + "::count")
def _(I, a, ta, ety, sp):
    cell = I.temp(ZERO)
    return drain(I, byval(I, a[0]), ta[0], lambda x: I.write(cell.root, (), t_arith("add", I.deref(cell), ONE)), lambda: I.deref(cell), sp)


@nat(ITER + "::last")
def _(I, a, ta, ety, sp):
    cell = I.temp(NONE)
    return drain(I, byval(I, a[0]), ta[0], lambda x: I.write(cell.root, (), some(x)), lambda: I.deref(cell), sp)


def nth(step):
    def f(I, a, ta, ety, sp):
        n = a[1]

        def go(k):
            if k > MAXIT:
                raise Unknown("nth of an unbounded iterator")
            o = step(I, a[0], ta[0], sp)
            if n is num(k) or isint(n) and ival(n) == k:
                return o
            if isint(n):
                return omatch(I, o, lambda x: go(k + 1), lambda: NONE)
            return omatch(I, o, lambda x: I.fork(t_cmp("eq", n, num(k)), lambda: some(x), lambda: go(k + 1)), lambda: NONE)
        return go(0)
    return f


nat(ITER + "::nth")(nth(nxt))
nat(DEI + "::nth_back")(nth(nback))


@nat(ITER + "::find")
def _(I, a, ta, ety, sp):
    f = I.temp(a[1])
    return drive(I, a[0], ta[0], lambda x, again: I.fork(call(I, f, [I.temp(x)], ("prim", "bool")), lambda: some(x), again), lambda: NONE, sp)


@nat(ITER + "::find_map")
def _(I, a, ta, ety, sp):
    f = I.temp(a[1])
    return drive(I, a[0], ta[0], lambda x, again: omatch(I, call(I, f, [x], ety), lambda y: some(y), again), lambda: NONE, sp)


@nat(ITER + "::position")
def _(I, a, ta, ety, sp):
    f = I.temp(a[1])
    cell = I.temp(ZERO)

    def step(x, again):
        def no():
            I.write(cell.root, (), t_arith("add", I.deref(cell), ONE))
            return again()
        return I.fork(call(I, f, [x], ("prim", "bool")), lambda: some(I.deref(cell)), no)
    return drive(I, a[0], ta[0], step, lambda: NONE, sp)


def is_cf(t):
    return t[0] == "adt" and t[1] == CF


@nat(ITER + "::try_for_each", ITER + "::try_fold")
def _(I, a, ta, ety, sp):
    fold = len(a) == 3
    f = I.temp(a[-1])
    cell = I.temp(a[1] if fold else UNIT)
    cont = {OPTION: 1, RESULT: 0, CF: 0}
    if ety is None or ety[0] != "adt" or ety[1] not in cont:
        raise Unknown("try_fold result type")
    good = cont[ety[1]]

    def step(x, again):
        o = call(I, f, [I.deref(cell), x] if fold else [x], ety)

        def go(y):
            I.write(cell.root, (), y)
            return again()
        if ety[1] == OPTION:
            return omatch(I, o, go, lambda: NONE)
        return vmatch(I, o, {good: go, 1 - good: lambda e: Adt(ety[1], 1 - good, (e,))})
    return drive(I, a[0], ta[0], step, lambda: Adt(ety[1], good, (I.deref(cell),)), sp)


def accum(tr, m, op, unit):
    @nat("core::iter::traits::accum::%s::%s" % (tr, m))
    def _(I, a, ta, ety, sp):
        # <Self as Sum<A>>::sum(iter): ta = (Self, A, I)
        if not scal(ta[0]):
            return NotImplemented
        cell = I.temp(unit)

        return drain(I, byval(I, a[0]), ta[2], lambda x: I.write(cell.root, (), I.binop(op, I.deref(cell), I.deref_all(x), ta[0], sp)), lambda: I.deref(cell), sp)

    @nat(ITER + "::" + m)
    def _(I, a, ta, ety, sp):
        s = ta[1]
        return I.call_fn(("fndef", "core::iter::traits::accum::%s::%s" % (tr, m), (s, item_ty(I, ta[0]), ta[0]),
                          "core::iter::traits::accum::" + tr, 2, None), [a[0]], ety, sp)


accum("Sum", "sum", "add", ZERO)
accum("Product", "product", "mul", ONE)


def iter_rel(I, a, ta, sp, f, g):
    """lock-step comparison"""
    r1 = byval(I, a[0])
    jt = I.P.proj(INTO + "::IntoIter", (ta[1],))
    r2 = byval(I, into_iter(I, a[1], ta[1]))
    cnt = [0]

    def go():
        cnt[0] += 1
        if cnt[0] > MAXIT:
            raise Unknown("iterator comparison")
        return omatch(I, nxt(I, r1, ta[0], sp),
                      lambda x: omatch(I, nxt(I, r2, jt, sp), lambda y: f(x, y, go), lambda: g(1)),
                      lambda: omatch(I, nxt(I, r2, jt, sp), lambda y: g(-1), lambda: g(0)))
    return go()


@nat(ITER + "::eq")
def _(I, a, ta, ety, sp):
    tx = item_ty(I, ta[0])
    ty = item_ty(I, I.P.proj(INTO + "::IntoIter", (ta[1],)))
    return iter_rel(I, a, ta, sp, lambda x, y, go: I.fork(peq(I, I.temp(x), I.temp(y), tx, ty, sp), go, lambda: FALSE), lambda k: boolt(k == 0))


@nat(ITER + "::ne")
def _(I, a, ta, ety, sp):
    return t_not(T[ITER + "::eq"](I, a, ta, ety, sp))


def minmax(name, kind):
    """max/min, *_by, *_by_key through comparison of successive items"""
    is_max = name.startswith("max")

    @nat(ITER + "::" + name)
    def _(I, a, ta, ety, sp):
        r = byval(I, a[0])
        it = item_ty(I, ta[0])
        f = I.temp(a[1]) if len(a) > 1 else None

        def compare(x, y):
            if kind == "by":
                return call(I, f, [I.temp(x), I.temp(y)], ("adt", ORD, ()))
            if kind == "key":
                kt = ta[1]
                x, y = call(I, f, [I.temp(x)], kt), call(I, f, [I.temp(y)], kt)
                return call_trait(I, "core::cmp::Ord", "cmp", (kt,), [I.temp(x), I.temp(y)], ("adt", ORD, ()))
            return call_trait(I, "core::cmp::Ord", "cmp", (it,), [I.temp(x), I.temp(y)], ("adt", ORD, ()))

        def first(x):
            cell = I.temp(x)

            def step(y, again):
                c = I.deref(cell)
                o = compare(c, y)
                gt = I.variant_cond(o, 2)
                keep = gt if is_max else t_not(gt)
                I.write(cell.root, (), merge(I.decide(keep), c, y))
                return again()
            return drive(I, r, ta[0], step, lambda: some(I.deref(cell)), sp)
        return omatch(I, nxt(I, r, ta[0], sp), first, lambda: NONE)


for _n in ("max", "min"):
    minmax(_n, "ord")
    minmax(_n + "_by", "by")
    minmax(_n + "_by_key", "key")
