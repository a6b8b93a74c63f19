"""Ownership of elements: what the type system does not see.

Safe code moves every value linearly (the compiler checks it), so an element can be lost or owned twice only through the
operations that leave that discipline: bitwise copies (`ptr::read`, `assume_init_read`, `transmute_copy`, `ManuallyDrop::take`,
drops in place) create an owner, and `forget`, contents of `MaybeUninit` / `ManuallyDrop` storage that is overwritten or goes out of
scope destroy one without dropping. The interpreter writes these in a ledger (kept with the unsafe facts so that it is rolled
back with them) while it runs in ownership mode; an element is handed on exactly once iff both columns agree, for every input."""
from .program import *
from .values import *

WRAP = ("core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop")
# natives that take storage by value and are modelled as moving it
MOVES = {"core::mem::maybe_uninit::assume_init", "core::mem::maybe_uninit::array_assume_init", "core::mem::maybe_uninit::transpose",
         "core::mem::replace", "core::ptr::replace", "core::ptr::write", "core::ptr::mut_ptr::write", "core::mem::forget", "core::mem::drop",
         "core::mem::manually_drop::into_inner", "core::mem::manually_drop::new", "core::intrinsics::transmute", "core::mem::transmute",
         "core::mem::maybe_uninit::new", "core::mem::maybe_uninit::write", "core::array::map",
         "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call", "core::ops::function::FnOnce::call_once",
         "core::convert::From::from", "core::convert::Into::into"}


class OwnUnknown(Exception):
    pass


class Own:
    """type questions and the ledger"""

    def __init__(self, P, copy_params):
        self.P = P
        self.copy = copy_params
        self._mu, self._lin = {}, {}
        self.kind = {}        # element -> its type
        self.unknown = None
        self.copied = False

    def give_up(self, why):
        if self.unknown is None:
            self.unknown = why

    def wrapped(self, t):
        """t stores a MaybeUninit or ManuallyDrop by value"""
        r = self._mu.get(t)
        if r is None:
            self._mu[t] = False
            r = self._mu[t] = self._wrapped(t)
        return r

    def _wrapped(self, t):
        k = t[0]
        if k == "adt":
            if t[1] in WRAP:
                return True
            if t[1] == "core::marker::PhantomData" or t[1].startswith("core::slice::iter::"):
                return False
            a = self.P.adts.get(t[1])
            if a:
                return any(self.wrapped(self.P.field_ty(t[1], t[2], v, i)) for v, w in enumerate(a["variants"]) for i in range(len(w["fields"])))
            return any(self.wrapped(x) for x in t[2] if not is_const(x))
        if k in ("arr", "slice"):
            return self.wrapped(t[1])
        if k == "tup":
            return any(self.wrapped(x) for x in t[1])
        return False

    def linear(self, t):
        """t may own something that has to be dropped"""
        r = self._lin.get(t)
        if r is None:
            self._lin[t] = False
            r = self._lin[t] = self._linear(t)
        return r

    def _linear(self, t):
        k = t[0]
        if k == "param":
            return t[1] not in self.copy
        if k in ("proj", "opaque"):
            return True
        if k in ("arr", "slice"):
            return self.linear(t[1])
        if k == "tup":
            return any(self.linear(x) for x in t[1])
        if k == "adt":
            if t[1] == "core::marker::PhantomData" or t[1].startswith("core::slice::iter::"):
                return False
            a = self.P.adts.get(t[1])
            if a:
                if a.get("drop"):
                    return True
                return any(self.linear(self.P.field_ty(t[1], t[2], v, i)) for v, w in enumerate(a["variants"]) for i in range(len(w["fields"])))
            return any(self.linear(x) for x in t[2] if not is_const(x))
        return False

    def tracked(self, t):
        return self.wrapped(t) and self.linear(t)

    def tokens(self, v, t, gate=TRUE, inside=True):
        """(condition, element) for the elements that v owns; with inside=False only those in MaybeUninit / ManuallyDrop storage"""
        if isinstance(v, (Uninit, Bot)) or not self.linear(t) or gate is FALSE:
            return
        if not inside and not self.wrapped(t):
            return
        if isinstance(v, VIte):
            yield from self.tokens(v.a, t, t_and(gate, v.c), inside)
            yield from self.tokens(v.b, t, t_and(gate, t_not(v.c)), inside)
            return
        k = t[0]
        if k in ("param", "proj", "opaque"):
            if isinstance(v, Opq):
                return
            if not isinstance(v, Term):
                raise OwnUnknown("element represented as %s" % type(v).__name__)
            if v.op == "ite":
                yield from self.tokens(v.args[1], t, t_and(gate, v.args[0]), inside)
                yield from self.tokens(v.args[2], t, t_and(gate, t_not(v.args[0])), inside)
                return
            self.kind[v] = t
            yield gate, v
            return
        if k in ("arr", "slice"):
            if not isinstance(v, Arr):
                raise OwnUnknown("storage of symbolic length")
            for x in v.es:
                yield from self.tokens(x, t[1], gate, inside)
            return
        if k == "tup":
            if not isinstance(v, Adt):
                raise OwnUnknown("tuple")
            for x, y in zip(v.fs, t[1]):
                yield from self.tokens(x, y, gate, inside)
            return
        if k == "adt":
            if t[1] in WRAP:
                yield from self.tokens(v, t[2][0], gate, True)
                return
            a = self.P.adts.get(t[1])
            e = self.P.erased(t[1])
            if e is not None:
                yield from self.tokens(v, self.P.field_ty(t[1], t[2], 0, e) if a else t[2][0], gate, inside)
                return
            if isinstance(v, Adt) and v.d == t[1]:
                if a:
                    for i, x in enumerate(v.fs):
                        yield from self.tokens(x, self.P.field_ty(t[1], t[2], v.v, i), gate, inside)
                    return
                if t[1] in (OPTION, RESULT):
                    for x in v.fs:
                        yield from self.tokens(x, t[2][0] if t[1] == OPTION or v.v == 0 else t[2][1], gate, inside)
                    return
        raise OwnUnknown("ownership of a %s" % t[1] if len(t) > 1 else k)


def has_destructor(P, t):
    """t contains a type with a destructor of its own, by value"""
    k = t[0]
    if k == "adt":
        if t[1] in WRAP or t[1] == "core::marker::PhantomData":
            return False
        a = P.adts.get(t[1])
        if a:
            return bool(a.get("drop")) or any(has_destructor(P, P.field_ty(t[1], t[2], v, i)) for v, w in enumerate(a["variants"]) for i in range(len(w["fields"])))
        return any(has_destructor(P, x) for x in t[2] if not is_const(x))
    if k in ("arr", "slice"):
        return has_destructor(P, t[1])
    if k == "tup":
        return any(has_destructor(P, x) for x in t[1])
    return False


def drop_place(I, root, path, t):
    """run the destructors of the value at a place"""
    v = I.read(root, path)
    if isinstance(v, (Uninit, Bot)) or not I.dropping(t):
        return
    if isinstance(v, VIte):
        def side(x):
            def f():
                I.write(root, path, x)
                drop_place(I, root, path, t)
                return UNIT
            return f
        I.fork(v.c, side(v.a), side(v.b))
        return
    a = I.P.adts.get(t[1]) if t[0] == "adt" else None
    if t[0] == "tup":
        for i, x in enumerate(t[1]):
            drop_place(I, root, path + (("f", i),), x)
        return
    if t[0] == "arr" and isinstance(v, Arr):
        for i in range(len(v.es)):
            drop_place(I, root, path + (("i", num(i)),), t[1])
        return
    if a is None or len(a["variants"]) != 1:
        raise Unknown("destructor inside a %s" % (t[1] if t[0] == "adt" else t[0]))
    if a.get("drop"):
        m = I.P.find_impl("core::ops::drop::Drop", (t,))
        b = m and next((I.P.bodies.get(it["d"]) for it in m[0]["items"] if it["n"] == "drop"), None)
        if b is None:
            raise Unknown("destructor of %s" % t[1])
        I.call_body(b, dict(m[1]), [Ref(root, path)])
    for i in range(len(a["variants"][0]["fields"])):
        ft = I.P.field_ty(t[1], t[2], 0, i)
        if I.dropping(ft):
            drop_place(I, root, I.field_path(t, path, i), ft)


def end_of_life(I, root, t, what):
    """the variable at root goes out of scope"""
    v = I.st.vals.get(root)
    if v is None:
        return
    if I.dropping(t):
        drop_place(I, root, (), t)
        v = I.st.vals.get(root)
    if I.own:
        post(I, -1, v, t, what, inside=False)
    I.st.vals[root] = UNINIT


def unscope(I, fr, n):
    """values with destructors declared since the frame had n entries go out of scope"""
    for root, t in reversed(fr.mur[n:]):
        if I.dropping(t):
            end_of_life(I, root, t, "contents of storage that goes out of scope")


def discard(I, v, t, what, sp=None, place=None):
    """v is dropped by the compiler"""
    if I.dropping(t):
        r, p = place or (I.new_root(v), ())
        drop_place(I, r, p, t)
        v = I.read(r, p)
    if I.own:
        post(I, -1, v, t, what, sp, inside=False)


def unwind(I):
    """what the destructors of live variables do when control unwinds from here: their ledger entries"""
    if I.unwinding or not I.drops:
        return []
    live = [(root, t) for fr in reversed(I.frames) for root, t in reversed(fr.mur) if I.dropping(t) and I.st.vals.get(root) is not None]
    if not live:
        return []
    from .interp import Abrupt
    st, np, n, nf_, no = I.st, len(I.panics), len(I.events), len(I.frames), len(I.outlog)
    I.st = st.copy()
    I.unwinding = True
    try:
        for root, t in live:
            drop_place(I, root, (), t)
    except Abrupt:
        pass
    finally:
        I.unwinding = False
        I.st = st
    new = I.events[n:]
    del I.events[n:], I.panics[np:]
    I.events += [e for e in new if e[0] != "own"]
    return [e for e in new if e[0] == "own"]


def post(I, sign, v, t, what, sp=None, inside=True):
    """ledger entry for the elements of v"""
    o = I.own
    try:
        ts = list(o.tokens(v, t, TRUE, inside))
    except OwnUnknown as e:
        o.give_up("%s: %s" % (what, e))
        return
    if ts:
        I.events.append(("own", TRUE, (sign, tuple(ts), what), I.where(sp), I.st.guard, I.approx))


def residents(I, frames):
    """elements in MaybeUninit / ManuallyDrop storage of live frames"""
    r = []
    for fr in frames:
        for root, t in fr.mur:
            v = I.st.vals.get(root)
            if v is not None:
                r += list(I.own.tokens(v, t, TRUE, False))
    return r


def unwind_point(I, what, sp=None):
    """control may unwind from here: nothing may have two owners that would both be dropped"""
    o = I.own
    if I.unwinding:
        return
    more = unwind(I)
    if o is None or not more and not any(e[0] == "own" and e[2][0] > 0 for e in I.events):
        return
    try:
        r = residents(I, [fr for fr in I.frames])
        r += [x for v, t in I.flight for x in o.tokens(v, t, TRUE, False)]
    except OwnUnknown as e:
        o.give_up(str(e))
        return
    I.events.append(("own", TRUE, (0, tuple(r), what, tuple(more)), I.where(sp), I.st.guard, I.approx))


def leave(I, fr):
    """the frame's storage goes out of scope"""
    for root, t in reversed(fr.mur):
        end_of_life(I, root, t, "contents of storage that goes out of scope")


def take(I, root, path, t):
    """a tracked value was moved out of its place"""
    from .natives import uninit_val
    if I.st.vals.get(root) is not None:
        I.write(root, path, uninit_val(I, t))


def conj_all(guard):
    g = TRUE
    for c in guard:
        g = t_and(g, c)
    return g


def sum_term(es):
    r = ZERO
    for c, s in es:
        r = t_arith("add", r, t_ite(c, num(s), ZERO))
    return r


def balance(I):
    """per element: (element, difference term) at the end, and (element, difference, guard, what, where) at unwinding points"""
    led = []
    checks = []
    end = {}
    for kind, cond, detail, where, guard, approx in I.events:
        if kind != "own":
            continue
        if approx:
            raise OwnUnknown("ledger entry inside an over-approximated loop")
        sign, ts, what = detail[:3]
        g = conj_all(guard)
        if sign == 0:
            cur = {}
            for s, g1, t1 in led + [(e[2][0], conj_all(e[4]), e[2][1]) for e in detail[3] if e[2][0]]:
                for c, x in t1:
                    cur.setdefault(x, []).append((t_and(g1, c), s))
            here = {}
            for c, x in ts:
                here.setdefault(x, []).append((t_and(g, c), -1))
            for x, es in cur.items():
                if any(s > 0 for _, s in es):
                    checks.append((x, sum_term(es + here.get(x, [])), guard, what, where))
            continue
        led.append((sign, g, ts))
        for c, x in ts:
            end.setdefault(x, []).append((t_and(g, c), sign, what, where))
    return end, checks
