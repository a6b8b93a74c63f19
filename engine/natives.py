"""Models of the standard library (and scalar trait methods) used by the analysed program."""
from .program import *
from .values import *
from .interp import Abrupt
from . import own

T = {}
PANIC_OK = True


def table():
    return T


def nat(*names):
    def d(f):
        for n in names:
            T[n] = f
        return f
    return d


def scal(t):
    while t[0] == "ref":
        t = t[1]
    return t[0] == "param" or t[0] == "proj" or (t[0] == "prim" and t[1] != "str")


def is_term(I, v):
    v = I.deref_all(v)
    return v if isinstance(v, Term) else None


# ------------------------------------------------------------------ scalar operators
def arith(name, op):
    def f(I, a, ta, ety, sp):
        if not scal(ta[0]) or (len(ta) > 1 and not scal(ta[1])):
            return ref_lift(I, name, a, ta, ety, sp)
        x, y = I.deref_all(a[0]), I.deref_all(a[1])
        if not (isinstance(x, Term) and isinstance(y, Term)):
            return NotImplemented
        t = ta[0]
        while t[0] == "ref":
            t = t[1]
        return I.binop(op, x, y, t, sp)
    T[name] = f

    def g(I, a, ta, ety, sp):
        if not scal(ta[0]):
            return NotImplemented
        r = a[0]
        x, y = I.deref_all(r), I.deref_all(a[1])
        if not (isinstance(x, Term) and isinstance(y, Term)):
            return NotImplemented
        t = ta[0]
        I.write(r.root, r.path, I.binop(op, x, y, t, sp))
        return UNIT
    p, m = name.rsplit("::", 1)
    T[p + "Assign::" + m + "_assign"] = g


def ref_lift(I, name, a, ta, ety, sp):
    return NotImplemented


for tr, op in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("Rem", "rem")):
    arith("core::ops::arith::%s::%s" % (tr, op), op)
for tr, m, op in (("BitAnd", "bitand", "bitand"), ("BitOr", "bitor", "bitor"), ("BitXor", "bitxor", "bitxor"),
                  ("Shl", "shl", "shl"), ("Shr", "shr", "shr")):
    arith("core::ops::bit::%s::%s" % (tr, m), op)


@nat("core::ops::arith::Neg::neg")
def _(I, a, ta, ety, sp):
    x = I.deref_all(a[0])
    return t_neg(x) if isinstance(x, Term) else NotImplemented


@nat("core::ops::bit::Not::not")
def _(I, a, ta, ety, sp):
    x = I.deref_all(a[0])
    if not isinstance(x, Term):
        return NotImplemented
    t = ta[0]
    while t[0] == "ref":
        t = t[1]
    return t_not(x) if t == ("prim", "bool") else Term("bitnot", x)


def structural_eq(I, x, y, tx, ty):
    """PartialEq::eq on places/values of native aggregate types"""
    while isinstance(x, Ref) and isinstance(y, Ref) and tx[0] == "ref":
        tx, ty = tx[1], ty[1] if ty[0] == "ref" else ty
        x, y = I.deref(x), I.deref(y)
    return x, y, tx, ty


PEQ = "core::cmp::PartialEq"


def call_trait(I, tr, name, targs, args, ety, tn=None, sp=None):
    return I.call_fn(("fndef", tr + "::" + name, tuple(targs), tr, len(targs) if tn is None else tn, None), args, ety, sp)


def peq(I, ra, rb, ta, tb, sp=None):
    """<ta as PartialEq<tb>>::eq(ra, rb) with ra, rb references"""
    return call_trait(I, PEQ, "eq", (ta, tb), [ra, rb], ("prim", "bool"), sp=sp)


def arr_eq(I, ra, rb, ea, eb, sp):
    va, vb = I.deref(ra), I.deref(rb)
    n, m = I.length(va), I.length(vb)
    if isint(n) and isint(m):
        if n is not m:
            return FALSE

        def go(k):
            if k == ival(n):
                return TRUE
            c = peq(I, Ref(ra.root, ra.path + (("i", num(k)),)), Ref(rb.root, rb.path + (("i", num(k)),)), ea, eb, sp)
            return I.fork(c, lambda: go(k + 1), lambda: FALSE)
        return go(0)
    if n is m:
        from .loops import forall
        return forall(I, n, lambda k: peq(I, Ref(ra.root, ra.path + (("i", k),)), Ref(rb.root, rb.path + (("i", k),)), ea, eb, sp))
    raise Unknown("array equality of different symbolic lengths")


@nat("core::cmp::PartialEq::eq")
def _(I, a, ta, ety, sp):
    x, y = a
    tx, ty = ta[0], ta[1] if len(ta) > 1 else ta[0]
    stripped = False
    while tx[0] == "ref" and ty[0] == "ref":
        x, y, tx, ty = I.deref(x), I.deref(y), tx[1], ty[1]
        stripped = True
    if stripped:
        return peq(I, x, y, tx, ty, sp)
    if tx[0] == "adt" and tx[1] == "core::marker::PhantomData":
        return TRUE
    vx, vy = I.deref(x), I.deref(y)
    if isinstance(vx, Str) and isinstance(vy, Str):
        return boolt(vx.s == vy.s)
    if tx[0] in ("arr", "slice") and ty[0] in ("arr", "slice"):
        return arr_eq(I, x, y, tx[1], ty[1], sp)
    if tx[0] == "tup":
        n = len(tx[1])

        def go(k):
            if k == n:
                return TRUE
            c = peq(I, Ref(x.root, x.path + (("f", k),)), Ref(y.root, y.path + (("f", k),)), tx[1][k], ty[1][k], sp)
            return I.fork(c, lambda: go(k + 1), lambda: FALSE)
        return go(0)
    if isinstance(vx, Term) and isinstance(vy, Term) and scal(tx):
        return t_cmp("eq", vx, vy)
    if tx[0] == "adt" and tx[1] in (OPTION, RESULT) or tx[0] == "adt" and tx[1] == ORD:
        r = FALSE
        arity = {OPTION: (0, 1), RESULT: (1, 1), ORD: (0, 0, 0)}[tx[1]]
        for v, ar in enumerate(arity):
            cx, cy = I.variant_cond(vx, v), I.variant_cond(vy, v)
            both = t_and(cx, cy)
            if both is FALSE:
                continue
            if ar:
                et = tx[2][0 if tx[1] == OPTION else v]
                c = I.fork(both, lambda: peq(I, Ref(x.root, x.path + (("v", v, 0),)), Ref(y.root, y.path + (("v", v, 0),)), et, et, sp), lambda: FALSE)
            else:
                c = both
            r = t_or(r, c)
        return r
    return NotImplemented


@nat("core::clone::Clone::clone_from")
def _(I, a, ta, ety, sp):
    if not isinstance(a[0], Ref) or I.dropping(ta[0]):
        raise Unknown("clone_from")
    I.write(a[0].root, a[0].path, call_trait(I, "core::clone::Clone", "clone", (ta[0],), [a[1]], ta[0], sp=sp))
    return UNIT


@nat("core::ptr::eq", "core::ptr::addr_eq")
def _(I, a, ta, ety, sp):
    if isinstance(a[0], Ref) and isinstance(a[1], Ref):
        return I.same_place(a[0], a[1], ta[0] if ta[0][0] in ("param", "prim", "adt", "tup", "arr") else None)
    raise Unknown("comparison of addresses")


@nat("core::mem::size_of", "core::intrinsics::size_of")
def _(I, a, ta, ety, sp):
    return I.size_of(ta[0])


@nat("core::mem::needs_drop", "core::intrinsics::needs_drop")
def _(I, a, ta, ety, sp):
    return t_not(I.by_type(ta[0], "trivial", TRUE, TRUE))


@nat("core::cmp::PartialEq::ne")
def _(I, a, ta, ety, sp):
    tx, ty = ta[0], ta[1] if len(ta) > 1 else ta[0]
    return t_not(peq(I, a[0], a[1], tx, ty, sp))


for _m in ("lt", "le", "gt", "ge"):
    def mk(m):
        def f(I, a, ta, ety, sp):
            x, y = I.deref_all(a[0]), I.deref_all(a[1])
            if isinstance(x, Term) and isinstance(y, Term) and scal(ta[0]):
                return t_cmp(m, x, y)
            return NotImplemented
        T["core::cmp::PartialOrd::" + m] = f
    mk(_m)


def ordering(lt, eq):
    L, E, G = Adt(ORD, 0, ()), Adt(ORD, 1, ()), Adt(ORD, 2, ())
    return merge(lt, L, merge(eq, E, G))


@nat("core::cmp::PartialOrd::partial_cmp")
def _(I, a, ta, ety, sp):
    x, y = I.deref_all(a[0]), I.deref_all(a[1])
    if not (isinstance(x, Term) and isinstance(y, Term)):
        return NotImplemented
    lt, eq = t_cmp("lt", x, y), t_cmp("eq", x, y)
    t = ta[0]
    if t[0] == "prim" and t[1] in PRIM_INT:
        return some(ordering(lt, eq))
    gt = t_cmp("lt", y, x)
    return merge(lt, some(Adt(ORD, 0, ())), merge(eq, some(Adt(ORD, 1, ())), merge(gt, some(Adt(ORD, 2, ())), NONE)))


@nat("core::cmp::Ord::cmp")
def _(I, a, ta, ety, sp):
    x, y = I.deref_all(a[0]), I.deref_all(a[1])
    if not (isinstance(x, Term) and isinstance(y, Term)):
        return NotImplemented
    return ordering(t_cmp("lt", x, y), t_cmp("eq", x, y))


@nat("core::cmp::Ord::min", "core::cmp::min")
def _(I, a, ta, ety, sp):
    if isinstance(a[0], Term) and isinstance(a[1], Term):
        return t_ite(I.decide(t_cmp("lt", a[1], a[0])), a[1], a[0])
    return NotImplemented


@nat("core::cmp::Ord::max", "core::cmp::max")
def _(I, a, ta, ety, sp):
    if isinstance(a[0], Term) and isinstance(a[1], Term):
        return t_ite(I.decide(t_cmp("lt", a[1], a[0])), a[0], a[1])
    return NotImplemented


for _i, _n in enumerate(("is_lt", "is_eq", "is_gt")):
    def mk(i):
        return lambda I, a, ta, ety, sp: I.variant_cond(a[0], i)
    T["core::cmp::" + _n] = mk(_i)
    T["core::cmp::Ordering::" + _n] = mk(_i)
T["core::cmp::is_le"] = lambda I, a, ta, ety, sp: t_not(I.variant_cond(a[0], 2))
T["core::cmp::is_ge"] = lambda I, a, ta, ety, sp: t_not(I.variant_cond(a[0], 0))
T["core::cmp::is_ne"] = lambda I, a, ta, ety, sp: t_not(I.variant_cond(a[0], 1))


# ------------------------------------------------------------------ Clone / Default / convert
@nat("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "core::borrow::Borrow::to_owned")
def _(I, a, ta, ety, sp):
    t = ta[0]
    r = a[0]
    v = I.deref(r)
    if scal(t) and isinstance(v, Term):
        return v
    if t[0] in ("ref", "fndef", "closure") or isinstance(v, (Fn, Clo, Str)):
        return v
    if t[0] == "tup":
        return Adt("()", 0, [call_trait(I, "core::clone::Clone", "clone", (x,), [Ref(r.root, r.path + (("f", i),))], x) for i, x in enumerate(t[1])])
    if t[0] == "arr":
        n = I.length(v)
        if isint(n):
            return Arr([call_trait(I, "core::clone::Clone", "clone", (t[1],), [Ref(r.root, r.path + (("i", num(i)),))], t[1]) for i in range(ival(n))])
        from .loops import tabulate
        return tabulate(I, n, lambda k: call_trait(I, "core::clone::Clone", "clone", (t[1],), [Ref(r.root, r.path + (("i", k),))], t[1]))
    if isinstance(v, It) or (t[0] == "adt" and t[1] in (OPTION, RESULT, ORD)) or (isinstance(v, Adt) and v.d.startswith("core::ops::range")):
        return v
    if t[0] == "param" or t[:2] == ("adt", "core::marker::PhantomData"):
        return v
    return NotImplemented


@nat("core::default::Default::default")
def _(I, a, ta, ety, sp):
    t = ta[0]
    if t[:2] == ("adt", "core::marker::PhantomData"):
        return Adt("()", 0, ())
    if t[0] == "prim":
        return FALSE if t[1] == "bool" else ZERO
    if t[0] == "param":
        return Term("default", t[1])
    if t[0] == "tup":
        return Adt("()", 0, [call_trait(I, "core::default::Default", "default", (x,), [], x) for x in t[1]])
    if t[0] == "arr":
        n = I.cterm(t[2])
        if isint(n):
            return Arr([call_trait(I, "core::default::Default", "default", (t[1],), [], t[1]) for _ in range(ival(n))])
        return Lam(n, fresh_var(), call_trait(I, "core::default::Default", "default", (t[1],), [], t[1]))
    if t[0] == "adt" and t[1] == OPTION:
        return NONE
    return NotImplemented


@nat("core::convert::Into::into")
def _(I, a, ta, ety, sp):
    s, t = ta[0], ta[1]
    return call_trait(I, "core::convert::From", "from", (t, s), a, t, sp=sp)


@nat("core::convert::From::from")
def _(I, a, ta, ety, sp):
    t, s = ta[0], ta[1]
    if t == s:
        return a[0]
    if t[0] == "prim" and s[0] == "prim":
        return a[0]
    if t[0] == "adt" and t[1] == OPTION and t[2][0] == s:
        return some(a[0])
    if t[0] == "arr" and s[0] == "tup":
        return Arr(a[0].fs)
    if t[0] == "tup" and s[0] == "arr":
        return Adt("()", 0, a[0].es)
    return NotImplemented


@nat("core::convert::TryInto::try_into")
def _(I, a, ta, ety, sp):
    return call_trait(I, "core::convert::TryFrom", "try_from", (ta[1], ta[0]), a, ety, sp=sp)


@nat("core::convert::TryFrom::try_from")
def _(I, a, ta, ety, sp):
    t, s = ta[0], ta[1]
    if s[0] == "ref" and s[1][0] == "slice":
        # &[T] -> [T; N] or &[T; N]
        v = I.deref(a[0])
        if t[0] == "arr" or (t[0] == "ref" and t[1][0] == "arr"):
            n = I.cterm((t if t[0] == "arr" else t[1])[2])
            c = I.decide(t_cmp("eq", I.length(v), n))
            good = a[0] if t[0] == "ref" else v
            if c is FALSE:
                return err(Adt("TryFromSliceError", 0, ()))
            if isinstance(v, Lam) and t[0] == "arr":
                good = Lam(n, v.var, v.body)
            return merge(c, ok(good), err(Adt("TryFromSliceError", 0, ())))
    if t == s:
        return ok(a[0])
    if t[0] == "prim" and s[0] == "prim" and isint(a[0]):
        return ok(a[0])
    return NotImplemented


@nat("core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut", "core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut",
     "core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut")
def _(I, a, ta, ety, sp):
    t = ta[0]
    if t[0] in ("arr", "slice"):
        return a[0]
    if t[0] == "ref":
        if len(ta) > 1 and ta[1] == t[1]:
            return I.deref(a[0])
        return NotImplemented
    if len(ta) > 1 and ta[0] == ta[1]:
        return a[0]
    if t[0] == "adt" and t[1] in ("core::mem::manually_drop::ManuallyDrop",):
        return a[0]
    return NotImplemented


@nat("core::convert::identity", "core::hint::black_box")
def _(I, a, ta, ety, sp):
    return a[0]


# ------------------------------------------------------------------ numeric traits
def const_num(v):
    return lambda I, a, ta, ety, sp: num(v) if scal(ta[0]) else NotImplemented


T["num_traits::identities::Zero::zero"] = const_num(0)
T["num_traits::identities::One::one"] = const_num(1)
T["num_traits::identities::ConstZero::ZERO"] = const_num(0)


@nat("num_traits::identities::Zero::is_zero")
def _(I, a, ta, ety, sp):
    x = I.deref_all(a[0])
    return t_cmp("eq", x, ZERO) if isinstance(x, Term) and scal(ta[0]) else NotImplemented


@nat("num_traits::identities::One::is_one")
def _(I, a, ta, ety, sp):
    x = I.deref_all(a[0])
    return t_cmp("eq", x, ONE) if isinstance(x, Term) and scal(ta[0]) else NotImplemented


@nat("num_traits::identities::Zero::set_zero")
def _(I, a, ta, ety, sp):
    if scal(ta[0]):
        I.write(a[0].root, a[0].path, ZERO)
        return UNIT
    return NotImplemented


@nat("num_traits::identities::zero")
def _(I, a, ta, ety, sp):
    return call_trait(I, "num_traits::identities::Zero", "zero", (ta[0],), [], ta[0])


@nat("num_traits::identities::one")
def _(I, a, ta, ety, sp):
    return call_trait(I, "num_traits::identities::One", "one", (ta[0],), [], ta[0])


@nat("num_traits::ops::inv::Inv::inv")
def _(I, a, ta, ety, sp):
    x = I.deref_all(a[0])
    return Term("div", ONE, x) if isinstance(x, Term) and scal(ta[0]) else NotImplemented


@nat("num_traits::cast::NumCast::from")
def _(I, a, ta, ety, sp):
    x = a[0]
    if isinstance(x, Term) and scal(ta[0]):
        if x.op == "num":
            return some(x)
        return some(x if ta[0] == ta[1] else Term("cast", str(ta[0]), x))
    return NotImplemented


for _m in ("to_f64", "to_f32", "to_usize", "to_i32", "to_i64", "to_u32", "to_u64"):
    def mk(m):
        def f(I, a, ta, ety, sp):
            x = I.deref_all(a[0])
            if isinstance(x, Term):
                return some(x if x.op == "num" else Term("cast", m, x))
            return NotImplemented
        return f
    T["num_traits::cast::ToPrimitive::" + _m] = mk(_m)


@nat("num_traits::cast::cast")
def _(I, a, ta, ety, sp):
    x = a[0]
    return some(x) if isinstance(x, Term) and x.op == "num" else NotImplemented


FLOAT1 = ("sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp exp2 exp_m1 ln log2 log10 ln_1p sqrt cbrt abs signum "
          "floor ceil round trunc fract is_nan is_finite is_infinite is_normal is_sign_positive is_sign_negative to_degrees to_radians "
          "recip is_positive is_negative").split()
FLOAT2 = "atan2 hypot powf log max min abs_sub copysign div_euclid rem_euclid".split()


def float_op(name, a):
    x = a[0]
    if name == "recip":
        return Term("div", ONE, x)
    if name == "fract":
        return t_arith("sub", x, Term("trunc", x))
    if name == "abs" and x.op == "num":
        return num(abs(x.args[0]))
    if name == "sqrt" and x.op == "num" and x.args[0] in (0, 1):
        return x
    if name == "cos" and x is ZERO or name == "exp" and x is ZERO:
        return ONE
    if name in ("sin", "tan") and x is ZERO:
        return ZERO
    if name == "is_sign_negative":
        return t_cmp("lt", x, ZERO)
    if name == "is_sign_positive":
        return t_not(t_cmp("lt", x, ZERO))
    if name == "is_positive":
        return t_cmp("lt", ZERO, x)
    if name == "is_negative":
        return t_cmp("lt", x, ZERO)
    return Term(name, *a)


def mkfloat(m, n):
    def f(I, a, ta, ety, sp):
        if ta and not scal(ta[0]):
            return NotImplemented
        xs = [I.deref_all(x) for x in a]
        if not all(isinstance(x, Term) for x in xs):
            return NotImplemented
        return float_op(m, xs)
    return f


for _m in FLOAT1 + FLOAT2 + ["mul_add", "powi", "clamp"]:
    for _p in ("num_traits::float::Float::", "num_traits::float::FloatCore::", "core::f32::", "core::f64::", "std::f32::", "std::f64::",
               "num_traits::real::Real::", "num_traits::sign::Signed::", "core::num::", "libm::"):
        T[_p + _m] = mkfloat(_m, 0)
T["num_traits::sign::abs"] = mkfloat("abs", 0)


@nat("num_traits::float::Float::sin_cos", "std::f64::sin_cos", "std::f32::sin_cos")
def _(I, a, ta, ety, sp):
    if ta and not scal(ta[0]):
        return NotImplemented
    return tup(float_op("sin", a), float_op("cos", a))


FLOATC = {"epsilon": "EPSILON", "infinity": "INFINITY", "neg_infinity": "NEG_INFINITY", "nan": "NAN", "min_value": "MIN", "max_value": "MAX",
          "min_positive_value": "MIN_POSITIVE"}


def named(n):
    def f(I, a, ta, ety, sp):
        if not scal(ta[0]):
            return NotImplemented
        if ta[0][0] == "prim" and ta[0][1] in FLOATS and n in FLOATC:
            return const(I, "core::%s::%s" % (ta[0][1], FLOATC[n]), ta[0])
        if ta[0][0] == "prim" and ta[0][1] in PRIM_INT and n in ("min_value", "max_value"):
            return const(I, "core::num::" + FLOATC[n], ta[0])
        return Term("const", n)
    return f


for _m in "epsilon infinity neg_infinity nan min_value max_value min_positive_value neg_zero".split():
    for _p in ("num_traits::float::Float::", "num_traits::float::FloatCore::", "num_traits::bounds::Bounded::"):
        T[_p + _m] = named(_m)
for _m in ("PI TAU E LN_2 LN_10 LOG2_E LOG10_E SQRT_2 FRAC_1_PI FRAC_1_SQRT_2 FRAC_2_PI FRAC_2_SQRT_PI FRAC_PI_2 FRAC_PI_3 FRAC_PI_4 FRAC_PI_6 FRAC_PI_8").split():
    def mk(m):
        def f(I, a, ta, ety, sp):
            return pi_const(m) if scal(ta[0]) else NotImplemented
        return f
    T["num_traits::float::FloatConst::" + _m] = mk(_m)


def pi_const(m):
    PI = Term("const", "PI")
    if m == "TAU":
        return t_arith("mul", num(2), PI)
    if m.startswith("FRAC_PI_"):
        return Term("div", PI, num(int(m[8:])))
    return Term("const", m)


def const(I, name, ty):
    if name.startswith("core::f32::") or name.startswith("core::f64::"):
        n = last(name)
        if n == "EPSILON":
            return Term("const", "EPSILON:" + ty[1])
        if name.split("::")[2] == "consts":
            return pi_const(n)
        return Term("const", n)
    if name.startswith("core::num::") and name.split("::")[-1] in ("MAX", "MIN") and ty[0] == "prim" and ty[1] in PRIM_INT:
        bits = 64 if ty[1][1:] == "size" else int(ty[1][1:])
        if ty[1][0] == "u":
            return num((1 << bits) - 1 if name.endswith("MAX") else 0)
        return num((1 << (bits - 1)) - 1 if name.endswith("MAX") else -(1 << (bits - 1)))
    return None


@nat("num_traits::pow::pow")
def _(I, a, ta, ety, sp):
    if scal(ta[0]):
        return Term("powi", a[0], a[1])
    return NotImplemented


# checked/wrapping integer helpers
for _m, _o in (("wrapping_add", "add"), ("wrapping_sub", "sub"), ("wrapping_mul", "mul")):
    def mk(o):
        return lambda I, a, ta, ety, sp: wrapped(t_arith(o, a[0], a[1]), ety)
    T["core::num::" + _m] = mk(_o)


def int_range(t):
    if t[0] == "prim" and t[1][:1] in "iu" and (t[1][1:].isdigit() or t[1][1:] == "size"):
        bits = 64 if t[1][1:] == "size" else int(t[1][1:])
        return (0, (1 << bits) - 1) if t[1][0] == "u" else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    return None


def wrapped(x, t):
    r = int_range(t)
    if r and isint(x):
        return num((ival(x) - r[0]) % (r[1] - r[0] + 1) + r[0])
    return x


@nat("core::num::wrapping_neg")
def _(I, a, ta, ety, sp):
    return wrapped(t_neg(a[0]), ety)


@nat("core::num::saturating_sub")
def _(I, a, ta, ety, sp):
    if isint(a[0]) and isint(a[1]):
        return num(max((int_range(ety) or (0, 0))[0], ival(a[0]) - ival(a[1])))
    return Term("satsub", *a)


@nat("core::num::pow")
def _(I, a, ta, ety, sp):
    if isint(a[0]) and isint(a[1]):
        x = ival(a[0]) ** ival(a[1])
        lo, hi = int_range(ety) or (x, x)
        if not lo <= x <= hi:
            raise Unknown("overflowing power")
        return num(x)
    return Term("powi", *a)


@nat("core::num::is_power_of_two")
def _(I, a, ta, ety, sp):
    return boolt(ival(a[0]) & (ival(a[0]) - 1) == 0 and ival(a[0]) > 0) if isint(a[0]) else Term("ispow2", a[0])


def checked(o):
    def f(I, a, ta, ety, sp):
        if isint(a[0]) and isint(a[1]):
            r = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y}[o](ival(a[0]), ival(a[1]))
            t = ety[2][0] if ety[0] == "adt" and ety[2] else ("prim", "usize")
            lo, hi = int_range(t) or (0, (1 << 64) - 1)
            return NONE if not lo <= r <= hi else some(num(r))
        return NotImplemented
    return f


for _o in ("add", "sub", "mul"):
    T["core::num::checked_" + _o] = checked(_o)


def trait_fallback(I, tr, name, args, targs, ety, sp):
    """uninterpreted function of a trait on a scalar type parameter"""
    s = targs[0]
    while s[0] == "ref":
        s = s[1]
    if s[0] in ("param", "proj") or (s[0] == "prim"):
        ts = []
        muts = []
        for a in args:
            if isinstance(a, Ref):
                v = I.deref(a)
                if isinstance(v, Opq):
                    muts.append(a)
                    ts.append(v.ver)
                    continue
            ts.append(I.to_term(I.deref_all(a)))
        if muts:
            return I.opaque_event(muts[0], tr + "::" + name, [a for a in args if a is not muts[0]], ety)
        r = Term("fn:" + norm_name(tr).split("::")[-1] + "::" + name, *ts)
        return I.symval(ety, r)
    if s[0] == "other" or (s[0] == "adt" and s[1] not in I.P.adts):
        muts = [a for a in args if isinstance(a, Ref) and isinstance(I.deref(a), Opq)]
        if len(muts) == 1:
            return I.opaque_event(muts[0], tr + "::" + name, [a for a in args if a is not muts[0]], ety)
    return NotImplemented


# ------------------------------------------------------------------ callables
@nat("core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call", "core::ops::function::FnOnce::call_once")
def _(I, a, ta, ety, sp):
    args = list(a[1].fs)
    return I.call_value(a[0], args, ety, sp)


def call(I, f, args, ety=None):
    return I.call_value(f, args, ety)


# ------------------------------------------------------------------ mem / ptr / MaybeUninit
MU = "core::mem::maybe_uninit::"


@nat("core::mem::swap")
def _(I, a, ta, ety, sp):
    x, y = I.deref(a[0]), I.deref(a[1])
    I.write(a[0].root, a[0].path, y)
    I.write(a[1].root, a[1].path, x)
    return UNIT


@nat("core::mem::replace", "core::ptr::replace")
def _(I, a, ta, ety, sp):
    x = I.deref(a[0])
    I.write(a[0].root, a[0].path, a[1])
    return x


@nat("core::mem::take")
def _(I, a, ta, ety, sp):
    x = I.deref(a[0])
    d = call_trait(I, "core::default::Default", "default", (ta[0],), [], ta[0])
    I.write(a[0].root, a[0].path, d)
    return x


@nat("core::mem::forget")
def _(I, a, ta, ety, sp):
    if I.own:
        own.post(I, -1, a[0], ta[0], "forgotten value", sp)
    return UNIT


@nat("core::mem::drop")
def _(I, a, ta, ety, sp):
    if I.track(ta[0]):
        own.discard(I, a[0], ta[0], "contents of dropped storage", sp)
    return UNIT


def dup(I, v, t, what, sp):
    """v got one more owner"""
    if I.own and I.own.linear(t):
        own.post(I, 1, v, t, what, sp)
    return v


def uninit_val(I, t):
    """an uninitialised value of type t, keeping the shape of arrays"""
    k = t[0]
    if k == "arr":
        n = I.cterm(t[2])
        if isint(n):
            return Arr([uninit_val(I, t[1])] * ival(n))
        return Lam(n, fresh_var(), uninit_val(I, t[1]))
    if k == "tup":
        return Adt("()", 0, [uninit_val(I, x) for x in t[1]])
    if k == "adt":
        a = I.P.adts.get(t[1])
        if a and a.get("drop"):
            return UNINIT
        e = I.P.erased(t[1])
        if e is not None:
            return uninit_val(I, I.P.field_ty(t[1], t[2], 0, e) if t[1] in I.P.adts else t[2][0])
        if a and a["kind"] == "Struct":
            return Adt(t[1], 0, [uninit_val(I, I.P.field_ty(t[1], t[2], 0, i)) for i in range(len(a["variants"][0]["fields"]))], t[2])
    return UNINIT


def uninit_cond(v):
    """condition under which v contains an uninitialised part (Term)"""
    if isinstance(v, Uninit):
        return TRUE
    if isinstance(v, (Adt, It)):
        r = FALSE
        for x in v.fs:
            r = t_or(r, uninit_cond(x))
        return r
    if isinstance(v, Arr):
        r = FALSE
        for x in v.es:
            r = t_or(r, uninit_cond(x))
        return r
    if isinstance(v, VIte):
        return t_ite(v.c, uninit_cond(v.a), uninit_cond(v.b))
    if isinstance(v, Lam):
        c = uninit_cond(v.body)
        if c is TRUE or c is FALSE:
            return c
        return Term("exists", v.n, v.var, c)
    return FALSE


def clean(I, v):
    """drop alternatives that the guard excludes"""
    if isinstance(v, VIte):
        c = I.decide(v.c)
        if c is TRUE:
            return clean(I, v.a)
        if c is FALSE:
            return clean(I, v.b)
        return merge(c, clean(I, v.a), clean(I, v.b))
    if isinstance(v, Arr):
        return Arr([clean(I, x) for x in v.es])
    if isinstance(v, Adt):
        return Adt(v.d, v.v, [clean(I, x) for x in v.fs], v.ta)
    if isinstance(v, Lam):
        n0 = I.st.guard
        I.st.guard = n0 + (t_cmp("le", ZERO, v.var), t_cmp("lt", v.var, v.n))
        b = clean(I, v.body)
        I.st.guard = n0
        return Lam(v.n, v.var, b)
    return v


def assume_init(I, v, sp):
    v = clean(I, v)
    c = I.decide(uninit_cond(v))
    if c is FALSE:
        I.fact("init", True, "assume_init on a fully written value", sp)
    else:
        from .nf import show_term
        I.fact("init", t_not(c), "assume_init on a value that may be uninitialised (when %s)" % (show_term(c),), sp)
        raise open_cond("assume_init of uninitialised data", c)
    return v


T[MU + "uninit"] = lambda I, a, ta, ety, sp: uninit_val(I, ta[0])
T[MU + "MaybeUninit::uninit"] = T[MU + "uninit"]
T[MU + "new"] = lambda I, a, ta, ety, sp: a[0]
T["core::mem::manually_drop::new"] = lambda I, a, ta, ety, sp: a[0]
T["core::mem::manually_drop::into_inner"] = lambda I, a, ta, ety, sp: a[0]
T["core::mem::manually_drop::take"] = lambda I, a, ta, ety, sp: dup(I, I.deref(a[0]), ta[0], "value taken out of ManuallyDrop", sp)
T["core::mem::manually_drop::drop"] = lambda I, a, ta, ety, sp: (dup(I, I.deref(a[0]), ta[0], "value dropped in ManuallyDrop", sp), UNIT)[1]
T[MU + "assume_init"] = lambda I, a, ta, ety, sp: assume_init(I, a[0], sp)
T[MU + "array_assume_init"] = T[MU + "assume_init"]
T[MU + "transpose"] = lambda I, a, ta, ety, sp: a[0]
T[MU + "assume_init_read"] = lambda I, a, ta, ety, sp: dup(I, assume_init(I, I.deref(a[0]), sp), ta[0], "bitwise copy out of MaybeUninit", sp)
T[MU + "assume_init_drop"] = lambda I, a, ta, ety, sp: (dup(I, assume_init(I, I.deref(a[0]), sp), ta[0], "value dropped in MaybeUninit", sp), UNIT)[1]


@nat("core::ptr::drop_in_place", "core::ptr::mut_ptr::drop_in_place")
def _(I, a, ta, ety, sp):
    v = clean(I, I.deref(a[0]))
    if I.dropping(ta[0]):
        if not isinstance(a[0], Ref):
            raise Unknown("drop in place of a gated place")
        own.drop_place(I, a[0].root, a[0].path, ta[0])
    if not has_mu(I, ta[0]):
        dup(I, assume_init(I, v, sp), ta[0], "value dropped in place", sp)
    return UNIT
T[MU + "as_ptr"] = T[MU + "as_mut_ptr"] = lambda I, a, ta, ety, sp: a[0]


@nat(MU + "assume_init_ref", MU + "assume_init_mut")
def _(I, a, ta, ety, sp):
    assume_init(I, I.deref(a[0]), sp)
    return a[0]


@nat(MU + "write")
def _(I, a, ta, ety, sp):
    if I.own and I.own.linear(ta[0]):
        own.post(I, -1, I.deref(a[0]), ta[0], "contents of storage that is overwritten", sp)
    I.write(a[0].root, a[0].path, a[1])
    return a[0]


@nat(MU + "uninit_array")
def _(I, a, ta, ety, sp):
    return uninit_val(I, ("arr", ta[0], ta[1]))


@nat("core::mem::zeroed", MU + "zeroed")
def _(I, a, ta, ety, sp):
    raise Unknown("zeroed")


@nat("core::ptr::read", "core::ptr::const_ptr::read", "core::ptr::mut_ptr::read", "core::ptr::read_unaligned")
def _(I, a, ta, ety, sp):
    v = I.deref(a[0])
    t = ta[0]
    if t[0] != "adt" or not has_mu(I, t):
        c = I.decide(uninit_cond(clean(I, v)))
        if c is not FALSE:
            I.fact("init", t_not(c), "read of a possibly uninitialised value", sp)
            raise open_cond("uninitialised read", c)
    I.fact("read", True, "pointer read of a live value", sp)
    return dup(I, v, t, "bitwise copy by ptr::read", sp)


def has_mu(I, t):
    if t[0] == "adt":
        if t[1].endswith("MaybeUninit"):
            return True
        return any(has_mu(I, x) for x in t[2])
    if t[0] in ("arr", "slice"):
        return has_mu(I, t[1])
    if t[0] == "tup":
        return any(has_mu(I, x) for x in t[1])
    return False


@nat("core::ptr::write", "core::ptr::mut_ptr::write")
def _(I, a, ta, ety, sp):
    if I.own and I.own.linear(ta[0]):
        own.post(I, -1, I.deref(a[0]), ta[0], "value overwritten by ptr::write", sp)
    I.write(a[0].root, a[0].path, a[1])
    return UNIT


@nat("core::ptr::const_ptr::as_ref", "core::ptr::mut_ptr::as_ref", "core::ptr::mut_ptr::as_mut")
def _(I, a, ta, ety, sp):
    return some(a[0])


@nat("core::ptr::const_ptr::cast", "core::ptr::mut_ptr::cast", "core::ptr::const_ptr::cast_mut", "core::ptr::mut_ptr::cast_const")
def _(I, a, ta, ety, sp):
    if len(ta) > 1:
        return I.ptr_cast(a[0], ta[0], ta[1], sp)
    return a[0]


def ptr_add(sign):
    def f(I, a, ta, ety, sp):
        p = a[0]
        if isinstance(p, Ref) and p.path and p.path[-1][0] == "i":
            k = t_arith("add" if sign > 0 else "sub", p.path[-1][1], a[1])
            base = I.read(p.root, p.path[:-1])
            n = I.length(base)
            c = I.decide(t_and(t_cmp("le", ZERO, k), t_cmp("le", k, n)))
            I.fact("bounds", c, "pointer offset %r within the array of length %r" % (k, n), sp)
            if c is not TRUE:
                raise open_cond("pointer offset", c)
            return Ref(p.root, p.path[:-1] + (("i", k),), True)
        raise Unknown("pointer offset of a non-element pointer")
    return f


for _p in ("const_ptr", "mut_ptr"):
    T["core::ptr::%s::add" % _p] = ptr_add(1)
    T["core::ptr::%s::sub" % _p] = ptr_add(-1)
    T["core::ptr::%s::offset" % _p] = ptr_add(1)


@nat("core::slice::raw::from_raw_parts", "core::slice::raw::from_raw_parts_mut", "core::ptr::slice_from_raw_parts", "core::ptr::slice_from_raw_parts_mut")
def _(I, a, ta, ety, sp):
    p, m = a
    if not isinstance(p, Ref):
        raise Unknown("slice from a gated pointer")
    # elements from the pointer to the end of the array, or of the arrays around it
    path, at, unit, inner = p.path, ZERO, ONE, None
    total = ONE
    while path and path[-1][0] == "i":
        n = I.length(I.read(p.root, path[:-1]))
        at = t_arith("add", at, t_arith("mul", path[-1][1], unit))
        unit = total = t_arith("mul", unit, n)
        inner = inner or (path[-1][1], n)
        path = path[:-1]
    c = I.decide(t_cmp("le", t_arith("add", at, m), total))
    I.fact("bounds", c, "slice of length %r from element %r of %r" % (m, at, total), sp)
    if c is not TRUE:
        raise open_cond("slice length not proved in range", c)
    if inner is None or I.decide(t_cmp("le", t_arith("add", inner[0], m), inner[1])) is not TRUE:
        raise Unknown("slice across rows")
    return Ref(p.root, p.path[:-1] + (("s", inner[0], m),))


@nat("core::intrinsics::transmute", "core::mem::transmute")
def _(I, a, ta, ety, sp):
    s, t = ta[0], ta[1]
    if I.layout(s) == I.layout(t):
        I.fact("layout", True, "transmute between %s and %s" % (I.tname(s), I.tname(t)), sp)
        return a[0]
    if s[0] in ("ref", "ptr") and t[0] in ("ref", "ptr") and I.layout(s[1]) == I.layout(t[1]):
        I.fact("layout", True, "transmute between %s and %s" % (I.tname(s), I.tname(t)), sp)
        return a[0]
    I.fact("layout", False, "transmute from %s to %s: layouts are not guaranteed to agree" % (I.tname(s), I.tname(t)), sp)
    raise Unknown("transmute")


@nat("core::mem::transmute_copy")
def _(I, a, ta, ety, sp):
    s, t = ta[0], ta[1]
    okl = I.layout(s) == I.layout(t)
    I.fact("layout", okl, "transmute_copy from %s to %s" % (I.tname(s), I.tname(t)), sp)
    if not okl:
        raise Unknown("transmute_copy")
    return dup(I, I.deref(a[0]), s, "bitwise copy by transmute_copy", sp)


# ------------------------------------------------------------------ slices and arrays
def sub(r, i):
    return Ref(r.root, r.path + (("i", i),), r.raw)


@nat("core::slice::len", "core::array::len")
def _(I, a, ta, ety, sp):
    return I.length(I.deref(a[0]))


@nat("core::slice::is_empty")
def _(I, a, ta, ety, sp):
    return t_cmp("eq", I.length(I.deref(a[0])), ZERO)


@nat("core::slice::as_ptr", "core::slice::as_mut_ptr", "core::array::as_ptr", "core::array::as_mut_ptr")
def _(I, a, ta, ety, sp):
    return Ref(a[0].root, a[0].path + (("i", ZERO),), True)


@nat("core::array::as_slice", "core::array::as_mut_slice", "core::slice::as_slice")
def _(I, a, ta, ety, sp):
    return a[0]


def range_bounds(I, r, n):
    d = last(r.d) if isinstance(r, Adt) else None
    if d == "Range":
        return r.fs[0], r.fs[1]
    if d == "RangeTo":
        return ZERO, r.fs[0]
    if d == "RangeFrom":
        return r.fs[0], n
    if d == "RangeFull":
        return ZERO, n
    if d == "RangeInclusive":
        return r.fs[0], t_arith("add", r.fs[1], ONE)
    if d == "RangeToInclusive":
        return ZERO, t_arith("add", r.fs[0], ONE)
    return None


def get_unchecked(I, a, ta, ety, sp):
    r, idx = a
    n = I.length(I.deref(r))
    if isinstance(idx, Term):
        c = I.decide(t_cmp("lt", idx, n))
        I.fact("bounds", c, "get_unchecked(%r) on a slice of length %r" % (idx, n), sp)
        if c is not TRUE:
            raise open_cond("unchecked index not proved in range", c)
        return sub(r, idx)
    b = range_bounds(I, idx, n)
    if b is None:
        raise Unknown("get_unchecked index")
    c = I.decide(t_and(t_cmp("le", b[0], b[1]), t_cmp("le", b[1], n)))
    I.fact("bounds", c, "get_unchecked(%r..%r) on a slice of length %r" % (b[0], b[1], n), sp)
    if c is not TRUE:
        raise open_cond("unchecked range not proved in range", c)
    return Ref(r.root, r.path + (("s", b[0], t_arith("sub", b[1], b[0])),))


T["core::slice::get_unchecked"] = T["core::slice::get_unchecked_mut"] = get_unchecked


@nat("core::slice::get", "core::slice::get_mut")
def _(I, a, ta, ety, sp):
    r, idx = a
    n = I.length(I.deref(r))
    if isinstance(idx, Term):
        return I.fork(t_cmp("lt", idx, n), lambda: some(sub(r, idx)), lambda: NONE)
    b = range_bounds(I, idx, n)
    if b is None:
        raise Unknown("get index")
    c = t_and(t_cmp("le", b[0], b[1]), t_cmp("le", b[1], n))
    return I.fork(c, lambda: some(Ref(r.root, r.path + (("s", b[0], t_arith("sub", b[1], b[0])),))), lambda: NONE)


@nat("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def _(I, a, ta, ety, sp):
    if ta[0][0] not in ("arr", "slice"):
        return NotImplemented
    r, idx = a
    n = I.length(I.deref(r))
    if isinstance(idx, Term):
        I.check(t_cmp("lt", idx, n), "index out of bounds", sp)
        return sub(r, idx)
    b = range_bounds(I, idx, n)
    if b is None:
        return NotImplemented
    I.check(t_and(t_cmp("le", b[0], b[1]), t_cmp("le", b[1], n)), "range out of bounds", sp)
    return Ref(r.root, r.path + (("s", b[0], t_arith("sub", b[1], b[0])),))


@nat("core::slice::first", "core::slice::first_mut")
def _(I, a, ta, ety, sp):
    n = I.length(I.deref(a[0]))
    return I.fork(t_cmp("lt", ZERO, n), lambda: some(sub(a[0], ZERO)), lambda: NONE)


@nat("core::slice::last", "core::slice::last_mut")
def _(I, a, ta, ety, sp):
    n = I.length(I.deref(a[0]))
    return I.fork(t_cmp("lt", ZERO, n), lambda: some(sub(a[0], t_arith("sub", n, ONE))), lambda: NONE)


@nat("core::slice::split_at", "core::slice::split_at_mut")
def _(I, a, ta, ety, sp):
    r, m = a
    n = I.length(I.deref(r))
    I.check(t_cmp("le", m, n), "mid > len", sp)
    return tup(Ref(r.root, r.path + (("s", ZERO, m),)), Ref(r.root, r.path + (("s", m, t_arith("sub", n, m)),)))


@nat("core::slice::split_first", "core::slice::split_first_mut")
def _(I, a, ta, ety, sp):
    r = a[0]
    n = I.length(I.deref(r))
    return I.fork(t_cmp("lt", ZERO, n), lambda: some(tup(sub(r, ZERO), Ref(r.root, r.path + (("s", ONE, t_arith("sub", n, ONE)),)))), lambda: NONE)


@nat("core::slice::split_last", "core::slice::split_last_mut")
def _(I, a, ta, ety, sp):
    r = a[0]
    n = I.length(I.deref(r))
    m = t_arith("sub", n, ONE)
    return I.fork(t_cmp("lt", ZERO, n), lambda: some(tup(sub(r, m), Ref(r.root, r.path + (("s", ZERO, m),)))), lambda: NONE)


@nat("core::slice::swap")
def _(I, a, ta, ety, sp):
    r, i, j = a
    n = I.length(I.deref(r))
    I.check(t_cmp("lt", i, n), "index out of bounds", sp)
    I.check(t_cmp("lt", j, n), "index out of bounds", sp)
    x, y = I.deref(sub(r, i)), I.deref(sub(r, j))
    I.write(r.root, r.path + (("i", i),), y)
    I.write(r.root, r.path + (("i", j),), x)
    return UNIT


@nat("core::slice::reverse")
def _(I, a, ta, ety, sp):
    v = I.deref(a[0])
    if not isinstance(v, Arr):
        raise Unknown("reverse")
    I.write(a[0].root, a[0].path, Arr(v.es[::-1]))
    return UNIT


@nat("core::slice::fill")
def _(I, a, ta, ety, sp):
    v = I.deref(a[0])
    if isinstance(v, Arr):
        I.write(a[0].root, a[0].path, Arr([a[1]] * len(v.es)))
    else:
        I.write(a[0].root, a[0].path, Lam(v.n, fresh_var(), a[1]))
    return UNIT


@nat("core::slice::copy_from_slice", "core::slice::clone_from_slice")
def _(I, a, ta, ety, sp):
    x, y = I.deref(a[0]), I.deref(a[1])
    I.check(t_cmp("eq", I.length(x), I.length(y)), "slice lengths differ", sp)
    I.write(a[0].root, a[0].path, y)
    return UNIT


@nat("core::slice::contains")
def _(I, a, ta, ety, sp):
    n = I.length(I.deref(a[0]))
    if not isint(n):
        raise Unknown("contains")
    r = FALSE
    for k in range(ival(n)):
        r = t_or(r, peq(I, sub(a[0], num(k)), a[1], ta[0], ta[0], sp))
    return r


@nat("core::array::map")
def _(I, a, ta, ety, sp):
    v, f = a
    fp = I.temp(f)
    n = I.length(v)
    ret = ety[1] if ety and ety[0] == "arr" else None
    if isint(n):
        return Arr([call(I, fp, [I.index_val(v, num(k))], ret) for k in range(ival(n))])
    from .loops import tabulate
    return tabulate(I, n, lambda k: call(I, fp, [I.index_val(v, k)], ret))


@nat("core::array::from_fn")
def _(I, a, ta, ety, sp):
    fp = I.temp(a[0])
    n = I.cterm(ety[2])
    if isint(n):
        return Arr([call(I, fp, [num(k)], ety[1]) for k in range(ival(n))])
    from .loops import tabulate
    return tabulate(I, n, lambda k: call(I, fp, [k], ety[1]))


@nat("core::array::each_ref", "core::array::each_mut")
def _(I, a, ta, ety, sp):
    n = I.length(I.deref(a[0]))
    if isint(n):
        return Arr([sub(a[0], num(k)) for k in range(ival(n))])
    v = fresh_var()
    return Lam(n, v, sub(a[0], v))


# ------------------------------------------------------------------ Option / Result
def vmatch(I, v, cases):
    """dispatch on the variant of an enum value: cases[variant](payload values)"""
    v = I.resolve(v)
    if isinstance(v, Adt):
        return cases[v.v](*v.fs)
    if isinstance(v, VIte):
        return I.fork(v.c, lambda: vmatch(I, v.a, cases), lambda: vmatch(I, v.b, cases))
    if isinstance(v, Bot):
        raise Abrupt()
    raise unk("match on ", v)


def omatch(I, v, fsome, fnone):
    return vmatch(I, v, {0: fnone, 1: fsome})


def rmatch(I, v, fok, ferr):
    return vmatch(I, v, {0: fok, 1: ferr})


O = "core::option::"
R = "core::result::"


@nat(O + "unwrap", O + "expect", O + "unwrap_unchecked")
def _(I, a, ta, ety, sp):
    return omatch(I, a[0], lambda x: x, lambda: I.panic("unwrap on None", sp))


@nat(R + "unwrap", R + "expect")
def _(I, a, ta, ety, sp):
    return rmatch(I, a[0], lambda x: x, lambda e: I.panic("unwrap on Err", sp))


@nat(O + "map")
def _(I, a, ta, ety, sp):
    return omatch(I, a[0], lambda x: some(call(I, a[1], [x], ety[2][0] if ety else None)), lambda: NONE)


T[O + "and_then"] = lambda I, a, ta, ety, sp: omatch(I, a[0], lambda x: call(I, a[1], [x], ety), lambda: NONE)
T[O + "or_else"] = lambda I, a, ta, ety, sp: omatch(I, a[0], lambda x: some(x), lambda: call(I, a[1], [], ety))
T[O + "or"] = lambda I, a, ta, ety, sp: omatch(I, a[0], lambda x: some(x), lambda: a[1])
T[O + "and"] = lambda I, a, ta, ety, sp: omatch(I, a[0], lambda x: a[1], lambda: NONE)
T[O + "xor"] = lambda I, a, ta, ety, sp: omatch(I, a[0], lambda x: omatch(I, a[1], lambda y: NONE, lambda: some(x)), lambda: a[1])
T[O + "unwrap_or"] = lambda I, a, ta, ety, sp: omatch(I, a[0], lambda x: x, lambda: a[1])
T[O + "unwrap_or_else"] = lambda I, a, ta, ety, sp: omatch(I, a[0], lambda x: x, lambda: call(I, a[1], [], ety))
T[O + "unwrap_or_default"] = lambda I, a, ta, ety, sp: omatch(I, a[0], lambda x: x, lambda: call_trait(I, "core::default::Default", "default", (ta[0],), [], ta[0]))
T[O + "map_or"] = lambda I, a, ta, ety, sp: omatch(I, a[0], lambda x: call(I, a[2], [x], ety), lambda: a[1])
T[O + "map_or_else"] = lambda I, a, ta, ety, sp: omatch(I, a[0], lambda x: call(I, a[2], [x], ety), lambda: call(I, a[1], [], ety))
T[O + "is_some"] = lambda I, a, ta, ety, sp: I.variant_cond(I.deref(a[0]), 1)
T[O + "is_none"] = lambda I, a, ta, ety, sp: I.variant_cond(I.deref(a[0]), 0)
T[O + "is_some_and"] = lambda I, a, ta, ety, sp: omatch(I, a[0], lambda x: call(I, a[1], [x], ety), lambda: FALSE)
T[O + "ok_or"] = lambda I, a, ta, ety, sp: omatch(I, a[0], lambda x: ok(x), lambda: err(a[1]))
T[O + "ok_or_else"] = lambda I, a, ta, ety, sp: omatch(I, a[0], lambda x: ok(x), lambda: err(call(I, a[1], [])))
T[O + "zip"] = lambda I, a, ta, ety, sp: omatch(I, a[0], lambda x: omatch(I, a[1], lambda y: some(tup(x, y)), lambda: NONE), lambda: NONE)
T[O + "cloned"] = T[O + "copied"] = lambda I, a, ta, ety, sp: omatch(I, a[0], lambda x: some(I.deref(x)), lambda: NONE)
T[O + "flatten"] = lambda I, a, ta, ety, sp: omatch(I, a[0], lambda x: x, lambda: NONE)
T[O + "filter"] = lambda I, a, ta, ety, sp: omatch(I, a[0], lambda x: I.fork(call(I, a[1], [I.temp(x)], ("prim", "bool")), lambda: some(x), lambda: NONE), lambda: NONE)


@nat(O + "as_ref", O + "as_mut", O + "as_deref", O + "as_deref_mut")
def _(I, a, ta, ety, sp):
    r = a[0]
    return omatch(I, I.deref(r), lambda x: some(Ref(r.root, r.path + (("v", 1, 0),))), lambda: NONE)


@nat(O + "take")
def _(I, a, ta, ety, sp):
    v = I.deref(a[0])
    I.write(a[0].root, a[0].path, NONE)
    return v


@nat(O + "replace")
def _(I, a, ta, ety, sp):
    v = I.deref(a[0])
    I.write(a[0].root, a[0].path, some(a[1]))
    return v


@nat(O + "insert")
def _(I, a, ta, ety, sp):
    I.write(a[0].root, a[0].path, some(a[1]))
    return Ref(a[0].root, a[0].path + (("v", 1, 0),))


@nat(O + "get_or_insert_with")
def _(I, a, ta, ety, sp):
    r = a[0]

    def ins():
        I.write(r.root, r.path, some(call(I, a[1], [])))
    omatch(I, I.deref(r), lambda x: None, ins)
    return Ref(r.root, r.path + (("v", 1, 0),))


T[R + "map"] = lambda I, a, ta, ety, sp: rmatch(I, a[0], lambda x: ok(call(I, a[1], [x], ety[2][0] if ety else None)), lambda e: err(e))
T[R + "map_err"] = lambda I, a, ta, ety, sp: rmatch(I, a[0], lambda x: ok(x), lambda e: err(call(I, a[1], [e], ety[2][1] if ety else None)))
T[R + "and_then"] = lambda I, a, ta, ety, sp: rmatch(I, a[0], lambda x: call(I, a[1], [x], ety), lambda e: err(e))
T[R + "ok"] = lambda I, a, ta, ety, sp: rmatch(I, a[0], lambda x: some(x), lambda e: NONE)
T[R + "err"] = lambda I, a, ta, ety, sp: rmatch(I, a[0], lambda x: NONE, lambda e: some(e))
T[R + "is_ok"] = lambda I, a, ta, ety, sp: I.variant_cond(I.deref(a[0]), 0)
T[R + "is_err"] = lambda I, a, ta, ety, sp: I.variant_cond(I.deref(a[0]), 1)
T[R + "unwrap_or"] = lambda I, a, ta, ety, sp: rmatch(I, a[0], lambda x: x, lambda e: a[1])
T[R + "unwrap_or_else"] = lambda I, a, ta, ety, sp: rmatch(I, a[0], lambda x: x, lambda e: call(I, a[1], [e], ety))


@nat("core::ops::try_trait::Try::branch")
def _(I, a, ta, ety, sp):
    t = ta[0]
    if t[0] == "adt" and t[1] == OPTION:
        return omatch(I, a[0], lambda x: Adt(CF, 0, (x,)), lambda: Adt(CF, 1, (NONE,)))
    if t[0] == "adt" and t[1] == RESULT:
        return rmatch(I, a[0], lambda x: Adt(CF, 0, (x,)), lambda e: Adt(CF, 1, (err(e),)))
    return NotImplemented


@nat("core::ops::try_trait::FromResidual::from_residual")
def _(I, a, ta, ety, sp):
    t = ta[0]
    if t[0] == "adt" and t[1] == OPTION:
        return NONE
    if t[0] == "adt" and t[1] == RESULT:
        def fe(e):
            st = ta[1][2][1] if ta[1][0] == "adt" and len(ta[1][2]) > 1 else t[2][1]
            if st == t[2][1]:
                return err(e)
            return err(call_trait(I, "core::convert::From", "from", (t[2][1], st), [e], t[2][1]))
        return rmatch(I, a[0], lambda x: ok(x), fe)
    return NotImplemented


@nat("core::ops::try_trait::Try::from_output")
def _(I, a, ta, ety, sp):
    t = ta[0]
    if t[0] == "adt" and t[1] == OPTION:
        return some(a[0])
    if t[0] == "adt" and t[1] == RESULT:
        return ok(a[0])
    return NotImplemented


# bool helpers
T["core::bool::then_some"] = lambda I, a, ta, ety, sp: I.fork(a[0], lambda: some(a[1]), lambda: NONE)
T["core::bool::then"] = lambda I, a, ta, ety, sp: I.fork(a[0], lambda: some(call(I, a[1], [])), lambda: NONE)


# ------------------------------------------------------------------ panics
def panicker(kind):
    return lambda I, a, ta, ety, sp: I.panic(kind, sp)


for _n in ("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::panic_explicit", "core::panicking::unimplemented_default_msg",
           "core::panicking::unreachable_default_msg", "core::panicking::panic_display", "core::panicking::panic_str_2015",
           "core::panicking::assert_failed", "core::panicking::panic_str", "std::rt::begin_panic", "core::panicking::unreachable_display",
           "core::panicking::panic_nounwind", "core::panicking::todo_default_msg", "core::panicking::panic_default_msg", "core::panicking::panic_const::panic_const_div_by_zero", "core::panicking::unreachable_2015"):
    T[_n] = panicker(last(_n).replace("_default_msg", "").replace("panic_fmt", "panic"))


@nat("core::hint::unreachable_unchecked")
def _(I, a, ta, ety, sp):
    I.fact("unreachable", FALSE, "unreachable_unchecked reached", sp)
    raise Abrupt()


@nat("core::hint::assert_unchecked")
def _(I, a, ta, ety, sp):
    I.fact("unreachable", I.decide(a[0]), "assert_unchecked", sp)
    return UNIT


from . import iters  # noqa  (registers iterator models)
from . import fmtrand  # noqa
