"""Abstract values: terms, aggregates, references, closures, native iterators."""
from .terms import *
from .program import Unknown


class Val:
    __slots__ = ()


class Adt(Val):
    """struct / enum value (also tuples: d == '()' and unit)"""
    __slots__ = ("d", "v", "fs", "ta")

    def __init__(self, d, v, fs, ta=()):
        self.d, self.v, self.fs, self.ta = d, v, tuple(fs), ta

    def __repr__(self):
        if self.d == "()":
            return "(" + ", ".join(map(repr, self.fs)) + ")"
        n = self.d.split("::")[-1]
        return "%s#%d(%s)" % (n, self.v, ", ".join(map(repr, self.fs)))


class Arr(Val):
    __slots__ = ("es",)

    def __init__(self, es):
        self.es = tuple(es)

    def __repr__(self):
        return "[" + ", ".join(map(repr, self.es)) + "]"


class Lam(Val):
    """array of symbolic length: n is a Term, var a sym Term, body a value over var"""
    __slots__ = ("n", "var", "body")

    def __init__(self, n, var, body):
        self.n, self.var, self.body = n, var, body

    def __repr__(self):
        return "[%r | %r<%r]" % (self.body, self.var, self.n)


class Ref(Val):
    """reference or raw pointer to a place (root, path)"""
    __slots__ = ("root", "path", "raw")

    def __init__(self, root, path, raw=False):
        self.root, self.path, self.raw = root, tuple(path), raw

    def __repr__(self):
        return "&%s%s" % (self.root, "".join("." + str(p) for p in self.path))


class Uninit(Val):
    __slots__ = ()

    def __repr__(self):
        return "⊥uninit"


class Bot(Val):
    """unreachable (wrong variant)"""
    __slots__ = ()

    def __repr__(self):
        return "⊥"


class Moved(Val):
    __slots__ = ()

    def __repr__(self):
        return "⊥moved"


UNINIT = Uninit()
BOT = Bot()
MOVED = Moved()


class VIte(Val):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "(if %r {%r} else {%r})" % (self.c, self.a, self.b)


class NeedSplit(Unknown):
    """a primitive operation met a gated operand it cannot map over"""

    def __init__(self, msg, cond):
        Unknown.__init__(self, msg)
        self.cond = cond


def unk(msg, v):
    if isinstance(v, VIte):
        return NeedSplit(msg + "gated value", v.c)
    return Unknown(msg + type(v).__name__)


def open_cond(msg, c):
    if c is TRUE or c is FALSE:
        return Unknown(msg)
    return NeedSplit(msg, c)


class Clo(Val):
    """closure: definition, generic env, captured: var -> ('ref', root, path) | index into fs"""
    __slots__ = ("d", "env", "caps", "fs")

    def __init__(self, d, env, caps, fs):
        self.d, self.env, self.caps, self.fs = d, env, caps, tuple(fs)

    def __repr__(self):
        return "closure<%s>" % self.d


class Fn(Val):
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty

    def __repr__(self):
        return "fn<%s>" % (self.ty[1],)


class NatFn(Val):
    """a callback of the engine: args -> value"""
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class It(Val):
    """native iterator state"""
    __slots__ = ("k", "fs", "x")

    def __init__(self, k, fs, x=()):
        self.k, self.fs, self.x = k, tuple(fs), x

    def __repr__(self):
        return "it:%s(%s)" % (self.k, ", ".join(map(repr, self.fs)))


class Opq(Val):
    """opaque stateful object; ver is a Term identifying its history"""
    __slots__ = ("name", "ver", "ty")

    def __init__(self, name, ver, ty=None):
        self.name, self.ver, self.ty = name, ver, ty

    def __repr__(self):
        return "opaque<%s@%r>" % (self.name, self.ver)


class Str(Val):
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return repr(self.s)


OPTION = "core::option::Option"
RESULT = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
ORD = "core::cmp::Ordering"
UNIT = Adt("()", 0, ())


def tup(*a):
    return Adt("()", 0, a)


def some(x):
    return Adt(OPTION, 1, (x,))


NONE = Adt(OPTION, 0, ())


def ok(x):
    return Adt(RESULT, 0, (x,))


def err(x):
    return Adt(RESULT, 1, (x,))


_fresh = [0]


def fresh_var(pfx="k"):
    _fresh[0] += 1
    return sym("%s#%d" % (pfx, _fresh[0]))


def vmap(v, f):
    """apply f to every Term inside v"""
    if isinstance(v, Term):
        return f(v)
    if isinstance(v, Adt):
        return Adt(v.d, v.v, [vmap(x, f) for x in v.fs], v.ta)
    if isinstance(v, Arr):
        return Arr([vmap(x, f) for x in v.es])
    if isinstance(v, Lam):
        return Lam(f(v.n), v.var, vmap(v.body, f))
    if isinstance(v, VIte):
        return merge(f(v.c), vmap(v.a, f), vmap(v.b, f))
    if isinstance(v, Ref):
        return Ref(v.root, [tuple(f(q) if isinstance(q, Term) else q for q in p) for p in v.path], v.raw)
    if isinstance(v, Clo):
        return Clo(v.d, v.env, v.caps, [vmap(x, f) for x in v.fs])
    if isinstance(v, It):
        return It(v.k, [vmap(x, f) for x in v.fs], v.x)
    if isinstance(v, Opq):
        return Opq(v.name, f(v.ver), v.ty)
    return v


def roots_in(v, acc):
    """adds the storage that a value refers to; false if that is not known"""
    if isinstance(v, (Term, Uninit, Bot, Moved, Fn, Opq, Str)):
        return True
    if isinstance(v, (Adt, It)):
        return all(roots_in(x, acc) for x in v.fs)
    if isinstance(v, Arr):
        return all(roots_in(x, acc) for x in v.es)
    if isinstance(v, Ref):
        acc.add(v.root)
        return True
    if isinstance(v, Clo):
        acc.update(c[1] for _, c in v.caps if c[0] == "ref")
        return all(roots_in(x, acc) for x in v.fs)
    if isinstance(v, VIte):
        return roots_in(v.a, acc) and roots_in(v.b, acc)
    if isinstance(v, Lam):
        return roots_in(v.body, acc)
    return False


def vsubst(v, m):
    memo = {}
    return vmap(v, lambda t: subst(t, m, memo))


def veq(a, b):
    """syntactic equality of values"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Adt):
        return a.d == b.d and a.v == b.v and len(a.fs) == len(b.fs) and all(map(veq, a.fs, b.fs))
    if isinstance(a, Arr):
        return len(a.es) == len(b.es) and all(map(veq, a.es, b.es))
    if isinstance(a, Lam):
        return a.n is b.n and veq(a.body, vsubst(b.body, {b.var: a.var}))
    if isinstance(a, Ref):
        return a.root == b.root and a.path == b.path
    if isinstance(a, VIte):
        return a.c is b.c and veq(a.a, b.a) and veq(a.b, b.b)
    if isinstance(a, Clo):
        return a.d == b.d and a.caps == b.caps and all(map(veq, a.fs, b.fs))
    if isinstance(a, It):
        return a.k == b.k and a.x == b.x and len(a.fs) == len(b.fs) and all(map(veq, a.fs, b.fs))
    if isinstance(a, Opq):
        return a.name == b.name and a.ver is b.ver
    if isinstance(a, Fn):
        return a.ty == b.ty
    if isinstance(a, Str):
        return a.s == b.s
    return False


def merge(c, a, b):
    """gated join: value is a when c holds, b otherwise"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, Bot):
        return b
    if isinstance(b, Bot):
        return a
    if isinstance(a, Term) and isinstance(b, Term):
        return t_ite(c, a, b)
    if type(a) is type(b):
        if isinstance(a, Adt) and a.d == b.d and a.v == b.v and len(a.fs) == len(b.fs):
            return Adt(a.d, a.v, [merge(c, x, y) for x, y in zip(a.fs, b.fs)], a.ta)
        if isinstance(a, Arr) and len(a.es) == len(b.es):
            return Arr([merge(c, x, y) for x, y in zip(a.es, b.es)])
        if isinstance(a, Lam) and a.n is b.n:
            return Lam(a.n, a.var, merge(c, a.body, vsubst(b.body, {b.var: a.var})))
        if isinstance(a, It) and a.k == b.k and a.x == b.x and len(a.fs) == len(b.fs):
            return It(a.k, [merge(c, x, y) for x, y in zip(a.fs, b.fs)], a.x)
        if isinstance(a, Clo) and a.d == b.d and a.caps == b.caps:
            return Clo(a.d, a.env, a.caps, [merge(c, x, y) for x, y in zip(a.fs, b.fs)])
        if isinstance(a, Opq) and a.name == b.name:
            return Opq(a.name, t_ite(c, a.ver, b.ver), a.ty)
        if isinstance(a, Ref) and a.root == b.root and len(a.path) == len(b.path):
            np = []
            for p, q in zip(a.path, b.path):
                if p == q:
                    np.append(p)
                elif p[0] == q[0] and all(isinstance(x, Term) or x == y for x, y in zip(p, q)):
                    np.append(tuple(t_ite(c, x, y) if isinstance(x, Term) and isinstance(y, Term) else x for x, y in zip(p, q)))
                else:
                    np = None
                    break
            if np is not None:
                return Ref(a.root, np, a.raw)
        if veq(a, b):
            return a
    if c.op == "not":
        return VIte(c.args[0], b, a)
    return VIte(c, a, b)
