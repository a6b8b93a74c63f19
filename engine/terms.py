"""Hash-consed terms of the value-numbering domain, with light construction-time folding."""
import time
from fractions import Fraction


class Budget(Exception):
    """the time or space given to one obligation is used up: no verdict"""


class Clock:
    end = None
    n = 0


def tick():
    Clock.n += 1
    if not Clock.n & 1023 and Clock.end and time.time() > Clock.end:
        raise Budget("time")


class Term:
    __slots__ = ("op", "args", "h", "_nf", "__weakref__")
    table = {}

    def __new__(cls, op, *args):
        key = (op, args)
        t = cls.table.get(key)
        if t is None:
            t = object.__new__(cls)
            tick()
            t.op, t.args, t.h, t._nf = op, args, hash(key), None
            cls.table[key] = t
        return t

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


def show(t, depth=30):
    if not isinstance(t, Term):
        return str(t)
    if depth <= 0:
        return "…"
    op, a = t.op, t.args
    d = depth - 1
    if op == "num":
        return str(a[0])
    if op in ("true", "false"):
        return op
    if op == "sym":
        return str(a[0])
    inf = {"add": "+", "sub": "-", "mul": "*", "div": "/", "lt": "<", "le": "<=", "eq": "==", "rem": "%"}
    if op in inf and len(a) == 2:
        return "(%s %s %s)" % (show(a[0], d), inf[op], show(a[1], d))
    if op == "neg":
        return "-%s" % show(a[0], d)
    if op == "ite":
        return "(if %s {%s} else {%s})" % tuple(show(x, d) for x in a)
    if op == "at":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    return "%s(%s)" % (op, ", ".join(show(x, d) for x in a))


TRUE = Term("true")
FALSE = Term("false")


def num(v):
    if isinstance(v, Fraction) and v.denominator == 1:
        v = int(v)
    return Term("num", v)


ZERO = num(0)
ONE = num(1)


def sym(n):
    return Term("sym", n)


def isint(t):
    return isinstance(t, Term) and t.op == "num" and isinstance(t.args[0], int)


def ival(t):
    return t.args[0]


def boolt(b):
    return TRUE if b else FALSE


def t_not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return Term("not", a)


def t_and(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    if a is t_not(b):
        return FALSE
    for x, y in ((a, b), (b, a)):
        if y.op == "not" and y.args[0].op == "and":
            p, q = y.args[0].args
            if p is x:
                return t_and(x, t_not(q))
            if q is x:
                return t_and(x, t_not(p))
            if t_not(p) is x or t_not(q) is x:
                return x
        if y.op == "not" and y.args[0].op == "is_nan":
            # a comparison with a constant that is no NaN decides whether the value is one
            r = not_nan_and(y.args[0].args[0], x)
            if r is not None:
                return r
    return Term("and", a, b)


def not_nan_and(v, x):
    c = x.args[0] if x.op == "not" else x
    if c.op not in ("lt", "le"):
        return None
    p, q = c.args
    if not (p is v and q.op in ("num", "const") or q is v and p.op in ("num", "const")) or NANC & {str(p), str(q)}:
        return None
    if x is c:
        return x
    return Term("le" if c.op == "lt" else "lt", q, p)


NANC = {"const(NAN)", "const(nan)", "const(NAN:f32)", "const(NAN:f64)"}


def t_or(a, b):
    return t_not(t_and(t_not(a), t_not(b)))


def t_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return t_not(c)
    if a is TRUE:
        return t_or(c, b)
    if b is TRUE:
        return t_or(t_not(c), a)
    if a is FALSE:
        return t_and(t_not(c), b)
    if b is FALSE:
        return t_and(c, a)
    if c.op == "not":
        return t_ite(c.args[0], b, a)
    return Term("ite", c, a, b)


def numite(t):
    """a gate whose leaves are integer constants (or sizes of types that have one)"""
    return t.op == "ite" and all(x.op in ("num", "sizeof") or numite(x) for x in t.args[1:])


def cmp_const(op, x, y):
    return boolt({"lt": x < y, "le": x <= y, "eq": x == y}[op])


def t_cmp(op, a, b):
    """op in lt le gt ge eq ne"""
    if op == "gt":
        return t_cmp("lt", b, a)
    if op == "ge":
        return t_cmp("le", b, a)
    if op == "ne":
        return t_not(t_cmp("eq", a, b))
    if a.op == "num" and b.op == "num":
        return cmp_const(op, a.args[0], b.args[0])
    if b.op == "num" and numite(a):
        return t_ite(a.args[0], t_cmp(op, a.args[1], b), t_cmp(op, a.args[2], b))
    if a.op == "num" and numite(b):
        return t_ite(b.args[0], t_cmp(op, a, b.args[1]), t_cmp(op, a, b.args[2]))
    if a.op in ("true", "false") and b.op in ("true", "false"):
        return boolt(a is b)
    if a.op == "sizeof" and b.op == "num" and b.args[0] <= 0:
        return FALSE
    if b.op == "sizeof" and a.op == "num" and a.args[0] <= 0:
        return boolt(op != "eq")
    if op == "eq":
        if b.op in ("true", "false"):
            a, b = b, a
        if a is TRUE:
            return b
        if a is FALSE:
            return t_not(b)
        if b.h < a.h:
            a, b = b, a
    return Term(op, a, b)


_fold2 = {
    "add": lambda x, y: x + y,
    "sub": lambda x, y: x - y,
    "mul": lambda x, y: x * y,
}


def t_arith(op, a, b):
    if a.op == "num" and b.op == "num":
        x, y = a.args[0], b.args[0]
        if op in _fold2:
            return num(_fold2[op](x, y))
    if op in _fold2:
        if b.op == "num" and numite(a):
            return t_ite(a.args[0], t_arith(op, a.args[1], b), t_arith(op, a.args[2], b))
        if a.op == "num" and numite(b):
            return t_ite(b.args[0], t_arith(op, a, b.args[1]), t_arith(op, a, b.args[2]))
    return Term(op, a, b)


def t_neg(a):
    if a.op == "num":
        return num(-a.args[0])
    return Term("neg", a)


def subst(t, m, memo=None):
    """substitute terms by a dict Term->Term"""
    if memo is None:
        memo = {}
    if not isinstance(t, Term):
        return t
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if not t.args or t.op in ("num", "sym"):
        return t
    na = tuple(subst(x, m, memo) if isinstance(x, Term) else x for x in t.args)
    r = t if na == t.args else rebuild(t.op, na)
    memo[t] = r
    return r


def rebuild(op, a):
    if op in ("lt", "le", "eq"):
        return t_cmp(op, *a)
    if op == "not":
        return t_not(*a)
    if op == "and":
        return t_and(*a)
    if op == "ite":
        return t_ite(*a)
    if op in ("add", "sub", "mul"):
        return t_arith(op, *a)
    if op == "neg":
        return t_neg(*a)
    return Term(op, *a)


def mentions(t, pred, seen=None):
    if seen is None:
        seen = set()
    if not isinstance(t, Term) or t in seen:
        return False
    seen.add(t)
    if pred(t):
        return True
    return any(mentions(x, pred, seen) for x in t.args)
