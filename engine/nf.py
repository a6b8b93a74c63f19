"""Normal forms and the equality decision.

Equality of two summary terms is decided by
  1. canonical conditions and a gated (Shannon) split of the two gated-value-numbering terms,
  2. at the leaves, a ring / field normal form over uninterpreted atoms (proof of equality),
  3. otherwise random interpretation (Gulwani & Necula) of the two *terms*, which can only separate.
Verdicts: 'proved', ('differ', witness), 'undecided'."""
import random
from fractions import Fraction
from .terms import *
from .values import *
from .program import Unknown


def show_term(t):
    return show(t)


# ------------------------------------------------------------------ polynomials
# poly: dict monomial -> Fraction ; monomial: commutative: sorted tuple of (atom, exp); else tuple of atoms
class TooBig(Exception):
    pass


MAXPOLY = 6000


class Norm:
    def __init__(self, comm=True, field=True, real=True, free=False):
        self.free = free
        self.comm, self.field, self.real = comm, field, real
        self.memo = {}
        self.atoms = {}   # op -> [(argnfs, atom)]
        self.rank = {}
        self.nneg = set()
        self.sq = {}      # sqrt atom -> (num, den)
        self.trig = {}    # sin atom -> cos atom
        self.one = {(): Fraction(1)}

    # -- monomials
    def mmul(self, a, b):
        if not a:
            return b
        if not b:
            return a
        if not self.comm:
            return a + b
        d = dict(a)
        for x, e in b:
            d[x] = d.get(x, 0) + e
        return tuple(sorted(d.items(), key=lambda p: self.rank[p[0]]))

    def padd(self, a, b, k=1):
        if len(b) > len(a) and k == 1:
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c * k
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def pmul(self, a, b):
        if len(a) * len(b) > 400000:
            raise TooBig()
        r = {}
        for m, c in a.items():
            tick()
            for n, d in b.items():
                x = self.mmul(m, n)
                v = r.get(x, 0) + c * d
                if v:
                    r[x] = v
                else:
                    r.pop(x, None)
        if len(r) > MAXPOLY:
            raise TooBig()
        return r

    def ppow(self, a, n):
        r = self.one
        for _ in range(n):
            r = self.pmul(r, a)
        return r

    def atom(self, t):
        if t not in self.rank:
            self.rank[t] = len(self.rank)
        return ({(((t, 1),) if self.comm else (t,)): Fraction(1)}, self.one)

    # -- rational functions
    def rat(self, n, d):
        if not n:
            return ({}, self.one)
        if len(d) == 1 and self.comm:
            (m, c), = d.items()
            if m == ():
                return ({k: v / c for k, v in n.items()}, self.one) if c != 1 else (n, self.one)
        if n == d:
            return (self.one, self.one)
        if self.comm:
            # cancel a common monomial factor
            common = None
            for p in (n, d):
                for m in p:
                    dm = dict(m)
                    if common is None:
                        common = dm
                    else:
                        common = {x: min(e, dm[x]) for x, e in common.items() if x in dm}
                    if not common:
                        break
                if not common:
                    break
            if common:
                def red(p):
                    return {tuple((x, e - common.get(x, 0)) for x, e in m if e != common.get(x, 0)): c for m, c in p.items()}
                n, d = red(n), red(d)
                return self.rat(n, d)
            lc = d[min(d, key=self.mkey)]
            if lc != 1:
                n = {k: v / lc for k, v in n.items()}
                d = {k: v / lc for k, v in d.items()}
        return (n, d)

    def mkey(self, m):
        if self.comm:
            return tuple((self.rank[x], e) for x, e in m)
        return tuple(self.rank[x] for x in m)

    def nf(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._nf(t)
        return r

    def add(self, a, b, k=1):
        if a[1] == b[1]:
            return self.rat(self.padd(a[0], b[0], k), a[1])
        return self.rat(self.padd(self.pmul(a[0], b[1]), self.pmul(b[0], a[1]), k), self.pmul(a[1], b[1]))

    def mul(self, a, b):
        return self.rat(self.pmul(a[0], b[0]), self.pmul(a[1], b[1]))

    def inv(self, a):
        return self.rat(a[1], a[0])

    def _nf(self, t):
        op, a = t.op, t.args
        if op == "num":
            return ({(): Fraction(a[0])} if a[0] else {}, self.one)
        if self.free:
            return self.atom(t) if op in ("sym", "const") else self.fun(t)
        if op == "add":
            return self.add(self.nf(a[0]), self.nf(a[1]))
        if op == "sub":
            return self.add(self.nf(a[0]), self.nf(a[1]), -1)
        if op == "neg":
            n, d = self.nf(a[0])
            return ({k: -v for k, v in n.items()}, d)
        if op == "mul":
            return self.mul(self.nf(a[0]), self.nf(a[1]))
        if op == "sum":
            r = ({}, self.one)
            for x in a:
                r = self.add(r, self.nf(x))
            return r
        if op == "mul_add" and len(a) == 3:
            return self.add(self.mul(self.nf(a[0]), self.nf(a[1])), self.nf(a[2]))
        if op == "powi" and len(a) == 2 and isint(a[1]) and -8 <= ival(a[1]) <= 8:
            x = self.nf(a[0])
            n = ival(a[1])
            if n < 0 and (not self.field or not x[0]):
                return self.fun(t)
            r = ({(): Fraction(1)}, self.one)
            for _ in range(abs(n)):
                r = self.mul(r, x)
            return self.inv(r) if n < 0 else r
        if op == "div" and self.field and self.comm:
            d = self.nf(a[1])
            if self.zero(d[0]):
                return self.fun(t)
            return self.mul(self.nf(a[0]), self.inv(d))
        if self.real:
            if op == "hypot":
                return self.nf(Term("sqrt", t_arith("add", t_arith("mul", a[0], a[0]), t_arith("mul", a[1], a[1]))))
            if op == "tan" and self.field:
                return self.nf(Term("div", Term("sin", a[0]), Term("cos", a[0])))
            if op in ("sin", "cos"):
                n, d = self.nf(a[0])
                if not n:
                    return self.nf(ZERO if op == "sin" else ONE)
                if len(n) == 1 and d == self.one:
                    (m, k), = n.items()
                    if len(m) == 1 and m[0][1] == 1 and m[0][0] is Term("const", "PI") and k.denominator <= 2:
                        q = int(2 * k) % 4    # quarter turns
                        v = (0, 1, 0, -1)[q if op == "sin" else (q + 1) % 4]
                        return ({(): Fraction(v)} if v else {}, self.one)
                lc = n[min(n, key=self.mkey)]
                if lc < 0:
                    n = {k: -v for k, v in n.items()}
                s = self.fun_nf("sin", [(n, d)])
                c = self.fun_nf("cos", [(n, d)])
                sa, ca = self.single(s), self.single(c)
                self.trig[sa] = ca
                if op == "cos":
                    return c
                return s if lc > 0 else ({k: -v for k, v in s[0].items()}, s[1])
            if op == "sqrt":
                n, d = self.nf(a[0])
                if len(d) == 1 and () in d and len(n) <= 1:
                    if not n:
                        return ({}, self.one)
                    (m, c), = n.items()
                    if m == () and c > 0:
                        p, q = isq(c.numerator), isq(c.denominator)
                        if p is not None and q is not None:
                            return ({(): Fraction(p, q)}, self.one)
                r = self.fun_nf("sqrt", [(n, d)])
                self.nneg.add(self.single(r))
                self.sq[self.single(r)] = (n, d)
                return r
            if op == "abs":
                n, d = self.nf(a[0])
                if not n:
                    return ({}, self.one)
                lc = n[min(n, key=self.mkey)]
                if lc < 0:
                    n = {k: -v for k, v in n.items()}
                if self.comm and d == self.one and len(n) == 1 and all(x in self.nneg for x, _ in min(n)):
                    return (n, d)   # absolute values and roots are not negative
                r = self.fun_nf("abs", [(n, d)])
                self.nneg.add(self.single(r))
                self.sq[self.single(r)] = (self.pmul(n, n), self.pmul(d, d))
                return r
        if op == "const" or op == "sym":
            return self.atom(t)
        return self.fun(t)

    def single(self, r):
        (m, _), = r[0].items()
        return m[0][0] if self.comm else m[0]

    def fun(self, t):
        args = []
        for x in t.args:
            if isinstance(x, Term):
                if t.op == "mu" and x.op in ("lt", "le", "eq", "not", "and"):
                    args.append(self.cond(x))
                elif x.op in ("true", "false", "lt", "le", "eq", "not", "and", "str"):
                    args.append(x)
                else:
                    args.append(self.nf(x))
            else:
                args.append(x)
        return self.fun_nf(t.op, args)

    def fun_nf(self, op, args):
        key = (op, len(args))
        for old, at in self.atoms.get(key, ()):
            if all(self.same(x, y) for x, y in zip(old, args)):
                return self.atom(at)
        at = Term("atom", op, len(self.atoms.setdefault(key, [])), id(self))
        self.atoms[key].append((args, at))
        return self.atom(at)

    def cond(self, x):
        """normal form of a condition, as a list"""
        if x.op in ("lt", "le", "eq"):
            return [x.op, self.add(self.nf(x.args[0]), self.nf(x.args[1]), -1)] if self.comm else [x.op, self.nf(x.args[0]), self.nf(x.args[1])]
        if x.op in ("not", "and"):
            return [x.op] + [self.cond(y) for y in x.args]
        return x

    def same(self, x, y):
        if isinstance(x, list):
            return isinstance(y, list) and len(x) == len(y) and all(map(self.same, x, y))
        if isinstance(x, tuple) and isinstance(y, tuple):
            return self.eqnf(x, y)
        return x is y or (not isinstance(x, (Term, tuple)) and x == y)

    def eqnf(self, x, y):
        if x == y:
            return True
        if not self.comm:
            return False
        d = self.padd(self.pmul(x[0], y[1]), self.pmul(y[0], x[1]), -1)
        return self.zero(d)

    # -- zero test modulo sqrt(u)^2 = u, sin^2 = 1 - cos^2
    def zero(self, p):
        if not p:
            return True
        if not (self.comm and (self.sq or self.trig)):
            return False
        for _ in range(40):
            hi = None
            for m in p:
                for x, e in m:
                    if e >= 2 and (x in self.sq or x in self.trig):
                        if hi is None or self.rank[x] > self.rank[hi]:
                            hi = x
            if hi is None:
                return not p
            parts = {}
            for m, c in p.items():
                d = dict(m)
                e = d.pop(hi, 0)
                rest = tuple(sorted(d.items(), key=lambda q: self.rank[q[0]]))
                parts.setdefault(e, {})[rest] = c
            if hi in self.sq:
                un, ud = self.sq[hi]
            else:
                ca = self.trig[hi]
                un, ud = {(): Fraction(1), ((ca, 2),): Fraction(-1)}, self.one
            K = max(parts) // 2
            r = {}
            for e, q in parts.items():
                h = e // 2
                q = self.pmul(q, self.pmul(self.ppow(un, h), self.ppow(ud, K - h)))
                if e % 2:
                    q = self.pmul(q, self.atom(hi)[0])
                r = self.padd(r, q)
            p = r
            if not p:
                return True
        return False

    def equal(self, a, b):
        if a is b:
            return True
        try:
            return self.eqnf(self.nf(a), self.nf(b))
        except TooBig:
            return False


def isq(n):
    if n < 0:
        return None
    r = int(n ** 0.5)
    for k in (r - 1, r, r + 1):
        if k >= 0 and k * k == n:
            return k
    return None


# ------------------------------------------------------------------ integer facts
_intn = Norm(True, False, False)


def lin(t):
    """integer polynomial of t"""
    n = _intn.nf(t)
    return n[0]


def nonneg(p, facts):
    """is the polynomial p >= 0, given polynomials known to be >= 0 ? (usize symbols are >= 0)"""
    if not p:
        return True
    def triv(q):
        return all(c >= 0 for c in q.values())
    if triv(p):
        return True
    for f in facts:
        for k in (1, 2, 3):
            q = _intn.padd(p, f, -k)
            if triv(q):
                return True
            if k == 1:
                for g in facts:
                    if triv(_intn.padd(q, g, -1)):
                        return True
    # products with a symbol: f >= 0 -> f*s >= 0
    if any(len(m) > 1 or (m and m[0][1] > 1) for m in p):
        syms = {x for m in p for x, _ in m}
        for f in facts:
            for s in syms:
                q = _intn.padd(p, _intn.pmul(f, {((s, 1),): Fraction(1)}), -1)
                if triv(q):
                    return True
                for g in facts:
                    if triv(_intn.padd(q, g, -1)):
                        return True
    return False


_icache = {}


def intlike(t):
    return not mentions(t, lambda x: x.op not in ("num", "sym", "add", "sub", "mul", "neg"))


def facts_of(guard):
    fs = []
    todo = list(guard)
    while todo:
        g = todo.pop()
        if g.op == "and":
            todo += g.args
            continue
        neg = False
        if g.op == "not":
            neg, g = True, g.args[0]
        if g.op in ("lt", "le", "eq") and all(intlike(x) and is_index(x) for x in g.args):
            a, b = lin(g.args[0]), lin(g.args[1])
            d = _intn.padd(b, a, -1)
            m = {k: -v for k, v in d.items()}
            if g.op == "lt":
                fs.append(_intn.padd(d, {(): Fraction(1)}, -1) if not neg else m)
            elif g.op == "le":
                fs.append(d if not neg else _intn.padd(m, {(): Fraction(1)}, -1))
            elif not neg:
                fs += [d, m]
    return fs


def int_cmp(c, guard):
    """decide an integer comparison from the guard; None when unknown.  Only index-like terms."""
    a, b = c.args
    if not (intlike(a) and intlike(b)):
        return None
    if not is_index(a) or not is_index(b):
        return None
    key = (c, guard)
    if key in _icache:
        return _icache[key]
    r = None
    d = _intn.padd(lin(b), lin(a), -1)
    m = {k: -v for k, v in d.items()}
    one = {(): Fraction(1)}
    fs = facts_of(guard)
    if c.op == "lt":
        if nonneg(_intn.padd(d, one, -1), fs):
            r = True
        elif nonneg(m, fs):
            r = False
    elif c.op == "le":
        if nonneg(d, fs):
            r = True
        elif nonneg(_intn.padd(m, one, -1), fs):
            r = False
    else:
        if not d:
            r = True
        elif nonneg(_intn.padd(d, one, -1), fs) or nonneg(_intn.padd(m, one, -1), fs):
            r = False
    _icache[key] = r
    return r


_realn = Norm()
_rcache = {}


def sign_fact(g):
    """(rational form e, relation of e to 0) for a comparison of reals"""
    neg = g.op == "not"
    if neg:
        g = g.args[0]
    if g.op not in ("lt", "le"):
        return None
    e = _realn.add(_realn.nf(g.args[0]), _realn.nf(g.args[1]), -1)
    return e, {("lt", False): "<", ("lt", True): ">=", ("le", False): "<=", ("le", True): ">"}[(g.op, neg)], neg, g


def plain(t, known):
    """t is a number whenever the terms in known are"""
    if t.op == "num" or t in known:
        return True
    return t.op == "neg" and plain(t.args[0], known)


def parts(t, acc):
    if t not in acc:
        acc.add(t)
        if t.op in ("add", "sub", "mul", "div", "neg", "sqrt"):
            for x in t.args:
                if isinstance(x, Term):
                    parts(x, acc)
    return acc


CONTRA = {("<", ">"), ("<", ">="), ("<=", ">"), (">", "<"), (">", "<="), (">=", "<")}
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}


def real_infeasible(guard):
    """two comparisons of the guard contradict each other over the reals; that a comparison fails
    says nothing unless another one that holds shows that its operands are numbers"""
    if guard in _rcache:
        return _rcache[guard]
    r = False
    try:
        fs = [f for f in map(sign_fact, guard) if f]
        known = set()
        for e, p, neg, c in fs:
            if not neg:
                parts(c.args[0], known)
                parts(c.args[1], known)
        fs = [(e, p, neg) for e, p, neg, c in fs if not neg or plain(c.args[0], known) and plain(c.args[1], known)]
        for i, (e, p, neg) in enumerate(fs):
            if not e[0]:
                r = r or p in ("<", ">")
                continue
            for f, q, _ in fs[:i]:
                if not f[0]:
                    continue
                m = next(iter(e[0]))
                # e = k f ?
                x, y = _realn.pmul(e[0], f[1]), _realn.pmul(f[0], e[1])
                m = next(iter(x), None)
                if m is None or m not in y:
                    continue
                k = x[m] / y[m]
                if _realn.zero(_realn.padd(x, y, -k)) and ((p if k > 0 else FLIP[p]), q) in CONTRA:
                    r = True
    except TooBig:
        pass
    _rcache[guard] = r
    return r


INDEX = set()  # names of symbols that are unsigned integers


def is_index(t):
    return not mentions(t, lambda x: x.op == "sym" and not (x.args[0] in INDEX or (x.args[0].isupper() and "." not in x.args[0]) or "#" in x.args[0] and not x.args[0].startswith("mu#")))


def canon_lam(I, v):
    w = sym("λ%d" % depth_lam(v.body))
    return Term("lam", v.n, w, I.to_term(vsubst(v.body, {v.var: w})))


def depth_lam(b):
    if isinstance(b, Lam):
        return 1 + depth_lam(b.body)
    if isinstance(b, (Adt, It)):
        return max([0] + [depth_lam(x) for x in b.fs])
    if isinstance(b, Arr):
        return max([0] + [depth_lam(x) for x in b.es])
    return 0


# ------------------------------------------------------------------ conditions
ATOMIC = ("lt", "le", "eq")
BOOLOPS = ("is_some", "is_ok", "isvar", "is_nan", "is_finite", "is_infinite", "is_normal", "ispow2", "iszst", "trivial")


def conds_of(t, acc, seen):
    """atomic conditions occurring in gates of t or in boolean structure"""
    if t in seen:
        return
    seen.add(t)
    op = t.op
    if op == "ite":
        conds_of_bool(t.args[0], acc, seen)
        conds_of(t.args[1], acc, seen)
        conds_of(t.args[2], acc, seen)
    elif op in ("and", "not"):
        conds_of_bool(t, acc, seen)
    else:
        for x in t.args:
            if isinstance(x, Term):
                conds_of(x, acc, seen)


def conds_of_bool(c, acc, seen):
    op = c.op
    if op in ("and", "not"):
        for x in c.args:
            conds_of_bool(x, acc, seen)
    elif op == "ite":
        for x in c.args:
            conds_of_bool(x, acc, seen)
    elif op in ("true", "false"):
        pass
    else:
        n = len(acc)
        sub = []
        for x in c.args:
            if isinstance(x, Term):
                conds_of(x, sub, seen)
        if sub:
            acc.extend(s for s in sub if s not in acc)
        elif c not in acc:
            acc.append(c)


def has_gate(t, seen):
    if t in seen:
        return False
    seen.add(t)
    if t.op in ("ite", "and", "not"):
        return True
    return any(isinstance(x, Term) and has_gate(x, seen) for x in t.args)


SIGN = {"lt": "-", "le": "-0", "eq": "0"}


class Decider:
    def __init__(self, comm=True, field=True, real=True, ints=False, free=False, budget=3000):
        self.N = Norm(comm, field, real, free)
        self.field, self.comm, self.ints = field, comm, ints
        self.budget = budget
        self.keys = []   # representative condition polynomials

    def key(self, c):
        """canonical form of an atomic condition: (index of polynomial, signs when true)"""
        if c.op not in ATOMIC:
            return None
        try:
            x, y = self.N.nf(c.args[0]), self.N.nf(c.args[1])
            if not self.N.comm:
                d = self.N.padd(x[0], y[0], -1)
                d = (d, self.N.one)
            else:
                d = self.N.add(x, y, -1)
        except TooBig:
            return None
        n, den = d
        if not n:
            return (None, SIGN[c.op])
        if len(n) == 1 and () in n and den == self.N.one:
            s = "+" if n[()] > 0 else "-"
            return (None, None, s in SIGN[c.op])
        lc = n[min(n, key=self.N.mkey)]
        flip = lc < 0
        n = {k: v / lc for k, v in n.items()}
        signs = SIGN[c.op]
        if flip:
            signs = signs.translate(str.maketrans("+-", "-+"))
        for i, (kn, kd) in enumerate(self.keys):
            if kn == n and kd == den:
                return (i, signs)
        self.keys.append((n, den))
        return (len(self.keys) - 1, signs)

    def allowed(self, lits):
        """sign sets per polynomial from literals; None if infeasible"""
        st = {}
        other = {}
        for c, v in lits:
            k = self.key(c)
            if k is None:
                if other.get(c, v) != v:
                    return None
                other[c] = v
                continue
            if k[0] is None:
                if len(k) == 3:
                    if k[2] != v:
                        return None
                else:
                    # 0 op 0 (or NaN)
                    if ("0" in k[1]) != v and v:
                        return None
                    if not v and "0" in k[1] and self.ints:
                        return None
                continue
            full = "-0+" if self.ints else "-0+n"
            s = st.get(k[0], full)
            s = "".join(ch for ch in s if (ch in k[1]) == v)
            if not s:
                return None
            st[k[0]] = s
        return st

    def decide(self, c, lits):
        t = self.allowed(lits + [(c, True)])
        f = self.allowed(lits + [(c, False)])
        if t is None and f is None:
            return "infeasible"
        if t is None:
            return False
        if f is None:
            return True
        return None

    def eq_terms(self, a, b, lits=()):
        lits = list(lits)
        if a is b:
            return True
        self.budget -= 1
        if self.budget < 0:
            raise TooBig()
        acc = []
        seen = set()
        boolish = lambda t: t.op in ("true", "false", "and", "not", "lt", "le", "eq") or t.op in BOOLOPS
        for t in (a, b):
            if boolish(t):
                conds_of_bool(t, acc, seen)
            else:
                conds_of(t, acc, seen)
        if boolish(a) or boolish(b):
            for t in (a, b):
                if not boolish(t) and t.op != "ite":
                    conds_of_bool(t, acc, set())
        if not acc:
            if a.op in ("true", "false") or b.op in ("true", "false"):
                return a is b
            return self.N.equal(a, b)
        c = acc[0]
        d = self.decide(c, lits)
        if d == "infeasible":
            return True
        ok = True
        for v in (True, False):
            if d is not None and d != v:
                continue
            m = {c: boolt(v)}
            memo = {}
            l2 = lits + [(c, v)]
            if not self.eq_terms(subst(a, m, memo), subst(b, m, memo), l2):
                return False
        return ok

    def eq_cond_values(self, a, b, lits, leaf):
        """structural comparison of values with gated alternatives"""
        raise NotImplementedError


# ------------------------------------------------------------------ random interpretation
class Undef(Exception):
    pass


try:
    import mpmath
    mpmath.mp.dps = 50
    mpf = mpmath.mpf
except ImportError:
    mpmath = None

HM = (1 << 61) - 1


def hsh(*xs):
    import hashlib
    h = hashlib.blake2b(repr(xs).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big")


NAN = "incomparable"  # a value of an element type with a partial order (free interpretation)


class Mat(tuple):
    pass


class Evald:
    """one random interpretation; dom in 'real' | 'ring' | 'int' | 'mat'"""

    def __init__(self, dom, seed, style, fixed=None, pool=()):
        self.dom, self.seed, self.style = dom, seed, style
        self.pool = pool
        self.fixed = fixed or {}
        self.memo = {}
        self.trace = {}

    def symbol(self, name):
        h = hsh(self.seed, name)
        if name in self.fixed:
            return self.fixed[name]
        if self.is_nat(name):
            return h % 5
        st = self.style
        if isinstance(st, tuple):
            # every symbol but one has the same value, or corresponding components do
            kind, odd, base = st
            if kind == "pair":
                if name != odd and "." in name:
                    h = hsh(self.seed, name[name.index("."):])
                name = odd
            if name != odd:
                if base < len(self.pool):
                    return self.ev(self.pool[base])
                name = "*"
                h = hsh(self.seed, name)
            st = "gen"
        if self.dom == "mat":
            return Mat((h >> s) % 13 - 6 for s in (0, 8, 16, 24))
        if self.dom == "free":
            if st == "nan" and h % 3 == 0:
                return NAN
            return "v%x" % (h % (3 if st in ("small", "zero", "eq") else 1 << 40))
        if st == "pool" and self.pool and h % 3:
            # a constant of the compared terms, or its opposite
            c = self.pool[(h >> 4) % len(self.pool)]
            v = self.ev(c)
            if isinstance(v, (int, Fraction)) or mpmath and isinstance(v, mpmath.mpf):
                return v if (h >> 40) % 2 else -v
            return v
        if st == "nan" and self.dom == "real" and h % 2:
            return mpf("nan")
        if st == "small":
            v = h % 5 - 2
        elif st == "zero":
            v = 0 if h % 2 else (h >> 3) % 7 - 3
        elif st == "pos":
            v = 1 + h % 4
        elif st == "eq":
            v = 2 + h % 2
        elif st == "unit":
            v = Fraction(h % 2001 - 1000, 1000)
        else:
            v = Fraction(h % 20000001 - 10000000, 1000003) if self.dom == "real" else h % 2001 - 1000
        if self.dom == "int" and isinstance(v, Fraction):
            v = int(v * 100)
        if self.dom == "real":
            return mpf(v.numerator) / v.denominator if isinstance(v, Fraction) else mpf(v)
        return v

    def is_nat(self, name):
        return name in INDEX

    def hashval(self, *key):
        h = hsh(self.seed, *key)
        if self.dom == "mat":
            return Mat((h >> s) % 13 - 6 for s in (0, 8, 16, 24))
        if self.dom == "free":
            return "h%x" % h
        if self.dom == "real":
            return mpf(h % 2000001 - 1000000) / 700001
        return h % 2001 - 1000

    def q(self, v):
        """key for hashing"""
        if isinstance(v, bool) or isinstance(v, (str, tuple)) and not isinstance(v, Mat):
            return v
        if isinstance(v, Mat):
            return tuple(v)
        if isinstance(v, int):
            return ("n", str(v)) if self.dom != "real" else self.q(mpf(v))
        if isinstance(v, Fraction):
            return ("n", str(v))
        if mpmath and isinstance(v, mpmath.mpf):
            if abs(v) < mpf(10) ** -25:
                return ("n", "0")
            return ("n", mpmath.nstr(v, 20))
        return v

    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._ev(t)
            self.memo[t] = r
        return r

    def arith(self, op, x, y):
        if isinstance(x, Mat) or isinstance(y, Mat):
            if not isinstance(x, Mat):
                x = Mat((x, 0, 0, x))
            if not isinstance(y, Mat):
                y = Mat((y, 0, 0, y))
            if op == "add":
                return Mat(p + q for p, q in zip(x, y))
            if op == "sub":
                return Mat(p - q for p, q in zip(x, y))
            return Mat((x[0] * y[0] + x[1] * y[2], x[0] * y[1] + x[1] * y[3], x[2] * y[0] + x[3] * y[2], x[2] * y[1] + x[3] * y[3]))
        if isinstance(x, (bool, str, tuple)) or isinstance(y, (bool, str, tuple)):
            return self.hashval(op, self.q(x), self.q(y))
        return x + y if op == "add" else x - y if op == "sub" else x * y

    def bool(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            return v
        # an uninterpreted boolean
        return hsh(self.seed, "bool", self.q(v)) % 2 == 1

    def close(self, x, y, comparing=False):
        if comparing and x == NAN:
            return False
        if x == y:
            return True
        if mpmath and isinstance(x, mpmath.mpf) and isinstance(y, mpmath.mpf) and mpmath.isnan(x) and mpmath.isnan(y):
            return not comparing
        if isinstance(x, (Mat, tuple, str, bool)) or isinstance(y, (Mat, tuple, str, bool)):
            return False
        if self.dom == "real":
            return abs(x - y) <= mpf(10) ** -22 * max(1, abs(x), abs(y))
        return False

    def less(self, x, y):
        if x == NAN or y == NAN:
            return False
        if isinstance(x, (Mat, tuple, str)) or isinstance(y, (Mat, tuple, str)):
            return hsh(self.seed, "ord", self.q(x)) < hsh(self.seed, "ord", self.q(y))
        return x < y and not self.close(x, y)

    def _ev(self, t):
        op, a = t.op, t.args
        if op == "num":
            v = a[0]
            if self.dom == "real":
                return mpf(v.numerator) / v.denominator if isinstance(v, Fraction) else mpf(v)
            return v
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "sym":
            return self.symbol(a[0])
        if op == "ite":
            return self.ev(a[1] if self.bool(a[0]) else a[2])
        if op == "and":
            return self.bool(a[0]) and self.bool(a[1])
        if op == "not":
            return not self.bool(a[0])
        if op in ("add", "sub", "mul"):
            return self.arith(op, self.ev(a[0]), self.ev(a[1]))
        if op == "neg":
            x = self.ev(a[0])
            return Mat(-p for p in x) if isinstance(x, Mat) else (self.hashval("neg", self.q(x)) if isinstance(x, (bool, str, tuple)) else -x)
        if op == "eq":
            x, y = self.ev(a[0]), self.ev(a[1])
            return self.close(x, y, True)
        if op == "lt":
            return self.less(self.ev(a[0]), self.ev(a[1]))
        if op == "le":
            x, y = self.ev(a[0]), self.ev(a[1])
            return self.less(x, y) or self.close(x, y, True)
        if op == "const":
            if self.dom == "real":
                c = {"PI": mpmath.pi, "E": mpmath.e}.get(a[0])
                if c is not None:
                    return +c
                if a[0].startswith("EPSILON") or a[0] == "epsilon":
                    return mpf(2) ** (-23 if a[0].endswith("f32") else -52)
            return self.hashval("const", a[0])
        if op in ("str",):
            return ("str", a[0])
        if op == "text":
            return ("text", self.q(self.ev(a[0])), a[1])
        if op == "mu":
            return self.mu(t)
        if op == "ev" and self.dom == "real":
            h = hsh(self.seed, *[self.q(self.ev(x)) if isinstance(x, Term) else x for x in a])
            if a[0] == "uniform":
                lo, hi = self.ev(a[2]), self.ev(a[3])
                if self.style in ("zero", "small", "pool") and (h >> 40) % 2:
                    return lo
                return lo + (hi - lo) * mpf(h % 999983) / 999983
            if self.style in ("zero", "small", "pool") and h % 4:
                eps = mpf(2) ** -52
                return (mpf(0), eps, eps / 2, -eps, mpf(1), -mpf(1) / 2)[(h >> 8) % 6]
        if op in ("adt", "arr", "tup", "lam", "refto", "uninit", "bot", "fn", "it"):
            return (op,) + tuple(self.q(self.ev(x)) if isinstance(x, Term) else x for x in a)
        if self.dom == "real":
            r = self.real(op, t)
            if r is not None:
                return r
        if self.dom == "int":
            r = self.int_(op, t)
            if r is not None:
                return r
        if op in BOOLOPS:
            return hsh(self.seed, op, *[self.q(self.ev(x)) if isinstance(x, Term) else x for x in a]) % 2 == 1
        if op == "sizeof":
            return (1 + hsh(self.seed, op, self.q(self.ev(a[0]))) % 64) * self.ev(a[1])
        if op == "mul_add":
            return self.arith("add", self.arith("mul", self.ev(a[0]), self.ev(a[1])), self.ev(a[2]))
        if op == "powi" and isint(a[1]) and 0 <= ival(a[1]) <= 8:
            r = 1
            x = self.ev(a[0])
            for _ in range(ival(a[1])):
                r = self.arith("mul", r, x)
            return r
        return self.hashval(op, *[self.q(self.ev(x)) if isinstance(x, Term) else x for x in a])

    def mu(self, t):
        """last state of a loop: iterate while the loop goes on"""
        j, depth, cont = t.args[:3]
        k = (len(t.args) - 3) // 2
        nexts, cur = t.args[3:3 + k], [self.ev(x) for x in t.args[3 + k:]]
        for _ in range(60):
            E = Evald(self.dom, self.seed, self.style, dict(self.fixed, **{"%%mu%d.%d" % (depth, i): v for i, v in enumerate(cur)}), self.pool)
            if not E.bool(cont):
                return cur[j]
            cur = [E.ev(x) for x in nexts]
        raise Undef()

    def int_(self, op, t):
        a = [self.ev(x) if isinstance(x, Term) else x for x in t.args]
        if any(not isinstance(x, int) for x in a):
            return None
        if op in ("div", "rem"):
            if a[1] == 0:
                raise Undef()
            q = abs(a[0]) // abs(a[1])
            q = q if (a[0] < 0) == (a[1] < 0) else -q
            return q if op == "div" else a[0] - q * a[1]
        if op == "bitand":
            return a[0] & a[1]
        if op == "bitor":
            return a[0] | a[1]
        if op == "bitxor":
            return a[0] ^ a[1]
        if op == "bitnot":
            return ~a[0]
        if op in ("shl", "shr"):
            if not 0 <= a[1] < 64:
                raise Undef()
            return a[0] << a[1] if op == "shl" else a[0] >> a[1]
        if op == "abs":
            return abs(a[0])
        if op == "signum":
            return (a[0] > 0) - (a[0] < 0)
        return None

    def real(self, op, t):
        a = t.args
        m = mpmath

        def v(i):
            x = self.ev(a[i])
            if isinstance(x, (bool, tuple, str)):
                raise Undef()
            return mpf(x)
        if op == "div":
            x, y = v(0), v(1)
            if self.close(y, 0):
                raise Undef()
            return x / y
        if op == "rem":
            x, y = v(0), v(1)
            if self.close(y, 0):
                raise Undef()
            return x - y * trunc(x / y)
        if op == "sqrt":
            x = v(0)
            if x < 0:
                if self.close(x, 0):
                    return mpf(0)
                raise Undef()
            return m.sqrt(x)
        if op == "hypot":
            return m.sqrt(v(0) ** 2 + v(1) ** 2)
        if op == "atan2":
            x, y = v(0), v(1)
            if self.close(x, 0) and self.close(y, 0):
                return mpf(0)
            if self.close(x, 0):
                x = mpf(0)
            return m.atan2(x, y)
        if op in ("sin", "cos", "tan", "atan", "sinh", "cosh", "tanh", "asinh", "cbrt"):
            if op == "cbrt":
                x = v(0)
                return m.sign(x) * m.root(abs(x), 3)
            return getattr(m, op)(v(0))
        if op == "exp":
            x = v(0)
            if abs(x) > 10000:
                raise Undef()
            return m.exp(x)
        if op == "exp2":
            x = v(0)
            if abs(x) > 10000:
                raise Undef()
            return mpf(2) ** x
        if op == "exp_m1":
            return m.expm1(v(0))
        if op in ("asin", "acos", "atanh"):
            x = v(0)
            if abs(x) > 1:
                if self.close(abs(x), 1):
                    x = mpf(1) if x > 0 else mpf(-1)
                else:
                    raise Undef()
            if op == "atanh" and self.close(abs(x), 1):
                raise Undef()
            return getattr(m, op)(x)
        if op == "acosh":
            x = v(0)
            if x < 1:
                raise Undef()
            return m.acosh(x)
        if op in ("ln", "log2", "log10", "ln_1p"):
            x = v(0) + (1 if op == "ln_1p" else 0)
            if x <= 0:
                raise Undef()
            return m.log(x) / {"ln": 1, "ln_1p": 1, "log2": m.log(2), "log10": m.log(10)}[op]
        if op == "log":
            x, y = v(0), v(1)
            if x <= 0 or y <= 0 or self.close(y, 1):
                raise Undef()
            return m.log(x) / m.log(y)
        if op == "powf":
            x, y = v(0), v(1)
            if x <= 0:
                raise Undef()
            if abs(y * m.log(x)) > 10000:
                raise Undef()
            return x ** y
        if op == "powi":
            x, y = v(0), v(1)
            if y < 0 and self.close(x, 0) or abs(y) > 64:
                raise Undef()
            return x ** int(y)
        if op == "mul_add":
            return v(0) * v(1) + v(2)
        if op == "abs":
            return abs(v(0))
        if op == "signum":
            x = v(0)
            return mpf(1) if x >= 0 else mpf(-1)
        if op == "copysign":
            return abs(v(0)) * (1 if v(1) >= 0 else -1)
        if op == "max":
            return max(v(0), v(1))
        if op == "min":
            return min(v(0), v(1))
        if op == "clamp":
            return min(max(v(0), v(1)), v(2))
        if op == "abs_sub":
            return max(v(0) - v(1), mpf(0))
        if op in ("floor", "ceil", "round", "trunc", "fract"):
            x = v(0)
            n = m.nint(x)
            if self.close(x, n):
                x = n
            if op == "floor":
                return m.floor(x)
            if op == "ceil":
                return m.ceil(x)
            if op == "trunc":
                return trunc(x)
            if op == "fract":
                return x - trunc(x)
            return m.sign(x) * m.floor(abs(x) + mpf(1) / 2)
        if op == "to_degrees":
            return v(0) * 180 / m.pi
        if op == "to_radians":
            return v(0) * m.pi / 180
        if op == "is_nan":
            return bool(m.isnan(v(0)))
        if op in ("is_finite",):
            return True
        if op == "is_infinite":
            return False
        if op == "cast":
            return self.ev(a[1])
        return None


def trunc(x):
    return mpmath.floor(x) if x >= 0 else mpmath.ceil(x)


STYLES = ("gen", "gen", "gen", "unit", "unit", "small", "small", "small", "zero", "zero", "zero", "eq", "pos", "pos", "pool", "pool", "pool", "pool")
