"""Obligations: pairs `f__l` (library) / `f__r` (specification) in a probe crate, compared in the
value-numbering domain for every instantiation of their constant parameters."""
import itertools
import sys
import time
from .program import *
from .values import *
from .interp import Interp, Abrupt
from . import nf, natives, fmtrand

sys.setrecursionlimit(200000)

FNTRAITS = {"core::ops::function::FnMut", "core::ops::function::Fn", "core::ops::function::FnOnce"}
OPAQUE_TRAITS = {"core::iter::traits::iterator::Iterator", "rand::rng::Rng", "rand_core::RngCore", "rand::distributions::distribution::Distribution"}


class Outcome:
    def __init__(self, name, dims, verdict, why="", where=None, stats=None):
        self.name, self.dims, self.verdict, self.why, self.where = name, dims, verdict, why, where
        self.stats = stats or {}

    def key(self):
        return self.name + (("<" + ",".join("%s=%d" % d for d in self.dims) + ">") if self.dims else "")


class Run:
    """summary of one function on symbolic inputs"""

    def __init__(self, P, body, dims, prims=None, mode=None, own=None, uncertain=False, overflow=None):
        self.I = I = Interp(P)
        I.own = own
        I.overflow = overflow
        I.uncertain = uncertain
        I.real = mode == "field"
        env = {}
        for n, c in zip(body.generics, body.gconst):
            if c:
                env[n] = ("c", num(dims[n])) if n in dims else ("cparam", n)
        if prims:
            env.update(prims)
        self.env = env
        fnp, opq = {}, {}
        for p in body.j["preds"]:
            if p["k"] == "trait":
                s = ty_of(p["a"][0])
                if s[0] == "param":
                    if p["d"] in FNTRAITS:
                        fnp.setdefault(s[1], []).append(last(p["d"]))
                    elif p["d"] in OPAQUE_TRAITS:
                        opq.setdefault(s[1], []).append(p["d"])
        outs = {}
        for p in body.j["preds"]:
            if p["k"] == "proj":
                a = [ty_of(x) for x in p["a"]]
                if a[0][0] == "param":
                    outs[a[0][1]] = P.norm(ty_of(p["t"]), env)
        self.fnp, self.opq, self.outs = fnp, opq, outs
        I.opaque_params = {n: outs.get(n) for n in opq}
        self.slen = dims.get("[]")
        self.args = []
        self.names = []
        for p in body.params:
            pat = p["p"]
            nm = pat.get("name") if pat and pat["k"] == "bind" else "_%d" % len(self.args)
            t = P.norm(ty_of(p["ty"]), env)
            self.names.append((nm, t))
            self.args.append(self.make(t, nm))
        self.result, self.diverges, self.err = None, False, None
        try:
            try:
                self.result = I.resolve(I.call_body(body, env, self.args))
            except Abrupt:
                self.diverges = True
        except (Unknown, RecursionError, Budget) as e:
            self.err = "%s: %s" % (type(e).__name__, e)
        pc = FALSE
        for g, kind, where in I.panics:
            t = TRUE
            for c in g:
                t = t_and(t, c)
            pc = t_or(pc, t)
        self.panic = pc

    def make(self, t, nm):
        I = self.I
        if t[0] == "param" and t[1] in self.fnp:
            k = self.fnp[t[1]]
            return Opq(("pure:" if "Fn" in k and "FnMut" not in k and "FnOnce" not in k else "") + nm, sym(nm), self.outs.get(t[1]))
        if t[0] == "param" and t[1] in self.opq:
            return Opq(nm, sym(nm), self.outs.get(t[1]))
        if t[0] == "adt" and t[1] == fmtrand.FORMATTER:
            return fmtrand.formatter(nm)
        if t[0] == "ref":
            return Ref(I.new_root(self.make(t[1], nm)), ())
        if t[0] == "slice" and self.slen is not None:
            return Arr([I.symval(t[1], sym("%s.%d" % (nm, i))) for i in range(self.slen)])
        if t[0] == "adt" and t[1] == "core::array::iter::IntoIter" and t[2][1][0] == "c":
            n = ival(t[2][1][1])
            return It("arr", (Arr([I.symval(t[2][0], sym("%s.%d" % (nm, i))) for i in range(n)]), ZERO, num(n)))
        mark(t, nm)
        return I.symval(t, sym(nm))

    def snapshot(self, v):
        """value with references replaced by what they point to"""
        I = self.I
        if isinstance(v, Ref):
            return Adt("&", 0, (self.snapshot(I.deref(v)),))
        if isinstance(v, Adt):
            return Adt(v.d, v.v, [self.snapshot(x) for x in v.fs])
        if isinstance(v, Arr):
            return Arr([self.snapshot(x) for x in v.es])
        if isinstance(v, VIte):
            return merge(v.c, self.snapshot(v.a), self.snapshot(v.b))
        if isinstance(v, Lam):
            return Lam(v.n, v.var, self.snapshot(v.body))
        return v

    def effects(self):
        r = []
        for (nm, t), a in zip(self.names, self.args):
            if t[0] == "ref" and (t[2] or True):
                r.append(self.snapshot(a))
        return Arr(r)


def mark(t, nm):
    if t == ("prim", "usize"):
        nf.INDEX.add(nm)
    if t[0] == "tup":
        for i, x in enumerate(t[1]):
            mark(x, "%s.%d" % (nm, i))
    if t[0] == "arr" and t[2][0] == "c":
        for i in range(ival(t[2][1])):
            mark(t[1], "%s.%d" % (nm, i))


MODES = {
    "free": dict(comm=False, field=False, real=False, free=True),
    "exact": dict(comm=False, field=False, real=False),
    "ring": dict(comm=True, field=False, real=False),
    "field": dict(comm=True, field=True, real=True),
    "int": dict(comm=True, field=False, real=False, ints=True),
}
DOMS = {"free": ("free",), "exact": ("mat", "ring"), "ring": ("ring",), "field": ("real",), "int": ("int",)}


class Cmp:
    def __init__(self, mode, styles=nf.STYLES):
        self.mode = mode
        self.styles = styles
        self.D = nf.Decider(**MODES[mode])
        self.leaves = 0
        self.bad = []

    def pairs(self, a, b, lits, path):
        """yields leaf comparisons"""
        if isinstance(a, VIte) or isinstance(b, VIte):
            c = a.c if isinstance(a, VIte) else b.c
            acc = []
            nf.conds_of_bool(c, acc, set())
            c = acc[0]
            d = self.D.decide(c, list(lits))
            if d == "infeasible":
                return
            for v in (True, False):
                if d is not None and d != v:
                    continue
                m = {c: boolt(v)}
                yield from self.pairs(vsubst(a, m), vsubst(b, m), lits + ((c, v),), path)
            return
        if isinstance(a, Term) and isinstance(b, Term):
            yield (a, b, lits, path)
            return
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.es) == len(b.es):
            for i, (x, y) in enumerate(zip(a.es, b.es)):
                yield from self.pairs(x, y, lits, path + "[%d]" % i)
            return
        if isinstance(a, Adt) and isinstance(b, Adt) and len(a.fs) == len(b.fs) and a.v == b.v:
            for i, (x, y) in enumerate(zip(a.fs, b.fs)):
                yield from self.pairs(x, y, lits, path + ".%d" % i)
            return
        if isinstance(a, Adt) and isinstance(b, Arr) and len(a.fs) == len(b.es) or isinstance(a, Arr) and isinstance(b, Adt) and len(a.es) == len(b.fs):
            fa = a.fs if isinstance(a, Adt) else a.es
            fb = b.fs if isinstance(b, Adt) else b.es
            for i, (x, y) in enumerate(zip(fa, fb)):
                yield from self.pairs(x, y, lits, path + ".%d" % i)
            return
        if isinstance(a, Opq) and isinstance(b, Opq):
            yield (a.ver, b.ver, lits, path)
            return
        if isinstance(a, Str) and isinstance(b, Str):
            yield (boolt(a.s == b.s), TRUE, lits, path)
            return
        if isinstance(a, Bot) or isinstance(b, Bot):
            return
        if type(a) is type(b) and veq(a, b):
            return
        yield (TRUE, FALSE, lits, path + " shape: %r vs %r" % (a, b))

    def compare(self, a, b, lits=(), path=""):
        """True / list of undecided or separated leaves"""
        for x, y, l, p in self.pairs(a, b, lits, path):
            self.leaves += 1
            try:
                ok = self.D.eq_terms(x, y, list(l))
            except nf.TooBig:
                ok = False
            if not ok:
                self.bad.append((x, y, l, p))
        return not self.bad

    def separate(self, seed, panic=None):
        """random interpretation on the leaves not proved equal"""
        for x, y, l, p in self.bad:
            pool = consts_of((x, y) + tuple(c for c, _ in l))
            for dom in DOMS[self.mode]:
                for k, style in enumerate(self.styles + self.odd(x, y, l, pool)):
                    E = nf.Evald(dom, (seed, k), style, pool=pool)
                    try:
                        if not all(E.bool(c) == v for c, v in l):
                            continue
                        if panic is not None and E.bool(panic):
                            continue
                    except nf.Undef:
                        continue
                    try:
                        vy = E.ev(y)
                    except (nf.Undef, OverflowError, ZeroDivisionError):
                        continue
                    try:
                        vx = E.ev(x)
                    except (nf.Undef, OverflowError, ZeroDivisionError):
                        return (p, x, y, self.point(E, x, y), "undefined", vy)
                    if not same(E, vx, vy):
                        return (p, x, y, self.point(E, x, y), vx, vy)
        return None

    def odd(self, x, y, l, pool):
        names = set()
        for t in (x, y) + tuple(c for c, _ in l):
            nf_syms(t, names)
        names = sorted(names)[:40]
        return tuple(("odd", n, b) for n in names for b in range(min(len(pool), 2) + 3)) + tuple(("pair", n, 0) for n in [None] * 8 + names)

    def point(self, E, *ts):
        names = set()
        for t in ts:
            nf_syms(t, names)
        r = {}
        for n in sorted(names):
            try:
                r[n] = short(E.symbol(n))
            except Exception:
                pass
        return r


def same(E, x, y):
    if isinstance(x, tuple) and not isinstance(x, nf.Mat) or isinstance(y, tuple) and not isinstance(y, nf.Mat):
        return x == y
    return E.close(x, y)


def short(v):
    if nf.mpmath and isinstance(v, nf.mpmath.mpf):
        return nf.mpmath.nstr(v, 12)
    if isinstance(v, nf.Mat):
        return list(v)
    return str(v)


def consts_of(ts):
    seen, r, st = set(), [], list(ts)
    while st:
        t = st.pop()
        if not isinstance(t, Term) or t in seen:
            continue
        seen.add(t)
        if t.op in ("num", "const"):
            r.append(t)
        st.extend(t.args)
    return sorted(r, key=repr)[:12]


def nf_syms(t, acc, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(t, Term) or t in seen:
        return
    seen.add(t)
    if t.op == "sym" and t.args[0][0] != "%":
        acc.add(t.args[0])
    for x in t.args:
        nf_syms(x, acc, seen)


def bad_fact(I, mode, seed):
    """an unsafe operation whose requirement is violated on a feasible path, or None"""
    for kind, cond, detail, where, guard, approx in I.events:
        if cond is TRUE or approx:
            continue
        D = nf.Decider(**MODES[mode])
        for dom in DOMS[mode]:
            for k, style in enumerate(nf.STYLES):
                E = nf.Evald(dom, (seed, k), style)
                try:
                    if all(E.bool(c) for c in guard) and not E.bool(cond):
                        return kind, detail, where, {}
                except (nf.Undef, OverflowError, ZeroDivisionError):
                    pass
    return None


TOTAL = ("Ord", "Eq", "Integer", "PrimInt")


def partial(body):
    """may the elements be incomparable? (their type is a parameter that promises no total order)"""
    ps = {}
    for p in body.j["preds"]:
        if p["k"] == "trait":
            s = ty_of(p["a"][0])
            if s[0] == "param":
                ps.setdefault(s[1], set()).add(last(p["d"]))
    return bool(ps) and all(not ts & set(TOTAL) for ts in ps.values()) and any(ts & {"PartialOrd", "PartialEq", "Float", "FloatCore"} for ts in ps.values())


def decide_pair(P, name, mode, lb, rb, dims, seed, prims=None):
    dims = dict(dims)
    dt = tuple(sorted(dims.items()))
    R = Run(P, rb, dims, prims, mode)
    if R.err:
        return Outcome(name, dt, "undecided", "specification side: " + R.err)
    if (R.panic is TRUE or R.diverges) and any(v == 0 for n, v in dims.items() if n not in ("I", "J", "L", "[]")):
        return Outcome(name, dt, "proved", "the specification has no value without elements")
    L = Run(P, lb, dims, prims, mode)
    I = L.I
    st = {"fns": sorted(I.visited), "calls": I.callsites, "panics": sorted(set((k, w) for _, k, w in I.panics)),
          "facts": [(k, "held" if c is TRUE else "open", d, w) for k, c, d, w, g, ap in I.events]}
    bf = bad_fact(I, mode, seed)
    if bf:
        return Outcome(name, dt, "violated", "undefined behaviour: %s requirement fails: %s" % (bf[0], bf[1]), bf[2], st)
    if L.err:
        return Outcome(name, dt, "undecided", L.err, stats=st)
    C = Cmp(mode, nf.STYLES + ("nan",) * 4 if "nan" in name.split("::")[1].split("_") or mode == "free" and partial(lb) else nf.STYLES)
    try:
        C.compare(L.panic, R.panic, (), "may-panic condition")
        if L.diverges or R.diverges:
            if L.diverges != R.diverges:
                C.bad.append((boolt(L.diverges), boolt(R.diverges), (), "always panics (%s)" % ", ".join(k for k, _ in st["panics"])))
        else:
            # results matter only where neither side panics
            np = () if L.panic is FALSE or L.panic is TRUE else ((L.panic, False),)
            C.compare(L.snapshot(L.result), R.snapshot(R.result), np, "result")
            C.compare(L.effects(), R.effects(), np, "effect on arguments")
    except (Unknown, RecursionError, Budget) as e:
        return Outcome(name, dt, "undecided", "comparison: %s: %s" % (type(e).__name__, e), stats=st)
    st["leaves"] = C.leaves
    if not C.bad:
        if any(f[1] != "held" for f in st["facts"]):
            return Outcome(name, dt, "undecided", "requirement of an unsafe operation not established: %s" % [f for f in st["facts"] if f[1] != "held"][:2], stats=st)
        return Outcome(name, dt, "proved", stats=st)
    try:
        Clock.end = time.time() + 30
        s = C.separate(seed)
    except (RecursionError, Budget):
        s = None
    if s is None:
        p, x, y, l = C.bad[0][3], C.bad[0][0], C.bad[0][1], C.bad[0][2]
        return Outcome(name, dt, "undecided", "%s: %s  vs  %s" % (p, show(x, 30), show(y, 30)), stats=st)
    p, x, y, pt, vx, vy = s
    return Outcome(name, dt, "violated", "%s differs: code computes %s, specification %s; at %s the code gives %s, the specification %s"
                   % (p, show(x, 7)[:600], show(y, 7)[:600], pt, short(vx), short(vy)), stats=st)


def pairs_of(P, crate):
    """(name, mode, l, r) for every obligation of a probe crate"""
    ls = {}
    for d, b in P.bodies.items():
        if b.crate == crate and b.kind in ("fn", "Fn", "AssocFn") and (d.endswith("__l") or d.endswith("__r")):
            ls.setdefault(d[:-3], {})[d[-1]] = b
    for n in sorted(ls):
        yield n, ls[n].get("l"), ls[n].get("r")
