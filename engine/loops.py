"""Summaries of loops whose continuation depends on what an opaque object answers (rejection sampling).

One iteration is interpreted from an arbitrary state of the places the loop changes. With h the changed places, c(h) the
condition to go on, n(h) their next values and i their values on entry, the state in which the last iteration starts is the
term mu(c, n, i); everything after the loop is the iteration's exit, at that state. Partial correctness: that the loop ends
at all is not claimed."""
from .program import *
from .values import *
from .interp import Abrupt, Catch


class NotSummarizable(Unknown):
    pass


def leaves(v, path=()):
    if isinstance(v, (Term, Opq)):
        yield path, v
    elif isinstance(v, (Adt, It)):
        for i, x in enumerate(v.fs):
            yield from leaves(x, path + (("f" if isinstance(v, Adt) else "n", i),))
    elif isinstance(v, Arr):
        for i, x in enumerate(v.es):
            yield from leaves(x, path + (("i", num(i)),))


def changed(a, b, path=()):
    """paths of the leaves of a that differ in b"""
    if a is b:
        return
    if isinstance(a, (Term, Opq)):
        if type(a) is type(b) and veq(a, b):
            return
        if type(a) is not type(b):
            raise NotSummarizable("loop changes the shape of a value")
        yield path
        return
    if type(a) is not type(b):
        raise NotSummarizable("loop changes the shape of a value")
    if isinstance(a, (Adt, It)):
        if isinstance(a, Adt) and (a.d, a.v) != (b.d, b.v) or isinstance(a, It) and (a.k, a.x) != (b.k, b.x) or len(a.fs) != len(b.fs):
            raise NotSummarizable("loop changes the shape of a value")
        for i, (x, y) in enumerate(zip(a.fs, b.fs)):
            yield from changed(x, y, path + (("f" if isinstance(a, Adt) else "n", i),))
        return
    if isinstance(a, Arr):
        if len(a.es) != len(b.es):
            raise NotSummarizable("loop changes the shape of a value")
        for i, (x, y) in enumerate(zip(a.es, b.es)):
            yield from changed(x, y, path + (("i", num(i)),))
        return
    if not veq(a, b):
        raise NotSummarizable("loop changes %s" % type(a).__name__)


def height(ts, memo=None):
    """nesting of mu binders in the terms"""
    memo = {} if memo is None else memo
    r = 0
    for t in ts:
        if isinstance(t, Term):
            h = memo.get(t)
            if h is None:
                memo[t] = 0
                h = height(t.args, memo)
                if t.op == "mu":
                    h = max(h, t.args[1])
                memo[t] = h
            r = max(r, h)
    return r


def match(p, t, bound, var, seen):
    """one-sided matching of the term p with variables var against t"""
    if p in var:
        if p in bound:
            return bound[p] is t
        bound[p] = t
        return True
    if p is t:
        # a variable below would have to be bound to itself
        return not mentions(p, lambda x: x in var)
    if not isinstance(p, Term) or not isinstance(t, Term) or p.op != t.op or len(p.args) != len(t.args):
        return not isinstance(p, Term) and not isinstance(t, Term) and p == t
    if seen.get(p) is t:
        return True
    for x, y in zip(p.args, t.args):
        if not match(x, y, bound, var, seen):
            return False
    seen[p] = t
    return True


def solution(hs, cont, nexts, inits):
    """the places' values when the last iteration starts, as mu terms.

    A loop that is entered with the values one more iteration would have left (`x = next(); while !good(x) { x = next() }`)
    is written as the loop that starts one iteration earlier and tests at the end, so that both ways to write it agree.
    Only the places that the condition and the place itself depend on take part."""
    out = {h: h for h in hs}
    for _ in range(4):
        dep = {h: {x for x in hs if mentions(n, lambda t, x=x: t is x)} for h, n in zip(hs, nexts)}
        free = set().union(*dep.values()) if dep else set()
        if len(free) >= len(hs):
            break
        bound, seen = {}, {}
        if not all(match(n, i, bound, free, seen) for n, i in zip(nexts, inits)) or set(bound) != free:
            break
        step = dict(zip(hs, nexts))
        out = {h: subst(x, step) for h, x in out.items()}
        cont = subst(cont, step)
        keep = [j for j, h in enumerate(hs) if h in free]
        hs, nexts, inits = [hs[j] for j in keep], [nexts[j] for j in keep], [bound[hs[j]] for j in keep]
    dep = {h: {x for x in hs if mentions(n, lambda t, x=x: t is x)} for h, n in zip(hs, nexts)}

    def closure(s):
        s = set(s)
        while True:
            t = s.union(*[dep[h] for h in s]) if s else s
            if t == s:
                return s
            s = t
    base = {h for h in hs if mentions(cont, lambda t, h=h: t is h)}
    # bound names depend on the nesting only, so that equal loops are equal terms
    k = height([cont] + list(nexts)) + 1
    m = {}
    for h in hs:
        part = closure(base | {h})
        idx = [j for j, x in enumerate(hs) if x in part]
        names = {hs[j]: sym("%%mu%d.%d" % (k, n)) for n, j in enumerate(idx)}
        memo = {}
        m[h] = Term("mu", [hs[j] for j in idx].index(h), k, subst(cont, names, memo), *([subst(nexts[j], names, memo) for j in idx] + [inits[j] for j in idx]))
    memo = {}
    return {h: subst(x, m, memo) for h, x in out.items()}


def summarize(I, fr, e, label, n0):
    entry = I.st
    roots = list(entry.vals)
    havoc = []      # (root, path)
    npan, nev = len(I.panics), len(I.events)
    for rnd in range(8):
        del I.panics[npan:], I.events[nev:]
        st = entry.copy()
        I.st = st
        hs = []
        for j, (r, p) in enumerate(havoc):
            h = fresh_var("mu")
            old = I.read(r, p)
            I.write(r, p, Opq(old.name, h, old.ty) if isinstance(old, Opq) else h)
            hs.append(h)
        start = I.st.copy()
        before = {k: len(c.outs) for k, c in fr.labels.items() if c is not None}
        nret = len(fr.ret.outs)
        brk = fr.labels[label] = Catch(len(fr.mur))
        ct = fr.conts[label] = Catch(len(fr.mur))
        outs = []
        try:
            I.eval(fr, e["e"])
            outs.append((I.st, UNIT))
        except Abrupt:
            pass
        outs = ct.outs + outs
        rets = fr.ret.outs[nret:]
        del fr.ret.outs[nret:]
        if rets and brk.outs or any(len(c.outs) != before[k] for k, c in fr.labels.items() if c is not None and k != label and k in before):
            raise NotSummarizable("loop left in several ways")
        left = brk.outs or rets
        if not outs:
            raise NotSummarizable("loop without continuation")
        I.join(list(outs), n0)
        nxt = I.st
        new = []
        for r in roots:
            if nxt.vals.get(r) is not start.vals.get(r):
                for p in changed(start.vals[r], nxt.vals[r]):
                    if (r, p) not in havoc:
                        new.append((r, p))
        if not new:
            break
        havoc += new
    else:
        raise NotSummarizable("loop state not stable")
    for g, kind, where in I.panics[npan:]:
        raise NotSummarizable("panic inside the loop: %s" % kind)
    if not left:
        # whatever the state, no iteration leaves the loop
        I.st = entry
        I.panic("endless loop", e.get("sp"))
    cont = TRUE
    for c in nxt.guard[n0:]:
        cont = t_and(cont, c)
    if not any(mentions(cont, lambda t, h=h: t is h) for h in hs):
        # nothing an iteration changes decides whether to go on
        I.panics.append((entry.guard + ((cont,) if isinstance(entry.guard, tuple) else [cont]), "endless loop", I.where(e.get("sp"))))
    nexts, inits = [], []
    I.st = nxt
    for r, p in havoc:
        v = I.read(r, p)
        nexts.append(v.ver if isinstance(v, Opq) else v)
    I.st = entry
    for r, p in havoc:
        v = I.read(r, p)
        inits.append(v.ver if isinstance(v, Opq) else v)
    m = solution(hs, cont, nexts, inits)
    st, v = I._join(list(left), n0)
    # leaving is certain once the loop has run: its exit condition holds at the last state
    st = st.copy()
    st.guard = entry.guard
    st.vals = {r: vsubst(x, m) for r, x in st.vals.items()}
    v = vsubst(v, m)
    if rets:
        fr.ret.outs.append((st, v))
        raise Abrupt()
    I.st = st
    return v


def forall(I, n, f):
    raise Unknown("forall over a symbolic range")


def tabulate(I, n, f):
    raise Unknown("tabulate over a symbolic range")
