"""Sweeps over every function that users of the library can call: each is summarised on symbolic arguments, and the requirements
of the unsafe operations it reaches (C01) or the ownership ledger (C02) are decided."""
import glob
import itertools
import json
import re
import multiprocessing
import os
import shutil
import time
import traceback
from . import build, nf, oblig, own, run
from .program import *
from .values import *
from .interp import Abrupt

_S = {}

# functions of the formatting machinery that expand to unsafe constructors without requirements of their own
FORMAT = ("core::fmt::",)


def copy_params(body):
    r = set()
    for p in body.j["preds"]:
        if p["k"] == "trait" and p["d"] == "core::marker::Copy":
            t = ty_of(p["a"][0])
            if t[0] == "param":
                r.add(t[1])
    # supertraits of scalar bounds that imply Copy
    for p in body.j["preds"]:
        if p["k"] == "trait" and p["d"].rsplit("::", 1)[1] in ("Float", "PrimInt", "FloatCore", "AsPrimitive", "SampleUniform"):
            t = ty_of(p["a"][0])
            if t[0] == "param" and not p["d"].endswith("SampleUniform"):
                r.add(t[1])
    return r


def unsafe_sites(P, b):
    """(what, span) of the unsafe operations written in body b"""
    r = []
    for e in b.exprs:
        if e["k"] == "call" and e.get("us"):
            t = ty_of(e["fty"])
            n = norm_name(t[1]) if t[0] == "fndef" else "function pointer"
            if n.startswith(FORMAT):
                continue
            r.append((n, e["sp"]))
        if e["k"] == "deref" and b.ety(e["e"])[0] == "ptr":
            r.append(("dereference of a raw pointer", e["sp"]))
        if e["k"] == "static":
            r.append(("static", e["sp"]))
    return r


def fns(P):
    return [b for b in P.bodies.values() if b.crate == "vecmat" and b.kind in ("fn", "Fn", "AssocFn")]


def callees(P):
    """call graph over vecmat (resolved where the type names an implementation)"""
    g = {}
    for b in P.bodies.values():
        if b.crate != "vecmat":
            continue
        s = set()
        for e in b.exprs:
            for k in ("fty", "ty"):
                if k in e and isinstance(e[k], dict) and e[k].get("k") in ("fndef", "closure"):
                    t = ty_of(e[k])
                    s.add(t[1])
                    if t[0] == "fndef" and t[3]:
                        m = P.find_impl(t[3], tuple(t[2][:t[4]]))
                        if m:
                            for it in m[0]["items"]:
                                if it["n"] == last(t[1]):
                                    s.add(it["d"])
        g[b.d] = s
    return g


def reach_unsafe(P, sites):
    """functions from which one that contains unsafe operations can be reached"""
    g = callees(P)
    r = set(sites)
    todo = True
    while todo:
        todo = False
        for d, s in g.items():
            if d not in r and s & r:
                r.add(d)
                todo = True
    return r


def dims_for(P, body, tier, direct, lits=()):
    """instantiations; functions that contain unsafe operations themselves get more of them"""
    cs = [g for g, c in zip(body.generics, body.gconst) if c]
    k = len(cs)
    lo = 0
    hi = {0: 0, 1: 5 if direct else 4, 2: 3 if direct else 2}.get(k, 2) + (1 if tier == "thorough" else 0)
    out = [tuple(zip(cs, ds)) for ds in itertools.product(range(lo, hi + 1), repeat=k)]
    quick = tier == "quick"
    more = []
    if k == 1:
        square = re.search("Matrix|Linear|Affine|Chain|::(matrix|linear|affine|chain|rotation)::", json.dumps([p.get("ty") for p in body.params]) + body.d)
        more = [5, 6, 7, 8, 9, 12, 16, 17] if quick else list(range(5, 18)) + [24, 31, 32, 33]
        more = [n for n in more if n <= ((4 if quick else 5) if square else 12 if iters_of(body) else 40)]
        more += [n for c in lits for n in (c, c + 1) if not square or n <= 6]
        more = [(n,) for n in more]
    if k == 2:
        more = [(1, 3), (3, 1), (2, 3), (3, 2), (1, 5), (5, 2), (2, 5), (1, 7), (7, 1), (4, 5), (8, 2), (2, 9)]
        if not quick:
            more += [(1, 16), (17, 1), (6, 6)]
        more += [d for c in lits for d in ((c, 1), (1, c), (c + 1, 2), (2, c + 1))]
        if iters_of(body):
            more = [d for d in more if d[0] * d[1] <= 10]
    if k == 3:
        more = [(3, 2, 1), (1, 3, 2), (2, 1, 3), (3, 4, 5)]
        more += [d for c in lits for d in ((c + 1, 1, 2), (2, c + 1, 1), (1, 2, c + 1))]
    for ds in more:
        d = tuple(zip(cs, ds))
        if d not in out:
            out.append(d)
    if any(has_slice(ty_of(p["ty"])) for p in body.params):
        out = [d + (("[]", n),) for d in out for n in sorted({0, 1, 2, prod(d), prod(d) + 1})]
    if bounded(body):
        out = [d + (("iter", n),) for d in out for n in (0, 1, 2)]
    return out


def prod(d):
    r = 1
    for _, x in d:
        r *= x
    return r


def has_slice(t):
    return t[0] == "slice" or t[0] == "ref" and has_slice(t[1])


def bounded(body):
    """functions that exhaust an iterator: summarised on iterators of given lengths"""
    return body.name in ("sum", "product") and iters_of(body)


def iters_of(body):
    return [ty_of(p["a"][0])[1] for p in body.j["preds"] if p["k"] == "trait" and p["d"].endswith("iterator::Iterator") and ty_of(p["a"][0])[0] == "param"]


def run_one(task):
    i, d, dims, what, seed, budget = task
    P = _S["P"]
    b = P.bodies[d]
    t0 = time.time()
    Clock.end = t0 + budget
    try:
        r = run.in_big_thread(analyse, P, b, dims, what, seed)
    except BaseException:
        r = dict(verdict="undecided", why=traceback.format_exc()[-400:], where=None)
    key = norm_key(d) + ("<" + ",".join("%s=%d" % x for x in dims) + ">" if dims else "")
    r.update(name=norm_key(d), dims=dims, key=key, t=time.time() - t0, i=i, crate="vecmat", entry=b.sp)
    return r


def lengths(P, b, dd):
    """iterator parameters with a given number of items"""
    if "iter" not in dd:
        return None
    prims = {}
    for n in iters_of(b):
        it = next((ty_of(p["t"]) for p in b.j["preds"] if p["k"] == "proj" and p["d"].endswith("Iterator::Item") and ty_of(p["a"][0]) == ("param", n)), None)
        if it is None:
            return False
        env = {g: ("c", num(dd[g])) for g, c in zip(b.generics, b.gconst) if c}
        prims[n] = ("adt", "core::array::iter::IntoIter", (P.norm(it, env), ("c", num(dd["iter"]))))
    return prims


def shape_of(t):
    """(rows, columns) or (length,) of the vector or matrix behind a reference"""
    while t[0] == "ref":
        t = t[1]
    if t[0] != "adt":
        return None
    ds = tuple(ival(a[1]) for a in t[2] if a[0] == "c" and a[1].op == "num")
    return ds or None


def positions(R):
    """the argument that names a position and the positions that exist; None when the function takes none"""
    sh = shape_of(R.names[0][1]) if R.names else None
    if sh is None:
        return None
    usz = ("prim", "usize")
    xs = []
    for nm, t in R.names[1:]:
        if t == usz:
            xs.append(sym(nm))
        elif t[0] == "tup" and t[1] and all(x == usz for x in t[1]):
            xs += [sym("%s.%d" % (nm, i)) for i in range(len(t[1]))]
    # a row or a component, a column, or a place in a matrix
    return (xs, sh) if len(xs) in (1, len(sh)) else None


# what has no value without any element: the first element of a fold, extremes, sums by folding, norms, products over a contracted
# dimension, normalised samples - and what is defined through them
NEEDS_ELEMENT = {"fold_first", "sum", "max", "min", "norm_l1", "norm_l2", "norm_l2_sqr", "norm_l_inf", "dot", "square_length", "length", "normalize",
                 "apply_dir", "apply_normal", "sample", "cofactor"}
# documented as not implemented: they exist because num_traits::Num requires them
UNIMPLEMENTED = {("vecmat::complex::quaternion::Quaternion", "rem"), ("vecmat::complex::quaternion::Quaternion", "from_str_radix")}


def self_adt(P, b):
    for i in P.all_impls:
        if any(it.get("d") == b.d for it in i["items"]):
            t = ty_of(i["self"])
            return t[1] if t[0] == "adt" else None
    return None


def elements(P, b):
    """primitive types that occur as type arguments in the signature: operations on them are operations of the elements"""
    out = set()

    def walk(t, inside):
        if t[0] == "prim":
            if inside:
                out.add(t[1])
        elif isinstance(t, tuple):
            for x in t[1:]:
                for y in x if isinstance(x, (list, tuple)) and x and not isinstance(x[0], str) else (x,):
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        walk(y, inside or t[0] == "adt")
    for p in b.params:
        walk(ty_of(p["ty"]), False)
    for i in P.all_impls:
        if any(it.get("d") == b.d for it in i["items"]):
            walk(ty_of(i["self"]), True)
    return frozenset(out)


def returns(P, b, dims, seed):
    """no panic and no endless loop or recursion, element operations and callbacks returning"""
    dd = dict(dims)
    prims = lengths(P, b, dd)
    if prims is False:
        return dict(verdict="undecided", why="item type of an iterator", where=None)
    R = oblig.Run(P, b, dd, prims, "exact", overflow=elements(P, b))
    if R.err:
        # with branches that contradict each other over the reals left out
        R = oblig.Run(P, b, dd, prims, "field", overflow=elements(P, b))
    I = R.I
    st = dict(fns=sorted(I.visited), calls=I.callsites, panics=sorted({(str(k), w) for g, k, w in I.panics}))
    if R.err:
        return dict(verdict="undecided", why=R.err, where=None, **st)
    if R.panic is FALSE:
        return dict(verdict="proved", why="", where=None, **st)
    if b.name in NEEDS_ELEMENT and any(x == 0 for n, x in dims if n not in ("[]", "iter")):
        return dict(verdict="proved", why="needs an element", where=None, **st)
    if (self_adt(P, b), b.name) in UNIMPLEMENTED:
        return dict(verdict="proved", why="documented as not implemented", where=None, **st)
    cases = [({}, "")]
    pos = positions(R)
    if pos:
        xs, sh = pos
        if len(xs) == 1 and len(sh) == 2:
            sh = (sh[1] if b.name.startswith("col") else sh[0],)
        cases = [(dict(zip(xs, map(num, ix))), " at position %s" % (ix,)) for ix in itertools.product(*map(range, sh))]
    und = None
    for m, at in cases:
        bad = FALSE
        for g, kind, where in I.panics:
            t = TRUE
            for c in g:
                t = t_and(t, subst(c, m, {}))
            if t is FALSE:
                continue
            C = oblig.Cmp("field", nf.STYLES + ("nan",) * 4 + ("pool",) * 20)
            if C.compare(t, FALSE):
                continue
            s = C.separate(seed)
            if s is None:
                und = "%s at %s when %s" % (kind, where, oblig.show(t, 12)[:300])
                continue
            return dict(verdict="violated", why="%s%s%s, at %s" % (kind, at, "" if t is TRUE else " when " + oblig.show(t, 8)[:300], s[3]), where=where, **st)
    if und:
        return dict(verdict="undecided", why=und, where=None, **st)
    return dict(verdict="proved", why="", where=None, **st)


def norm_key(d):
    return d


def analyse(P, b, dims, what, seed):
    if what == "panic":
        return returns(P, b, dims, seed)
    o = own.Own(P, copy_params(b)) if what == "own" else None
    dd = dict(dims)
    prims = lengths(P, b, dd)
    if prims is False:
        return dict(verdict="undecided", why="item type of an iterator", where=None)
    R = oblig.Run(P, b, dd, prims, "field", own=o, uncertain=True)
    I = R.I
    sites = sorted({(k, w) for k, c, det, w, g, ap in I.events if k != "own"})
    st = dict(fns=sorted(I.visited), calls=I.callsites, facts=[(k, "held" if c is TRUE else "open", det, w) for k, c, det, w, g, ap in I.events if k != "own"])
    bf = oblig.bad_fact(I, "int", seed)
    if bf:
        return dict(verdict="violated", why="undefined behaviour: %s requirement fails: %s" % (bf[0], bf[1]), where=bf[2], **st)
    if R.err:
        return dict(verdict="undecided", why=R.err, where=None, **st)
    opn = [f for f in st["facts"] if f[1] != "held"]
    if what == "safe":
        al = exclusive(P, b, R, seed)
        if al:
            return dict(verdict="violated", why="undefined behaviour: " + al, where=b.sp, **st)
        if opn:
            return dict(verdict="undecided", why="requirement of an unsafe operation not established: %s" % (opn[:2],), where=None, **st)
        return dict(verdict="proved", why="", where=None, **st)
    if o.unknown:
        return dict(verdict="undecided", why=o.unknown, where=None, **st)
    try:
        end, checks = own.balance(I)
    except own.OwnUnknown as e:
        return dict(verdict="undecided", why=str(e), where=None, **st)
    st["leaves"] = len(end) + len(checks)
    und = None

    def real(x, t):
        """for an element whose type needs to be dropped (ownership of the others does not matter)"""
        k = o.kind.get(x)
        return subst(t, {Term("trivial", Term("str", I.tname(k))): FALSE}) if k else t
    for x, es in end.items():
        C = oblig.Cmp("int")
        if C.compare(real(x, own.sum_term([(c, s) for c, s, w, wh in es])), ZERO):
            continue
        s = C.separate(seed)
        if s is None:
            und = "ownership of %s: %s" % (nf_show(x), [w for _, _, w, _ in es])
            continue
        n = s[4]
        kind = "is owned once too often (dropped twice)" if n != "undefined" and n > 0 else "is lost without being dropped"
        where = next((wh for c, sg, w, wh in es if (sg > 0) == (n != "undefined" and n > 0)), es[0][3])
        return dict(verdict="violated", why="element %s %s; ledger: %s; at %s" % (nf_show(x), kind, "; ".join("%+d %s (%s)" % (sg, w, wh) for c, sg, w, wh in es), s[3]),
                    where=where, **st)
    for x, t, g, w, wh in checks:
        C = oblig.Cmp("int")
        if C.compare(real(x, t_cmp("le", t, ZERO)), TRUE, tuple((real(x, c), True) for c in g)):
            continue
        s = C.separate(seed)
        if s is None:
            und = "ownership of %s when control unwinds from %s" % (nf_show(x), w)
            continue
        return dict(verdict="violated", why="element %s has two owners when control unwinds from %s: it would be dropped twice; at %s" % (nf_show(x), w, s[3]), where=wh, **st)
    if und:
        return dict(verdict="undecided", why=und, where=None, **st)
    return dict(verdict="proved", why="", where=None, **st)


def exclusive(P, b, R, seed):
    """the references that a call returns: a mutable one is the only one to its place, and does not point behind a shared one"""
    I = R.I
    t = P.norm(ty_of(b.j["ret"]), R.env) if b.j.get("ret") else None
    if t is None or R.result is None:
        return None
    refs = []

    def go(v, t, g):
        if g is FALSE or len(refs) > 80:
            return
        if isinstance(v, VIte):
            go(v.a, t, t_and(g, v.c))
            go(v.b, t, t_and(g, t_not(v.c)))
        elif t[0] == "ref":
            if isinstance(v, Ref):
                m = bool(t[2])
                refs.append((v, m, g))
        elif t[0] == "arr" and isinstance(v, Arr):
            for x in v.es:
                go(x, t[1], g)
        elif t[0] == "tup" and isinstance(v, Adt):
            for x, y in zip(v.fs, t[1]):
                go(x, y, g)
        elif t[0] == "adt":
            e = P.erased(t[1]) if t[1] in P.adts else None
            if e is not None:
                go(v, P.field_ty(t[1], t[2], 0, e), g)
            elif isinstance(v, Adt) and v.d == t[1]:
                if t[1] in P.adts:
                    for i, x in enumerate(v.fs):
                        go(x, P.field_ty(t[1], t[2], v.v, i), g)
                elif t[1] in (OPTION, RESULT):
                    for x in v.fs:
                        go(x, t[2][0] if t[1] == OPTION or v.v == 0 else t[2][1], g)
    go(R.result, t, TRUE)
    shared = {v.root for v, (nm, at) in zip(R.args, R.names) if at[0] == "ref" and not at[2] and isinstance(v, Ref)}

    usz = ("prim", "usize")
    xs = [nm for nm, at in R.names if at == usz] + ["%s.%d" % (nm, i) for nm, at in R.names if at[0] == "tup" for i, x in enumerate(at[1]) if x == usz]

    def feasible(c):
        c = t_and(c, t_not(R.panic))
        if c is FALSE:
            return None
        at = list(itertools.product(range(8), repeat=len(xs))) if 0 < len(xs) < 4 else [()]
        for k, ix in enumerate(at * (12 if len(at) == 1 else 1)):
            E = nf.Evald("int", (seed, k), nf.STYLES[k % len(nf.STYLES)], dict(zip(xs, ix)))
            try:
                if E.bool(c):
                    return True
            except (nf.Undef, OverflowError, ZeroDivisionError):
                pass
        return None
    for i, (x, m, g) in enumerate(refs):
        if x.root in I.dead and feasible(g):
            return "the reference %s that the call returns points to a variable that is gone" % (x,)
        if m and x.root in shared and feasible(g):
            return "a mutable reference to %s is handed out of a shared one" % (x,)
        for y, m2, g2 in refs[:i]:
            if not (m or m2) or x.root != y.root:
                continue
            c = t_and(g, g2)
            for p, q in zip(x.path, y.path):
                if p == q:
                    continue
                if p[0] == q[0] == "i" and isinstance(p[1], Term) and isinstance(q[1], Term):
                    c = t_and(c, t_cmp("eq", p[1], q[1]))
                elif p[0] == q[0] and p[0] in ("f", "i", "v") or p[0] in ("f", "v") and q[0] in ("f", "v"):
                    c = FALSE
                else:
                    c = FALSE    # views of different kinds: not judged
            if feasible(c):
                return "the call returns two references to %s, of which one is mutable" % (x,)
    return None


def nf_show(x):
    return oblig.show(x, 12)[:200]


def sweep(what, tier, seed, only=None):
    d = build.dump(build.REPO, tag="audit-" + what, crates=[])
    try:
        P = Program(glob.glob(d + "/*.json"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    _S["P"] = P
    sites = {b.d: unsafe_sites(P, b) for b in P.bodies.values() if b.crate == "vecmat"}
    sites = {k: v for k, v in sites.items() if v}
    ru = reach_unsafe(P, sites)
    tasks = []
    res = []
    lits = run.size_literals(P)
    for b in fns(P):
        if not b.j["reach"] or b.unsafe or only and only not in b.d:
            continue
        triv = None
        if what == "safe" and b.d not in ru:
            triv = "no unsafe operation is reachable from it"
        elif what == "own" and not takes_linear(P, b):
            triv = "no type parameter that may own something"
        elif what == "panic" and any(text_arg(ty_of(p["ty"])) for p in b.params):
            continue
        elif closed(P, b):
            res.append(dict(name=b.d, key=b.d, dims=(), verdict="undecided", why="takes a type with private state", where=None, fns=[b.d], t=0, i=len(res), crate="vecmat", entry=b.sp))
            continue
        if triv:
            res.append(dict(name=b.d, key=b.d, dims=(), verdict="proved", why=triv, where=None, fns=[b.d], t=0, i=len(res), crate="vecmat", entry=b.sp))
            continue
        for dims in dims_for(P, b, tier, b.d in sites, lits):
            tasks.append((10000 + len(tasks), b.d, dims, what, seed, 60 if tier == "quick" else 240))
    tasks.sort(key=lambda t: -sum(x for _, x in t[2]))
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(8, os.cpu_count() or 1), maxtasksperchild=200) as pool:
        for r in pool.imap_unordered(run_one, tasks, chunksize=4):
            res.append(r)
    res.sort(key=lambda r: r["i"])
    return res, P, sites


def closed(P, b):
    """an argument carries private scalar state whose invariants the sweep does not know"""
    def f(t, seen):
        if t[0] in ("ref", "ptr", "arr", "slice"):
            return f(t[1], seen)
        if t[0] == "tup":
            return any(f(x, seen) for x in t[1])
        if t[0] == "adt" and t not in seen:
            seen.add(t)
            a = P.adts.get(t[1])
            if a:
                for v, w in enumerate(a["variants"]):
                    for i, x in enumerate(w["fields"]):
                        ft = P.field_ty(t[1], t[2], v, i)
                        if not x["pub"] and (ft[0] in ("prim", "ptr") and ft != ("prim", "bool")) and ft not in t[2]:
                            return True
                        if f(ft, seen):
                            return True
        return False
    return any(f(ty_of(p["ty"]), set()) for p in b.params)


def text_arg(t):
    """parsing of text, which is num_complex's"""
    return t == ("prim", "str") or t[0] == "ref" and text_arg(t[1])


def takes_linear(P, b):
    """some generic parameter of b may own something"""
    c = copy_params(b)
    return any(not k and n not in c for n, k in zip(b.generics, b.gconst))


def inventory(P, sites, res):
    """one obligation per function that contains unsafe operations: the sweep has been through it"""
    seen = {}
    for r in res:
        for f in r.get("fns", ()):
            if r["verdict"] != "undecided" and r["dims"] is not None:
                seen[f] = seen.get(f, 0) + 1
    out = []
    for d, ss in sorted(sites.items()):
        b = P.bodies[d]
        n = seen.get(d, 0)
        ok = n > 0 or b.unsafe
        out.append(dict(name="site:" + d, key="site:" + d, dims=(), verdict="proved" if ok else "undecided", where=None, fns=[d], t=0, i=0, crate="vecmat", entry=b.sp,
                        why="" if ok else "unsafe operations (%s) not reached from any public function by the sweep" % ", ".join(sorted({k for k, _ in ss}))))
    return out


def safety(tier, seed, only=None):
    res, P, sites = sweep("safe", tier, seed, only)
    return res + ([] if only else inventory(P, sites, res))


def ownership(tier, seed, only=None):
    res, P, sites = sweep("own", tier, seed, only)
    return res


def returning(tier, seed, only=None):
    res, P, sites = sweep("panic", tier, seed, only)
    return res
