"""Runs the obligations of one property: dumps the probe crates against /repo's current sources, decides every
pair in every instantiation, and reports."""
import glob
import itertools
import json
import multiprocessing
import os
import re
import shutil
import sys
import threading
import time
import traceback
from . import build
from .program import Program, ty_of
from .terms import Clock
from . import oblig

VERIF = build.VERIF
QUICK_T = 120
_P = {}


def in_big_thread(f, *a):
    r = []

    def g():
        try:
            r.append((True, f(*a)))
        except BaseException as e:
            r.append((False, e))
    threading.stack_size(1 << 29)
    t = threading.Thread(target=g)
    t.start()
    t.join()
    ok, v = r[0]
    if not ok:
        raise v
    return v


def one(task):
    i, crate, name, dims, seed, budget = task
    P, pairs = _P[crate]
    l, r, mode = pairs[name]
    t0 = time.time()
    Clock.end = t0 + budget
    try:
        o = in_big_thread(oblig.decide_pair, P, name, mode, l, r, dims, seed)
        d = dict(name=o.name, dims=o.dims, key=o.key(), verdict=o.verdict, why=o.why, where=o.where, **{k: v for k, v in o.stats.items()})
    except BaseException as e:
        d = dict(name=name, dims=dims, key=name + str(dims), verdict="undecided", why="%s: %s" % (type(e).__name__, traceback.format_exc()[-1500:]), where=None)
    d["t"] = time.time() - t0
    d["crate"] = crate
    d["i"] = i
    d["entry"] = l.d
    return d


def mode_of(name):
    m = name.split("::")[1]
    for k in ("free", "exact", "ring", "field", "int"):
        if m == k or m.startswith(k + "_"):
            return k
    raise SystemExit("probe module name: " + name)


def folded(b, e):
    """the value of an arithmetic expression over literals"""
    if e["k"] in ("scope", "use"):
        return folded(b, b.exprs[e["e"]])
    if e["k"] == "lit":
        return e["v"] if e.get("lk") == "int" and isinstance(e.get("v"), int) else None
    if e["k"] != "bin":
        return None
    x, y = folded(b, b.exprs[e["l"]]), folded(b, b.exprs[e["r"]])
    if x is None or y is None:
        return None
    return {"Add": x + y, "Sub": x - y, "Mul": x * y, "Shl": x << min(y, 64) if y >= 0 else None}.get(e["op"])


def size_literals(P):
    """integer literals of the library that lie beyond the sizes that are instantiated anyway: a size-dependent branch has to name its boundary"""
    r = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "lit" and x.get("lk") == "int" and isinstance(x.get("v"), int) and 3 < x["v"] <= 300:
                r.add(x["v"])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for b in P.bodies.values():
        if b.crate == "vecmat":
            if "::{constant#" in b.d and sum(e["k"] not in ("use", "scope", "block") for e in b.exprs) <= 1:
                continue    # the length named in a type
            walk(b.j)
            r |= {v for e in b.exprs if e["k"] == "bin" for v in (folded(b, e),) if v is not None and 3 < v <= 300}
            # an index kept in a byte wraps where the byte does
            own = json.dumps([q.get("ty") for p in P.bodies.values() if b.d == p.d or b.d.startswith(p.d + "::") for q in p.params + [{"ty": p.j.get("ret")}]])
            for t, c in (("u8", 256), ("i8", 128)):
                if '"%s"' % t not in own and any(isinstance(e.get("ty"), dict) and ty_of(e["ty"]) == ("prim", t) for e in b.exprs):
                    r.add(c)
    return sorted(r)[:6]


EXTRA1 = {"quick": (6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 24, 31, 32, 33), "thorough": tuple(range(9, 34)) + (40, 48, 63, 64, 65, 100)}
EXTRA2 = {"quick": ((1, 7), (7, 1), (5, 2), (2, 5), (5, 6), (8, 3), (3, 9), (1, 8), (8, 1), (4, 8), (9, 4), (1, 16), (16, 1), (2, 17), (7, 7)),
          "thorough": ((1, 16), (16, 1), (7, 8), (8, 7), (8, 8), (9, 9), (12, 5), (5, 17), (2, 33), (33, 2), (16, 16), (1, 64), (65, 1))}
EXTRA3 = {"quick": ((4, 4, 4), (5, 2, 3), (2, 5, 3), (2, 3, 5), (4, 1, 5), (1, 8, 1), (8, 1, 2), (1, 2, 9), (5, 5, 5)),
          "thorough": ((6, 2, 3), (2, 7, 3), (2, 3, 8), (6, 7, 5), (8, 8, 8), (1, 16, 2), (16, 1, 1))}


def dims_of(name, body, tier, lits=()):
    """instantiations of the constant parameters: dimensions, and (named L) the length of a slice"""
    cs = [g for g, c in zip(body.generics, body.gconst) if c]
    m = name.split("::")[1]
    opts = m.split("_")[1:]
    mx = [int(o[3:]) for o in opts if o.startswith("max")]
    if "L" in cs:
        other = [c for c in cs if c != "L"]
        dd = list(itertools.product(range(0, 4 if tier == "quick" else 6), repeat=len(other)))
        if len(other) == 1:
            dd += [(k,) for k in sorted({4, 5, 6, 8, 9, 16, 17} | {c for c in lits} | {c + 1 for c in lits}) if (k,) not in dd]
        elif len(other) == 2:
            dd += [(4, 4), (5, 2), (2, 5), (3, 7)] + [(c + 1, 2) for c in lits] + [(2, c + 1) for c in lits]
        for ds in dd:
            p = 1
            for x in ds:
                p *= x
            for l in sorted({0, 1, abs(p - 1), p, p + 1, 2 * p} | set(ds)):
                yield tuple(zip(other, ds)) + (("L", l),)
        return
    idx = [c for c in cs if c in ("I", "J")]
    if idx:
        # positions: every one inside the dimensions and the first outside
        other = [c for c in cs if c not in idx]
        for ds in itertools.product(range(0, 4 if tier == "quick" else 5), repeat=len(other)):
            for ii in itertools.product(range(0, max(ds) + 2), repeat=len(idx)):
                yield tuple(zip(other, ds)) + tuple(zip(idx, ii))
        return
    k = len(cs)
    hi = {0: 0, 1: 5, 2: 4, 3: 3}.get(k, 2) if tier == "quick" else {0: 0, 1: 8, 2: 5, 3: 4}.get(k, 3)
    lo = 1 if name.endswith("_pos") else 0
    if mx:
        if k == 1:
            hi = mx[0] if tier == "quick" or "cap" in opts else mx[0] + 1
        else:
            hi = min(hi, mx[0]) if tier == "quick" or "cap" in opts else min(hi, mx[0] + 1)
    seen = set()
    for ds in itertools.product(range(lo, hi + 1), repeat=k):
        seen.add(ds)
        yield tuple(zip(cs, ds))
    if mx and "cap" not in opts:
        # beyond the ordinary bound only where the code names a size
        for c in lits:
            for x in (c, c + 1):
                if mx[0] < x <= mx[0] + (4 if k == 1 else 2) and (x,) * k not in seen:
                    seen.add((x,) * k)
                    yield tuple(zip(cs, (x,) * k))
    if mx or not k:
        return
    more = [(x,) for x in EXTRA1[tier]] if k == 1 else list(EXTRA2[tier]) if k == 2 else list(EXTRA3[tier]) if k == 3 else []
    for c in lits:
        if k == 1:
            more += [(c,), (c + 1,)]
        elif k == 2:
            more += [(c, 1), (1, c), (c + 1, 2), (2, c + 1)]
    if k == 1 and re.search("Matrix|Linear|Affine|Chain", json.dumps([p.get("ty") for p in body.params]) + json.dumps(body.j.get("ret") or "")):
        more = [ds for ds in more if ds[0] <= (13 if tier == "quick" else 17)]      # quadratic in the dimension
    for ds in more:
        if ds not in seen:
            seen.add(ds)
            yield tuple(zip(cs, ds))


def load(crate, cfgtag, d):
    P = Program(glob.glob(d + "/*.json"))
    pairs = {}
    missing = []
    for n, l, r in oblig.pairs_of(P, "probe"):
        if l is None or r is None:
            missing.append(n)
            continue
        pairs[n] = (l, r, mode_of(n))
    return P, pairs, missing


CONFIGS = {"default": ([], False), "none": ([], True), "std": (["std"], True), "rand": (["rand"], True), "approx": (["approx"], True)}


class ProbeRejected(Exception):
    def __init__(self, crate, cfg, msg):
        self.crate, self.cfg, self.msg = crate, cfg, msg


def dump_probe(crate, cfg):
    f, nd = CONFIGS[cfg]
    pd = build.probe_dir(crate)
    try:
        return build.dump(pd, features=f, no_default=nd, tag="%s-%s" % (crate, cfg), crates=["probe"])
    except build.BuildError as e:
        m = str(e)
        if "could not compile `probe`" in m and "could not compile `vecmat`" not in m:
            raise ProbeRejected(crate, cfg, m)
        raise
    finally:
        shutil.rmtree(pd, ignore_errors=True)


def load_probe(crate, cfg):
    d = dump_probe(crate, cfg)
    try:
        key = crate + "@" + cfg
        P, pairs, missing = load(crate, cfg, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    _P[key] = (P, pairs)
    return key, P, pairs, missing


def run_tasks(tasks, jobs=None, until=None, stop=None):
    """decides the tasks in parallel; gives up at the time `until`, or when stop(result)"""
    n = jobs or min(8, os.cpu_count() or 1)
    res = []
    if tasks:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(n, maxtasksperchild=200) as pool:
            it = pool.imap_unordered(one, tasks, chunksize=1)
            for _ in tasks:
                try:
                    r = it.next(None if until is None else max(0.1, until - time.time()))
                except multiprocessing.TimeoutError:
                    break
                res.append(r)
                if stop and stop(r):
                    break
    return res


def run_pairs(specs, tier, seed, only=None, jobs=None):
    """specs: list of (probe crate, configuration); returns (results, programs)"""
    tasks = []
    progs = {}
    for crate, cfg in specs:
        key, P, pairs, missing = load_probe(crate, cfg)
        progs[key] = (P, missing)
        lits = size_literals(P)
        for n, (l, r, mode) in pairs.items():
            for dims in dims_of(n, l, tier, lits):
                if only and only not in n:
                    continue
                tasks.append((len(tasks), key, n, dims, seed, QUICK_T if tier == "quick" else 400))
    # larger instantiations first
    tasks.sort(key=lambda t: -sum(x for _, x in t[3]))
    res = run_tasks(tasks, jobs)
    res.sort(key=lambda r: r["i"])
    return res, progs
