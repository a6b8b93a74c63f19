"""C05: the feature combinations. Every combination type-checks; without `std` no crate of the build links the standard
library; every item of the full build exists in every build whose disabled features it does not belong to; and every
function has the same typed program in every combination (where one differs, the specifications of the other properties
are decided again under that combination)."""
import glob
import hashlib
import itertools
import json
import multiprocessing
import os
import re
import shutil
import threading
import time
from . import build, run as run_mod

FEATURES = ("std", "rand", "approx")
COMBOS = [c for k in range(4) for c in itertools.combinations(FEATURES, k)]
ALL = ("std", "rand", "approx")
PROBES = ["c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c20", "c21", "c22", "c23", "c24", "c25", "c26", "c27"]


def label(c):
    return "{" + ",".join(c) + "}"


def _dump(c, out):
    # an empty dependant: only vecmat and its dependencies are compiled
    pd = build.probe_dir("empty-%s" % "-".join(c), empty=True)
    try:
        out[c] = ("ok", build.dump(pd, features=list(c), no_default=True, tag="feat-%s" % "-".join(c), crates=[]))
    except build.BuildError as e:
        out[c] = ("err", str(e))
    except Exception as e:
        out[c] = ("exc", repr(e))
    finally:
        shutil.rmtree(pd, ignore_errors=True)


_imp = re.compile(r"([A-Za-z0-9_:]*?)::\{impl#(\d+)\}")
DROP = {"sp", "files", "files"}


class Crate:
    """one dumped crate with implementation blocks named by what they implement instead of by their number"""

    def __init__(self, j, ren):
        self.j = j
        self.ren = ren

    def name(self, s):
        return _imp.sub(lambda m: self.ren.get(m.group(0), m.group(0)), s) if "{impl#" in s else s

    def canon(self, x):
        if isinstance(x, dict):
            return {k: self.canon(v) for k, v in x.items() if k not in DROP}
        if isinstance(x, list):
            return [self.canon(v) for v in x]
        if isinstance(x, str):
            return self.name(x)
        return x


def strip(x):
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if k not in DROP}
    if isinstance(x, list):
        return [strip(v) for v in x]
    if isinstance(x, str):
        return re.sub(r"\{impl#\d+\}", "{impl}", x)
    return x


def header(i):
    h = dict(trait=i["trait"], neg=i["neg"], self_=i["self"], generics=i["generics"], preds=sorted(json.dumps(strip(p), sort_keys=True) for p in i["preds"]),
             items=sorted((x["n"], x["kind"]) for x in i["items"]))
    return json.dumps(strip(h), sort_keys=True)


def short(t):
    if t is None:
        return "?"
    k = t.get("k")
    if k in ("prim", "param", "cparam"):
        return t["n"]
    if k == "adt":
        return t["d"].rsplit("::", 1)[-1] + ("<%s>" % ",".join(short(a) for a in t["a"]) if t["a"] else "")
    if k == "ref":
        return "&" + short(t["t"])
    if k == "arr":
        return "[%s;%s]" % (short(t["t"]), short(t["n"]))
    if k == "tup":
        return "(%s)" % ",".join(short(a) for a in t["a"])
    return k or "?"


def impl_name(i):
    tr = i["trait"]
    s = short(i["self"])
    if tr:
        a = [short(x) for x in tr["a"][1:]]
        return "<impl %s%s for %s>" % (tr["d"].rsplit("::", 1)[-1], "<%s>" % ",".join(a) if a else "", s)
    return "<impl %s>" % s


def load(d):
    js = {}
    for p in sorted(glob.glob(d + "/*.json")):
        with open(p) as f:
            j = json.load(f)
        js[j["crate"]] = j
    ren = {}
    for j in js.values():
        seen = {}
        for i in j["impls"]:
            m = i["d"].rsplit("::", 1)[0]
            h = m + header(i)
            n = seen[h] = seen.get(h, 0) + 1
            ren[i["d"]] = "%s::%s#%s%s" % (m, impl_name(i), hashlib.sha1(h.encode()).hexdigest()[:8], "" if n == 1 else "/%d" % n)
    return js, ren


class Build:
    def __init__(self, combo, d):
        self.combo = combo
        js, ren = load(d)
        self.features = {n: x["features"] for n, x in js.items()}
        j = js["vecmat"]
        c = Crate(j, ren)
        self.links_std = sorted(n for n, x in js.items() if "std" in x["crates"])
        self.bodies = {}
        self.where = {}
        self.needs = {}
        self.raw = {}
        for b in j["bodies"]:
            n = c.name(b["d"])
            self.raw[n] = b["d"]
            self.bodies[n] = hashlib.sha1(json.dumps(c.canon(b), sort_keys=True).encode()).hexdigest()
            self.needs[n] = needs(json.dumps(b))
            self.where[n] = b["sp"]
        self.items = {}
        for kind in ("adts", "traits", "opaques"):
            for a in j[kind]:
                self.items[(kind, c.name(a["d"]))] = (json.dumps(c.canon(a), sort_keys=True), a.get("sp"))
        self.impl_of = {}
        for i in j["impls"]:
            n = c.name(i["d"])
            self.items[("impl", n)] = (header(i), i["sp"])
            self.impl_of[n] = i["trait"]["d"] if i["trait"] else None
        self.pub = {c.name(b["d"]) for b in j["bodies"] if b["reach"]}


def belongs(name, full):
    """the optional features that an item of the full build belongs to: the one whose crate it implements a trait of, or whose module it is in"""
    r = set()
    m = re.match(r"(.*?::<impl .*?>#[0-9a-f]+(?:/\d+)?)", name)
    tr = full.impl_of.get(m.group(1)) if m else None
    parts = name.split("::<impl")[0].split("::")
    if tr and tr.startswith("approx::") or "approx" in parts:
        r.add("approx")
    if tr and (tr.startswith("rand::") or "distr" in tr.split("::") or tr.split("::")[0] in ("rand", "rand_", "rand_core", "rand_distr")) or "distr" in parts:
        r.add("rand")
    return r


def needs(t):
    """optional crates named in a typed interface or body"""
    r = set()
    if '"approx::' in t:
        r.add("approx")
    if '"rand::' in t or "::distr::" in t:
        r.add("rand")
    return r


def result(key, verdict, why, where=None, fns=(), t=0.0):
    return dict(name=key.split("[")[0], dims=(), key=key, verdict=verdict, why=why, where=where, fns=list(fns), t=t, crate=None, i=0, entry=None, leaves=0, calls=0)


def matrix(tier, seed, only):
    """the feature matrix; returns obligations"""
    build.ensure_driver()
    out = {}
    t0 = time.time()
    ths = [threading.Thread(target=_dump, args=(c, out)) for c in COMBOS]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    res = []
    builds = {}
    try:
        for c in COMBOS:
            k, v = out[c]
            if k == "exc":
                raise RuntimeError("feature combination %s: %s" % (label(c), v))
            if k == "err":
                if "could not compile `vecmat`" not in v:
                    raise RuntimeError("feature combination %s: %s" % (label(c), v[-2000:]))
                first = "\n".join(re.findall(r"^error.*(?:\n.*){0,12}", v, re.M)[:3])
                res.append(result("typechecks[%s]" % label(c), "violated", "the library does not type-check with the features %s:\n%s" % (label(c), first),
                                  (re.findall(r"--> (\S+)", v) or [None])[0]))
                continue
            res.append(result("typechecks[%s]" % label(c), "proved", ""))
        ok = [c for c in COMBOS if out[c][0] == "ok"]
        if ok:
            with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
                for c, b in zip(ok, pool.starmap(Build, [(c, out[c][1]) for c in ok], chunksize=1)):
                    builds[c] = b
    finally:
        for k, v in out.values():
            if k == "ok":
                shutil.rmtree(v, ignore_errors=True)
    full = builds.get(ALL)
    if full is None:
        return res
    differing = {}
    for c, b in builds.items():
        if "std" not in c:
            key = "links-no-std[%s]" % label(c)
            if b.links_std:
                own = [x for x in b.links_std if "std" in b.features[x]]
                res.append(result(key, "violated", "without the feature std the build links the standard library: crates %s (their own feature std is on in: %s)"
                                  % (b.links_std, own), "Cargo.toml"))
            else:
                res.append(result(key, "proved", ""))
        if c == ALL:
            continue
        off = set(FEATURES) - set(c)
        # interface
        for (kind, n), (txt, sp) in sorted(full.items.items()):
            if kind == "opaques":
                continue
            own = belongs(n, full)
            key = "item[%s,%s]" % (label(c), n)
            got = b.items.get((kind, n))
            if got is None:
                if (own | needs(txt)) & off:
                    continue
                res.append(result(key, "violated", "%s %s is missing with the features %s although nothing in it needs %s" % (kind, n, label(c), sorted(off)), sp))
            elif got[0] != txt:
                res.append(result(key, "undecided", "%s %s differs with the features %s" % (kind, n, label(c)), sp))
            else:
                res.append(result(key, "proved", "", sp))
        for (kind, n), (txt, sp) in sorted(b.items.items()):
            if (kind, n) not in full.items and kind != "opaques":
                res.append(result("item[%s,%s]" % (label(c), n), "undecided", "%s %s exists only with the features %s" % (kind, n, label(c)), sp))
        for n, txt in sorted(full.bodies.items()):
            key = "body[%s,%s]" % (label(c), n)
            got = b.bodies.get(n)
            if got is None:
                if (belongs(n, full) | full.needs[n]) & off or "{closure" in n:
                    continue
                v = "violated" if n in full.pub else "undecided"
                res.append(result(key, v, "function %s is missing with the features %s although nothing in it needs %s" % (n, label(c), sorted(off)), full.where[n]))
            elif got != txt:
                differing.setdefault(c, []).append(n)
                res.append(result(key, "undecided", "the typed program of %s differs with the features %s" % (n, label(c)), b.where[n], [n]))
            else:
                res.append(result(key, "proved", "", b.where[n], [n]))
    res += again(builds, differing, tier, seed)
    for r in res:
        r["t"] = max(r.get("t", 0), 0)
    return res


def reaching(P, pairs, changed):
    """the specifications whose entry point can reach one of the functions"""
    from .effects import graph
    g = graph(P)
    rev = {}
    for f, s in g.items():
        for c in s:
            rev.setdefault(c, set()).add(f)
        if "::{closure" in f:
            rev.setdefault(f, set()).add(f.rsplit("::{closure", 1)[0])
    # a call of a trait's method may be a call of any of its implementations
    for tr, ims in P.impls.items():
        for im in ims:
            for it in im["items"]:
                rev.setdefault(it["d"], set()).update(rev.get("%s::%s" % (tr, it["n"]), ()))
    todo, seen = list(changed), set(changed)
    while todo:
        for f in rev.get(todo.pop(), ()):
            if f not in seen:
                seen.add(f)
                todo.append(f)
    return [n for n, (l, r, mode) in pairs.items() if l.d in seen]


def again(builds, differing, tier, seed):
    """where a function's typed program differs in a combination, the specifications that reach it are decided again there"""
    res = []
    classes = {}
    for c in sorted(differing, key=lambda c: (-len(differing[c]), -len(c), c)):
        classes.setdefault(frozenset((n, builds[c].bodies[n]) for n in differing[c]), c)
    tasks, lab = [], {}
    until = time.time() + (330 if tier == "quick" else 700)
    for c in list(classes.values())[:4 if tier == "quick" else 8]:
        tag = "+".join(c) or "none"
        run_mod.CONFIGS[tag] = (list(c), True)
        out = {}

        def dump(p):
            try:
                out[p] = ("ok", run_mod.dump_probe(p, tag))
            except run_mod.ProbeRejected as e:
                out[p] = ("rejected", e)
            except Exception as e:
                out[p] = ("exc", e)
        ps = [p for p in PROBES if not (p == "c25" and "approx" not in c or p == "c27" and "rand" not in c)]
        ths = [threading.Thread(target=dump, args=(p,)) for p in ps]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        changed = set()
        for n in differing[c]:
            changed.add(builds[c].raw[n].split("::{closure")[0])
        for p in ps:
            k, v = out[p]
            if k == "exc":
                raise v
            if k == "rejected":
                first = "\n".join(re.findall(r"^error.*(?:\n.*){0,12}", v.msg, re.M)[:3])
                res.append(result("spec[%s,%s]" % (label(c), p), "violated", "an instance of the interface no longer type-checks with the features %s:\n%s" % (label(c), first)))
                continue
            try:
                P, pairs, _ = run_mod.load(p, tag, v)
            finally:
                shutil.rmtree(v, ignore_errors=True)
            key = p + "@" + tag
            run_mod._P[key] = (P, pairs)
            lab[key] = c
            lits = run_mod.size_literals(P)
            for n in reaching(P, pairs, changed):
                for dims in run_mod.dims_of(n, pairs[n][0], "quick", lits):
                    tasks.append((len(tasks), key, n, dims, seed, 60))
    # one instantiation of every specification first, small ones first
    turn = {}
    order = []
    for t in sorted(tasks, key=lambda t: (sum(abs(x - 2) for _, x in t[3]), t[0])):
        turn[t[1:3]] = turn.get(t[1:3], 0) + 1
        order.append((turn[t[1:3]], t[0], t))
    tasks = [t for _, _, t in sorted(order)]
    got = run_mod.run_tasks(tasks, until=until, stop=lambda r: r["verdict"] == "violated")
    done = set()
    for x in got:
        done.add(x["i"])
        c = lab[x["crate"]]
        x["key"] = "spec[%s,%s]" % (label(c), x["key"])
        x["name"] = "%s %s" % (label(c), x["name"])
        res.append(x)
    if len(done) < len(tasks) and not any(x["verdict"] == "violated" for x in got):
        res.append(result("spec[rest]", "undecided", "%d of %d instantiations of specifications were not decided in the time given" % (len(tasks) - len(done), len(tasks))))
    return res
