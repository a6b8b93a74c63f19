"""The type-checked program: THIR dumps of the crates, types, substitution, trait selection."""
import json
import re
from .terms import *


class Unknown(Exception):
    """The abstraction does not cover this construct: no verdict is drawn from it."""


# ---- types: tuples -------------------------------------------------------
# ('prim',n) ('param',n) ('adt',d,args) ('arr',t,n) ('slice',t) ('ref',t,mut) ('ptr',t,mut)
# ('tup',args) ('fndef',d,args,trait,ntrait,ctor) ('closure',d,args) ('proj',d,args) ('opaque',d,args)
# ('never',) ('other',s) ; consts: ('c', Term)


def ty_of(j, memo={}):
    if j is None:
        return None
    k = j["k"]
    if k == "prim":
        return ("prim", j["n"])
    if k == "param":
        return ("param", j["n"])
    if k == "adt":
        return ("adt", j["d"], tuple(ty_of(x) for x in j["a"]))
    if k == "arr":
        return ("arr", ty_of(j["t"]), ty_of(j["n"]))
    if k == "slice":
        return ("slice", ty_of(j["t"]))
    if k in ("ref", "ptr"):
        return (k, ty_of(j["t"]), j["m"])
    if k == "tup":
        return ("tup", tuple(ty_of(x) for x in j["a"]))
    if k == "fndef":
        c = j.get("ctor")
        return ("fndef", j["d"], tuple(ty_of(x) for x in j["a"]), j.get("tr"), j.get("tn"), tuple(c) if c else None)
    if k in ("closure", "proj", "opaque"):
        return (k, j["d"], tuple(ty_of(x) for x in j["a"]))
    if k == "never":
        return ("never",)
    if k == "cparam":
        return ("cparam", j["n"])
    if k == "cval":
        return ("c", num(int(j["v"])))
    return ("other", j.get("s", k))


PRIM_INT = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"}
FLOATS = {"f32", "f64"}

_impl_re = re.compile(r"::\{impl#\d+\}")


def norm_name(d):
    return _impl_re.sub("", d)


def parent(d):
    return d.rsplit("::", 1)[0]


def last(d):
    return d.rsplit("::", 1)[1]


def is_const(t):
    return t[0] in ("c", "cparam")


class Body:
    def __init__(self, j, crate):
        self.j = j
        self.crate = crate
        self.d = j["d"]
        self.kind = j["kind"]
        self.root = j["root"]
        self.name = j["name"]
        self.sp = j["sp"]
        self.unsafe = j["unsafe"]
        self.pub = j["pub"]
        self.generics = [g["n"] for g in j["generics"]]
        self.gconst = [g["c"] for g in j["generics"]]
        self.params = j["params"]
        self.exprs = j["exprs"]
        self.blocks = j["blocks"]
        self.stmts = j["stmts"]
        self.arms = j["arms"]
        self.root_expr = j["body"]
        self._ty = {}
        self._ret = None

    @property
    def ret(self):
        if self._ret is None:
            self._ret = ty_of(self.j["ret"])
        return self._ret

    def ety(self, i):
        t = self._ty.get(i)
        if t is None:
            t = self._ty[i] = ty_of(self.exprs[i]["ty"])
        return t


class Program:
    def __init__(self, paths):
        self.bodies = {}
        self.adts = {}
        self.opaques = {}
        self.impls = {}  # trait -> [impl]
        self.all_impls = []
        self.traits = {}
        self.crates = {}
        for p in paths:
            with open(p) as f:
                j = json.load(f)
            self.crates[j["crate"]] = {k: j[k] for k in ("features", "crates", "files")}
            for b in j["bodies"]:
                self.bodies[b["d"]] = Body(b, j["crate"])
            for a in j["adts"]:
                self.adts[a["d"]] = a
            for o in j.get("opaques", ()):
                self.opaques[o["d"]] = ([g["n"] for g in o["generics"]], ty_of(o["ty"]))
            for im in j["impls"]:
                im["crate"] = j["crate"]
                im["gn"] = [g["n"] for g in im["generics"]]
                self.all_impls.append(im)
                if im["trait"] and not im["neg"]:
                    im["targs"] = tuple(ty_of(x) for x in im["trait"]["a"])
                    self.impls.setdefault(im["trait"]["d"], []).append(im)
            for t in j["traits"]:
                self.traits[t["d"]] = t
        self._single = {}
        self._implc = {}

    def droppers(self):
        """types of the analysed crates that have a destructor"""
        return [d for d, a in self.adts.items() if a.get("drop")]

    # ---- erased (single field) structs
    def erased(self, d):
        """index of the only non-ZST field of a struct, or None"""
        if d in self._single:
            return self._single[d]
        r = None
        if d in ("core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop", "core::num::wrapping::Wrapping"):
            r = 0
        a = self.adts.get(d)
        if a and a["kind"] == "Struct":
            real = [i for i, f in enumerate(a["variants"][0]["fields"]) if not self._zst(f["ty"])]
            if len(real) == 1:
                r = real[0]
        self._single[d] = r
        return r

    def _zst(self, t):
        return (t["k"] == "adt" and t["d"] == "core::marker::PhantomData") or (t["k"] == "tup" and not t["a"])

    def transparent(self, d):
        if d in ("core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop"):
            return True
        a = self.adts.get(d)
        return bool(a and a["transparent"])

    def field_ty(self, d, args, v, i):
        a = self.adts.get(d)
        if a is None:
            return None
        env = dict(zip([g["n"] for g in a["generics"]], args))
        return self.norm(ty_of(a["variants"][v]["fields"][i]["ty"]), env)

    # ---- substitution / normalisation
    def norm(self, t, env):
        k = t[0]
        if k == "prim" or k == "never" or k == "c" or k == "other":
            return t
        if k == "param" or k == "cparam":
            return env.get(t[1], t)
        if k == "adt" or k == "closure" or k == "opaque":
            if k == "opaque":
                return self.norm_opaque(t, env)
            return (k, t[1], tuple(self.norm(x, env) for x in t[2]))
        if k == "arr":
            return ("arr", self.norm(t[1], env), self.norm(t[2], env))
        if k == "slice":
            return ("slice", self.norm(t[1], env))
        if k in ("ref", "ptr"):
            return (k, self.norm(t[1], env), t[2])
        if k == "tup":
            return ("tup", tuple(self.norm(x, env) for x in t[1]))
        if k == "fndef":
            return t[:2] + (tuple(self.norm(x, env) for x in t[2]),) + t[3:]
        if k == "proj":
            return self.proj(t[1], tuple(self.norm(x, env) for x in t[2]))
        return t

    def norm_opaque(self, t, env):
        a = tuple(self.norm(x, env) for x in t[2])
        o = self.opaques.get(t[1])
        if o is None:
            return ("opaque", t[1], a)
        return self.norm(o[1], dict(zip(o[0], a)))

    def proj(self, d, args):
        trait, name = parent(d), last(d)
        s = args[0]
        # native associated types
        if name == "Output" and trait.startswith("core::ops::arith") or trait.startswith("core::ops::bit"):
            b = s
            while b[0] == "ref":
                b = b[1]
            if b[0] in ("prim", "param"):
                o = args[1] if len(args) > 1 else b
                while o[0] == "ref":
                    o = o[1]
                if o[0] in ("prim", "param") and (o == b):
                    return b
                if b[0] == "param" and o[0] == "param":
                    return b
        if name == "Output" and trait == "core::ops::function::FnOnce":
            f = s
            while f[0] == "ref":
                f = f[1]
            if f[0] == "closure":
                b = self.bodies[f[1]]
                return self.norm(b.ret, dict(zip(b.generics, f[2])))
        if trait in ("core::iter::traits::iterator::Iterator", "core::iter::traits::collect::IntoIterator"):
            r = self.iter_assoc(name, s)
            if r is not None:
                return r
        m = self.find_impl(trait, args)
        if m is not None:
            im, e = m
            for it in im["items"]:
                if it["n"] == name and it["kind"] == "ty" and it["ty"]:
                    return self.norm(ty_of(it["ty"]), e)
        if s[0] == "ref" and name == "Output":
            return self.proj(d, (s[1],) + tuple(a[1] if a[0] == "ref" else a for a in args[1:]))
        return ("proj", d, args)

    def iter_assoc(self, name, s):
        IT = "core::iter::traits::iterator::Iterator::Item"
        k = s[0]
        if k == "ref" and s[2] and name == "Item" and s[1][0] in ("adt", "param", "proj") and not self.is_coll(s[1]):
            return self.proj(IT, (s[1],))
        if name == "Item":
            if k == "arr":
                return s[1]
            if k == "ref" and s[1][0] in ("arr", "slice"):
                return ("ref", s[1][1], s[2])
            if k == "adt":
                d, a = s[1], s[2]
                n = last(d)
                if d.startswith("core::slice::iter::"):
                    if n == "Iter":
                        return ("ref", a[0], False)
                    if n == "IterMut":
                        return ("ref", a[0], True)
                if d.startswith("core::array::iter::"):
                    return a[0]
                if d.startswith("core::ops::range::Range"):
                    return a[0]
                if d.startswith("core::iter::adapters::"):
                    if n in ("Cloned", "Copied"):
                        t = self.proj(IT, (a[0],))
                        return t[1] if t[0] == "ref" else t
                    if n == "Zip":
                        return ("tup", (self.proj(IT, (a[0],)), self.proj(IT, (a[1],))))
                    if n == "Enumerate":
                        return ("tup", (("prim", "usize"), self.proj(IT, (a[0],))))
                    if n == "Map":
                        return self.proj("core::ops::function::FnOnce::Output", (a[1], ("tup", (self.proj(IT, (a[0],)),))))
                    if n == "Scan":
                        o = self.proj("core::ops::function::FnOnce::Output", (a[2], ("tup", ())))
                        if o[0] == "adt":
                            return o[2][0]
                        return o
                    if a:
                        return self.proj(IT, (a[0],))
        if name == "IntoIter":
            if k == "arr":
                return ("adt", "core::array::iter::IntoIter", (s[1], s[2]))
            if k == "ref" and s[1][0] in ("arr", "slice"):
                return ("adt", "core::slice::iter::" + ("IterMut" if s[2] else "Iter"), (s[1][1],))
            if k == "adt" and (s[1].startswith("core::iter::") or s[1].startswith("core::slice::iter") or s[1].startswith("core::array::iter") or s[1].startswith("core::ops::range")):
                return s
        return None

    def is_coll(self, t):
        return t[0] == "adt" and self.find_impl("core::iter::traits::collect::IntoIterator", (("ref", t, True),)) is not None

    # ---- unification
    def unify(self, p, t, gn, e):
        k = p[0]
        if k in ("param", "cparam") and p[1] in gn:
            if p[1] in e:
                return e[p[1]] == t
            e[p[1]] = t
            return True
        if k in ("proj", "opaque"):
            return True
        if t[0] in ("proj", "opaque"):
            return p == t
        if k != t[0]:
            return False
        if k in ("adt", "closure"):
            return p[1] == t[1] and len(p[2]) == len(t[2]) and all(self.unify(a, b, gn, e) for a, b in zip(p[2], t[2]))
        if k == "arr":
            return self.unify(p[1], t[1], gn, e) and self.unify(p[2], t[2], gn, e)
        if k == "slice":
            return self.unify(p[1], t[1], gn, e)
        if k in ("ref", "ptr"):
            return p[2] == t[2] and self.unify(p[1], t[1], gn, e)
        if k == "tup":
            return len(p[1]) == len(t[1]) and all(self.unify(a, b, gn, e) for a, b in zip(p[1], t[1]))
        return p == t

    def find_impl(self, trait, args):
        key = (trait, args)
        if key in self._implc:
            return self._implc[key]
        self._implc[key] = None
        cands = []
        for im in self.impls.get(trait, ()):
            pt = im["targs"]
            if len(pt) != len(args):
                continue
            e = {}
            if all(self.unify(a, b, im["gn"], e) for a, b in zip(pt, args)):
                cands.append((im, e))
        r = None
        if len(cands) > 1:
            spec = [c for c in cands if c[0]["targs"][0][0] != "param"]
            if spec:
                cands = spec
        if len(cands) > 1:
            ok = [c for c in cands if self.preds_ok(c[0], c[1])]
            if ok:
                cands = ok
        if cands:
            r = cands[0]
            self.bind_preds(r[0], r[1])
        self._implc[key] = r
        return r

    def bind_preds(self, im, e):
        """bind generics constrained only through projection predicates"""
        for _ in range(2):
            for p in im["preds"]:
                if p["k"] != "proj":
                    continue
                t = ty_of(p["t"])
                if t[0] in ("param",) and t[1] in im["gn"] and t[1] not in e:
                    try:
                        v = self.norm(("proj", p["d"], tuple(ty_of(x) for x in p["a"])), e)
                    except RecursionError:
                        continue
                    if v[0] != "proj":
                        e[t[1]] = v

    def preds_ok(self, im, e):
        for p in im["preds"]:
            if p["k"] != "trait":
                continue
            a = tuple(self.norm(ty_of(x), e) for x in p["a"])
            if a[0][0] in ("param", "proj"):
                continue
            if p["d"] in self.impls:
                if a[0][0] == "prim" and not p["d"].startswith("core::"):
                    if self.find_impl(p["d"], a) is None:
                        return False
        return True

    # ---- copy-ness (used by the ownership rule)
    def is_copy(self, t, copy_params=()):
        k = t[0]
        if k == "prim" or k == "never" or k == "ptr" or k == "fndef":
            return True
        if k == "ref":
            return not t[2]
        if k == "param":
            return t[1] in copy_params
        if k == "arr" or k == "slice":
            return self.is_copy(t[1], copy_params)
        if k == "tup":
            return all(self.is_copy(x, copy_params) for x in t[1])
        if k == "adt":
            if t[1] in ("core::option::Option", "core::result::Result", "core::mem::maybe_uninit::MaybeUninit"):
                return all(self.is_copy(x, copy_params) for x in t[2])
            m = self.find_impl("core::marker::Copy", (t,))
            if m is None:
                return False
            return all(self.is_copy(x, copy_params) for x in t[2] if not is_const(x))
        return False
