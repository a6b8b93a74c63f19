"""C06: what a function of the library does depends on its arguments alone and touches nothing else.

Reachability over the call graph of the type-checked program: from every public function (and every Drop implementation) through
library functions, closures, operators, named constants and the generic code of dependencies whose source was dumped. An access to mutable or
interior-mutable global state, or a call of a function outside whose purpose is an effect, is reported with the path to it."""
import glob
import re
import shutil
from . import build
from .program import *
from .audit import fns

# what the outside world offers: input and output, clocks, environment, threads, entropy, process-wide state
EFFECT = re.compile(r"^(std::(io|fs|net|env|process|time|thread|sync|os|random|backtrace|alloc|panic|hash::random|collections::hash::map::RandomState)\b"
                    r"|std::(thread|time|sys|sys_common)\b|core::(sync::atomic|arch|ffi)\b|core::panic::Location|core::intrinsics::(caller_location|volatile)|core::any::type_name"
                    r"|core::ptr::(read_volatile|write_volatile)|core::ptr::(const_ptr|mut_ptr)::.*volatile"
                    r"|alloc::alloc\b|rand::(random|thread_rng)\b|rand::rngs\b|rand_chacha|getrandom|rand_core::(os|SeedableRng::from_(entropy|os_rng))|libc\b|log\b)")
# global state is fine as long as nothing can change it
CELL = re.compile(r"(Cell|Atomic\w*|Mutex|RwLock|Once\w*|Lazy\w*|LocalKey|Condvar|Barrier|Sender|Receiver)$")
NOT = {"core::panicking::panic"}


def cells(t):
    """a type through which shared state can change"""
    if t[0] == "adt":
        return bool(CELL.search(t[1])) or any(cells(x) for x in t[2])
    if t[0] in ("arr", "slice", "ref"):
        return cells(t[1])
    if t[0] == "ptr":
        return True
    if t[0] == "tup":
        return any(cells(x) for x in t[1])
    return False


def through(P, t, seen=None):
    """like cells, looking into the fields of the library's types"""
    seen = set() if seen is None else seen
    if cells(t):
        return True
    if t[0] in ("arr", "slice", "ref"):
        return through(P, t[1], seen)
    if t[0] == "adt" and t not in seen and t[1] in P.adts:
        seen.add(t)
        return any(through(P, P.field_ty(t[1], t[2], v, i), seen) for v, w in enumerate(P.adts[t[1]]["variants"]) for i in range(len(w["fields"])))
    return False


def graph(P):
    """function -> [(callee or effect, span)]"""
    g = {}
    for b in P.bodies.values():
        s = {}
        for e in b.exprs:
            if e["k"] == "static":
                t = b.ety_raw(e) if hasattr(b, "ety_raw") else ty_of(e["ty"])
                mutable = t[0] == "ptr" and t[2] or through(P, t[1] if t[0] in ("ref", "ptr") else t)
                if mutable:
                    s.setdefault("!global state %s" % e["d"], e.get("sp"))
            if e["k"] in ("tls", "asm", "inline_asm", "threadlocal"):
                s.setdefault("!%s" % e["k"], e.get("sp"))
            if "d" in e and isinstance(e["d"], str) and e["k"] not in ("static",):
                s.setdefault(e["d"], e.get("sp"))
            for k in ("fty", "ty"):
                if k in e and isinstance(e[k], dict) and e[k].get("k") in ("fndef", "closure", "adt"):
                    t = ty_of(e[k])
                    if t[0] == "adt":
                        if cells(t) and re.search("LocalKey$", t[1]):
                            s.setdefault("!thread-local state", e.get("sp"))
                        continue
                    s.setdefault(t[1], e.get("sp"))
                    if t[0] == "fndef" and t[3]:
                        m = P.find_impl(t[3], tuple(t[2][:t[4]]))
                        if m:
                            for it in m[0]["items"]:
                                if it["n"] == last(t[1]):
                                    s.setdefault(it["d"], e.get("sp"))
        for i in addresses(b):
            s.setdefault("!the number of an address", b.exprs[i].get("sp"))
        g[b.d] = s
    return g


INTS = {"usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"}
ADDR = re.compile(r"^core::ptr::((const_ptr|mut_ptr|non_null)::)?(addr|expose_provenance|expose_addr|to_bits|fn_addr_eq)$|^core::ptr::non_null::addr$"
                  r"|^core::fmt::Pointer::|^core::fmt::Formatter::pad_formatted_address|^core::fmt::rt::(Argument::)?new_pointer|^core::fmt::pointer_fmt_inner|^core::fmt::Pointer::fmt")
PEEL = ("scope", "use", "ascr")


def addresses(b):
    """expressions of a body whose value is the number of an address, and that are not only compared with or subtracted from another one:
    where an object happens to lie is not determined by the arguments"""
    ex = b.exprs
    isptr = lambda t: t[0] in ("ptr", "ref", "fndef", "fnptr", "closure") or t[0] == "other"
    num = set()
    for i, e in enumerate(ex):
        if e["k"] == "cast" and ty_of(ex[e["e"]]["ty"])[0] in ("ptr", "fndef", "fnptr") and ty_of(e["ty"])[0] == "prim" and ty_of(e["ty"])[1] in INTS:
            num.add(i)
        if e["k"] == "call" and e.get("fty", {}).get("k") == "fndef":
            t = ty_of(e["fty"])
            n = norm_name(t[1])
            if ADDR.match(n) or last(t[1]) in ("transmute", "transmute_copy") and len(t[2]) > 1 and isptr(t[2][0]) and t[2][1][0] == "prim":
                num.add(i)
    if not num:
        return []
    vars_ = set()
    while True:
        n = len(num) + len(vars_)
        for i, e in enumerate(ex):
            if e["k"] in PEEL and e["e"] in num or e["k"] == "var" and e["id"] in vars_:
                num.add(i)
        for st in b.stmts:
            if st.get("e") in num and (st.get("p") or {}).get("k") == "bind" and not st["p"].get("sub"):
                vars_.add(st["p"]["var"])
        if n == len(num) + len(vars_):
            break
    fine = set()
    for i, e in enumerate(ex):
        if e["k"] == "bin" and e["l"] in num and e["r"] in num and e["op"] in ("Sub", "Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            fine |= {e["l"], e["r"]}
        if e["k"] in PEEL and e["e"] in num:
            fine.add(e["e"])
    for st in b.stmts:
        if st.get("e") in num and (st.get("p") or {}).get("k") == "bind":
            fine.add(st["e"])
    return [i for i in sorted(num) if i not in fine]


def pure(tier, seed, only=None):
    d = build.dump(build.REPO, tag="effects", crates=[])
    try:
        P = Program(glob.glob(d + "/*.json"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    g = graph(P)
    # shortest path to an effect, backwards
    nxt = {}
    for d_, s in g.items():
        for c, sp in s.items():
            if c.startswith("!") or c not in P.bodies and EFFECT.match(norm_name(c)):
                nxt.setdefault(d_, (c, sp))
    rev = {}
    for d_, s in g.items():
        for c in s:
            rev.setdefault(c, []).append(d_)
    todo = list(nxt)
    while todo:
        new = []
        for c in todo:
            for d_ in rev.get(c, ()):
                if d_ not in nxt:
                    nxt[d_] = (c, g[d_][c])
                    new.append(d_)
        todo = new
    drops = {it["d"] for im in P.impls.get("core::ops::drop::Drop", ()) for it in im["items"]}
    res = []
    for b in fns(P):
        if not b.j["reach"] and b.d not in drops or only and only not in b.d:
            continue
        seen, st = {b.d}, [b.d]
        while st:
            for c in g.get(st.pop(), ()):
                if c not in seen:
                    seen.add(c)
                    if c in g:
                        st.append(c)
        r = dict(name=b.d, key=b.d, dims=(), verdict="proved", why="", where=None, fns=[f for f in seen if f in P.bodies], calls=len(seen), t=0, i=len(res), crate="vecmat", entry=b.sp)
        if b.d in nxt:
            path, x, sp = [b.d], b.d, b.sp
            while x in nxt:
                x, sp = nxt[x]
                path.append(x.lstrip("!"))
            r.update(verdict="violated", why="does something its arguments do not determine or that is visible elsewhere: %s" % " -> ".join(path), where=sp)
        res.append(r)
    return res
