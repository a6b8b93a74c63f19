"""Abstract interpreter over THIR: computes, for a function, a summary of its result and effects
in the value-numbering domain.  Sizes, positions and enum tags are propagated as constants (or as
symbolic integers), element values stay terms.  States are merged at joins (gated), so there is no
path enumeration and no constraint solver."""
from fractions import Fraction
from .program import *
from .values import *
from . import nf, own


class Abrupt(Exception):
    """control left the current expression (outcome already recorded with its target)"""


class State:
    __slots__ = ("vals", "guard")

    def __init__(self, vals, guard):
        self.vals, self.guard = vals, guard

    def copy(self):
        return State(dict(self.vals), self.guard)


class Catch:
    __slots__ = ("outs", "depth")

    def __init__(self, depth=0):
        self.outs = []
        self.depth = depth  # storage declared further in goes out of scope on the way here


class Frame:
    __slots__ = ("body", "env", "vars", "labels", "conts", "ret", "upvars", "last_scope", "clo", "mur")

    def __init__(self, body, env):
        self.body, self.env = body, env
        self.vars, self.labels, self.conts = {}, {}, {}
        self.ret = Catch()
        self.upvars = {}
        self.last_scope = None
        self.clo = None
        self.mur = []      # storage with MaybeUninit / ManuallyDrop parts: (root, type), in ownership mode


LOOP_LIMIT = 600
SPLIT_LIMIT = 24

BINOPS = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem", "BitXor": "bitxor",
          "BitAnd": "bitand", "BitOr": "bitor", "Shl": "shl", "Shr": "shr",
          "Eq": "eq", "Ne": "ne", "Lt": "lt", "Le": "le", "Gt": "gt", "Ge": "ge"}


def int_leaves(t):
    if t.op == "ite":
        yield from int_leaves(t.args[1])
        yield from int_leaves(t.args[2])
    elif isint(t):
        yield ival(t)


def conj(lits):
    r = TRUE
    for c in lits:
        r = t_and(r, c)
    return r


def in_and(g, c, nc):
    for x in g.args:
        if x is c:
            return TRUE
        if x is nc:
            return FALSE
        if x.op == "and":
            r = in_and(x, c, nc)
            if r is not None:
                return r
    return None


def unneg(t):
    while t.op == "neg" and t.args[0].op == "neg":
        t = t.args[0].args[0]
    return t


def model_of(name):
    """the body in models/ that says what a function of core does"""
    return "vmodels" + name[4:] if name.startswith("core::") else "vmodels" + name[3:] if name.startswith("std::") else name


class Interp:
    def __init__(self, prog, ring_scalars=True):
        self.P = prog
        self.st = State({}, ())
        self.nroot = 0
        self.panics = []      # (guard term, kind, span)
        self.events = []      # unsafe obligations etc: (kind, ok, detail, span, fn)
        self.outlog = []      # targets of recorded jumps, in order
        self.visited = set()  # body ids interpreted
        self.callsites = 0
        self.real = False     # scalars are reals (field laws)
        self.overflow = None  # else: arithmetic of primitive integer types other than these panics outside their range
        self.approx = 0       # > 0 while interpreting over an over-approximated state
        self.steps = 0
        self.max_steps = 4000000
        self.stack = []
        self.gstack = []
        self.astack = []      # (function, arguments, state) of the recursive calls under way
        self.opq_no = 0
        self.scalar_ty = {}
        self.panic_conds = []
        self.opaque_params = {}   # type parameters that stand for opaque stateful objects: item types
        self.uncertain = False    # symbolic MaybeUninit values may be uninitialised
        self.drops = bool(prog.droppers())
        self._dropping = {}
        self.unwinding = False
        self.dead = set()     # variables of calls that have returned
        self.own = None       # ownership mode: an own.Own
        self.frames = []
        self.flight = []      # tracked arguments already evaluated
        self.mu_args = []
        self.muroots = set()
        from . import natives
        self.N = natives.table()

    # ------------------------------------------------------------ store
    def new_root(self, v):
        self.nroot += 1
        self.st.vals[self.nroot] = v
        return self.nroot

    def temp(self, v):
        return Ref(self.new_root(v), ())

    def read(self, root, path):
        v = self.st.vals.get(root)
        if v is None:
            raise Unknown("read of dead storage")
        for p in path:
            v = self.proj_val(v, p)
        return v

    def deref(self, r):
        """value behind a reference value (through gated references)"""
        if isinstance(r, VIte):
            return merge(r.c, self.deref(r.a), self.deref(r.b))
        if not isinstance(r, Ref):
            raise unk("deref of ", r)
        return self.read(r.root, r.path)

    def deref_all(self, v):
        while isinstance(v, Ref):
            v = self.read(v.root, v.path)
        if isinstance(v, VIte) and isinstance(v.a, (Ref, VIte)) and isinstance(v.b, (Ref, VIte)):
            return merge(v.c, self.deref_all(v.a), self.deref_all(v.b))
        return v

    def proj_val(self, v, p):
        if isinstance(v, VIte):
            return merge(v.c, self.proj_val(v.a, p), self.proj_val(v.b, p))
        k = p[0]
        if isinstance(v, (Bot,)):
            return v
        if isinstance(v, Uninit):
            return v
        if k == "f":
            if isinstance(v, Adt):
                return v.fs[p[1]]
            raise unk("field of ", v)
        if k == "v":
            if isinstance(v, Adt):
                return v.fs[p[2]] if v.v == p[1] else BOT
            raise unk("variant field of ", v)
        if k == "i":
            return self.index_val(v, p[1])
        if k == "s":
            return self.slice_val(v, p[1], p[2])
        if k in ("n", "c"):
            return v.fs[p[1]]
        raise Unknown("projection %s" % k)

    def index_val(self, v, i):
        if isinstance(v, Arr):
            if isint(i):
                k = ival(i)
                if not 0 <= k < len(v.es):
                    raise Unknown("index %d outside array of %d" % (k, len(v.es)))
                return v.es[k]
            if i.op == "ite":
                if not all(0 <= k < len(v.es) for k in int_leaves(i)):
                    raise NeedSplit("index ", i.args[0])
                return merge(i.args[0], self.index_val(v, i.args[1]), self.index_val(v, i.args[2]))
            if not v.es:
                return BOT
            r = v.es[-1]
            for k in range(len(v.es) - 2, -1, -1):
                r = merge(t_cmp("eq", i, num(k)), v.es[k], r)
            return r
        if isinstance(v, Lam):
            return vsubst(v.body, {v.var: i})
        raise unk("index of ", v)

    def slice_val(self, v, off, n):
        if isinstance(v, Arr):
            if isint(off) and isint(n):
                return Arr(v.es[ival(off):ival(off) + ival(n)])
            for t in (off, n):
                if t.op == "ite":
                    raise NeedSplit("subslice", t.args[0])
            raise Unknown("symbolic subslice")
        if isinstance(v, Lam):
            w = fresh_var()
            return Lam(n, w, vsubst(v.body, {v.var: t_arith("add", w, off)}))
        raise unk("slice of ", v)

    def write(self, root, path, nv):
        v = self.st.vals.get(root)
        if v is None:
            raise Unknown("write to dead storage")
        self.st.vals[root] = self.upd(v, path, 0, nv)

    def upd(self, v, path, k, nv):
        if k == len(path):
            return nv
        p = path[k]
        if isinstance(v, VIte):
            # strong update on both alternatives where the projection exists
            return merge(v.c, self.upd(v.a, path, k, nv), self.upd(v.b, path, k, nv))
        if isinstance(v, Bot):
            return v
        t = p[0]
        if t == "f" or t == "v":
            if not isinstance(v, Adt):
                raise unk("update field of ", v)
            if t == "v" and v.v != p[1]:
                return v
            i = p[1] if t == "f" else p[2]
            fs = list(v.fs)
            fs[i] = self.upd(fs[i], path, k + 1, nv)
            return Adt(v.d, v.v, fs, v.ta)
        if t in ("n", "c"):
            fs = list(v.fs)
            fs[p[1]] = self.upd(fs[p[1]], path, k + 1, nv)
            if isinstance(v, It):
                return It(v.k, fs, v.x)
            return Clo(v.d, v.env, v.caps, fs)
        if t == "i":
            i = p[1]
            if isinstance(v, Arr):
                if isint(i):
                    q = ival(i)
                    if not 0 <= q < len(v.es):
                        raise Unknown("write index outside array")
                    es = list(v.es)
                    es[q] = self.upd(es[q], path, k + 1, nv)
                    return Arr(es)
                return Arr([merge(t_cmp("eq", i, num(q)), self.upd(x, path, k + 1, nv), x) for q, x in enumerate(v.es)])
            if isinstance(v, Lam):
                w = v.var
                old = vsubst(v.body, {w: i})
                new = self.upd(old, path, k + 1, nv)
                return Lam(v.n, w, merge(t_cmp("eq", w, i), new, v.body))
            if isinstance(v, Uninit):
                raise Unknown("write into unsized uninit")
            raise unk("update index of ", v)
        if t == "s":
            off = p[1]
            if isinstance(v, Arr) and isint(off):
                if k + 1 == len(path):
                    es = list(v.es)
                    if not isinstance(nv, Arr):
                        raise Unknown("slice overwrite")
                    es[ival(off):ival(off) + len(nv.es)] = nv.es
                    return Arr(es)
                q = path[k + 1]
                if q[0] == "s":
                    return self.upd(v, path[:k] + (("s", t_arith("add", q[1], off), q[2]),) + path[k + 2:], k, nv)
                if q[0] != "i":
                    raise Unknown("nested slice view")
                np = path[:k] + (("i", t_arith("add", q[1], off)),) + path[k + 2:]
                return self.upd(v, np, k, nv)
            if isinstance(v, Lam) and k + 1 < len(path) and path[k + 1][0] in "is":
                q = path[k + 1]
                np = path[:k] + ((q[0], t_arith("add", q[1], off)) + q[2:],) + path[k + 2:]
                return self.upd(v, np, k, nv)
            raise Unknown("update through slice")
        raise Unknown("update projection")

    def length(self, v):
        if isinstance(v, Arr):
            return num(len(v.es))
        if isinstance(v, Lam):
            return v.n
        if isinstance(v, VIte):
            a, b = self.length(v.a), self.length(v.b)
            return t_ite(v.c, a, b)
        raise unk("length of ", v)

    # ------------------------------------------------------------ guards
    def decide(self, c):
        """simplify a condition under the current guard"""
        if c is TRUE or c is FALSE:
            return c
        nc = t_not(c)
        for g in self.st.guard:
            if g is c:
                return TRUE
            if g is nc:
                return FALSE
            if g.op == "and":
                r = in_and(g, c, nc)
                if r is not None:
                    return r
            elif g.op == "not" and g.args[0].op == "and":
                r = self.unit(g.args[0], c, nc)
                if r is not None:
                    return r
        if c.op == "not":
            return t_not(self.decide(c.args[0]))
        if c.op == "and":
            return t_and(self.decide(c.args[0]), self.decide(c.args[1]))
        if c.op == "ite":
            d = self.decide(c.args[0])
            if d is TRUE:
                return self.decide(c.args[1])
            if d is FALSE:
                return self.decide(c.args[2])
        if c.op in ("lt", "le", "eq"):
            a, b = self.simp(c.args[0]), self.simp(c.args[1])
            if a is not c.args[0] or b is not c.args[1]:
                c2 = t_cmp(c.op, a, b)
                if c2 is not c:
                    return self.decide(c2)
            from .nf import int_cmp
            r = int_cmp(c, self.st.guard)
            if r is not None:
                return boolt(r)
        return c

    def unit(self, g, c, nc):
        """c decided by the clause not(g) when the other members of g hold"""
        ms = []
        todo = [g]
        while todo:
            x = todo.pop()
            if x.op == "and":
                todo.extend(x.args)
            else:
                ms.append(x)
        if c not in ms and nc not in ms:
            return None
        rest = [m for m in ms if m is not c and m is not nc and m not in self.st.guard]
        if rest:
            return None
        return FALSE if c in ms else TRUE

    def simp(self, t):
        """resolve gates of a term under the guard (outermost only)"""
        n = 0
        while isinstance(t, Term) and t.op == "ite" and n < 50:
            d = self.decide(t.args[0])
            if d is TRUE:
                t = t.args[1]
            elif d is FALSE:
                t = t.args[2]
            else:
                break
            n += 1
        return t

    def fork(self, c, f, g):
        c = self.decide(c)
        if c is TRUE:
            return f()
        if c is FALSE:
            return g()
        base = self.st
        n = len(base.guard)
        s1 = base.copy()
        s1.guard = base.guard + (c,)
        s2 = base.copy()
        s2.guard = base.guard + (t_not(c),)
        outs = []
        self.st = s1
        try:
            v = f()
            outs.append((self.st, v))
        except Abrupt:
            pass
        self.st = s2
        try:
            v = g()
            outs.append((self.st, v))
        except Abrupt:
            pass
        return self.join(outs, n)

    def join(self, outs, n):
        """merge outcomes (state, value) whose guards share their first n literals"""
        if not outs:
            raise Abrupt()
        st, v = self._join(outs, n)
        self.st = st
        return v

    def _join(self, outs, n):
        if len(outs) == 1:
            return outs[0]
        lits = [o[0].guard[n] if len(o[0].guard) > n else None for o in outs]
        c = lits[0]
        if c is not None:
            if all(l is c for l in lits):
                return self._join(outs, n + 1)
            nc = t_not(c)
            a = [o for o, l in zip(outs, lits) if l is c]
            b = [o for o, l in zip(outs, lits) if l is nc]
            if len(a) + len(b) == len(outs):
                return self.gate(c, self._join(a, n + 1), self._join(b, n + 1), n)
        # outcomes in the order they were recorded: an earlier one, when its condition holds, has left already
        acc = outs[-1]
        for o in reversed(outs[:-1]):
            acc = self.gate(conj(o[0].guard[n:]), o, acc, n)
        return acc

    def gate(self, c, o1, o2, n):
        (s1, v1), (s2, v2) = o1, o2
        vals = {}
        d1, d2 = s1.vals, s2.vals
        for r, x in d1.items():
            if r in d2:
                y = d2[r]
                vals[r] = x if x is y else merge(c, x, y)
            else:
                vals[r] = merge(c, x, UNINIT) if r in self.muroots else x
        for r, y in d2.items():
            if r not in d1:
                vals[r] = merge(c, UNINIT, y) if r in self.muroots else y
        g = s1.guard[:n]
        if len(s1.guard) > n + 1 or len(s2.guard) > n + 1 or s1.guard[n:] != (c,) or s2.guard[n:] != (t_not(c),):
            # some paths below did not get here
            e = t_or(conj(s1.guard[n:]), conj(s2.guard[n:]))
            if e is not TRUE:
                g += (e,)
        return State(vals, g), merge(c, v1, v2)

    # ------------------------------------------------------------ panics & facts
    def guard_term(self):
        g = TRUE
        for c in self.st.guard:
            g = t_and(g, c)
        return g

    @property
    def watch(self):
        return self.own is not None or self.drops

    def track(self, t):
        """values of type t have to be followed: they hold elements that the compiler does not drop, or have a destructor"""
        return self.dropping(t) or self.own is not None and self.own.tracked(t)

    def dropping(self, t):
        """t contains a type with a destructor, by value"""
        if not self.drops:
            return False
        r = self._dropping.get(t)
        if r is None:
            self._dropping[t] = False
            r = self._dropping[t] = own.has_destructor(self.P, t)
        return r

    def panic(self, kind, sp=None):
        if self.watch:
            own.unwind_point(self, kind, sp)
        self.panics.append((self.st.guard, kind, self.where(sp)))
        raise Abrupt()

    def check(self, cond, kind, sp=None):
        """runtime check that panics when cond is false"""
        def bad():
            self.panic(kind, sp)
        return self.fork(cond, lambda: None, bad)

    def where(self, sp=None):
        fn = self.stack[-1] if self.stack else "?"
        return "%s%s" % (fn, (" at " + sp) if sp else "")

    def fact(self, kind, cond, detail, sp=None):
        """an obligation of an unsafe operation or layout rule: cond must hold whenever control gets here"""
        if isinstance(cond, bool):
            cond = boolt(cond)
        self.events.append((kind, cond, detail, self.where(sp), self.st.guard, self.approx))

    # ------------------------------------------------------------ calls
    def call_body(self, body, env, args, clo=None):
        if body.crate != "vmodels":
            self.visited.add(body.d)
        if len(self.stack) > 400:
            # hundreds of nested calls of one function that no condition on the inputs separates: it never returns
            f = next((f for f in dict.fromkeys(self.stack[-20:]) if sum(1 for d, g in zip(self.stack, self.gstack) if d == f and g == self.st.guard) >= len(self.stack) // 10), None)
            if f and len(self.stack) > 800:
                self.panic("unbounded recursion of %s" % f)
            if not f:
                raise Unknown("call depth: " + " > ".join(self.stack[-8:]))
        if self.real and body.d in self.stack:
            if nf.real_infeasible(self.st.guard):
                raise Abrupt()
            for d, old, st in self.astack:
                if d == body.d and clo is None and len(old) == len(args) and all(self.recurs(x, st, y) for x, y in zip(old, args)):
                    self.panic("unbounded recursion of %s" % d)
        fr = Frame(body, env)
        fr.clo = clo
        self.stack.append(body.d)
        self.gstack.append(self.st.guard)
        rec = self.real and clo is None and body.d in self.stack[:-1]
        if rec:
            self.astack.append((body.d, args, self.st.copy()))
        if self.watch:
            self.frames.append(fr)
        n = len(self.st.guard)
        outs = []
        mark, before = self.nroot, dict(self.st.vals)
        try:
            try:
                ps = body.params
                k = 0
                if clo is not None:
                    k = 1
                    self.setup_upvars(fr, clo)
                if len(ps) - k != len(args):
                    raise Unknown("arity of %s" % body.d)
                for p, a in zip(ps[k:], args):
                    if p["p"] is not None or self.watch and self.dropping(self.P.norm(ty_of(p["ty"]), env)):
                        r = self.new_root(a)
                        if self.watch:
                            self.storage(fr, r, self.P.norm(ty_of(p["ty"]), env))
                        if p["p"] is not None:
                            self.bind(fr, p["p"], r, ())
                v = self.eval(fr, body.root_expr)
                outs.append((self.st, v))
            except Abrupt:
                pass
            if fr.mur:
                ends = fr.ret.outs + outs
                fr.ret.outs, outs = [], []
                for st, v in ends:
                    self.st = st
                    try:
                        own.leave(self, fr)
                        outs.append((self.st, v))
                    except Abrupt:
                        pass
        finally:
            self.stack.pop()
            self.gstack.pop()
            if rec:
                self.astack.pop()
            if self.watch:
                self.frames.pop()
        v = self.join(fr.ret.outs + outs, n)
        if self.uncertain:
            self.dead.update(fr.vars.values())
        if not self.watch and len(self.st.vals) > len(before) + 4:
            self.collect(mark, before, v)
        return v

    def recurs(self, x, st, y):
        """the argument y is what the argument x of an enclosing call was in the state st"""
        if isinstance(x, Ref) and isinstance(y, Ref):
            now = self.st
            try:
                b = self.deref(y)
                self.st = st
                a = self.deref(x)
            finally:
                self.st = now
            return self.recurs(a, st, b)
        if isinstance(x, Term) and isinstance(y, Term):
            return unneg(x) is unneg(y)
        if isinstance(x, Adt) and isinstance(y, Adt):
            return x.d == y.d and x.v == y.v and len(x.fs) == len(y.fs) and all(self.recurs(a, st, b) for a, b in zip(x.fs, y.fs))
        if isinstance(x, Arr) and isinstance(y, Arr):
            return len(x.es) == len(y.es) and all(self.recurs(a, st, b) for a, b in zip(x.es, y.es))
        return False

    def collect(self, mark, before, v):
        """drops the storage of a call that has returned, as far as neither the result nor older storage refers to it"""
        vals = self.st.vals
        acc = set()
        if not roots_in(v, acc):
            return
        for r, x in vals.items():
            if r <= mark and before.get(r) is not x and not roots_in(x, acc):
                return
        live = set()
        while acc:
            r = acc.pop()
            if r > mark and r not in live and r in vals:
                live.add(r)
                if not roots_in(vals[r], acc):
                    return
        self.st.vals = {r: x for r, x in vals.items() if r <= mark or r in live}

    def storage(self, fr, root, t):
        """root holds a value of type t until the frame ends"""
        if self.track(t):
            fr.mur.append((root, t))
            self.muroots.add(root)

    def moved(self, fr, i, v):
        """the place expression i was read by value"""
        t = self.ety(fr, i)
        if self.track(t):
            r, p = self.place(fr, i)
            own.take(self, r, p, t)
        return v

    def setup_upvars(self, fr, clo):
        ref, cv = clo  # place of closure value, closure value
        for var, cap in cv.caps:
            if cap[0] == "ref":
                fr.upvars[var] = (cap[1], cap[2])
            else:
                fr.upvars[var] = (ref.root, ref.path + (("c", cap[1]),))

    def call_fn(self, ty, args, ety, sp=None):
        """call a fn item type"""
        self.callsites += 1
        d, targs, tr, tn, ctor = ty[1], ty[2], ty[3], ty[4], ty[5]
        if self.watch:
            mus, self.mu_args = self.mu_args, []
            if mus:
                nm = norm_name(d)
                if not (tr and self.P.find_impl(tr, targs[:tn])) and nm in self.N and nm not in own.MOVES and not ctor:
                    if any(self.dropping(t) for t in mus):
                        raise Unknown("value with a destructor passed to %s" % nm)
                    self.own.give_up("storage passed by value to %s" % nm)
        if ctor:
            if self.P.erased(ctor[0]) is not None and len(args) == 1:
                return args[0]
            return Adt(ctor[0], ctor[1], args, self.adt_args(ety))
        name = norm_name(d)
        if tr:
            s = targs[0]
            nat = self.N.get(name)
            if nat is not None and not self.local_self(tr, s):
                r = nat(self, args, targs, ety, sp)
                if r is not NotImplemented:
                    return r
            m = self.P.find_impl(tr, targs[:tn])
            if m is not None:
                im, e = m
                for it in im["items"]:
                    if it["of"] == d or (it["n"] == last(d) and it["kind"] == "fn"):
                        b = self.P.bodies.get(it["d"])
                        if b is None:
                            break
                        env = dict(e)
                        mine = b.generics[len(im["gn"]):]
                        env.update(zip(mine, targs[tn:]))
                        return self.call_body(b, env, args)
            if nat is not None:
                r = nat(self, args, targs, ety, sp)
                if r is not NotImplemented:
                    return r
            b = self.P.bodies.get(d)
            if b is not None:
                return self.call_body(b, dict(zip(b.generics, targs)), args)
            b = self.P.bodies.get(model_of(name))
            if b is not None and len(b.generics) == len(targs):
                return self.call_body(b, dict(zip(b.generics, targs)), args)
            from . import natives
            r = natives.trait_fallback(self, tr, last(d), args, targs, ety, sp)
            if r is not NotImplemented:
                return r
            raise Unknown("trait method %s on %s" % (d, s))
        nat = self.N.get(name)
        if nat is not None:
            r = nat(self, args, targs, ety, sp)
            if r is not NotImplemented:
                return r
        b = self.P.bodies.get(d)
        if b is not None:
            return self.call_body(b, dict(zip(b.generics, targs)), args)
        b = self.P.bodies.get(model_of(name))
        if b is not None and len(b.generics) == len(targs):
            return self.call_body(b, dict(zip(b.generics, targs)), args)
        raise Unknown("function %s" % d)

    def local_self(self, tr, s):
        while s[0] == "ref":
            s = s[1]
        return s[0] == "adt" and s[1] in self.P.adts and s[1] != "rand::distributions::uniform::Uniform"

    def adt_args(self, ety):
        if ety and ety[0] == "adt":
            return ety[2]
        return ()

    def call_value(self, f, args, ety=None, sp=None):
        """call a callable value (closure, fn item, opaque function), possibly behind references"""
        place = None
        while isinstance(f, Ref):
            place = f
            f = self.read(f.root, f.path)
        if isinstance(f, VIte):
            return self.fork(f.c, lambda: self.call_value(f.a, args, ety, sp), lambda: self.call_value(f.b, args, ety, sp))
        if isinstance(f, Clo):
            b = self.P.bodies[f.d]
            if place is None:
                place = self.temp(f)
            return self.call_body(b, f.env, args, clo=(place, f))
        if isinstance(f, Fn):
            if f.ty[0] != "fndef":
                raise Unknown("call of fn pointer")
            return self.call_fn(f.ty, args, ety, sp)
        if isinstance(f, NatFn):
            return f.fn(args)
        if isinstance(f, Opq):
            if place is None:
                raise Unknown("opaque function by value")
            ret = f.ty if f.ty is not None else ety
            return self.opaque_event(place, "call", args, ret)
        raise unk("call of ", f)

    def opaque_event(self, place, what, args, ret):
        """an event on an opaque object: result and next state are functions of its history"""
        o = self.read(place.root, place.path)
        if isinstance(o, Ref):
            return self.opaque_event(o, what, args, ret)
        if self.watch:
            own.unwind_point(self, "a call into user code (%s)" % what)
        if not isinstance(o, Opq):
            raise unk("event on ", o)
        at = [self.to_term(a) for a in args]
        ver = o.ver
        pure = o.name.startswith("pure:")
        res = Term("ev", what, ver, *at)
        if not pure:
            self.write(place.root, place.path, Opq(o.name, Term("next", what, ver, *at), o.ty))
        return self.symval(ret, res)

    def to_term(self, v):
        if isinstance(v, Term):
            return v
        if isinstance(v, Adt):
            return Term("adt", v.d, v.v, *[self.to_term(x) for x in v.fs])
        if isinstance(v, Arr):
            return Term("arr", *[self.to_term(x) for x in v.es])
        if isinstance(v, Lam):
            from .nf import canon_lam
            return canon_lam(self, v)
        if isinstance(v, Ref):
            x = self.read(v.root, v.path)
            if isinstance(x, Opq):
                return x.ver
            return Term("refto", self.to_term(x))
        if isinstance(v, VIte):
            return t_ite(v.c, self.to_term(v.a), self.to_term(v.b))
        if isinstance(v, Str):
            return Term("str", v.s)
        if isinstance(v, Opq):
            return v.ver
        if isinstance(v, Uninit):
            return Term("uninit")
        if isinstance(v, Fn):
            return Term("fn", v.ty[1])
        if isinstance(v, Bot):
            return Term("bot")
        if isinstance(v, It):
            return Term("it", v.k, *[self.to_term(x) for x in v.fs])
        raise unk("opaque argument ", v)

    # ------------------------------------------------------------ symbolic inputs
    def symval(self, ty, base):
        """a value of type ty whose leaves are projections of the term base"""
        k = ty[0]
        if k == "prim":
            if ty[1] == "str":
                raise Unknown("symbolic str")
            return base
        if k == "param" and ty[1] in self.opaque_params:
            return Opq(str(base.args[0]), base, self.opaque_params[ty[1]])
        if k == "proj" and ty[1] == "core::iter::traits::collect::IntoIterator::IntoIter":
            return Opq("iterator", base, self.P.proj("core::iter::traits::iterator::Iterator::Item", (ty,)))
        if k in ("param", "proj"):
            return base
        if k == "tup":
            return Adt("()", 0, [self.symval(x, self.pterm(base, i)) for i, x in enumerate(ty[1])])
        if k == "never":
            raise Abrupt()
        if k == "ref":
            return Ref(self.new_root(self.symval(ty[1], base)), ())
        if k == "arr":
            n = self.cterm(ty[2])
            if isint(n):
                return Arr([self.symval(ty[1], self.pterm(base, i)) for i in range(ival(n))])
            v = fresh_var()
            return Lam(n, v, self.symval(ty[1], Term("at", base, v)))
        if k == "adt":
            d = ty[1]
            if d == OPTION:
                return merge(Term("is_some", base), some(self.symval(ty[2][0], Term("payload", base))), NONE)
            if d == RESULT:
                return merge(Term("is_ok", base), ok(self.symval(ty[2][0], Term("payload", base))),
                             err(self.symval(ty[2][1], Term("errval", base))))
            if d == "core::marker::PhantomData":
                return Adt("()", 0, ())
            if d == "num_complex::Complex":
                return Adt(d, 0, [self.symval(ty[2][0], self.pterm(base, i)) for i in range(2)], ty[2])
            e = self.P.erased(d)
            if e is not None:
                if d in self.P.adts:
                    return self.symval(self.P.field_ty(d, ty[2], 0, e), base)
                v = self.symval(ty[2][0], base)
                if self.uncertain and d.endswith("::MaybeUninit"):
                    return merge(Term("is_some", Term("written", base)), v, UNINIT)
                return v
            a = self.P.adts.get(d)
            if a and a["kind"] == "Struct":
                fs = [self.symval(self.P.field_ty(d, ty[2], 0, i), self.pterm(base, i))
                      for i in range(len(a["variants"][0]["fields"]))]
                return Adt(d, 0, fs, ty[2])
        if k == "other":
            return base
        raise Unknown("symbolic value of type %s" % (ty,))

    def pterm(self, base, i):
        if base.op == "sym":
            return sym("%s.%d" % (base.args[0], i))
        return Term("proj", i, base)

    def cterm(self, c):
        if c[0] == "c":
            return c[1]
        if c[0] == "cparam":
            return sym(c[1])
        raise Unknown("const %s" % (c,))

    # ------------------------------------------------------------ places
    def place(self, fr, i):
        b = fr.body
        e = b.exprs[i]
        k = e["k"]
        if k == "scope" or k == "ascr":
            return self.place(fr, e["e"])
        if k == "var":
            return fr.vars[e["id"]], ()
        if k == "upvar":
            return fr.upvars[e["id"]]
        if k == "deref":
            v = self.eval(fr, e["e"])
            if isinstance(v, VIte):
                v = self.gated_ref(v)
            if isinstance(v, Ref):
                return v.root, v.path
            raise unk("deref of ", v)
        if k == "field":
            r, p = self.place(fr, e["e"])
            lt = self.P.norm(b.ety(e["e"]), fr.env)
            return r, self.field_path(lt, p, e["i"])
        if k == "index":
            r, p = self.place(fr, e["l"])
            idx = self.eval(fr, e["i"])
            n = self.length(self.read(r, p))
            self.check(t_cmp("lt", idx, n), "index out of bounds", e["sp"])
            return r, p + (("i", idx),)
        v = self.eval(fr, i)
        r = self.new_root(v)
        if self.watch:
            if self.dropping(self.ety(fr, i)):
                raise Unknown("temporary with a destructor")
            self.storage(fr, r, self.ety(fr, i))
        return r, ()

    def gated_ref(self, v):
        """a gated reference: resolve under the guard, else give a snapshot cell (reads only)"""
        c = self.decide(v.c)
        if c is TRUE:
            return v.a
        if c is FALSE:
            return v.b
        return Ref(self.new_root(self.deref(v)), ())

    def field_path(self, lt, p, i):
        if lt[0] == "adt":
            e = self.P.erased(lt[1])
            if e is not None:
                if e == i:
                    return p
                raise Unknown("zero-sized field")
        return p + (("f", i),)

    # ------------------------------------------------------------ patterns
    def test(self, fr, pat, root, path):
        k = pat["k"]
        if k == "wild":
            return TRUE
        if k == "bind":
            return self.test(fr, pat["sub"], root, path) if pat["sub"] else TRUE
        if k == "leaf":
            t = self.P.norm(ty_of(pat["ty"]), fr.env)
            c = TRUE
            for i, sp in pat["subs"]:
                c = t_and(c, self.test(fr, sp, root, self.leaf_path(t, path, i)))
            return c
        if k == "deref":
            v = self.read(root, path)
            if isinstance(v, Str):
                return self.test(fr, pat["sub"], root, path)
            if isinstance(v, VIte):
                v = self.gated_ref(v)
            if not isinstance(v, Ref):
                raise unk("deref pattern on ", v)
            return self.test(fr, pat["sub"], v.root, v.path)
        if k == "variant":
            v = self.read(root, path)
            c = self.variant_cond(v, pat["v"])
            if c is FALSE:
                return c
            for i, sp in pat["subs"]:
                if sp["k"] in ("wild",) or (sp["k"] == "bind" and not sp["sub"]):
                    continue
                c = t_and(c, self.test(fr, sp, root, path + (("v", pat["v"], i),)))
            return c
        if k == "const":
            v = self.read(root, path)
            w = pat["v"]
            t = ty_of(pat["ty"])
            if isinstance(v, Str):
                return boolt(repr(v.s).strip("'") in str(w))
            if not isinstance(v, Term):
                raise unk("const pattern on ", v)
            if t == ("prim", "bool"):
                return v if int(w) else t_not(v)
            if t[0] == "prim" and t[1] in PRIM_INT:
                w = int(w)
                if t[1][0] == "i":
                    bits = 64 if t[1] == "isize" else int(t[1][1:])
                    if w >= 1 << (bits - 1):
                        w -= 1 << bits
                return t_cmp("eq", v, num(w))
            raise Unknown("const pattern")
        if k == "range":
            v = self.read(root, path)
            c = TRUE
            if pat["lo"] is not None:
                c = t_and(c, t_cmp("le", num(int(pat["lo"])), v))
            if pat["hi"] is not None:
                c = t_and(c, t_cmp("le" if pat["inc"] else "lt", v, num(int(pat["hi"]))))
            return c
        if k == "slice":
            v = self.read(root, path)
            n = self.length(v)
            a, z = len(pat["pre"]), len(pat["suf"])
            c = t_cmp("le", num(a + z), n) if pat["mid"] else t_cmp("eq", n, num(a + z))
            c = self.decide(c)
            if c is FALSE:
                return c
            for i, sp in enumerate(pat["pre"]):
                c = t_and(c, self.test(fr, sp, root, path + (("i", num(i)),)))
            for i, sp in enumerate(pat["suf"]):
                c = t_and(c, self.test(fr, sp, root, path + (("i", t_arith("sub", n, num(z - i))),)))
            return c
        if k == "or":
            c = FALSE
            for sp in pat["pats"]:
                c = t_or(c, self.test(fr, sp, root, path))
            return c
        raise Unknown("pattern %s" % k)

    def leaf_path(self, t, path, i):
        if t[0] == "adt":
            e = self.P.erased(t[1])
            if e is not None:
                if e != i:
                    raise Unknown("zero-sized field pattern")
                return path
        return path + (("f", i),)

    def variant_cond(self, v, idx):
        if isinstance(v, Adt):
            return boolt(v.v == idx)
        if isinstance(v, VIte):
            c = self.decide(v.c)
            return t_ite(c, self.variant_cond(v.a, idx), self.variant_cond(v.b, idx))
        if isinstance(v, Bot):
            return FALSE
        if isinstance(v, Term):
            return Term("isvar", idx, v)
        raise unk("variant test on ", v)

    def bind(self, fr, pat, root, path):
        k = pat["k"]
        if k == "bind":
            if pat["mode"] == "val":
                v = self.read(root, path)
                fr.vars[pat["var"]] = self.new_root(self.resolve(v))
                if self.watch:
                    t = self.P.norm(ty_of(pat["ty"]), fr.env)
                    if self.track(t):
                        own.take(self, root, path, t)
                        self.storage(fr, fr.vars[pat["var"]], t)
            else:
                fr.vars[pat["var"]] = self.new_root(Ref(root, path))
            if pat["sub"]:
                self.bind(fr, pat["sub"], root, path)
        elif k == "leaf":
            t = self.P.norm(ty_of(pat["ty"]), fr.env)
            for i, sp in pat["subs"]:
                if sp["k"] == "wild":
                    continue
                self.bind(fr, sp, root, self.leaf_path(t, path, i))
        elif k == "deref":
            v = self.read(root, path)
            if isinstance(v, VIte):
                v = self.gated_ref(v)
            if isinstance(v, Str):
                return self.bind(fr, pat["sub"], root, path)
            if not isinstance(v, Ref):
                raise Unknown("deref pattern")
            self.bind(fr, pat["sub"], v.root, v.path)
        elif k == "variant":
            for i, sp in pat["subs"]:
                self.bind(fr, sp, root, path + (("v", pat["v"], i),))
        elif k == "slice":
            n = None
            for i, sp in enumerate(pat["pre"]):
                self.bind(fr, sp, root, path + (("i", num(i)),))
            if pat["mid"] or pat["suf"]:
                n = self.length(self.read(root, path))
                z = len(pat["suf"])
                if pat["mid"]:
                    a = len(pat["pre"])
                    m = t_arith("sub", n, num(a + z))
                    self.bind(fr, pat["mid"], root, path + (("s", num(a), m),))
                for i, sp in enumerate(pat["suf"]):
                    self.bind(fr, sp, root, path + (("i", t_arith("sub", n, num(z - i))),))
        elif k == "or":
            for sp in pat["pats"]:
                c = self.decide(self.test(fr, sp, root, path))
                if c is TRUE:
                    return self.bind(fr, sp, root, path)
                if c is not FALSE:
                    if not self.has_bind(sp):
                        continue
                    raise Unknown("or-pattern binding")

    def has_bind(self, p):
        if p["k"] == "bind":
            return True
        return any(self.has_bind(s[1] if isinstance(s, list) else s) for s in p.get("subs", []) + p.get("pats", []) + p.get("pre", []) + p.get("suf", []) + ([p["sub"]] if p.get("sub") else []))

    def declare(self, fr, pat):
        k = pat["k"]
        if k == "bind":
            fr.vars[pat["var"]] = self.new_root(UNINIT)
            if self.own:
                self.storage(fr, fr.vars[pat["var"]], self.P.norm(ty_of(pat["ty"]), fr.env))
        for s in pat.get("subs", []):
            self.declare(fr, s[1])

    def resolve(self, v):
        while isinstance(v, VIte):
            c = self.decide(v.c)
            if c is TRUE:
                v = v.a
            elif c is FALSE:
                v = v.b
            else:
                break
        return v

    # ------------------------------------------------------------ expressions
    def eval(self, fr, i):
        self.steps += 1
        tick()
        if self.steps > self.max_steps:
            raise Unknown("step budget")
        e = fr.body.exprs[i]
        return getattr(self, "x_" + e["k"])(fr, e, i)

    def ety(self, fr, i):
        return self.P.norm(fr.body.ety(i), fr.env)

    def x_scope(self, fr, e, i):
        fr.last_scope = e["s"]
        return self.eval(fr, e["e"])

    def x_use(self, fr, e, i):
        return self.eval(fr, e["e"])

    def x_ascr(self, fr, e, i):
        return self.eval(fr, e["e"])

    def x_var(self, fr, e, i):
        v = self.resolve(self.read(fr.vars[e["id"]], ()))
        return self.moved(fr, i, v) if self.watch else v

    def x_upvar(self, fr, e, i):
        v = self.resolve(self.read(*fr.upvars[e["id"]]))
        return self.moved(fr, i, v) if self.watch else v

    def x_deref(self, fr, e, i):
        v = self.eval(fr, e["e"])
        if isinstance(v, Str):
            return v
        if self.track(self.ety(fr, i)):
            if not isinstance(v, Ref):
                if not self.own or self.dropping(self.ety(fr, i)):
                    raise Unknown("move out of a gated reference")
                self.own.give_up("move out of a gated reference")
                return self.resolve(self.deref(v))
            w = self.resolve(self.deref(v))
            own.take(self, v.root, v.path, self.ety(fr, i))
            return w
        return self.resolve(self.deref(v))

    def x_field(self, fr, e, i):
        r, p = self.place(fr, i)
        v = self.resolve(self.read(r, p))
        if self.track(self.ety(fr, i)):
            own.take(self, r, p, self.ety(fr, i))
        return v

    x_index = x_field

    def x_borrow(self, fr, e, i):
        b = fr.body.exprs[e["e"]]
        while b["k"] == "scope":
            b = fr.body.exprs[b["e"]]
        if b["k"] == "deref":
            v = self.eval(fr, b["e"])
            if isinstance(v, (Str, VIte)):
                return v
            if isinstance(v, Ref):
                return Ref(v.root, v.path, bool(e.get("raw")))
        r, p = self.place(fr, e["e"])
        return Ref(r, p, bool(e.get("raw")))

    def x_lit(self, fr, e, i):
        k = e["lk"]
        if k == "int":
            v = int(e["v"])
            return num(-v if e["neg"] else v)
        if k == "float":
            s = e["v"].replace("_", "")
            v = Fraction(s if not s.endswith(".") else s + "0")
            return num(-v if e["neg"] else v)
        if k == "bool":
            return boolt(e["v"])
        if k == "char":
            return num(int(e["v"]))
        if k == "str":
            return Str(e["v"])
        if k == "bytes":
            return Str(bytes(e["v"]))
        raise Unknown("literal")

    def x_zst(self, fr, e, i):
        t = self.ety(fr, i)
        if t[0] == "fndef":
            return Fn(t)
        if t == ("tup", ()):
            return UNIT
        if t[0] == "adt":
            return Adt(t[1], 0, (), t[2])
        raise Unknown("zst %s" % (t,))

    def x_cparam(self, fr, e, i):
        return self.cterm(fr.env.get(e["n"], ("cparam", e["n"])))

    def x_const(self, fr, e, i):
        d = e["d"]
        b = self.P.bodies.get(d)
        targs = tuple(self.P.norm(ty_of(x), fr.env) for x in e["a"])
        if b is None:
            from . import natives
            r = natives.const(self, norm_name(d), self.ety(fr, i))
            if r is not None:
                return r
            tr = parent(d)
            m = self.P.find_impl(tr, targs) if tr in self.P.impls else None
            if m is None:
                return Term("const", norm_name(d))
            for it in m[0]["items"]:
                if it["n"] == last(d):
                    return self.call_body(self.P.bodies[it["d"]], dict(m[1]), [])
            raise Unknown("const %s" % d)
        return self.call_body(b, dict(zip(b.generics, targs)), [])

    def x_constblock(self, fr, e, i):
        b = self.P.bodies.get(e["d"])
        if b is None:
            raise Unknown("inline const")
        return self.call_body(b, fr.env, [])

    def x_static(self, fr, e, i):
        raise Unknown("static")

    def x_other(self, fr, e, i):
        raise Unknown("expression %s" % e.get("s"))

    def x_tuple(self, fr, e, i):
        return Adt("()", 0, [self.eval(fr, x) for x in e["es"]])

    def x_array(self, fr, e, i):
        return Arr([self.eval(fr, x) for x in e["es"]])

    def x_repeat(self, fr, e, i):
        v = self.eval(fr, e["e"])
        n = self.cterm(self.P.norm(ty_of(e["n"]), fr.env))
        if isint(n):
            return Arr([v] * ival(n))
        return Lam(n, fresh_var(), v)

    def x_adt(self, fr, e, i):
        d = e["d"]
        vals = {}
        for idx, x in e["fs"]:
            vals[idx] = self.eval(fr, x)
        er = self.P.erased(d)
        if er is not None:
            return vals[er]
        if e["base"] is not None:
            if e["base"] == "default":
                raise Unknown("default field values")
            bv = self.eval(fr, e["base"])
            fs = list(bv.fs)
            for k, x in vals.items():
                fs[k] = x
        else:
            fs = [vals[k] for k in sorted(vals)]
        ta = tuple(self.P.norm(ty_of(x), fr.env) for x in e["a"])
        return Adt(d, e["v"], fs, ta)

    def x_closure(self, fr, e, i):
        caps = []
        fs = []
        byref = {}
        for c in e["caps"]:
            v = c["var"]
            if v in byref:
                byref[v] = byref[v] or c["ref"]
            else:
                byref[v] = c["ref"]
        for v, isref in byref.items():
            if v in fr.upvars:
                r, p = fr.upvars[v]
            else:
                r, p = fr.vars[v], ()
            if isref:
                caps.append((v, ("ref", r, p)))
            else:
                caps.append((v, ("own", len(fs))))
                fs.append(self.read(r, p))
                if self.watch:
                    t = next((self.P.norm(ty_of(c["ty"]), fr.env) for c in e["caps"] if c["var"] == v and c.get("ty")), None)
                    if t is not None and self.dropping(t):
                        raise Unknown("closure that captures a value with a destructor")
                    if t is not None and self.own and self.own.wrapped(t):
                        self.own.give_up("closure that captures storage by value")
        return Clo(e["d"], fr.env, tuple(caps), fs)

    def x_block(self, fr, e, i):
        b = fr.body.blocks[e["b"]]
        if b["tb"]:
            n = len(self.st.guard)
            c = fr.labels[b["s"]] = Catch(len(fr.mur))
            outs = []
            try:
                v = self.block(fr, b)
                outs.append((self.st, v))
            except Abrupt:
                pass
            return self.join(c.outs + outs, n)
        return self.block(fr, b)

    def out(self, target, v):
        target.outs.append((self.st, v))
        self.outlog.append(target)

    def block(self, fr, b):
        if not self.drops:
            return self.block_(fr, b)
        n = len(fr.mur)
        v = self.block_(fr, b)
        own.unscope(self, fr, n)
        return v

    def block_(self, fr, b):
        for s in b["stmts"]:
            s = fr.body.stmts[s]
            if s["k"] == "expr":
                v = self.splitting(fr, lambda: self.eval(fr, s["e"]))
                if self.track(self.ety(fr, s["e"])):
                    own.discard(self, v, self.ety(fr, s["e"]), "discarded storage")
            else:
                self.splitting(fr, lambda: self.let_stmt(fr, s))
        if b["e"] is not None:
            return self.splitting(fr, lambda: self.eval(fr, b["e"]))
        return UNIT

    def splitting(self, fr, f, depth=0):
        """evaluate f; where it needs to know which side of a gate it is on, evaluate it once per side"""
        saved = self.st.copy(), len(self.panics), len(self.events), len(self.outlog)
        try:
            return f()
        except NeedSplit as e:
            if depth >= SPLIT_LIMIT:
                raise Unknown(str(e))
            from .nf import conds_of_bool
            acc = []
            conds_of_bool(e.cond, acc, set())
            if not acc:
                raise Unknown(str(e))
            c = acc[0]
            self.st, np, ne, no = saved
            del self.panics[np:], self.events[ne:]
            while len(self.outlog) > no:
                self.outlog.pop().outs.pop()

            sides = {}
            vars0 = fr.vars

            def side(b):
                def g():
                    m = {c: boolt(b)}
                    self.st.vals = {k: vsubst(v, m) for k, v in self.st.vals.items()}
                    fr.vars = dict(vars0)
                    v = self.splitting(fr, f, depth + 1)
                    sides[b] = fr.vars
                    return v
                return g
            try:
                r = self.fork(c, side(True), side(False))
            except Abrupt:
                fr.vars = vars0
                raise
            if len(sides) == 1:
                fr.vars = next(iter(sides.values()))
                return r
            # variables bound on both sides live in different cells: join them
            a, b = sides[True], sides[False]
            fr.vars = dict(a)
            for k, y in b.items():
                x = a.get(k, y)
                if x != y and not (x in self.st.vals and y in self.st.vals):
                    fr.vars.pop(k, None)    # out of scope on one of the sides, hence after them
                    continue
                fr.vars[k] = x if x == y else self.new_root(merge(c, self.st.vals[x], self.st.vals[y]))
            return r

    def let_stmt(self, fr, s):
        if s["e"] is None:
            self.declare(fr, s["p"])
            return
        x = fr.body.exprs[s["e"]]
        pat = s["p"]
        if pat["k"] == "bind" and pat["mode"] == "val" and not pat["sub"]:
            v = self.eval(fr, s["e"])
            fr.vars[pat["var"]] = self.new_root(v)
            if self.watch:
                self.storage(fr, fr.vars[pat["var"]], self.ety(fr, s["e"]))
            return
        r, p = self.place(fr, s["e"])
        if s["els"] is not None:
            c = self.test(fr, pat, r, p)

            def els():
                self.block(fr, fr.body.blocks[s["els"]])
                raise Abrupt()
            self.fork(c, lambda: self.bind(fr, pat, r, p), els)
        else:
            self.bind(fr, pat, r, p)

    def x_assign(self, fr, e, i):
        v = self.eval(fr, e["r"])
        r, p = self.place(fr, e["l"])
        if self.track(self.ety(fr, e["l"])):
            own.discard(self, self.read(r, p), self.ety(fr, e["l"]), "contents of storage that is overwritten", e["sp"], place=(r, p))
        self.write(r, p, v)
        return UNIT

    def x_assignop(self, fr, e, i):
        v = self.eval(fr, e["r"])
        r, p = self.place(fr, e["l"])
        op = e["op"].replace("Assign", "")
        old = self.read(r, p)
        self.inrange(BINOPS[op], old, v, fr.body.exprs[e["l"]]["ty"], e["sp"])
        self.write(r, p, self.binop(BINOPS[op], old, v, self.ety(fr, e["l"]), e["sp"]))
        return UNIT

    def by_type(self, t, atom, prim, ref):
        """a condition on a type that holds of a product iff it holds of every component"""
        k = t[0]
        if k in ("proj", "opaque"):
            return Term(atom, Term("str", self.tname(t)))
        if k == "param":
            return prim if t[1] in (self.own.copy if self.own and atom == "trivial" else ()) else Term(atom, Term("str", t[1]))
        if k in ("ref", "ptr", "fnptr"):
            return ref
        if k == "prim":
            return prim
        if k == "arr":
            n = self.cterm(t[2])
            return TRUE if n is ZERO else t_or(t_cmp("eq", n, ZERO), self.by_type(t[1], atom, prim, ref))
        if k == "tup":
            r = TRUE
            for x in t[1]:
                r = t_and(r, self.by_type(x, atom, prim, ref))
            return r
        if k == "adt":
            if t[1] == "core::marker::PhantomData":
                return TRUE
            a = self.P.adts.get(t[1])
            if a and len(a["variants"]) == 1 and not (a.get("drop") and atom == "trivial"):
                r = TRUE
                for i in range(len(a["variants"][0]["fields"])):
                    r = t_and(r, self.by_type(self.P.field_ty(t[1], t[2], 0, i), atom, prim, ref))
                return r
            if a and a.get("drop"):
                return FALSE
            if a is None and atom == "trivial" and t[1] in ("core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop"):
                return TRUE
            if a is None and self.P.transparent(t[1]):
                return self.by_type(t[2][0], atom, prim, ref)
        raise Unknown("representation of " + self.tname(t))

    def zero_sized(self, t):
        return self.by_type(t, "iszst", FALSE, FALSE)

    def size_of(self, t):
        k = t[0]
        if k in ("param", "proj", "opaque"):
            return t_ite(self.zero_sized(t), ZERO, Term("sizeof", Term("str", self.tname(t)), ONE))
        if k == "prim" and t[1] not in ("str",):
            return num({"bool": 1, "char": 4, "usize": 8, "isize": 8}.get(t[1]) or int(t[1][1:]) // 8)
        if k == "arr":
            n = self.cterm(t[2])
            if not isint(n):
                raise Unknown("size of " + self.tname(t))
            x = self.size_of(t[1])
            if x.op == "num" or n is ZERO:
                return t_arith("mul", n, x)
            y = x.args[2]     # the gate that size_of makes for a parameter
            return t_ite(x.args[0], ZERO, Term("sizeof", y.args[0], t_arith("mul", y.args[1], n)))
        if k == "adt" and t[1] == "core::marker::PhantomData" or k == "tup" and not t[1]:
            return ZERO
        l = self.layout(t)
        if l != t:
            return self.size_of(l)
        raise Unknown("size of " + self.tname(t))

    def same_place(self, a, b, ty=None):
        """whether two references point to the same place (address)"""
        if a.root == b.root:
            if a.path == b.path:
                return TRUE
            if ty is not None and a.path and len(a.path) == len(b.path) and a.path[:-1] == b.path[:-1] and a.path[-1][0] == b.path[-1][0] == "i":
                i, j = a.path[-1][1], b.path[-1][1]
                if isinstance(i, Term) and isinstance(j, Term):
                    return t_or(t_cmp("eq", i, j), self.zero_sized(ty))
            if len(a.path) == len(b.path) and all(x == y or x[0] == y[0] and x[0] in ("f", "i") and (x[0] == "f" or isint(x[1]) and isint(y[1])) for x, y in zip(a.path, b.path)):
                return FALSE
            raise Unknown("comparison of addresses within one object")
        if self.uncertain or self.overflow is not None:
            raise Unknown("comparison of addresses of arguments")
        return FALSE

    def x_bin(self, fr, e, i):
        a = self.eval(fr, e["l"])
        b = self.eval(fr, e["r"])
        self.inrange(BINOPS[e["op"]], a, b, fr.body.exprs[e["l"]]["ty"], e["sp"])
        return self.binop(BINOPS[e["op"]], a, b, self.ety(fr, e["l"]), e["sp"])

    def binop(self, op, a, b, ty, sp=None):
        if not (isinstance(a, Term) and isinstance(b, Term)):
            if isinstance(a, Ref) and isinstance(b, Ref) and op in ("eq", "ne"):
                r = self.same_place(a, b, ty[1] if ty[0] in ("ptr", "ref") else None)
                return r if op == "eq" else t_not(r)
            raise unk("operator %s on %s, %s" % (op, type(a).__name__, type(b).__name__), a if isinstance(a, VIte) else b)
        if op in ("lt", "le", "gt", "ge", "eq", "ne"):
            return t_cmp(op, a, b)
        prim = ty[1] if ty[0] == "prim" else None
        if prim == "bool":
            if op == "bitand":
                return t_and(a, b)
            if op == "bitor":
                return t_or(a, b)
            if op == "bitxor":
                return t_ite(a, t_not(b), b)
        isi = prim in PRIM_INT
        if isi and isint(a) and isint(b):
            x, y = ival(a), ival(b)
            r = None
            if op == "add":
                r = x + y
            elif op == "sub":
                r = x - y
            elif op == "mul":
                r = x * y
            elif op in ("div", "rem"):
                if y == 0:
                    self.panic("division by zero", sp)
                q = abs(x) // abs(y)
                q = q if (x < 0) == (y < 0) else -q
                r = q if op == "div" else x - q * y
            elif op == "bitand":
                r = x & y
            elif op == "bitor":
                r = x | y
            elif op == "bitxor":
                r = x ^ y
            elif op == "shl":
                r = x << y
            elif op == "shr":
                r = x >> y
            if r is not None:
                if prim[0] == "u" and r < 0:
                    self.panic("arithmetic underflow", sp)
                return num(r)
        if op in ("add", "sub", "mul"):
            return t_arith(op, a, b)
        return Term(op, a, b)

    def inrange(self, op, a, b, ty, sp):
        """built-in arithmetic on integers that are not elements panics where overflow checks are on"""
        if self.overflow is None:
            return
        ty = ty_of(ty)
        if ty[0] != "prim" or ty[1] not in PRIM_INT or ty[1] in self.overflow or not self.stack[-1].startswith("vecmat::"):
            return
        prim = ty[1]
        if not isinstance(a, Term) or b is not None and not isinstance(b, Term) or isint(a) and (b is None or isint(b)):
            return
        bits = 64 if prim.endswith("size") else int(prim[1:])
        lo, hi = (0, 2 ** bits - 1) if prim[0] == "u" else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
        if op in ("div", "rem"):
            self.check(t_cmp("ne", b, num(0)), "division by zero", sp)
            if lo < 0:
                self.check(t_not(t_and(t_cmp("eq", a, num(lo)), t_cmp("eq", b, num(-1)))), "arithmetic overflow", sp)
        elif op == "neg":
            self.check(t_cmp("eq", a, num(0)) if lo == 0 else t_cmp("ne", a, num(lo)), "arithmetic overflow", sp)
        elif op == "sub" and lo == 0:
            self.check(t_cmp("le", b, a), "arithmetic underflow", sp)
        elif op in ("shl", "shr"):
            self.check(t_and(t_cmp("le", num(0), b), t_cmp("lt", b, num(bits))), "shift overflow", sp)
        elif op in ("add", "sub", "mul"):
            r = t_arith(op, a, b)
            self.check(t_and(t_cmp("le", num(lo), r), t_cmp("le", r, num(hi))), "arithmetic overflow", sp)

    def x_un(self, fr, e, i):
        a = self.eval(fr, e["e"])
        if e["op"] == "Not":
            if self.ety(fr, i) == ("prim", "bool"):
                return t_not(a)
            return Term("bitnot", a)
        self.inrange("neg", a, None, fr.body.exprs[i]["ty"], e["sp"])
        return t_neg(a)

    def x_logic(self, fr, e, i):
        a = self.eval(fr, e["l"])
        if e["op"] == "And":
            return self.fork(a, lambda: self.eval(fr, e["r"]), lambda: FALSE)
        return self.fork(a, lambda: TRUE, lambda: self.eval(fr, e["r"]))

    def x_cast(self, fr, e, i):
        v = self.eval(fr, e["e"])
        t = self.ety(fr, i)
        s = self.ety(fr, e["e"])
        return self.cast(v, s, t, e["sp"])

    def cast(self, v, s, t, sp=None):
        if t[0] in ("ptr", "ref"):
            if s[0] in ("ptr", "ref"):
                return self.ptr_cast(v, s[1], t[1], sp)
            if isinstance(v, (Fn, Clo)):
                return v
            raise Unknown("cast to pointer")
        if t[0] == "fnptr" or t[0] == "other":
            return v
        if t[0] == "prim" and isinstance(v, Term):
            if v is TRUE:
                return ONE
            if v is FALSE:
                return ZERO
            if s == ("prim", "bool"):
                return t_ite(v, ONE, ZERO)
            if v.op == "num":
                if t[1] in FLOATS:
                    return v
                x = v.args[0]
                if t[1] in PRIM_INT:
                    x = int(x)
                    bits = 64 if t[1][1:] == "size" else int(t[1][1:])
                    x &= (1 << bits) - 1
                    if t[1][0] == "i" and x >= 1 << (bits - 1):
                        x -= 1 << bits
                    return num(x)
            if s == t:
                return v
            return Term("cast", t[1], v)
        raise Unknown("cast")

    # pointer casts: identity in the value domain, provided the layouts agree
    def ptr_cast(self, v, a, b, sp):
        ca, cb = self.layout(a), self.layout(b)
        if ca == cb:
            self.fact("layout", True, "cast between %s and %s" % (self.tname(a), self.tname(b)), sp)
            return v
        if not isinstance(v, Ref):
            raise unk("pointer cast of ", v)
        # pointer to array -> pointer to its first element (possibly repeatedly)
        x, path = ca, v.path
        while x[0] in ("arr", "slice"):
            x = x[1]
            path = path + (("i", ZERO),)
            if x == cb:
                return Ref(v.root, path, True)
        # first element of a whole array -> the array again
        if cb[0] == "arr" and path == v.path and path and path[-1][0] == "i" and path[-1][1] is ZERO:
            pv = self.read(v.root, path[:-1])
            if cb[1] == ca and self.length(pv) is self.cterm(cb[2]):
                return Ref(v.root, path[:-1], True)
        if cb[0] == "prim" and cb[1] in ("u8", "i8") or cb == ("tup", ()):
            raise Unknown("pointer to bytes")
        self.fact("layout", False, "cast from %s to %s: layouts are not guaranteed to agree" % (self.tname(a), self.tname(b)), sp)
        raise Unknown("pointer cast between %s and %s" % (self.tname(a), self.tname(b)))

    def layout(self, t):
        """canonical layout type: transparent wrappers removed"""
        if t[0] == "adt" and self.P.transparent(t[1]):
            if t[1] in self.P.adts:
                e = self.P.erased(t[1])
                if e is not None:
                    return self.layout(self.P.field_ty(t[1], t[2], 0, e))
            else:
                return self.layout(t[2][0])
        if t[0] == "arr":
            return ("arr", self.layout(t[1]), t[2])
        if t[0] == "slice":
            return ("slice", self.layout(t[1]))
        if t[0] == "adt":
            return ("adt", t[1], tuple(x if is_const(x) else self.layout(x) for x in t[2]))
        if t[0] == "tup":
            return ("tup", tuple(self.layout(x) for x in t[1]))
        return t

    def tname(self, t):
        k = t[0]
        if k in ("prim", "param", "cparam"):
            return t[1]
        if k == "c":
            return str(t[1])
        if k == "adt":
            return "%s<%s>" % (last(t[1]), ", ".join(self.tname(x) for x in t[2]))
        if k == "arr":
            return "[%s; %s]" % (self.tname(t[1]), self.tname(t[2]))
        if k == "slice":
            return "[%s]" % self.tname(t[1])
        if k in ("ref", "ptr"):
            return {"ref": "&", "ptr": "*"}[k] + self.tname(t[1])
        if k == "tup":
            return "(%s)" % ", ".join(self.tname(x) for x in t[1])
        return str(t[1]) if len(t) > 1 else k

    def x_coerce(self, fr, e, i):
        v = self.eval(fr, e["e"])
        c = e["c"]
        if c.startswith("ClosureFnPointer") or c.startswith("ReifyFnPointer") or c.startswith("UnsafeFnPointer"):
            return v
        return v  # Unsize / MutToConstPointer / ArrayToPointer keep the place

    def x_call(self, fr, e, i):
        fty = self.P.norm(ty_of(e["fty"]), fr.env) if "_fty" not in e else self.P.norm(e["_fty"], fr.env)
        if fty[0] == "fndef":
            if self.watch:
                n = len(self.flight)
                args, mus = [], []
                for a in e["args"]:
                    args.append(self.eval(fr, a))
                    t = self.ety(fr, a)
                    if self.track(t):
                        self.flight.append((args[-1], t))
                        mus.append(t)
                del self.flight[n:]
                self.mu_args = mus
                return self.resolve(self.call_fn(fty, args, self.ety(fr, i), e["sp"]))
            args = [self.eval(fr, a) for a in e["args"]]
            return self.resolve(self.call_fn(fty, args, self.ety(fr, i), e["sp"]))
        f = self.eval(fr, e["fun"])
        args = [self.eval(fr, a) for a in e["args"]]
        return self.call_value(f, args, self.ety(fr, i), e["sp"])

    def x_if(self, fr, e, i):
        c = self.cond(fr, e["c"])

        def t():
            return self.eval(fr, e["t"])

        def f():
            return self.eval(fr, e["f"]) if e["f"] is not None else UNIT
        return c(t, f)

    def cond(self, fr, i):
        """condition in `if` position (handles let chains); returns a combinator k(then, else)"""
        e = fr.body.exprs[i]
        while e["k"] in ("scope", "use"):
            i = e["e"]
            e = fr.body.exprs[i]
        if e["k"] == "let":
            def k(t, f):
                r, p = self.place(fr, e["e"])
                c = self.test(fr, e["p"], r, p)

                def tt():
                    self.bind(fr, e["p"], r, p)
                    return t()
                return self.fork(c, tt, f)
            return k
        if e["k"] == "logic" and e["op"] == "And" and self.has_let(fr, i):
            a, b = self.cond(fr, e["l"]), self.cond(fr, e["r"])
            return lambda t, f: a(lambda: b(t, f), f)

        def k(t, f):
            v = self.eval(fr, i)
            if not isinstance(v, Term):
                v = self.resolve(v)
                if isinstance(v, VIte):
                    raise NeedSplit("gated condition", v.c)
            return self.fork(v, t, f)
        return k

    def has_let(self, fr, i):
        e = fr.body.exprs[i]
        if e["k"] in ("scope", "use"):
            return self.has_let(fr, e["e"])
        if e["k"] == "let":
            return True
        if e["k"] == "logic":
            return self.has_let(fr, e["l"]) or self.has_let(fr, e["r"])
        return False

    def x_let(self, fr, e, i):
        r, p = self.place(fr, e["e"])
        c = self.test(fr, e["p"], r, p)

        def tt():
            self.bind(fr, e["p"], r, p)
            return TRUE
        return self.fork(c, tt, lambda: FALSE)

    def x_match(self, fr, e, i):
        r, p = self.place(fr, e["e"])
        arms = e["arms"]

        def go(k):
            if k == len(arms):
                # exhaustive match: unreachable
                raise Abrupt()
            a = fr.body.arms[arms[k]]
            c = self.decide(self.test(fr, a["p"], r, p)) if k + 1 < len(arms) or a["g"] is not None else TRUE

            def body():
                self.bind(fr, a["p"], r, p)
                if a["g"] is not None:
                    g = self.cond(fr, a["g"])
                    return g(lambda: self.eval(fr, a["e"]), lambda: go(k + 1))
                return self.eval(fr, a["e"])
            return self.fork(c, body, lambda: go(k + 1))
        return go(0)

    def x_return(self, fr, e, i):
        v = self.eval(fr, e["e"]) if e["e"] is not None else UNIT
        self.out(fr.ret, v)
        raise Abrupt()

    def x_break(self, fr, e, i):
        v = self.eval(fr, e["e"]) if e["e"] is not None else UNIT
        c = fr.labels.get(e["s"])
        if c is None:
            raise Unknown("break target")
        if self.drops:
            own.unscope(self, fr, c.depth)
        self.out(c, v)
        raise Abrupt()

    def x_continue(self, fr, e, i):
        c = fr.conts.get(e["s"])
        if c is None:
            raise Unknown("continue target")
        if self.drops:
            own.unscope(self, fr, c.depth)
        self.out(c, UNIT)
        raise Abrupt()

    def x_loop(self, fr, e, i):
        label = fr.last_scope
        n0 = len(self.st.guard)
        saved = fr.labels.get(label), fr.conts.get(label)
        brk = fr.labels[label] = Catch(len(fr.mur))
        from .loops import summarize, NotSummarizable
        entry = self.st.copy()
        marks = [(c.outs, len(c.outs)) for c in [fr.ret] + [c for c in list(fr.labels.values()) + list(fr.conts.values()) if c is not None]]
        marks += [(self.panics, len(self.panics)), (self.events, len(self.events))]
        try:
            for it in range(LOOP_LIMIT):
                n1 = len(self.st.guard)
                ct = fr.conts[label] = Catch(len(fr.mur))
                outs = []
                try:
                    self.eval(fr, e["e"])
                    outs.append((self.st, UNIT))
                except Abrupt:
                    pass
                outs = ct.outs + outs
                if not outs:
                    return self.join(brk.outs, n0)
                self.join(outs, n1)
                lits = self.st.guard[n1:]
                if it >= 3 and self.unbounded(lits) or it >= 1 and self.historical(lits, ("uniform", "sample")) or it >= 40 and self.historical(lits):
                    break
            # not finite by constant propagation: summarise the loop from its entry state, or from the state after its first iterations
            for o, n in marks:
                del o[n:]
            self.st = entry
            brk = fr.labels[label] = Catch(len(fr.mur))
            for peel in range(3):
                n1 = len(self.st.guard)
                start = self.st.copy()
                marks = [(o, len(o)) for o, n in marks]
                try:
                    v = summarize(self, fr, e, label, n1)
                    return self.join(brk.outs + [(self.st, v)], n0) if brk.outs else v
                except NotSummarizable:
                    if peel == 2:
                        raise
                except Abrupt:
                    if brk.outs:
                        return self.join(brk.outs, n0)
                    raise
                for o, n in marks:
                    del o[n:]
                self.st = start
                fr.labels[label] = brk
                ct = fr.conts[label] = Catch(len(fr.mur))
                outs = []
                try:
                    self.eval(fr, e["e"])
                    outs.append((self.st, UNIT))
                except Abrupt:
                    pass
                if not ct.outs + outs:
                    return self.join(brk.outs, n0)
                self.join(ct.outs + outs, n1)
        finally:
            fr.labels[label], fr.conts[label] = saved

    def unbounded(self, lits):
        """does continuing depend on a symbolic size?"""
        return any(mentions(c, lambda t: t.op == "sym" and "." not in str(t.args[0]) and str(t.args[0]).isupper()) for c in lits)

    def historical(self, lits, what=None):
        """does continuing depend on what an opaque object answered?"""
        return any(mentions(c, lambda t: t.op in ("ev", "next") and (what is None or t.args[0] in what)) for c in lits)
