"""Formatting and random sampling models.

A formatter is a trace (the text and the arguments written so far) together with its options. Text written in a row is one
piece of the trace however many calls wrote it; an argument of opaque type is an event carrying its value, the formatting
trait and the options, and may fail, which ends the write."""
from .program import *
from .values import *
from .interp import Abrupt
from .natives import nat, T, call_trait, rmatch  # noqa

FMT = "core::fmt::"
FORMATTER = FMT + "Formatter"
DEFAULT = num(0)
TRAITS = ("Display", "Debug", "LowerExp", "UpperExp", "LowerHex", "UpperHex", "Octal", "Binary", "Pointer")


def formatter(nm):
    return Adt(FORMATTER, 0, (Opq("fmt:" + nm, sym(nm)), sym(nm + ".opts")))


def trace_place(I, r):
    """reference to the trace of the formatter behind r"""
    while True:
        v = I.deref(r)
        if isinstance(v, Ref):
            r = v
        elif isinstance(v, Adt) and v.d == FORMATTER:
            return r, v
        else:
            raise unk("formatter ", v)


def append(ver, s):
    if ver.op == "text":
        return Term("text", ver.args[0], ver.args[1] + s)
    if ver.op == "ite":
        return t_ite(ver.args[0], append(ver.args[1], s), append(ver.args[2], s))
    return Term("text", ver, s)


def put_text(I, r, s):
    r, v = trace_place(I, r)
    if s:
        o = v.fs[0]
        I.write(r.root, r.path, Adt(FORMATTER, 0, (Opq(o.name, append(o.ver, s)), v.fs[1])))
    return ok(UNIT)


def seq(I, fs):
    """run the writes in order, stopping at the first failure"""
    if not fs:
        return ok(UNIT)
    return rmatch(I, fs[0](), lambda *_: seq(I, fs[1:]), lambda e: err(e))


def put_value(I, r, tr, t, x, opts):
    """format x of type t with the given trait and options"""
    while t[0] == "ref":
        t, x = t[1], I.deref(x) if isinstance(x, Ref) else x
    while isinstance(x, Ref):
        x = I.deref(x)
    x = I.resolve(x)
    r, v = trace_place(I, r)
    if opts is DEFAULT:
        if t[0] == "prim":
            if t[1] in PRIM_INT and isinstance(x, Term) and isint(x) and tr in ("Display", "Debug"):
                return put_text(I, r, str(ival(x)))
            if t[1] == "char" and isinstance(x, Term) and isint(x) and tr == "Display":
                return put_text(I, r, chr(ival(x)))
            if t[1] == "str" and isinstance(x, Str) and tr == "Display":
                return put_text(I, r, x.s)
        if tr == "Debug" and t[0] in ("arr", "tup") and isinstance(x, (Arr, Adt)):
            es = x.es if isinstance(x, Arr) else x.fs
            ts = [t[1]] * len(es) if t[0] == "arr" else t[1]
            fs = [lambda: put_text(I, r, "[" if t[0] == "arr" else "(")]
            for i, (e, et) in enumerate(zip(es, ts)):
                if i:
                    fs.append(lambda: put_text(I, r, ", "))
                fs.append(lambda e=e, et=et: put_value(I, r, tr, et, e, opts))
            fs.append(lambda: put_text(I, r, "]" if t[0] == "arr" else ",)" if len(es) == 1 else ")"))
            return seq(I, fs)
    if t[0] in ("param", "proj", "prim"):
        o = v.fs[0]
        at = (I.to_term(x), opts)
        I.write(r.root, r.path, Adt(FORMATTER, 0, (Opq(o.name, Term("next", tr, o.ver, *at)), v.fs[1])))
        return merge(Term("is_ok", Term("ev", tr, o.ver, *at)), ok(UNIT), err(Adt(FMT + "Error", 0, ())))
    if t[0] == "adt" and t[1] in I.P.adts:
        tmp = I.temp(Adt(FORMATTER, 0, (v.fs[0], opts)))
        res = call_trait(I, FMT + tr, "fmt", (t,), [I.temp(x), tmp], ("adt", RESULT, (("tup", ()), ("adt", FMT + "Error", ()))))
        w = I.deref(tmp)
        I.write(r.root, r.path, merge_fmt(w, v.fs[1]))
        return res
    raise Unknown("formatting of %s" % (t,))


def merge_fmt(w, opts):
    return Adt(FORMATTER, 0, (w.fs[0], opts))


for _t in TRAITS:
    def _f(I, a, ta, ety, sp, tr=_t):
        s = ta[0]
        while s[0] == "ref":
            s = s[1]
        if s[0] == "adt":
            return NotImplemented
        _, v = trace_place(I, a[1])
        return put_value(I, a[1], tr, ta[0], a[0], v.fs[1])
    T[FMT + _t + "::fmt"] = _f


def arg_new(tr):
    def f(I, a, ta, ety, sp):
        # the type argument names what the argument refers to; lifetimes are not part of it
        t = [x for x in ta if x[0] != "other"][0]
        return It("fmtarg", (a[0],), (tr, t))
    return f


for _t, _n in (("Display", "new_display"), ("Debug", "new_debug"), ("LowerExp", "new_lower_exp"), ("UpperExp", "new_upper_exp"),
               ("LowerHex", "new_lower_hex"), ("UpperHex", "new_upper_hex"), ("Octal", "new_octal"), ("Binary", "new_binary"), ("Pointer", "new_pointer")):
    T[FMT + "rt::" + _n] = T[FMT + "rt::Argument::" + _n] = arg_new(_t)


@nat(FMT + "rt::from_usize", FMT + "rt::Argument::from_usize")
def _(I, a, ta, ety, sp):
    return It("fmtarg", (a[0],), ("count", None))


@nat(FMT + "from_str", FMT + "from_str_nonconst", FMT + "Arguments::from_str", FMT + "rt::from_str", FMT + "rt::from_str_nonconst")
def _(I, a, ta, ety, sp):
    s = I.deref_all(a[0])
    if not isinstance(s, Str):
        return NotImplemented
    return It("fmtargs", (), (("text", s.s),))


def parse(b):
    i, k = 0, 0
    while True:
        n = b[i]
        i += 1
        if n == 0:
            return
        if n < 0x80:
            yield ("text", bytes(b[i:i + n]).decode())
            i += n
        elif n == 0x80:
            n = b[i] + 256 * b[i + 1]
            yield ("text", bytes(b[i + 2:i + 2 + n]).decode())
            i += 2 + n
        else:
            opts = [None, None, None]
            if n & 1:
                opts[0] = int.from_bytes(bytes(b[i:i + 4]), "little")
                i += 4
            for bit, j in ((2, 1), (4, 2)):
                if n & bit:
                    opts[j] = b[i] + 256 * b[i + 1]
                    i += 2
            if n & 8:
                k = b[i] + 256 * b[i + 1]
                i += 2
            ind = [j for bit, j in ((16, 1), (32, 2)) if n & bit]
            yield ("arg", k, tuple(opts) if any(x is not None for x in opts) else None, ind)
            k += 1


@nat(FMT + "new", FMT + "Arguments::new", FMT + "rt::new")
def _(I, a, ta, ety, sp):
    if len(a) != 2:
        return NotImplemented
    b, xs = I.deref_all(a[0]), I.deref_all(a[1])
    if not isinstance(b, Str) or not isinstance(b.s, bytes) or not isinstance(xs, Arr):
        return NotImplemented
    return It("fmtargs", xs.es, tuple((p[0],) + tuple(tuple(q) if isinstance(q, list) else q for q in p[1:]) for p in parse(b.s)))


def write_args(I, r, args):
    args = I.resolve(args)
    if not isinstance(args, It) or args.k != "fmtargs":
        raise unk("format arguments ", args)
    fs = []
    for p in args.x:
        if p[0] == "text":
            fs.append(lambda s=p[1]: put_text(I, r, s))
            continue
        _, k, opts, ind = p
        x = args.fs[k]
        for j in ind:
            c = args.fs[opts[j]]
            c = I.deref_all(c.fs[0])
            if not isinstance(c, Term):
                raise Unknown("dynamic format width")
            opts = opts[:j] + (c,) + opts[j + 1:]
        fs.append(lambda x=x, opts=opts: put_value(I, r, x.x[0], x.x[1], x.fs[0], DEFAULT if opts is None else Term("opts", *[o if isinstance(o, Term) else num(-1 if o is None else o) for o in opts])))
    return seq(I, fs)


@nat(FMT + "write_fmt", FORMATTER + "::write_fmt", FMT + "Write::write_fmt")
def _(I, a, ta, ety, sp):
    return write_args(I, a[0], a[1])


@nat(FMT + "write")
def _(I, a, ta, ety, sp):
    return write_args(I, a[0], a[1])


@nat(FMT + "write_str", FORMATTER + "::write_str", FMT + "Write::write_str")
def _(I, a, ta, ety, sp):
    s = I.deref_all(a[1])
    if not isinstance(s, Str):
        raise unk("written text ", s)
    return put_text(I, a[0], s.s)


@nat(FMT + "write_char", FORMATTER + "::write_char", FMT + "Write::write_char")
def _(I, a, ta, ety, sp):
    c = I.deref_all(a[1])
    if isinstance(c, Term) and isint(c):
        return put_text(I, a[0], chr(ival(c)))
    raise unk("written character ", c)


def flag(name, bit):
    def f(I, a, ta, ety, sp):
        _, v = trace_place(I, a[0])
        o = v.fs[1]
        if o is DEFAULT:
            return FALSE
        if o.op == "opts":
            return boolt(ival(o.args[0]) >= 0 and ival(o.args[0]) >> bit & 1 == 1)
        return Term("fn:" + name, o)
    T[FMT + name] = T[FORMATTER + "::" + name] = f


for _n, _b in (("sign_plus", 21), ("sign_minus", 22), ("alternate", 23), ("sign_aware_zero_pad", 24)):
    flag(_n, _b)


def count(name, k):
    def f(I, a, ta, ety, sp):
        _, v = trace_place(I, a[0])
        o = v.fs[1]
        if o is DEFAULT:
            return NONE
        if o.op == "opts":
            return NONE if isint(o.args[k]) and ival(o.args[k]) < 0 else some(o.args[k])
        x = Term("fn:" + name, o)
        return merge(Term("is_some", x), some(Term("payload", x)), NONE)
    T[FMT + name] = T[FORMATTER + "::" + name] = f


count("width", 1)
count("precision", 2)


@nat(FMT + "fill", FORMATTER + "::fill")
def _(I, a, ta, ety, sp):
    _, v = trace_place(I, a[0])
    o = v.fs[1]
    if o is DEFAULT or o.op == "opts" and ival(o.args[0]) < 0:
        return num(32)
    return num(ival(o.args[0]) & 0x1fffff) if o.op == "opts" else Term("fn:fill", o)


# ------------------------------------------------------------------ sampling
UNI = "rand::distributions::uniform::Uniform"


def uni(kind):
    def f(I, a, ta, ety, sp):
        return Adt(UNI, 0, (a[0], a[1], num(kind)))
    return f


for _k, _n in enumerate(("new", "new_inclusive")):
    T["rand::distributions::uniform::" + _n] = T[UNI + "::" + _n] = uni(_k)


@nat("rand::distributions::distribution::Distribution::sample")
def _(I, a, ta, ety, sp):
    t = ta[0]
    d = a[0]
    while t[0] == "ref":
        t = t[1]
    while isinstance(d, Ref):
        d = I.deref(d)
    r = a[1]
    while isinstance(r, Ref) and isinstance(I.deref(r), Ref):
        r = I.deref(r)
    if not isinstance(r, Ref) or not isinstance(I.deref(r), Opq):
        return NotImplemented
    if t[0] == "adt" and t[1] == UNI and isinstance(d, Adt) and len(d.fs) == 3:
        return I.opaque_event(r, "uniform", list(d.fs), ety)
    if isinstance(d, Opq):
        return I.opaque_event(r, "sample", [d.ver], ety)
    if t[0] == "adt" and t[1].startswith("vecmat::") and isinstance(d, Adt) and not d.fs:
        return I.opaque_event(r, "sample", [Term("str", t[1])], ety)
    return NotImplemented


def debug_struct(I, a, ta, ety, sp):
    """derived Debug: one event that carries the names and the values"""
    r, v = trace_place(I, a[0])
    o = v.fs[0]
    at = tuple(I.to_term(I.deref_all(x)) for x in a[1:]) + (v.fs[1],)
    I.write(r.root, r.path, Adt(FORMATTER, 0, (Opq(o.name, Term("next", "debug_struct", o.ver, *at)), v.fs[1])))
    return merge(Term("is_ok", Term("ev", "debug_struct", o.ver, *at)), ok(UNIT), err(Adt(FMT + "Error", 0, ())))


for _k in range(1, 6):
    T[FMT + "debug_struct_field%d_finish" % _k] = debug_struct
    T[FMT + "debug_tuple_field%d_finish" % _k] = debug_struct
    T[FMT + "Formatter::debug_struct_field%d_finish" % _k] = debug_struct
    T[FMT + "Formatter::debug_tuple_field%d_finish" % _k] = debug_struct
