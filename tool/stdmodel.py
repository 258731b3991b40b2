"""Models of the C++ library entities the translated code uses (each one is the standard's definition of the
operation on the mathematical sequence/set; these readings are part of the trusted base)."""
import re
from cpptypes import Ty
from ir2verus import strip_t, FUN, FUNCTOR, E, It, Place, Unsupported, BOOL, I32, I64, U64, VOID, lit, NeedStmt, ATOM

MODELS = {}


def model(*names):
    def d(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return d


def range_source(t, r):
    if r.ty.kind == "seq":
        if r.place is None:
            n = t.let("rng", r.ty, r.text)
            return E(n, r.ty), True
        return r, False
    if r.ty.kind == "set":
        n = t.let("rng", Ty("seq", args=[r.ty.args[0]]), "set_enum(%s)" % r.text)
        t.emit("proof", "axiom_set_enum(%s);" % r.text)
        return E(n, Ty("seq", args=[r.ty.args[0]])), True
    raise Unsupported("range over %s" % r.ty)


def ob(t, obj):
    o = t.ex(obj)
    if o.it is not None:
        o = t.deref(o, 0)
    return o


@model("seq::size", "seq::length")
def size(t, f, obj, args, e):
    o = ob(t, obj)
    return E("(%s.len() as u64)" % o.text, U64)


@model("seq::max_size")
def max_size(t, f, obj, args, e):
    return E("0x7fff_ffff_ffff_ffffu64", U64)


@model("seq::empty")
def empty(t, f, obj, args, e):
    return E("(%s.len() == 0)" % ob(t, obj).text, BOOL)


@model("seq::capacity")
def capacity(t, f, obj, args, e):
    raise Unsupported("capacity")


@model("seq::reserve", "seq::shrink_to_fit")
def reserve(t, f, obj, args, e):
    o = ob(t, obj)
    t.structural(o.place)
    for a in args:
        t.ex(a)
    return E("()", VOID)


@model("seq::operator[]")
def sub(t, f, obj, args, e):
    a, b = t.pair(obj, args[0])
    return t.index(a, b, e["l"])


@model("seq::at")
def at(t, f, obj, args, e):
    a, b = t.pair(obj, args[0])
    return t.index(a, b, e["l"])   # obligation instead of the exception


@model("seq::front")
def front(t, f, obj, args, e):
    return t.index(ob(t, obj), E("0u64", U64), e["l"])


@model("seq::back")
def back(t, f, obj, args, e):
    o = ob(t, obj)
    t.check("%s.len() > 0" % o.text, "back() of non-empty @%d" % e["l"])
    ety = o.ty.args[0]
    ix = "(%s.len() - 1)" % o.text
    if o.place is not None:
        return E(None, ety, place=o.place.sub(("i", ix), ety))
    return E("%s[%s]" % (o.text, ix), ety)


def grow(t, pl):
    t.emit("assume", "%s.len() <= MAXLEN()" % pl.text(), "container size bound (length_error/bad_alloc otherwise)")


@model("seq::push_back")
def push_back(t, f, obj, args, e):
    v = t.ex(args[0])
    o = ob(t, obj)
    if v.it is not None:
        if o.ty.args[0].kind != "iter" or o.place is None or o.place.path or v.it.rev or v.it.cont.place is None:
            raise Unsupported("push_back of iterator")
        w = t.itervec(o.place)
        if w.prov is not None and w.prov.text != v.it.cont.text:
            raise Unsupported("iterators of different containers")
        w.prov = v.it.cont
        v = E(v.it.pos, v.ty)
    t.structural(o.place)
    t.assign(o.place, "%s.push(%s)" % (o.text, v.text))
    grow(t, o.place)
    return E("()", VOID)


@model("seq::emplace_back")
def emplace_back(t, f, obj, args, e):
    if len(args) == 1:
        return push_back(t, f, obj, args, e)
    if len(args) == 2:
        n, v = [t.freeze(x) for x in t.eval_args(args)]
        o = ob(t, obj)
        ety = o.ty.args[0]
        if n.it is not None or v.it is not None or n.lam is not None or v.lam is not None:
            raise Unsupported("emplace_back")
        if ety.kind == "tuple" and len(ety.args) == 2:
            x = "(%s, %s)" % (t.conv_int(n, ety.args[0]) if n.ty.kind == "int" else n.text, t.conv_int(v, ety.args[1]) if v.ty.kind == "int" else v.text)
        elif ety.kind == "seq" and n.ty.kind in ("int", "Z") and v.ty.kind == ety.args[0].kind:
            x = "seq_fill(%s as int, %s)" % (n.text, v.text)
        else:
            raise Unsupported("emplace_back")
        t.structural(o.place)
        t.assign(o.place, "%s.push(%s)" % (o.text, x))
        grow(t, o.place)
        return E("()", VOID)
    raise Unsupported("emplace_back")


@model("seq::pop_back")
def pop_back(t, f, obj, args, e):
    o = ob(t, obj)
    t.check("%s.len() > 0" % o.text, "pop_back @%d" % e["l"])
    t.structural(o.place)
    t.assign(o.place, "%s.drop_last()" % o.text)
    return E("()", VOID)


@model("seq::clear")
def clear(t, f, obj, args, e):
    o = ob(t, obj)
    t.structural(o.place)
    t.assign(o.place, t.zero(o.ty))
    return E("()", VOID)


@model("seq::resize")
def resize(t, f, obj, args, e):
    n = t.ex(args[0])
    d = t.ex(args[1]) if len(args) > 1 else E(t.zero(ob(t, obj).ty.args[0]), None)
    o = ob(t, obj)
    t.structural(o.place)
    t.assign(o.place, "seq_resize(%s, %s as int, %s)" % (o.text, n.text, d.text))
    grow(t, o.place)
    return E("()", VOID)


@model("seq::swap")
def mswap(t, f, obj, args, e):
    a, b = ob(t, obj), t.ex(args[0])
    return do_swap(t, a, b)


def do_swap(t, a, b):
    if a.place is None or b.place is None:
        raise Unsupported("swap of non-places")
    pa, pb = t.freeze_place(a.place), t.freeze_place(b.place)
    x = t.let("sw", a.ty, pa.text())
    y = t.let("sw", b.ty, pb.text())
    t.assign(pa, y)
    t.assign(pb, x)
    return E("()", VOID)


@model("std::swap")
def swap(t, f, obj, args, e):
    return do_swap(t, t.ex(args[0]), t.ex(args[1]))


def mk(begin, rev):
    def fn(t, f, obj, args, e):
        o = ob(t, obj) if obj is not None else t.ex(args[0])
        if o.ty.kind != "seq":
            raise Unsupported("iterator of %s" % o.ty)
        if o.place is None and not (o._text and ATOM.match(o._text)):
            o = t.freeze(o)
        ty = Ty("iter", "rev" if rev else "", [o.ty])
        return E(None, ty, it=It(o, "0int" if begin else "(%s.len() as int)" % o.text, rev, begin, not begin))
    return fn


for n in ("begin", "cbegin"):
    MODELS["seq::" + n] = MODELS["std::" + n] = mk(True, False)
for n in ("end", "cend"):
    MODELS["seq::" + n] = MODELS["std::" + n] = mk(False, False)
for n in ("rbegin", "crbegin"):
    MODELS["seq::" + n] = MODELS["std::" + n] = mk(True, True)
for n in ("rend", "crend"):
    MODELS["seq::" + n] = MODELS["std::" + n] = mk(False, True)


def itop(t, f, obj, args, e):
    nodes = ([obj] if obj is not None else []) + args
    op = e["op"]
    if op == "*" and len(nodes) == 1:
        return t.deref(t.ex(nodes[0]), e["l"])
    if op == "->":
        return t.deref(t.ex(nodes[0]), e["l"])
    if op in ("++", "--"):
        return t.iter_step(nodes[0], t.ex(nodes[0]), op, len(nodes) == 2)
    if op == "=":
        return t.assign_iter(nodes[0], t.ex(nodes[1]))
    if op == "[]":
        a, b = t.pair(nodes[0], nodes[1])
        return t.deref(t.iter_op("+", [a, b], e), e["l"])
    if op in ("+=", "-="):
        b = t.ex(nodes[1])
        a = t.ex(nodes[0])
        r = t.iter_op(op[0], [a, b], e)
        return t.assign_iter(nodes[0], r)
    a, b = t.pair(nodes[0], nodes[1])
    return t.iter_op(op, [a, b], e)


for op in ("*", "->", "++", "--", "+", "-", "+=", "-=", "=", "[]", "==", "!=", "<", ">", "<=", ">="):
    MODELS["iter::operator" + op] = itop
    MODELS["__gnu_cxx::operator" + op] = itop


def stdop(t, f, obj, args, e):
    """std::operator== etc: containers, iterators, strings, pairs"""
    op = e["op"]
    if len(args) == 2:
        a, b = t.pair(args[0], args[1])
        if op == "<<" and a.ty.kind == "seq" and a.ty.name == "ostream":
            return put_text(t, a, b)
        if a.lam == ("stream",):
            return a     # text of a message: not modelled
        if a.it is not None or b.it is not None:
            return t.iter_op(op, [a, b], e)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return E(t.compare(op, a, b), BOOL)
        if op == "+" and a.ty.kind == "seq":
            bt = b.text if b.ty.kind == "seq" else "seq![%s]" % b.text
            at = a.text if a.ty.kind == "seq" else "seq![%s]" % a.text
            return E("(%s + %s)" % (at, bt), a.ty)
    raise Unsupported("operator %s on %s" % (op, f["key"]))


for op in ("==", "!=", "<", ">", "<=", ">=", "+", "-", "<<"):
    MODELS["std::operator" + op] = stdop


@model("seq::operator+=", "seq::append")
def seq_append(t, f, obj, args, e):
    b = t.ex(args[0])
    o = t.ex(obj)
    if len(args) != 1 or b.it is not None or o.place is None:
        raise Unsupported("append")
    bt = b.text if b.ty.kind == "seq" else "seq![%s]" % b.text
    t.structural(o.place)
    t.assign(o.place, "(%s + %s)" % (o.text, bt))
    grow(t, o.place)
    return o


@model("std::thread::hardware_concurrency")
def hardware_concurrency(t, f, obj, args, e):
    ty = Ty("int", "unsigned int", bits=32, signed=False)
    return E(t.let("processors", ty, "arbitrary::<u32>()"), ty)


@model("std::to_string")
def to_string(t, f, obj, args, e):
    a = t.ex(args[0])
    if t.tp.ostreams:
        return E("dec(%s as int)" % a.text, Ty("seq", "std::string", [Ty("int", "char", bits=8, signed=True)]))
    return E("to_string_(%s as int)" % a.text, Ty("seq", "std::string", [Ty("int", "char", bits=8, signed=True)]))


@model("seq::operator=")
def seq_assign(t, f, obj, args, e):
    return t.do_assign(obj, args[0])


MODELS["set::operator="] = MODELS["map::operator="] = seq_assign


@model("tuple::operator=")
def tuple_assign(t, f, obj, args, e):
    # std::tie(a, b) = value
    if obj["k"] == "call" and obj.get("f", {}).get("q", "").startswith("std::tie"):
        v = t.ex(args[0])
        v = t.freeze(v)
        for n, a in enumerate(obj["args"]):
            p = t.ex(a)
            if p.it is not None or p.place is None:
                raise Unsupported("tie of iterator")
            if p.ty.kind in ("seq", "set", "map"):
                t.structural(p.place)
            t.assign(p.place, "%s.%d" % (v.text, n))
        return v
    return t.do_assign(obj, args[0])


@model("std::make_pair", "std::make_tuple")
def make_pair(t, f, obj, args, e):
    vs = t.eval_args(args)
    if any(v.it is not None for v in vs):
        return E(None, Ty("tuple", args=[v.ty for v in vs]), gen=vs)
    ret = t.T(f["ret"]).plain() if f.get("ret") else None
    if ret is not None and ret.kind == "tuple" and len(ret.args) == len(vs) and any(v.ty.kind == "Z" and r.kind == "int" for v, r in zip(vs, ret.args)):
        vs = [E(t.conv_int(v, r), r) if v.ty.kind == "Z" and r.kind == "int" else v for v, r in zip([t.freeze(v) for v in vs], ret.args)]
    return E("(" + ", ".join(v.text for v in vs) + ("," if len(vs) == 1 else "") + ")", Ty("tuple", args=[v.ty for v in vs]))


@model("std::get")
def get(t, f, obj, args, e):
    o = t.ex(args[0])
    n = int(re.match(r"\d+", f["targs"][0]).group())
    if o.ty.kind == "seq":
        return t.index(o, E("%du64" % n, U64), e["l"])
    if o.gen is not None:
        return o.gen[n]
    el = ("t", n, len(o.ty.args))
    ty = o.ty.args[n]
    if o.place is not None:
        return E(None, ty, place=o.place.sub(el, ty))
    return E("(%s).%d" % (o.text, n), ty)


@model("std::move", "std::forward", "std::ref", "std::cref", "std::addressof")
def move(t, f, obj, args, e):
    return t.ex(args[0])


# ---------------------------------------------------------------- constructors
def std_ctor(t, ty, f, e):
    args = e["args"]
    if ty.kind == "seq":
        if not args or (len(args) == 1 and "allocator" in args[0].get("t", "")):
            if ty.extent and not e.get("zeroed") and not e.get("list"):
                return E("seq_resize(arbitrary::<%s>(), %d, arbitrary())" % (ty.v(), ty.extent), ty)    # indeterminate values
            return E(t.zero(ty), ty)
        args = [a for a in args if not re.match(r"^(const )?std::allocator<", a.get("t", ""))] or args
        vs = t.eval_args(args)
        if len(vs) == 1 and vs[0].ty.kind == "seq":
            return E(vs[0].text, ty)
        if len(vs) == 1 and vs[0].ty.kind == "int":
            return E("seq_fill(%s as int, %s)" % (vs[0].text, zero_of(t, ty.args[0])), ty)
        if len(vs) == 2 and vs[0].it is not None and vs[1].it is not None:
            return E(subrange(t, vs[0].it, vs[1].it, e["l"]), ty)
        if len(vs) == 2 and vs[0].ty.kind == "int":
            v = vs[1].text if ty.name != "std::string" else vs[1].text
            if vs[1].ty.kind == "int" and ty.args[0].kind == "int" and vs[1].ty.bits != ty.args[0].bits:
                v = t.conv_int(vs[1], ty.args[0])
            return E("seq_fill(%s as int, %s)" % (vs[0].text, v), ty)
    if ty.kind == "set" and len(args) >= 2 and "nitializer_list" not in args[0].get("t", ""):
        vs = t.eval_args(args[:2])
        if vs[0].it is None or vs[1].it is None:
            raise Unsupported("constructor of %s" % ty)
        return E("%s.to_set()" % subrange(t, vs[0].it, vs[1].it, e["l"]), ty)
    if ty.kind in ("set", "map") and not args:
        return E(t.zero(ty), ty)
    if ty.kind == "tuple":
        vs = t.eval_args(args)
        if len(vs) == len(ty.args):
            return E("(" + ", ".join(v.text for v in vs) + ")", ty)
        if len(vs) == 1 and vs[0].ty.kind == "tuple":
            have = vs[0].ty.args
            if vs[0].text is not None and len(have) == len(ty.args) and any(a.kind == "int" == b.kind and a.v() != b.v() for a, b in zip(have, ty.args)):
                x = t.let("pair", vs[0].ty, vs[0].text)
                parts = [E("%s.%d" % (x, i), a) for i, a in enumerate(have)]
                return E("(" + ", ".join(t.conv_int(q, b) if q.ty.kind == "int" == b.kind else q.text for q, b in zip(parts, ty.args)) + ("," if len(parts) == 1 else "") + ")", ty)
            return vs[0]
        if not vs:
            return E(t.zero(ty), ty)
    if ty.kind == "opaque":
        m = FUNCTOR.match(ty.name)
        if m:
            return functor(m.group(1))
    if ty.kind == "stream" and ty.name == "std::basic_istringstream" and args:
        a = t.ex(args[0])
        if a.ty.kind == "seq":
            return E("Stream { s: %s, p: 0int, f: false, e: false }" % a.text, ty)
    if ty.kind == "stream" and ty.name == "std::basic_ifstream" and args:
        a = t.ex(args[0])
        if a.ty.kind == "seq":
            return E("file_stream(%s)" % a.text, ty)
    if ty.kind == "stream" and ty.name == "panda::PositionGuardedFile" and len(args) == 1:
        a = t.ex(args[0])
        if a.ty.kind == "stream":
            return E(a.text, ty)
    raise Unsupported("constructor of %s" % ty)




def functor(n):
    return E(None, Ty("opaque", "functor"), lam=("builtin", FUN[n]))


def zero_of(t, ty):
    return t.zero(ty)


def subrange(t, a, b, line):
    if a.cont.text != b.cont.text or a.rev != b.rev:
        raise Unsupported("range over different containers")
    c = a.cont.text
    if a.rev:
        c = "%s.reverse()" % c
    if a.begin and b.end:
        return c
    t.check("0 <= %s && %s <= %s && %s <= %s.len()" % (a.pos, a.pos, b.pos, b.pos, a.cont.text), "valid range @%d" % line)
    return "%s.subrange(%s, %s)" % (c, a.pos, b.pos)


def rng(t, a, b, line):
    """-> (text of the sequence a..b, offset text)"""
    return subrange(t, a.it, b.it, line), a.it.pos


def offset(base, p):
    return p if base == "0int" else "(%s + %s)" % (base, p)


def closure_text(t, c, tys, names):
    app = t.closure(c, tys)
    r, obs = app(names)
    params = ", ".join("%s: %s" % (n, ty.v()) for n, ty in zip(names, tys))
    return "|%s| %s" % (params, r.text), r.ty, obs, params


def forall_obs(t, obs, params, cond, line):
    for o in obs:
        t.check("forall|%s| %s ==> (%s)" % (params, cond, o), "in closure @%d" % line)


@model("std::find_if", "std::find_if_not")
def find_if(t, f, obj, args, e):
    a, b, c = [t.ex(x) for x in args]
    s, off = rng(t, a, b, e["l"])
    ety = a.it.cont.ty.args[0]
    ct, _, obs, params = closure_text(t, c, [ety], ["x_"])
    if f["q"].endswith("_not"):
        ct = "|%s| !(%s)" % (params, ct.split("| ", 1)[1])
    if obs:
        forall_obs(t, obs, params, "#[trigger] %s.contains(x_)" % s, e["l"])
    n = t.let("fnd", "int", "find_first(%s, %s)" % (s, ct))
    t.emit("proof", "lemma_find_first(%s, %s);" % (s, ct))
    p = offset(off, n)
    return E(None, a.ty, it=It(a.it.cont, p, a.it.rev))


@model("std::find")
def find(t, f, obj, args, e):
    a, b, c = [t.ex(x) for x in args]
    s, off = rng(t, a, b, e["l"])
    ety = a.it.cont.ty.args[0]
    ct = "|x_: %s| x_ == %s" % (ety.v(), c.text)
    n = t.let("fnd", "int", "find_first(%s, %s)" % (s, ct))
    t.emit("proof", "lemma_find_first(%s, %s);" % (s, ct))
    return E(None, a.ty, it=It(a.it.cont, offset(off, n), a.it.rev))


def quant(kind):
    def fn(t, f, obj, args, e):
        a, b, c = [t.ex(x) for x in args]
        s, off = rng(t, a, b, e["l"])
        ety = a.it.cont.ty.args[0]
        ct, _, obs, params = closure_text(t, c, [ety], ["x_"])
        body = ct.split("| ", 1)[1]
        if obs:
            forall_obs(t, obs, params, "#[trigger] %s.contains(x_)" % s, e["l"])
        n = "seq_any(%s, %s)" % (s, ct if kind != "all" else "|%s| !(%s)" % (params, body))
        return E(n if kind == "any" else "(!%s)" % n, BOOL)
    return fn


MODELS["std::any_of"] = quant("any")
MODELS["std::all_of"] = quant("all")
MODELS["std::none_of"] = quant("none")


@model("std::transform")
def transform(t, f, obj, args, e):
    vs = [t.ex(x) for x in args]
    if len(vs) == 5:
        a, b, a2, o, c = vs
    else:
        a, b, o, c = vs
        a2 = None
    s, off = rng(t, a, b, e["l"])
    ty1 = a.it.cont.ty.args[0]
    n = t.let("n", "int", "%s.len() as int" % s)
    src = t.let("src", Ty("seq", args=[ty1]), s)
    if a2 is not None:
        if a2.it.rev:
            raise Unsupported("reverse transform")
        t.check("%s + %s <= %s.len()" % (a2.it.pos, n, a2.it.cont.text), "second range long enough @%d" % e["l"])
        ty2 = a2.it.cont.ty.args[0]
        src2 = t.let("src2", Ty("seq", args=[ty2]), "%s.subrange(%s, %s + %s)" % (a2.it.cont.text, a2.it.pos, a2.it.pos, n) if a2.it.pos != "0int" else a2.it.cont.text)
        r, obs = t.closure(c, [ty1, ty2])(["%s[i_]" % src, "%s[i_]" % src2])
    else:
        r, obs = t.closure(c, [ty1])(["%s[i_]" % src])
    for x in obs:
        t.check("forall|i_: int| 0 <= i_ < %s ==> (%s)" % (n, x), "in closure @%d" % e["l"])
    if o.gen is not None and o.gen[0] == "back_inserter":
        pl = o.gen[1]
        t.structural(pl)
        t.assign(pl, "%s + Seq::new(%s as nat, |i_: int| %s)" % (pl.text(), n, r.text))
        grow(t, pl)
        return E("()", VOID)
    if o.it is None or o.it.rev or o.it.cont.place is None:
        raise Unsupported("transform output")
    t.check("%s + %s <= %s.len()" % (o.it.pos, n, o.it.cont.text), "output range long enough @%d" % e["l"])
    pl = o.it.cont.place
    old = t.let("dst", o.it.cont.ty, pl.text())
    t.assign(pl, "Seq::new(%s.len(), |i_: int| if %s <= i_ && i_ < %s + %s { %s } else { %s[i_] })" % (old, o.it.pos, o.it.pos, n, r.text if o.it.pos == "0int" else shift(r.text, o.it.pos), old)
             if not (o.it.begin and pl.text() == a.it.cont.text and a.it.begin and b.it.end)
             else "Seq::new(%s.len(), |i_: int| %s)" % (src, r.text))
    return E(None, o.ty, it=It(o.it.cont, "(%s + %s)" % (o.it.pos, n)))


@model("std::copy_if", "std::remove_copy_if")
def copy_if(t, f, obj, args, e):
    a, b, o, c = [t.ex(x) for x in args]
    s, off = rng(t, a, b, e["l"])
    ety = a.it.cont.ty.args[0]
    ct, _, obs, params = closure_text(t, c, [ety], ["x_"])
    if f["q"].endswith("remove_copy_if"):
        ct = "|%s| !(%s)" % (params, ct.split("| ", 1)[1])
    if obs:
        forall_obs(t, obs, params, "#[trigger] %s.contains(x_)" % s, e["l"])
    n = t.let("kept", Ty("seq", args=[ety]), "keep(%s, %s)" % (s, ct))
    t.emit("proof", "lemma_keep(%s, %s);" % (s, ct))
    if o.gen is None or o.gen[0] != "back_inserter":
        raise Unsupported("copy_if output")
    pl = o.gen[1]
    t.structural(pl)
    t.emit("proof", "if %s.len() == 0 { assert(%s + %s =~= %s); }" % (pl.text(), pl.text(), n, n))
    t.assign(pl, "%s + %s" % (pl.text(), n))
    grow(t, pl)
    return E("()", VOID)


def shift(text, pos):
    return text.replace("[i_]", "[i_ - %s]" % pos)


@model("std::back_inserter")
def back_inserter(t, f, obj, args, e):
    o = t.ex(args[0])
    if o.place is None:
        raise Unsupported("back_inserter")
    return E(None, Ty("opaque", "back_inserter"), gen=("back_inserter", o.place))


@model("std::inner_product")
def inner_product(t, f, obj, args, e):
    if len(args) != 4:
        raise Unsupported("inner_product with functors")
    a, b, c, i = [t.ex(x) for x in args]
    s, off = rng(t, a, b, e["l"])
    if a.it.cont.ty.args[0].kind != "Z":
        raise Unsupported("inner_product over machine integers")
    t.check("%s + %s.len() <= %s.len()" % (c.it.pos, s, c.it.cont.text), "second range long enough @%d" % e["l"])
    if c.it.rev:
        raise Unsupported("reverse range")
    s2 = c.it.cont.text if c.it.pos == "0int" else "%s.subrange(%s, %s.len() as int)" % (c.it.cont.text, c.it.pos, c.it.cont.text)
    d = "dot(%s, %s)" % (s, s2)
    return E(d if i.text in ("0int", "(0i32 as int)") else "(%s + %s)" % (i.text, d), Ty("Z"))


@model("std::accumulate")
def accumulate(t, f, obj, args, e):
    if len(args) != 3:
        raise Unsupported("accumulate with functor")
    a, b, i = [t.ex(x) for x in args]
    s, off = rng(t, a, b, e["l"])
    if a.it.cont.ty.args[0].kind != "Z":
        raise Unsupported("accumulate")
    return E("(%s + seq_sum(%s))" % (i.text, s), Ty("Z"))


@model("std::equal")
def equal(t, f, obj, args, e):
    vs = [t.ex(x) for x in args]
    s, off = rng(t, vs[0], vs[1], e["l"])
    c = vs[2]
    t.check("%s + %s.len() <= %s.len()" % (c.it.pos, s, c.it.cont.text), "second range long enough @%d" % e["l"])
    base = c.it.cont.text if not c.it.rev else "%s.reverse()" % c.it.cont.text
    if len(vs) == 4:
        raise Unsupported("equal with predicate")
    return E("(%s =~= %s.subrange(%s, %s + %s.len()))" % (s, base, c.it.pos, c.it.pos, s), BOOL)


@model("std::mismatch")
def mismatch(t, f, obj, args, e):
    a, b, c = [t.ex(x) for x in args[:3]]
    if len(args) != 3:
        raise Unsupported("mismatch")
    s, off = rng(t, a, b, e["l"])
    t.check("%s + %s.len() <= %s.len()" % (c.it.pos, s, c.it.cont.text), "second range long enough @%d" % e["l"])
    base = c.it.cont.text if not c.it.rev else "%s.reverse()" % c.it.cont.text
    s2 = base if c.it.pos == "0int" else "%s.subrange(%s, %s.len() as int)" % (base, c.it.pos, base)
    n = t.let("mm", "int", "first_diff(%s, %s)" % (s, s2))
    t.emit("proof", "lemma_first_diff(%s, %s);" % (s, s2))
    return E(None, Ty("tuple", args=[a.ty, c.ty]), gen=[E(None, a.ty, it=It(a.it.cont, offset(off, n), a.it.rev)), E(None, c.ty, it=It(c.it.cont, offset(c.it.pos, n), c.it.rev))])


@model("seq::insert")
def insert(t, f, obj, args, e):
    vs = t.eval_args(args)
    o = ob(t, obj)
    p = vs[0]
    if p.it is None:
        raise Unsupported("insert")
    if p.it.cont.text != o.text or p.it.rev:
        raise Unsupported("insert position")
    t.check("0 <= %s && %s <= %s.len()" % (p.it.pos, p.it.pos, o.text), "insert position @%d" % e["l"])
    t.structural(o.place)
    if len(vs) == 2 and vs[1].it is None:
        if p.it.end:
            t.assign(o.place, "%s.push(%s)" % (o.text, vs[1].text))
        else:
            t.assign(o.place, "%s.insert(%s, %s)" % (o.text, p.it.pos, vs[1].text))
        grow(t, o.place)
        return E(None, p.ty, it=It(o, p.it.pos))
    if len(vs) == 3 and vs[1].it is not None:
        s = subrange(t, vs[1].it, vs[2].it, e["l"])
        if p.it.end:
            t.assign(o.place, "(%s + %s)" % (o.text, s))
        else:
            t.assign(o.place, "(%s.subrange(0, %s) + %s + %s.subrange(%s, %s.len() as int))" % (o.text, p.it.pos, s, o.text, p.it.pos, o.text))
        grow(t, o.place)
        return E(None, p.ty, it=It(o, p.it.pos))
    if len(vs) == 3 and getattr(vs[1], "setbegin", None) and getattr(vs[1], "setbegin") == getattr(vs[2], "setend", None) and not vs[1].setbegin[1]:
        s = "set_enum(%s)" % vs[1].setbegin[0]          # all the elements of a set, in its order
        if p.it.end:
            t.assign(o.place, "(%s + %s)" % (o.text, s))
        else:
            t.assign(o.place, "(%s.subrange(0, %s) + %s + %s.subrange(%s, %s.len() as int))" % (o.text, p.it.pos, s, o.text, p.it.pos, o.text))
        grow(t, o.place)
        return E(None, p.ty, it=It(o, p.it.pos))
    raise Unsupported("insert form")



def str_find(inside, last):
    def m(t, f, obj, args, e):
        vs = [t.freeze(t.ex(x)) for x in [obj] + args]
        o, what = vs[0], vs[1]
        if o.ty.name != "std::string" or len(vs) > 3:
            raise Unsupported("string search")
        what = what.text if what.ty.kind == "seq" else "seq![%s]" % what.text
        pos = vs[2].text if len(vs) == 3 else ("u64::MAX" if last else "0u64")
        return E("str_%s_of(%s, %s, %s as int, %s)" % ("last" if last else "first", o.text, what, pos, "true" if inside else "false"), U64)
    return m


@model("seq::find")
def str_find_char(t, f, obj, args, e):
    if not f["ptys"] or t.T(f["ptys"][0]).kind != "int":
        raise Unsupported("search for a substring")
    return str_find(True, False)(t, f, obj, args, e)


model("seq::find_first_of")(str_find(True, False))
model("seq::find_first_not_of")(str_find(False, False))
model("seq::find_last_of")(str_find(True, True))
model("seq::find_last_not_of")(str_find(False, True))


@model("seq::substr")
def substr(t, f, obj, args, e):
    vs = [t.ex(x) if t.pure_mode else t.freeze(t.ex(x)) for x in [obj] + args]
    o = vs[0]
    if o.ty.name != "std::string":
        raise Unsupported("substr")
    pos = vs[1].text if len(vs) > 1 else "0u64"
    n = vs[2].text if len(vs) > 2 else "u64::MAX"
    t.check("%s <= %s.len()" % (pos, o.text), "substr position @%d" % e["l"])
    return E("str_sub(%s, %s as int, %s as int)" % (o.text, pos, n), o.ty.plain())


@model("seq::append")
def append(t, f, obj, args, e):
    o = t.ex(obj)
    if o.ty.name != "std::string":
        raise Unsupported("append")
    vs = [t.freeze(t.ex(x)) for x in args]
    o = ob(t, obj)
    if len(vs) == 2 and vs[0].ty.kind == "int" and vs[1].ty.kind == "int":
        what = "%s.push(%s)" % (o.text, vs[1].text) if vs[0].text in ("1u64", "1int") else "(%s + Seq::new(%s as nat, |i_: int| %s))" % (o.text, vs[0].text, vs[1].text)
    elif len(vs) == 1 and vs[0].ty.kind == "seq":
        what = "(%s + %s)" % (o.text, vs[0].text)
    else:
        raise Unsupported("append form")
    t.structural(o.place)
    t.assign(o.place, what)
    grow(t, o.place)
    return E(None, o.ty, place=o.place)


@model("seq::erase")
def erase(t, f, obj, args, e):
    o = t.ex(obj)
    if o.ty.name == "std::string" and all(t.T(a["t"]).kind == "int" for a in args):
        vs = [t.freeze(t.ex(x)) for x in args]
        o = ob(t, obj)
        pos = vs[0].text if vs else "0u64"
        n = vs[1].text if len(vs) > 1 else "u64::MAX"
        t.check("%s <= %s.len()" % (pos, o.text), "erase position @%d" % e["l"])
        t.structural(o.place)
        t.assign(o.place, "str_cut(%s, %s as int, %s as int)" % (o.text, pos, n))
        return E(None, o.ty, place=o.place)
    vs = t.eval_args(args)
    o = ob(t, obj)
    if any(v.it is None or v.it.cont.text != o.text or v.it.rev for v in vs):
        raise Unsupported("erase arguments")
    if len(vs) == 1:
        p = vs[0].it.pos
        t.check("0 <= %s && %s < %s.len()" % (p, p, o.text), "erase position @%d" % e["l"])
        p = t.let("pos", "int", p)
        t.structural(o.place)
        t.assign(o.place, "%s.remove(%s)" % (o.text, p))
        return E(None, vs[0].ty, it=It(o, p))
    a, b = vs[0].it.pos, vs[1].it.pos
    t.check("0 <= %s && %s <= %s && %s <= %s.len()" % (a, a, b, b, o.text), "erase range @%d" % e["l"])
    a = t.let("pos", "int", a)
    t.structural(o.place)
    t.assign(o.place, "(%s.subrange(0, %s) + %s.subrange(%s, %s.len() as int))" % (o.text, a, o.text, b, o.text))
    return E(None, vs[0].ty, it=It(o, a))


@model("std::count")
def count(t, f, obj, args, e):
    a, b, c = [t.ex(x) for x in args]
    s, off = rng(t, a, b, e["l"])
    ety = a.it.cont.ty.args[0]
    return E("(seq_count(%s, |x_: %s| x_ == %s) as i64)" % (s, ety.v(), c.text), I64)


@model("std::reverse")
def reverse(t, f, obj, args, e):
    a, b = [t.ex(x) for x in args]
    if not (a.it.begin and b.it.end):
        raise Unsupported("reverse of a subrange")
    pl = a.it.cont.place
    t.structural(pl)
    t.assign(pl, "%s.reverse()" % pl.text())
    return E("()", VOID)


@model("std::strcmp", "strcmp")
def strcmp(t, f, obj, args, e):
    a, b = t.pair(args[0], args[1])
    if a.ty.name not in ("cstr", "std::string") or b.ty.name not in ("cstr", "std::string"):
        raise Unsupported("strcmp")
    return E("c_strcmp(%s, %s)" % (a.text, b.text), Ty("int", "int", bits=32, signed=True))


@model("std::strncmp", "strncmp")
def strncmp(t, f, obj, args, e):
    a, b, n = [t.freeze(t.ex(x)) for x in args]
    if a.ty.name not in ("cstr", "std::string") or b.ty.name not in ("cstr", "std::string"):
        raise Unsupported("strncmp")
    return E("c_strncmp(%s, %s, %s as int)" % (a.text, b.text, n.text), Ty("int", "int", bits=32, signed=True))


@model("std::strchr", "strchr")
def strchr(t, f, obj, args, e):
    a, c = [t.freeze(t.ex(x)) for x in args]
    if a.ty.name not in ("cstr", "std::string"):
        raise Unsupported("strchr")
    return E("(%s.contains((%s) as i8) || %s == 0)" % (a.text, c.text, c.text), Ty("bool", "pointer"))     # whether the pointer is not null


@model("std::strlen", "strlen")
def strlen(t, f, obj, args, e):
    a = t.freeze(t.ex(args[0]))
    if a.ty.name != "cstr":
        raise Unsupported("strlen")
    return E("(%s.len() as u64)" % a.text, Ty("int", "unsigned long", bits=64))


@model("seq::c_str")
def c_str(t, f, obj, args, e):
    o = t.ex(obj)
    return E(t.let("cstr", Ty("seq", "std::string", [o.ty.args[0]]), "c_str_(%s)" % o.text), Ty("seq", "cstr", [o.ty.args[0]]))


@model("std::binary_search")
def binary_search(t, f, obj, args, e):
    a, b, c = [t.ex(x) for x in args]
    s, off = rng(t, a, b, e["l"])
    t.check("seq_sorted(%s)" % s if a.it.cont.ty.args[0].kind == "int" else "false", "binary_search on sorted range @%d" % e["l"])
    return E("%s.contains(%s)" % (s, c.text), BOOL)


@model("std::sort")
def sort(t, f, obj, args, e):
    if len(args) == 3:
        return sort_by(t, args, e)
    a, b = [t.ex(x) for x in args]
    s, off = rng(t, a, b, e["l"])
    ety = a.it.cont.ty.args[0]
    if not (a.it.begin and b.it.end):
        raise Unsupported("sort of a subrange")
    pl = a.it.cont.place
    if ety.kind == "tuple" and len(ety.args) == 2 and all(x.kind == "int" for x in ety.args) and not a.it.rev:
        old = t.let("unsorted", a.it.cont.ty, pl.text())
        fn = t.let("less", "spec_fn(%s, %s) -> bool" % (ety.v(), ety.v()), "|x_: %s, y_: %s| x_.0 < y_.0 || (x_.0 == y_.0 && x_.1 < y_.1)" % (ety.v(), ety.v()))
        t.structural(pl)
        t.assign(pl, "std_sort_by(%s, %s)" % (old, fn))
        t.emit("proof", "axiom_std_sort_by(%s, %s);" % (old, fn))
        return E("()", VOID)
    if ety.kind == "seq" and ety.args[0].kind == "Z":      # rows: the lexicographic order of std::vector
        old = t.let("unsorted", a.it.cont.ty, pl.text())
        t.structural(pl)
        t.assign(pl, "std_sort_by(%s, lex_less())" % old if not a.it.rev else "std_sort_by(%s.reverse(), lex_less()).reverse()" % old)
        t.emit("proof", "lemma_sort_rows(%s);" % old)
        return E("()", VOID)
    if ety.kind != "int":
        raise Unsupported("sort of this type")
    old = t.let("unsorted", a.it.cont.ty, pl.text())
    t.structural(pl)
    t.assign(pl, "std_sort(%s)" % old if not a.it.rev else "std_sort(%s).reverse()" % old)
    t.emit("proof", "axiom_std_sort(%s);" % old)
    return E("()", VOID)


def sort_by(t, args, e):
    a, b, c = [t.ex(x) for x in args]
    s, off = rng(t, a, b, e["l"])
    if not (a.it.begin and b.it.end) or a.it.rev:
        raise Unsupported("sort of a subrange")
    ety = a.it.cont.ty.args[0]
    ct, _, obs, params = closure_text(t, c, [ety, ety], ["x_", "y_"])
    if obs:
        forall_obs(t, obs, params, "#[trigger] %s.contains(x_) && #[trigger] %s.contains(y_)" % (s, s), e["l"])
    pl = a.it.cont.place
    old = t.let("unsorted", a.it.cont.ty, pl.text())
    fn = t.let("less", "spec_fn(%s, %s) -> bool" % (ety.v(), ety.v()), ct)
    t.check("strict_weak(%s, %s)" % (old, fn), "comparator is a strict weak ordering @%d" % e["l"])
    t.structural(pl)
    t.assign(pl, "std_sort_by(%s, %s)" % (old, fn))
    t.emit("proof", "axiom_std_sort_by(%s, %s);" % (old, fn))
    return E("()", VOID)


@model("std::count_if")
def count_if(t, f, obj, args, e):
    a, b, c = [t.ex(x) for x in args]
    s, off = rng(t, a, b, e["l"])
    ety = a.it.cont.ty.args[0]
    ct, _, obs, params = closure_text(t, c, [ety], ["x_"])
    return E("(seq_count(%s, %s) as i64)" % (s, ct), I64)


@model("std::min", "std::max")
def minmax(t, f, obj, args, e):
    if len(args) != 2:
        raise Unsupported("min/max")
    a, b = t.pair(args[0], args[1])
    op = "<" if strip(f["q"]).endswith("min") else ">"
    # min returns the first of equal elements, max the first as well
    return E("(if %s { %s } else { %s })" % (t.compare(op, b, a), b.text, a.text), a.ty)


def strip(q):
    from ir2verus import strip_t
    return strip_t(q)


@model("std::fill")
def fill(t, f, obj, args, e):
    a, b, c = [t.ex(x) for x in args]
    if not (a.it.begin and b.it.end):
        raise Unsupported("fill of a subrange")
    pl = a.it.cont.place
    t.assign(pl, "Seq::new(%s.len(), |i_: int| %s)" % (pl.text(), c.text))
    return E("()", VOID)


# ---------------------------------------------------------------- sets
@model("set::empty")
def set_empty(t, f, obj, args, e):
    return E("(%s =~= %s)" % (ob(t, obj).text, t.zero(ob(t, obj).ty)), BOOL)


@model("set::size")
def set_size(t, f, obj, args, e):
    return E("(%s.len() as u64)" % ob(t, obj).text, U64)


# An iterator into a set is the element it denotes, or None for end(): insertion and the erasure of other elements leave it valid.
# The elements are enumerated in the order of operator< (set_enum, defined and proved in contracts/lib/sets.rs).
def set_ty(o, rev=False):
    return Ty("setit", "rev" if rev else "", [o.ty.args[0]])


def set_end(first, rev):
    def fn(t, f, obj, args, e):
        o = ob(t, obj)
        if not first:
            r = E("None", set_ty(o, rev))
            r.setend = (o.text, rev)
            return r
        q = t.let("elems", Ty("seq", args=[o.ty.args[0]]), "set_enum(%s)" % o.text)
        t.emit("proof", "axiom_set_enum(%s);" % o.text)
        r = E("(if %s.len() > 0 { Some(%s) } else { None })" % (q, "%s[%s.len() - 1]" % (q, q) if rev else "%s[0]" % q), set_ty(o, rev))
        r.setcont = o.text
        r.setbegin = (o.text, rev)
        return r
    return fn


for n in ("begin", "cbegin"):
    MODELS["set::" + n] = set_end(True, False)
for n in ("end", "cend"):
    MODELS["set::" + n] = set_end(False, False)
for n in ("rbegin", "crbegin"):
    MODELS["set::" + n] = set_end(True, True)
for n in ("rend", "crend"):
    MODELS["set::" + n] = set_end(False, True)


@model("setit::operator*")
def setit_deref(t, f, obj, args, e):
    i = t.ex(obj if obj is not None else args[0])
    i2 = t.freeze(i)
    c = getattr(i, "setcont", None)
    if c is None:
        cs = sorted({v.place.text() if v.place is not None else v.vname for v in t.env.values() if v.ty.kind == "set" and v.ty.args[0].v() == i.ty.args[0].v()})
        if not cs and t.this is not None and t.this.ty.kind == "struct":
            cs = ["%s.%s" % (t.this.text(), r["name"]) for r in t.u.records.get(t.this.ty.name, []) for y in [t.T(r["t"]).plain()] if y.kind == "set" and y.args[0].v() == i.ty.args[0].v()]
        if len(cs) != 1:
            raise Unsupported("container of a set iterator")
        c = cs[0]
    t.check("%s is Some && %s.contains(%s->Some_0)" % (i2.text, c, i2.text), "valid set iterator @%d" % e["l"])
    return E("(%s->Some_0)" % i2.text, i.ty.args[0])


@model("setit::operator=")
def setit_assign(t, f, obj, args, e):
    return t.do_assign(obj, args[0])


@model("setit::operator==", "setit::operator!=")
def setit_cmp(t, f, obj, args, e):
    a, b = t.pair(obj, args[0]) if obj is not None else t.pair(args[0], args[1])
    return E("(%s %s %s)" % (a.text, f["q"].split("operator")[-1], b.text), BOOL)


@model("set::find")
def set_find(t, f, obj, args, e):
    v = t.freeze(t.ex(args[0]))
    o = ob(t, obj)
    r = E("(if %s.contains(%s) { Some(%s) } else { None })" % (o.text, v.text, v.text), set_ty(o))
    return r


@model("set::erase")
def set_erase(t, f, obj, args, e):
    v = t.freeze(t.ex(args[0]))
    o = ob(t, obj)
    if len(args) != 1:
        raise Unsupported("set erase form")
    if v.ty.kind == "setit":
        t.check("%s is Some && %s.contains(%s->Some_0)" % (v.text, o.text, v.text), "valid set iterator @%d" % e["l"])
        t.structural(o.place)
        t.assign(o.place, "%s.remove(%s->Some_0)" % (o.text, v.text))
        return E("()", VOID)
    was = t.let("was", BOOL, "%s.contains(%s)" % (o.text, v.text))
    t.structural(o.place)
    t.assign(o.place, "%s.remove(%s)" % (o.text, v.text))
    return E("(if %s { 1u64 } else { 0u64 })" % was, U64)


@model("set::insert", "set::emplace")
def set_insert(t, f, obj, args, e):
    vs = t.eval_args(args)
    o = ob(t, obj)
    if len(vs) == 1:
        x = t.let("el", vs[0].ty, vs[0].text)
        was = t.let("was", BOOL, "%s.contains(%s)" % (o.text, x))
        t.structural(o.place)
        t.assign(o.place, "%s.insert(%s)" % (o.text, x))
        return E("(Some(%s), !%s)" % (x, was), Ty("tuple", args=[set_ty(o), BOOL]))
    if len(vs) == 2 and vs[0].it is not None and vs[1].it is not None:
        s = subrange(t, vs[0].it, vs[1].it, e["l"])
        t.structural(o.place)
        t.assign(o.place, "%s.union(%s.to_set())" % (o.text, s))
        return E("()", VOID)
    raise Unsupported("set insert form")


@model("set::count")
def set_count(t, f, obj, args, e):
    v = t.ex(args[0])
    return E("(if %s.contains(%s) { 1u64 } else { 0u64 })" % (ob(t, obj).text, v.text), U64)


@model("set::clear")
def set_clear(t, f, obj, args, e):
    return clear(t, f, obj, args, e)


# output streams: the text written so far (default flags, no failures)
def put_text(t, o, v):
    if o.place is None or v.it is not None or v.lam is not None:
        raise Unsupported("output of this value")
    if v.fn is not None:
        q = strip_t(v.fn["q"])
        if q == "std::flush":
            return o
        if q != "std::endl":
            raise Unsupported("manipulator %s" % q)
        x = "seq![10i8]"
    elif v.ty.kind == "seq" and v.ty.name in ("cstr", "std::string"):
        x = v.text
    elif v.ty.kind == "int" and v.ty.bits == 8:
        x = "seq![%s as i8]" % v.text
    elif v.ty.kind in ("int", "Z"):
        x = "dec(%s as int)" % v.text
    elif v.ty.kind == "bool":
        x = "dec(if %s { 1int } else { 0int })" % v.text
    else:
        raise Unsupported("output of %s" % v.ty)
    t.assign(o.place, "(%s + %s)" % (o.text, x))
    return o


@model("seq::operator<<")
def seq_put(t, f, obj, args, e):
    a, b = t.pair(obj, args[0])
    if a.ty.name != "ostream":
        raise Unsupported("operator<<")
    return put_text(t, a, b)


@model("seq::flush")
def seq_flush(t, f, obj, args, e):
    return t.ex(obj)


@model("seq::put")
def seq_put_char(t, f, obj, args, e):
    a, b = t.pair(obj, args[0])
    if a.ty.name != "ostream" or b.ty.kind != "int" or b.ty.bits != 8:
        raise Unsupported("put")
    return put_text(t, a, b)


@model("std::basic_ostream::operator<<")
def ostream_put(t, f, obj, args, e):
    a = t.ex(obj)
    if a.lam != ("stream",):
        raise Unsupported("stream")
    for x in args:
        t.ex(x)
    return a


@model("__builtin_popcount")
def builtin_popcount(t, f, obj, args, e):
    return E("(popcnt(%s) as i32)" % t.ex(args[0]).text, I32)


@model("seq::assign")
def assign_(t, f, obj, args, e):
    vs = t.eval_args(args)
    o = ob(t, obj)
    if len(vs) == 2 and vs[0].it is not None and vs[1].it is not None:
        v = subrange(t, vs[0].it, vs[1].it, e["l"])
    elif len(vs) == 2 and vs[0].ty.kind == "int" and vs[0].it is None:
        v = "seq_fill(%s as int, %s)" % (vs[0].text, vs[1].text)
    else:
        raise Unsupported("assign")
    t.structural(o.place)
    t.assign(o.place, v)
    return E("()", VOID)


# ---------------------------------------------------------------- forward_list: an iterator is a position, before_begin() is -1
@model("seq::before_begin", "seq::cbefore_begin")
def before_begin(t, f, obj, args, e):
    o = ob(t, obj)
    return E(None, Ty("iter", "", [o.ty]), it=It(o, "(-1int)"))


@model("seq::push_front")
def push_front(t, f, obj, args, e):
    v = t.ex(args[0])
    o = ob(t, obj)
    if v.it is not None:
        raise Unsupported("push_front of iterator")
    t.structural(o.place)
    t.assign(o.place, "(seq![%s] + %s)" % (v.text, o.text))
    grow(t, o.place)
    return E("()", VOID)


@model("seq::erase_after")
def erase_after(t, f, obj, args, e):
    vs = t.eval_args(args)
    o = ob(t, obj)
    if len(vs) != 1 or vs[0].it is None or vs[0].it.cont.text != o.text or vs[0].it.rev:
        raise Unsupported("erase_after arguments")
    p = t.let("pos", "int", vs[0].it.pos)
    t.check("-1 <= %s && %s + 1 < %s.len()" % (p, p, o.text), "erase_after position @%d" % e["l"])
    t.structural(o.place, upto=p)     # iterators up to the position stay valid
    t.assign(o.place, "%s.remove(%s + 1)" % (o.text, p))
    return E(None, vs[0].ty, it=It(o, "(%s + 1)" % p))


def is_reverse_range(t, f):
    """makeReverseRange(x) wraps a reference to x"""
    g = t.u.function(f)
    if g is None:
        return False
    c = g["body"].get("c", [])
    if len(c) != 1 or c[0]["k"] != "return":
        return False
    e = c[0]["e"]
    while e["k"] in ("cast", "ctor") and (e["k"] == "cast" or e.get("copy")):
        e = e["a"] if e["k"] == "cast" else e["args"][0]
    if e["k"] != "ctor" or len(e["args"]) != 1:
        return False
    h = t.u.function(e["f"])
    a = e["args"][0]
    while a["k"] == "cast":
        a = a["a"]
    if a["k"] != "call" or not a["f"]["q"].startswith("std::forward") or a["args"][0].get("name") != g["params"][0]["name"]:
        return False
    if h is None or h["body"].get("c") or len(h.get("inits", [])) != 1:
        return False
    return h["inits"][0]["e"].get("name") == h["params"][0]["name"]


def reverse_range(t, f, obj, args, e):
    o = t.ex(args[0])
    if o.ty.kind != "seq" or o.place is None or not is_reverse_range(t, f):
        raise Unsupported("reversed range")
    return E(None, Ty("opaque", "reverse_range"), gen=("reverse", o))


def only_prints(x):
    """the expression/statement has no effect but output"""
    if isinstance(x, list):
        return all(only_prints(y) for y in x)
    if not isinstance(x, dict):
        return True
    k = x.get("k")
    if k in ("opassign", "lambda", "throw", "unsupported", "while", "for", "do", "try"):
        return False
    if k == "bin" and x["op"] == "=":
        return False
    if k == "un" and x["op"] in ("++", "--"):
        return False
    if k in ("call", "opcall", "mcall", "ctor"):
        f = x.get("f") or {}
        if f.get("repo") or f.get("declared_in_repo"):
            return False
        if k != "opcall" and k != "ctor" and not f.get("const") and strip(f.get("q", "")) not in ("std::operator<<",):
            return False
        if k == "opcall" and x.get("op") not in ("<<", "[]", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*"):
            return False
    return all(only_prints(v) for n, v in x.items() if n != "f")


def delayed_action(t, f, obj, args, e):
    a = t.ex(args[0])
    if a.lam is None or a.lam[0] == "builtin" or not only_prints(a.lam[0]["body"]):
        raise Unsupported("delayed action with effects")
    return E(None, Ty("opaque", "delayed_action"), lam=("stream",))     # progress messages on the error output


HOOKS = {"panda::makeReverseRange": reverse_range, "panda::makeDelayedAction": delayed_action}


# input streams: the characters, the position of the next one, failbit (or badbit), eofbit
ZI = Ty("Z", "int")


def stream_of(t, obj):
    o = t.lval(obj)
    if o.ty.kind != "stream" or o.place is None:
        raise Unsupported("stream")
    return o


@model("stream::operator bool")
def stream_bool(t, f, obj, args, e):
    return E("(!%s.f)" % stream_of(t, obj).text, BOOL)


@model("stream::operator!", "stream::fail")
def stream_not(t, f, obj, args, e):
    return E("%s.f" % stream_of(t, obj).text, BOOL)


@model("stream::eof")
def stream_eof(t, f, obj, args, e):
    return E("%s.e" % stream_of(t, obj).text, BOOL)


@model("stream::good")
def stream_good(t, f, obj, args, e):
    o = stream_of(t, obj)
    return E("(!%s.f && !%s.e)" % (o.text, o.text), BOOL)


def stream_op(t, o, fn, *more):
    x = t.let("io", "(Stream, int)", "%s(%s)" % (fn, ", ".join([o.text] + list(more))))
    if fn == "s_int":
        t.emit("proof", "lemma_s_int(%s, %s);" % (o.text, more[0]))
    t.assign(o.place, x + ".0")
    return x + ".1"


@model("stream::peek", "stream::tellg")
def stream_read(t, f, obj, args, e):
    return E(stream_op(t, stream_of(t, obj), "s_" + f["q"].split("::")[-1]), ZI)


@model("stream::get")
def stream_get(t, f, obj, args, e):
    if args:
        raise Unsupported("get with arguments")
    return E(stream_op(t, stream_of(t, obj), "s_get"), ZI)


@model("stream::clear")
def stream_clear(t, f, obj, args, e):
    o = stream_of(t, obj)
    a = args[0] if args else None
    while a is not None and a["k"] in ("defarg", "cast"):
        a = a["e"] if a["k"] == "defarg" else a["a"]
    if a is not None and not (a["k"] == "const" and int(a["v"]) == 0):
        raise Unsupported("clear with a state")
    t.assign(o.place, "s_clear(%s)" % o.text)
    return E("()", VOID)


@model("stream::seekg")
def stream_seek(t, f, obj, args, e):
    if len(args) != 1:
        raise Unsupported("seekg with a direction")
    a = t.ex(args[0])
    o = stream_of(t, obj)
    t.assign(o.place, "s_seekg(%s, %s)" % (o.text, a.text))
    return o


@model("stream::operator>>", "std::operator>>")
def stream_in(t, f, obj, args, e):
    if obj is None:
        obj, args = args[0], args[1:]
    o = stream_of(t, obj)
    v = t.ex(args[0])
    if v.fn is not None:
        if strip_t(v.fn["q"]) != "std::ws":
            raise Unsupported("manipulator")
        t.emit("proof", "lemma_skip_space_ok(%s);" % o.text)
        t.assign(o.place, "s_ws(%s)" % o.text)
        return o
    if v.place is None:
        raise Unsupported("operator>>")
    if v.ty.kind == "Z" and f["ptys"] == ["int &"]:
        x = stream_op(t, o, "s_int", v.text)
        t.assign(v.place, x)
        return o
    if v.ty.kind == "seq" and v.ty.name == "std::string":
        x = t.let("io", "(Stream, Seq<i8>)", "s_word(%s, %s)" % (o.text, v.text))
        t.emit("proof", "lemma_s_word(%s, %s);" % (o.text, v.text))
    else:
        raise Unsupported("operator>> of %s" % v.ty)
    t.assign(o.place, x + ".0")
    t.structural(v.place)
    t.assign(v.place, x + ".1")
    return o


@model("std::getline")
def stream_getline(t, f, obj, args, e):
    if len(args) != 2:
        raise Unsupported("getline with a delimiter")
    o = stream_of(t, args[0])
    v = t.ex(args[1])
    if v.place is None:
        raise Unsupported("getline")
    x = t.let("io", "(Stream, Seq<i8>)", "s_getline(%s, %s)" % (o.text, v.text))
    t.emit("proof", "lemma_s_getline(%s, %s);" % (o.text, v.text))
    t.assign(o.place, x + ".0")
    t.structural(v.place)
    t.assign(v.place, x + ".1")
    return o
