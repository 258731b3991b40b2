"""Translation of extracted C++ function bodies (JSON from cxx2ir) into Verus obligations.

The translation is purely mechanical.  C++ values become ghost values of an exec-mode Verus function (so that
loops with invariants can be used); every array access, arithmetic operation with undefined overflow, division
and call precondition becomes an assert; contracts are taken from contracts/*.vc."""
import functools
import re
from cpptypes import TypeParser, Ty, struct_name


class Unsupported(Exception):
    pass


class NeedStmt(Exception):
    """raised while translating the right operand of a short-circuit operator that needs statements"""


@functools.lru_cache(maxsize=None)
def strip_t(q):
    out, d = "", 0
    i = 0
    while i < len(q):
        c = q[i]
        if c == "<" and not (q[:i].endswith("operator") or q[:i].endswith("operator<")):
            d += 1
        elif c == ">" and d > 0 and q[i - 1] != "-":
            d -= 1
        elif d == 0:
            out += c
        i += 1
    return out.replace("std::__cxx11::", "std::").replace("(anonymous namespace)::", "")


class Place:
    def __init__(self, root, ty, path=()):
        self.root, self.ty, self.path = root, ty, list(path)

    def text(self):
        t = self.root
        for p in self.path:
            t = self.step(t, p)
        return t

    @staticmethod
    def step(t, p):
        if p[0] == "i":
            return "%s[%s]" % (t, p[1])
        if p[0] == "m":
            return "%s[%s]" % (t, p[1])
        if p[0] == "f":
            return "%s.%s" % (t, p[1])
        if p[0] == "t":
            return "%s.%d" % (t, p[1])
        raise AssertionError(p)

    def sub(self, elem, ty):
        return Place(self.root, ty, self.path + [elem])

    def update(self, val):
        def up(base, path):
            if not path:
                return val
            p, rest = path[0], path[1:]
            inner = up(Place.step(base, p), rest)
            if p[0] == "i":
                return "%s.update(%s, %s)" % (base, p[1], inner)
            if p[0] == "m":
                return "%s.insert(%s, %s)" % (base, p[1], inner)
            if p[0] == "f":
                return "(%s { %s: %s, ..%s })" % (p[2], p[1], inner, base)
            if p[0] == "t":
                return "(" + ", ".join(inner if n == p[1] else "%s.%d" % (base, n) for n in range(p[2])) + ")"
        return up(self.root, self.path)


class It:
    def __init__(self, cont, pos, rev=False, begin=False, end=False):
        self.cont, self.pos, self.rev, self.begin, self.end = cont, pos, rev, begin, end


class E:
    def __init__(self, text, ty, place=None, it=None, lam=None, fn=None, gen=None):
        self._text, self.ty, self.place, self.it, self.lam, self.fn, self.gen = text, ty, place, it, lam, fn, gen

    @property
    def text(self):
        if self._text is None:
            if self.place is not None:
                return self.place.text()
            raise Unsupported("value without text %s" % self.ty)
        return self._text


class Var:
    def __init__(self, name, ty, vname=None, place=None, it=None, lam=None, depth=0):
        self.name, self.ty, self.vname, self.place, self.it, self.lam = name, ty, vname, place, it, lam
        self.dead = False
        self.uses = 0
        self.limit = self.prov = None       # container of iterators: position up to which they are valid, the container they point into
        self.depth = depth


class Loop:
    pass


BOOL = Ty("bool")
I32 = Ty("int", "int", bits=32, signed=True)
I64 = Ty("int", "long", bits=64, signed=True)
U64 = Ty("int", "unsigned long", bits=64)
U128 = Ty("int", "unsigned __int128", bits=128)
VOID = Ty("void")
FUNCTOR = re.compile(r"^std::(greater|less|plus|minus|multiplies|equal_to|greater_equal|less_equal|not_equal_to|negate)<.*>$")
FUN = {"greater": ">", "less": "<", "plus": "+", "minus": "-", "multiplies": "*", "equal_to": "==", "greater_equal": ">=", "less_equal": "<=", "not_equal_to": "!=", "negate": "neg"}


def functor_params(info):
    r = []
    for n, _, t in info.params:
        m = FUNCTOR.match(t.name) if t.kind == "opaque" else None
        if m:
            r.append((n, FUN[m.group(1)]))
    return r


STREAM = re.compile(r"^std::(basic_)?[io]?stringstream\b|^std::(basic_)?[io]?f?stream\b|^std::basic_ios\b")
GUARD = re.compile(r"^panda::ScopeGuard<")
LOCK = re.compile(r"^std::(lock_guard|unique_lock)<std::mutex>$")
ATOM = re.compile(r"^[\w.]+$")


def lit(v, ty):
    v = int(v)
    if ty.kind == "Z":
        return "%dint" % v if v >= 0 else "(-%dint)" % -v
    if v >= 0:
        return "%d%s" % (v, ty.v())
    return "((-%dint) as %s)" % (-v, ty.v())


class Contract:
    def __init__(self, name):
        self.name = name
        self.params = None       # expected type signature (substring match on key)
        self.requires, self.ensures, self.exc, self.release = [], [], [], []
        self.loops = {}          # ordinal -> {"inv": [...], "dec": text, "start": [..], "end": [..], "after": [...]}
        self.entry, self.ret = [], []
        self.pure = None
        self.throws = False
        self.attrs = []
        self.line = 0
        self.opts = {}
        self.used = False
        self.at = {}             # call hooks
        self.decl = None
        self.alias = None        # (parameter, aliased parameter, field path)
        self.alias_used = False


class FnInfo:
    """calling convention of a repository function"""
    def __init__(self, f, tp):
        self.f = f
        self.ret = tp.parse(f["ret"])
        self.params = [(p["name"], p["id"], tp.parse(p["t"])) for p in f["params"]] if "params" in f else \
                      [("p%d" % i, None, tp.parse(t)) for i, t in enumerate(f["ptys"])]
        self.method = f.get("method", False) and not f.get("static", False)
        q = strip_t(f["q"]).split("::")
        self.ctor = f.get("ctor", False) or (f.get("method", False) and len(q) >= 2 and q[-1] == q[-2])
        self.const = f.get("const", False)
        self.cls = tp.parse(f["cls"]) if f.get("method") else None
        self.inout = []
        self.monitor = self.method and getattr(tp, "monitor", None) is not None and self.cls.kind == "struct" and strip_t(self.cls.name) == tp.monitor
        if self.method and (not self.const or self.monitor or strip_t(f.get("cls", "")) in getattr(tp, "shared", ())) and not self.ctor:
            self.inout.append(("this", self.cls))
        for n, _, t in self.params:
            if t.ref == "&" and not t.const and t.kind not in ("opaque",):
                self.inout.append((n, t.plain()))
        if self.ctor:
            self.ret = self.cls
        self.refret = None
        if self.ret.ref == "&" and not self.ret.const:
            self.refret = self._refret(f)

    def _refret(self, f):
        if "body" not in f:     # convention of this code base; the contract is proved with the same convention where the body is visible
            if self.method and self.cls is not None and self.ret.plain().v() == self.cls.plain().v():
                return "this"
            if not self.method and self.params and self.params[0][2].ref == "&":
                return self.params[0][0]
            return "?"
        names = set()

        def look(e):
            k = e.get("k")
            if k == "var":
                names.add(e["name"])
            elif k == "un" and e["op"] == "*" and e["a"]["k"] == "this":
                names.add("this")
            elif k in ("call", "opcall", "mcall"):
                a = e.get("args", [])
                if k == "mcall":
                    look(e["obj"]) if e["obj"]["k"] != "this" else names.add("this")
                elif a:
                    look(a[0])
                else:
                    names.add("?")
            elif k == "this":
                names.add("this")
            else:
                names.add("?")

        def walk(s):
            if isinstance(s, dict):
                if s.get("k") == "return" and "e" in s:
                    look(s["e"])
                    return
                if s.get("k") == "lambda":
                    return
                for v in s.values():
                    walk(v)
            elif isinstance(s, list):
                for v in s:
                    walk(v)
        walk(f.get("body", {}))
        if len(names) == 1:
            n = names.pop()
            if n == "this" or any(n == p[0] for p in self.params):
                return n
        return "?"


class FnTrans:
    def __init__(self, unit, f, contract):
        self.call_index = {}
        self.u, self.f, self.c = unit, f, contract
        self.tp = unit.tp
        self.info = FnInfo(f, self.tp)
        self.env = {}
        self.out = []
        self.lets = set()
        self.guards = []
        self.used = {}
        self.pure_mode = 0
        self.loop_no = 0
        self.loop_depth = 0
        self.inline_depth = 0
        self.ret_stack = []
        self.throw_stack = []
        self.break_stack, self.cont_stack = [], []
        self.cleanups = []      # destructors of the variables in scope, in order of declaration
        self.label_depth = {"$FN": 0}
        self.this = None
        self.names_order = []   # (cppname, type, Var) in declaration order, for rename fallback
        self.nasserts = 0
        self.scope = []         # stack of dict cppname -> Var
        self.thrown = False
        self.returns = 0
        self.tmpvars = 0
        self.monitored = self.info.monitor and not self.info.ctor
        self.mutated = 0
        self.lines = {}
        self.vty = {}
        self.counters = {}

    # ---------------------------------------------------------------- helpers
    def fresh(self, base):
        base = re.sub(r"\W", "_", base) or "v"
        if base in ("self", "type", "match", "fn", "mod", "in", "move", "ref", "use", "where", "impl", "loop", "as", "proof", "spec", "int", "nat", "final", "old", "tracked", "ghost", "exec", "box", "invariant", "state", "is", "has", "matches", "become", "dyn", "choose", "decreases"):
            base += "_"
        n = self.used.get(base, 0)
        self.used[base] = n + 1
        nm = base if n == 0 else "%s__%d" % (base, n)
        while nm in self.u.reserved:
            n = self.used.get(base, 0)
            self.used[base] = n + 1
            nm = "%s__%d" % (base, n)
        return nm

    def emit(self, *node):
        if self.pure_mode and node[0] not in ("assert",):
            raise NeedStmt()
        self.out.append(node)

    def check(self, cond, label):
        """obligation under the current short-circuit guards"""
        self.nasserts += 1
        if self.guards:
            cond = "(%s) ==> (%s)" % (" && ".join("(%s)" % g for g in self.guards), cond)
        if self.u.spec.get("fits") and label.split(" @")[0] in ("signed overflow", "conversion to int"):
            # @fits: the statement is about runs in which the native ints do not overflow (recorded as an assumption)
            if self.pure_mode:
                raise NeedStmt()
            self.out.append(("assume", cond, "native int %s: the value fits" % label.split(" @")[0]))
            return
        self.out.append(("assert", cond, label))

    def let(self, base, ty, text):
        n = self.fresh(base)
        if isinstance(ty, Ty):
            self.vty[n] = ty
        self.lets.add(n)
        self.emit("let", n, ty.v() if isinstance(ty, Ty) else ty, text)
        return n

    def leave(self, label):
        """control leaves for `label`: the destructors of the variables that go out of scope run first"""
        self.run_cleanups(self.label_depth.get(label, 0))
        self.emit("leave", label)

    def run_cleanups(self, depth):
        saved = self.cleanups
        for i in range(len(saved) - 1, depth - 1, -1):
            self.cleanups = saved[:i]
            saved[i]()
        self.cleanups = saved

    def scope_end(self, mark):
        """the end of a scope whose destructors start at `mark`"""
        if not (self.out and self.out[-1][0] == "leave"):
            self.run_cleanups(mark)
        del self.cleanups[mark:]

    def new_label(self, label):
        self.label_depth[label] = len(self.cleanups)
        return label

    def any(self, base, ty):
        """a fresh unknown value"""
        n = self.fresh(base)
        self.vty[n] = ty
        self.lets.add(n)
        info = type("Any", (), {"outtys": {0: ty}})
        self.emit("call", "any::<(%s,)>" % ty.v(), [], self.fresh("r_"), [(n, ty.v())], "unknown value", None, info)
        return n

    def havoc(self, q, f, obj, args, e):
        """a call whose effects are left open: every argument it may write, and its result, are unknown afterwards"""
        if self.pure_mode:
            raise NeedStmt()
        ptys = [self.T(p["t"]) for p in f["params"]] if "params" in f else [self.T(t) for t in f["ptys"]]
        vals = []
        if obj is not None:
            o = self.ex(obj)
            if o.lam != ("stream",):
                if not f.get("const") and not (o.ty.kind == "opaque" and STREAM.match(strip_t(o.ty.name))):
                    raise Unsupported("open call of %s" % q)
        for a, t in zip(args, ptys):
            while a["k"] == "ctor" and len(a["args"]) == 1 and self.T(a["t"]).kind in ("struct", "opaque") and a["args"][0]["k"] in ("ctor", "var"):
                a = a["args"][0]      # a wrapper around a stream
            v = self.ex(a)
            vals.append(v)
        for v, t in zip(vals, ptys):
            if v.lam == ("stream",) or t.const or t.ref != "&":
                continue
            if v.place is None:
                raise Unsupported("open call of %s" % q)
            self.structural(v.place)
            self.assign(v.place, self.any("open", v.ty))
        self.mutated += 1
        self.u.opened.add(q)
        ret = self.T(f["ret"])
        r = None
        if ret.kind == "void":
            r = E("()", VOID)
        elif ret.kind == "opaque" and STREAM.match(ret.name):
            r = E(None, ret.plain(), lam=("stream",))
        elif ret.ref == "&" and not ret.const and not re.match(r"panda::", ret.name):     # (objects of such classes are not represented)
            raise Unsupported("reference result of open call %s" % q)
        else:
            r = E(self.any("open", ret.plain()), ret.plain())
        if not f.get("noexcept") and not q.startswith("std::"):
            saved = self.out
            self.out = []
            self.do_throw("?", e.get("l", 0))
            blk = self.out
            self.out = saved
            self.emit("if", self.any("throws", BOOL), blk, [])
        return r

    def freeze(self, e, base="t"):
        if e.it is not None:
            p = self.freeze_pos(e.it)
            return E(None, e.ty, it=p)
        if e.lam is not None or e.fn is not None:
            return e
        if e.ty.kind == "void":
            return e
        n = self.let(base, e.ty, e.text)
        return E(n, e.ty)

    def freeze_pos(self, it):
        if (ATOM.match(it.pos) and it.pos[0].isdigit()) or it.pos in self.lets:
            return it
        n = self.let("pos", "int", it.pos)
        r = It(it.cont, n, it.rev)
        r.begin, r.end = it.begin, it.end
        return r

    def freeze_place(self, pl):
        path = []
        for p in pl.path:
            if p[0] in ("i", "m") and not re.match(r"^\d+int$", p[1]) and p[1] not in self.lets:
                n = self.let("ix", "int" if p[0] == "i" else p[2], p[1])
                path.append((p[0], n) + tuple(p[2:]))
            else:
                path.append(p)
        return Place(pl.root, pl.ty, path)

    def assign(self, place, text):
        self.mutated += 1
        self.emit("set", place.root, place.update(text), "elem" if place.path and place.path[-1][0] == "i" else "whole", place)

    def structural(self, place, upto=None):
        """the structure of the container at `place` changes: references into it die"""
        for v in list(self.env.values()):
            if v.limit is not None and v.prov is not None and v.prov.place.root == place.root:
                self.mutated += 1
                self.emit("set", v.limit, "-2int" if upto is None else "(if %s < %s { %s } else { %s })" % (upto, v.limit, upto, v.limit), "whole", None)
            pl = v.place if v.place is not None else (v.it.cont.place if v.it is not None and v.it.cont.place is not None else None)
            if pl is None or pl.root != place.root:
                continue
            if len(pl.path) > len(place.path) and [p[:2] for p in pl.path[:len(place.path)]] == [p[:2] for p in place.path]:
                v.dead = True
            if v.it is not None and [p[:2] for p in pl.path] == [p[:2] for p in place.path]:
                v.dead = True

    def bind(self, cid, var):
        self.env[cid] = var
        self.names_order.append(var)
        if self.scope:
            self.scope[-1][var.name] = var

    def lookup_name(self, name):
        for s in reversed(self.scope):
            if name in s:
                return s[name]
        return None

    def vartext(self, v):
        if v.it is not None:
            return v.it.pos
        if v.place is not None:
            return v.place.text()
        return v.vname

    def namemap(self):
        m = {}
        for s in self.scope:
            for n, v in s.items():
                t = self.vartext(v) if v.lam is None and getattr(v, "gen", None) is None else None
                if t is not None:
                    m[n] = t
        return m

    # ---------------------------------------------------------------- arithmetic
    def arith(self, op, a, b, ty, line):
        at, bt = a.text, b.text
        if ty.kind == "Z":
            if op in "+-*":
                return "(%s %s %s)" % (at, op, bt)
            if op == "/":
                self.check("%s != 0" % bt, "division by zero @%d" % line)
                return "tdiv(%s, %s)" % (at, bt)
            if op == "%":
                self.check("%s > 0 && %s >= 0" % (bt, at), "modulo operands @%d" % line)
                return "(%s %% %s)" % (at, bt)
        v = ty.v()
        if op in ("+", "-", "*"):
            raw = "(%s %s %s)" % (at, op, bt)
            if ty.signed:
                self.check("%s::MIN <= %s && %s <= %s::MAX" % (v, raw, raw, v), "signed overflow @%d" % line)
                return "(%s as %s)" % (raw, v)
            return "u%s%d(%s, %s)" % ({"+": "add", "-": "sub", "*": "mul"}[op], ty.bits, at, bt)
        if op in ("/", "%"):
            self.check("%s != 0" % bt, "division by zero @%d" % line)
            if ty.signed:
                self.check("!(%s == %s::MIN && %s == -1)" % (at, v, bt), "signed overflow @%d" % line)
                return "(%s(%s as int, %s as int) as %s)" % ("tdiv" if op == "/" else "tmod", at, bt, v)
            return "((%s %s %s) as %s)" % (at, op, bt, v)
        if op in ("&", "|", "^"):
            return "(%s %s %s)" % (at, op, bt)
        if op in ("<<", ">>"):
            self.check("0 <= %s && %s < %d" % (bt, bt, ty.bits), "shift distance @%d" % line)
            if op == "<<" and ty.signed:
                self.check("0 <= %s" % at, "left shift of negative value @%d" % line)
                self.check("((%s as u%d) << (%s as u%d)) <= %s::MAX" % (at, ty.bits, bt, ty.bits, v), "left shift overflow @%d" % line)
            return "(%s %s ((%s) as %s))" % (at, op, bt, v)
        raise Unsupported("operator " + op)

    def conv_int(self, e, ty):
        s = e.ty
        if s.kind == "Z" and ty.kind == "Z":
            return e.text
        if s.kind == "bool":
            if ty.kind == "Z":
                return "(if %s {1int} else {0int})" % e.text
            return "(if %s {1%s} else {0%s})" % (e.text, ty.v(), ty.v())
        if ty.kind == "Z":
            return "(%s as int)" % e.text
        if s.kind == "Z" and ty.kind == "int" and ty.bits == 8 and ty.signed and self.u.spec.get("native"):
            return "wrap_i8(%s)" % e.text
        if s.kind == "Z" and ty.kind == "int" and self.u.spec.get("native"):
            n = self.let("num", s, e.text)
            self.check("%s::MIN <= %s <= %s::MAX" % (ty.v(), n, ty.v()), "conversion to int @0")
            return "(%s as %s)" % (n, ty.v())
        if s.kind == "Z":
            raise Unsupported("BigInteger to int conversion")
        if s.kind != "int" or ty.kind != "int":
            raise Unsupported("conversion %s -> %s" % (s, ty))
        m = re.match(r"^(\d+)(?:[iu]\d+)$", e.text)
        if m and int(m.group(1)) <= (2 ** (ty.bits - 1) - 1 if ty.signed else 2 ** ty.bits - 1):
            return lit(m.group(1), ty)
        if s.bits == ty.bits and s.signed == ty.signed:
            return e.text
        if s.bits < ty.bits and (ty.signed or not s.signed):
            return "(%s as %s)" % (e.text, ty.v())
        return "wrap_%s(%s as int)" % (ty.v(), e.text)

    # ---------------------------------------------------------------- expressions
    def T(self, s):
        return self.tp.parse(s)

    def ex(self, e):
        k = e["k"]
        m = getattr(self, "x_" + k, None)
        if m is None:
            raise Unsupported("expression %s line %s" % (e.get("cls", k), e.get("l")))
        return m(e)

    def val(self, e):
        r = self.ex(e)
        return r

    def x_const(self, e):
        ty = self.T(e["t"])
        if ty.kind in ("opaque", "struct"):   # enum
            ty = I32
            return E(lit(e["v"], I32), ty)
        if ty.kind == "bool":
            return E("true" if int(e["v"]) else "false", BOOL)
        return E(lit(e["v"], ty.plain()), ty.plain())

    def x_bool(self, e):
        return E("true" if e["v"] else "false", BOOL)

    def x_str(self, e):
        vals = [str(v) for v in e["v"]]
        return E("seq![%s]" % ", ".join(lit(v, Ty("int", bits=8, signed=True)) for v in vals) if vals else "Seq::<i8>::empty()",
                 Ty("seq", "std::string", [Ty("int", "char", bits=8, signed=True)]))

    def x_defarg(self, e):
        return self.ex(e["e"])

    def x_zero(self, e):
        ty = self.T(e["t"]).plain()
        return E(self.zero(ty), ty)

    def zero(self, ty):
        if ty.kind == "int" or ty.kind == "Z":
            return lit(0, ty)
        if ty.kind == "bool":
            return "false"
        if ty.kind == "seq" and ty.extent:
            return "seq_fill(%d, %s)" % (ty.extent, self.zero(ty.args[0]))
        if ty.kind == "seq":
            return "Seq::<%s>::empty()" % ty.args[0].v()
        if ty.kind == "set":
            return "Set::<%s>::empty()" % ty.args[0].v()
        if ty.kind == "map":
            return "Map::<%s, %s>::empty()" % (ty.args[0].v(), ty.args[1].v())
        if ty.kind == "tuple":
            return "(" + ", ".join(self.zero(a) for a in ty.args) + ("," if len(ty.args) == 1 else "") + ")"
        raise Unsupported("default value of %s" % ty)

    def x_var(self, e):
        v = self.env.get(e["id"])
        if v is None:
            g = self.u.globals.get(e["q"])
            if g is None and e["q"] in ("std::cout", "std::cerr", "std::clog"):
                r = E(None, self.T(e["t"]).plain(), lam=("stream",))
                r.cout = e["q"] == "std::cout"
                return r
            if g is None and e["name"] in self.u.spec["ignored"]:
                ty = self.T(e["t"]).plain()
                return E(None, ty, place=Place(self.any(e["name"], ty), ty))
            if g is not None:
                return E(g[0], g[1])
            raise Unsupported("variable %s" % e["name"])
        if v.dead:
            raise Unsupported("reference %s used after its container changed" % v.name)
        v.uses += 1
        if v.lam is not None:
            return E(None, v.ty, lam=v.lam)
        if getattr(v, "gen", None) is not None:
            return E(None, v.ty, gen=v.gen)
        if v.it is not None:
            return E(None, v.ty, it=It(v.it.cont, v.it.pos, v.it.rev, v.it.begin, v.it.end))
        if v.place is not None:
            return self.stored(E(None, v.place.ty, place=v.place))
        return E(None, v.ty, place=Place(v.vname, v.ty))

    def stored(self, r):
        """element of a container of iterators -> iterator (still valid?)"""
        if r.ty.kind != "iter" or r.place is None or len(r.place.path) != 1:
            return r
        o = self.itervec(r.place)
        if o.prov is None:
            raise Unsupported("iterator of unknown container")
        self.check("%s <= %s" % (r.place.text(), o.limit), "stored iterator not invalidated")
        return E(None, r.ty, it=It(o.prov, r.place.text()))

    def itervec(self, place):
        for v in self.env.values():
            if v.limit is not None and v.vname == place.root:
                return v
        raise Unsupported("container of iterators")

    def x_this(self, e):
        return E(None, self.this.ty, place=self.this)

    # monitors ------------------------------------------------------------
    # An object whose member functions are called by several threads.  Outside of the lock, its guarded members may
    # change at any time: they may not be touched.  Taking the lock makes every change visible that other threads may
    # have made (the invariant and the rely condition hold, nothing else is known); the invariant, the rely
    # condition (the guarantee to the others) and the obligations of the function (@release) are due when it is given back.
    def mon_text(self, txt, acq=None):
        sub = {"this": self.this.root, "acq": "acq_", "waked_one": "n1_", "waked_all": "nall_", "was_done": "done_"}
        m = self.namemap()
        m.update(sub)
        return subst_names(txt, m)

    def mon_acquire(self, line):
        M = self.u.spec["monitor"]
        self.check("!held_", "the mutex is not locked twice @%d" % line)
        n = self.any("shared", self.this.ty)
        self.emit("assume", "(%s) && (%s)" % (subst_names(M["inv"], {"this": n}), subst_names(M["rely"], {"acq": self.this.root, "this": n})), "monitor: what other threads guarantee when the lock is taken")
        for v, x in ((self.this.root, n), ("acq_", n), ("held_", "true"), ("n1_", "0int"), ("nall_", "false"), ("done_", "(done_ || (%s))" % subst_names(M["done"], {"this": n}))):
            self.mutated += 1
            self.emit("set", v, x, "whole", None)

    def mon_release(self, line):
        M = self.u.spec["monitor"]
        self.check("held_", "the mutex is locked when it is unlocked @%d" % line)
        for f, e in M["update"]:
            self.emit("set", self.this.root, self.this.sub(("f", f, struct_name(self.this.ty.name)), None).update(self.mon_text(e)), "whole", None)
        for h in M["lemmas"]:
            self.emit("proof", self.mon_text(h))
        self.check(self.mon_text(M["inv"]), "the invariant of the shared data when the lock is given back @%d" % line)
        self.check(self.mon_text(M["rely"]), "nothing other threads rely on is undone @%d" % line)
        for l, e in (self.c.release if self.c is not None else []):
            self.check(self.mon_text(e), "when the lock is given back: %s @%d" % (l, line))
        self.emit("set", "held_", "false", "whole", None)
        self.mutated += 1

    def mon_access(self, name, line):
        if self.monitored and name in self.u.spec["monitor"]["guarded"]:
            self.check("held_", "shared data is accessed under the lock only @%d" % line)

    def is_mutex(self, a):
        while a["k"] in ("cast", "ctor"):
            a = a["a"] if a["k"] == "cast" else a["args"][0]
        return a["k"] == "member" and a["base"]["k"] == "this" and a["name"] == self.u.spec["monitor"]["mutex"]

    def declare_lock(self, d, ty):
        args = d.get("init", {}).get("args", [])
        while len(args) == 1 and args[0]["k"] == "ctor":
            args = args[0]["args"]
        if len(args) != 1:
            raise Unsupported("lock")
        self.bind(d["id"], Var(d["name"], ty, lam=("lock",)))
        if not self.is_mutex(args[0]):
            return                      # protects nothing that is shared
        self.mon_acquire(d.get("l", 0))

        def release():
            saved = self.out
            self.out = []
            self.mon_release(d.get("l", 0))
            b = self.out
            self.out = saved
            self.emit("if", "held_", b, [])
        self.cleanups.append(release)

    def declare_guard(self, d, ty):
        """makeScopeGuard(closure): the closure runs at the end of the scope unless it is dismissed"""
        i = d.get("init", {})
        while i.get("k") in ("ctor", "cast"):
            i = i["args"][0] if i["k"] == "ctor" else i["a"]
        if i.get("k") != "call" or strip_t(i["f"]["q"]) != "panda::makeScopeGuard":
            raise Unsupported("scope guard")
        fe = self.ex(i["args"][0])
        if fe.lam is None or fe.lam[0] == "builtin" or not isinstance(fe.lam[0], dict):
            raise Unsupported("scope guard")
        node, env = fe.lam
        for c in node.get("caps", []):
            v = env.get(c.get("id"))
            if c.get("byref") or v is None:
                continue
            if v.it is not None or v.lam is not None or (v.vname is None and v.place is None):
                raise Unsupported("captured value")
            env[c["id"]] = Var(v.name, v.ty, vname=self.let(v.name, v.ty, self.vartext(v)))
        flag = self.let(d["name"] + "_on", BOOL, "true")
        self.bind(d["id"], Var(d["name"], ty, lam=("guard", flag)))
        g = {"params": [], "ret": node["ret"], "body": node["body"], "q": "lambda", "key": "lambda", "ptys": []}

        def run():
            saved, save = self.out, self.env
            self.out = []
            self.env = dict(save)
            self.env.update(env)
            try:
                self.inline(g, None, [], None)
                b = self.out
            finally:
                self.env = save
                self.out = saved
            self.emit("if", flag, b, [])
        self.cleanups.append(run)

    def lock_call(self, name, line):
        if name == "unlock":
            self.mon_release(line)
        elif name == "lock":
            self.mon_acquire(line)
        else:
            raise Unsupported("lock." + name)
        return E("()", VOID)

    def cond_wait(self, args, line):
        if self.ex(args[0]).lam != ("lock",):
            raise Unsupported("wait")
        self.check("held_", "the lock is held when waiting @%d" % line)
        saved = self.out
        if len(args) > 1:
            t, ob = self.closure(self.ex(args[1]), [])([])
            for o in ob:
                self.check(o, "in closure")
        self.out = []
        self.mon_release(line)
        self.mon_acquire(line)
        if len(args) > 1:
            t2, _ = self.closure(self.ex(args[1]), [])([])
            self.emit("assume", t2.text, "monitor: the condition waited for")
        b = self.out
        self.out = saved
        self.emit("if", "!(%s)" % t.text if len(args) > 1 else "true", b, [])
        return E("()", VOID)

    def printed(self, q, args, e):
        """a row is written to the standard output"""
        vs = [self.ex(a) for a in args]
        if len(vs) < 2 or not getattr(vs[0], "cout", False) or vs[1].ty.kind != "seq" or vs[1].ty.args[0].kind != "Z":
            return vs[0]
        self.check("held_", "rows are printed under the lock only @%d" % e.get("l", 0))
        self.assign(self.this.sub(("f", "printed", struct_name(self.this.ty.name)), None), "%s.printed.push(%s)" % (self.this.root, vs[1].text))
        return vs[0]

    def x_member(self, e):
        if e["base"]["k"] == "this":
            self.mon_access(e["name"], e.get("l", 0))
        b = self.ex(e["base"])
        if b.it is not None:
            b = self.deref(b, e["l"])
        ty = self.T(e["t"]).plain()
        if b.ty.kind == "stream" and b.ty.name == "panda::PositionGuardedFile" and e["name"] == "file":
            return b
        if b.ty.kind == "struct":
            if ty.kind == "opaque":
                ty = self.field_ty(b.ty, e["name"])
            el = ("f", e["name"], struct_name(b.ty.name))
        elif b.ty.kind == "tuple" and e["name"] in ("first", "second"):
            el = ("t", 0 if e["name"] == "first" else 1, 2)
            if ty.kind == "Z" and b.ty.args[el[1]].kind == "int":
                ty = b.ty.args[el[1]]
            if b.gen is not None:   # pair of iterators
                return b.gen[el[1]]
        else:
            raise Unsupported("member %s of %s" % (e["name"], b.ty))
        if b.gen is not None and b.ty.kind == "tuple":
            return b.gen[el[1]]
        if b.place is not None:
            return E(None, ty, place=b.place.sub(el, ty))
        return E(Place.step("(%s)" % b.text, el), ty)

    def field_ty(self, sty, name):
        for f in self.u.records.get(sty.name, []):
            if f["name"] == name:
                t = self.T(f["t"]).plain()
                if t.kind == "opaque":
                    return I32 if self.u.is_enum(t.name) else t
                return t
        raise Unsupported("field %s" % name)

    def deref(self, r, line):
        it = r.it
        c = it.cont
        ln = "%s.len()" % c.text
        self.check("0 <= %s && %s < %s" % (it.pos, it.pos, ln), "iterator dereference @%d" % line)
        ix = it.pos if not it.rev else "(%s - 1 - (%s))" % (ln, it.pos)
        ety = c.ty.args[0]
        if c.place is not None:
            return E(None, ety, place=c.place.sub(("i", ix), ety))
        return E("%s[%s]" % (c.text, ix), ety)

    def pair(self, a, b):
        """translate two operands left to right, freezing the first if the second has effects"""
        ea = self.ex(a)
        pos = len(self.out)
        mut = self.mutated
        eb = self.ex(b)
        if self.mutated != mut and (ea._text is not None or ea.place is not None) and ea.it is None:
            saved = self.out[pos:]
            del self.out[pos:]
            ea2 = self.freeze(ea)
            self.out += saved
            ea = ea2
        return ea, eb

    def x_bin(self, e):
        op = e["op"]
        line = e["l"]
        if op in ("==", "!="):
            for x, y in ((e["a"], e["b"]), (e["b"], e["a"])):
                while x["k"] == "cast":
                    x = x["a"]
                if x["k"] == "null":
                    p = self.ex(y)
                    if p.ty.kind == "bool" and p.ty.name == "pointer":
                        return E("(!%s)" % p.text if op == "==" else p.text, BOOL)
                    raise Unsupported("null pointer")
        if op in ("&&", "||"):
            a = self.ex(e["a"])
            g = a.text if op == "&&" else "!(%s)" % a.text
            mark = len(self.out)
            muts = self.mutated
            self.pure_mode += 1
            self.guards.append(g)
            try:
                b = self.ex(e["b"])
                return E("(%s %s %s)" % (a.text, op, b.text), BOOL)
            except NeedStmt:
                del self.out[mark:]
                self.mutated = muts
            finally:
                self.pure_mode -= 1
                self.guards.pop()
            t = self.let("c", BOOL, a.text)
            saved = self.out
            self.out = []
            b = self.ex(e["b"])
            self.emit("set", t, b.text, "whole", None)
            blk = self.out
            self.out = saved
            self.emit("if", t if op == "&&" else "!%s" % t, blk, [])
            return E(t, BOOL)
        if op == "=":
            return self.do_assign(e["a"], e["b"])
        if op == ",":
            self.ex(e["a"])
            return self.ex(e["b"])
        a, b = self.pair(e["a"], e["b"])
        if a.it is not None or b.it is not None:
            return self.iter_op(op, [a, b], e)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return E(self.compare(op, a, b), BOOL)
        ty = self.T(e["t"]).plain()
        if op == "+" and a.ty.kind == "seq" and ty.kind == "seq" and ty.name == "cstr" and b.ty.kind in ("int", "Z"):
            self.check("0 <= %s && %s <= %s.len()" % (b.text, b.text, a.text), "pointer stays within the string @%d" % line)
            return E("%s.skip(%s as int)" % (a.text, b.text), ty)
        if ty.kind == "seq":
            raise Unsupported("pointer arithmetic")
        return E(self.arith(op, a, b, ty, line), ty)

    def compare(self, op, a, b):
        if a.ty.kind == "bool" and op in ("==", "!="):
            return "(%s %s %s)" % (a.text, op, b.text)
        if a.ty.kind == "seq" and op in ("==", "!="):
            return "(%s(%s =~= %s))" % ("" if op == "==" else "!", a.text, b.text)
        if a.ty.kind in ("int", "Z", "opaque") or op in ("==", "!="):
            return "(%s %s %s)" % (a.text, op, b.text)
        if a.ty.kind == "seq" and op in ("<", ">", "<=", ">=") and a.ty.args[0].kind in ("int", "Z"):
            m = {"<": "(lexlt(%s, %s))" % (a.text, b.text), ">": "(lexlt(%s, %s))" % (b.text, a.text),
                 "<=": "(!lexlt(%s, %s))" % (b.text, a.text), ">=": "(!lexlt(%s, %s))" % (a.text, b.text)}
            return m[op]
        raise Unsupported("comparison %s of %s" % (op, a.ty))

    def do_assign(self, an, bn):
        b = self.ex(bn)
        mut = self.mutated
        if b.it is None:
            a = self.lval(an)
        else:
            return self.assign_iter(an, b)
        if self.mutated != mut:
            raise Unsupported("assignment target with effects")
        if a.place is None:
            raise Unsupported("assignment to non-place")
        txt = b.text
        if a.ty.kind in ("seq", "set", "map"):
            self.structural(a.place)
        self.assign(a.place, txt)
        return a

    def assign_iter(self, an, b):
        if an["k"] != "var":
            raise Unsupported("iterator assignment")
        v = self.env[an["id"]]
        if v.it is None:
            raise Unsupported("iterator assignment to non iterator")
        v.dead = False
        if v.it.cont.text != b.it.cont.text or v.it.rev != b.it.rev:
            raise Unsupported("iterator provenance changes")
        self.mutated += 1
        self.emit("set", v.it.pos, b.it.pos, "whole", None)
        v.it.begin = v.it.end = False
        return E(None, v.ty, it=v.it)

    def lval(self, e):
        return self.ex(e)

    def x_opassign(self, e):
        op = e["op"][:-1]
        b = self.ex(e["b"])
        a = self.lval(e["a"])
        if a.place is None:
            raise Unsupported("compound assignment target")
        cty = self.T(e["crt"]).plain()
        av = E(self.conv_int(a, cty), cty) if cty.kind == "int" or a.ty.kind == "int" and cty.kind == "Z" else a
        if op in ("<<", ">>"):
            r = self.arith(op, av, b, cty, e["l"])
        else:
            if a.ty.kind == "bool":
                if op in ("&", "|"):
                    bb = b.text if b.ty.kind == "bool" else "(%s != 0)" % b.text
                    self.assign(a.place, "(%s %s %s)" % (a.text, op * 2, bb))
                    return a
                raise Unsupported("bool compound")
            bv = E(self.conv_int(b, cty), cty) if b.ty.kind in ("int", "bool") else b
            r = self.arith(op, av, bv, cty, e["l"])
        self.assign(a.place, self.conv_int(E(r, cty), a.ty))
        return a

    def x_un(self, e):
        op = e["op"]
        if op == "*":
            if e["a"]["k"] == "this":
                return E(None, self.this.ty, place=self.this)
            r = self.ex(e["a"])
            if r.it is not None:
                return self.deref(r, e["l"])
            raise Unsupported("pointer dereference")
        if op in ("++", "--"):
            a = self.lval(e["a"])
            if a.it is not None:
                return self.iter_step(e["a"], a, op, e.get("post"))
            old = None
            if e.get("post"):
                old = E(self.let("old", a.ty, a.text), a.ty) if not getattr(self, "discard", False) else E(a.text, a.ty)
            if a.ty.kind == "Z":
                self.assign(a.place, "(%s %s 1)" % (a.text, op[0]))
            else:
                wide = a.ty if a.ty.bits >= 32 else I32
                r = self.arith(op[0], E(self.conv_int(a, wide), wide), E(lit(1, wide), wide), wide, e["l"])
                self.assign(a.place, self.conv_int(E(r, wide), a.ty))
            return old if old is not None else a
        a = self.ex(e["a"])
        if op == "!":
            return E("(!%s)" % a.text, BOOL)
        ty = self.T(e["t"]).plain()
        if op == "-":
            if ty.kind == "Z":
                return E("(-%s)" % a.text, ty)
            if ty.signed:
                self.check("%s != %s::MIN" % (a.text, ty.v()), "signed overflow @%d" % e["l"])
                return E("((-(%s as int)) as %s)" % (a.text, ty.v()), ty)
            return E("usub%d(0%s, %s)" % (ty.bits, ty.v(), a.text), ty)
        if op == "+":
            return E(self.conv_int(a, ty), ty)
        if op == "~":
            if ty.kind == "int" and not ty.signed:
                return E("(!%s)" % a.text, ty)
        if op == "&":
            raise Unsupported("address-of")
        raise Unsupported("unary " + op)

    def x_cond(self, e):
        c = self.ex(e["c"])
        ty = self.T(e["t"]).plain()
        mark, muts = len(self.out), self.mutated
        self.pure_mode += 1
        try:
            self.guards.append(c.text)
            a = self.ex(e["a"])
            self.guards[-1] = "!(%s)" % c.text
            b = self.ex(e["b"])
            self.guards.pop()
            if a.it is None and b.it is None:
                return E("(if %s { %s } else { %s })" % (c.text, a.text, b.text), a.ty if a.ty.kind != "opaque" else ty)
            raise Unsupported("conditional of iterators")
        except NeedStmt:
            self.guards.pop()
            del self.out[mark:]
            self.mutated = muts
        finally:
            self.pure_mode -= 1
        cv = self.let("c", BOOL, c.text)
        t = self.let("t", ty, "arbitrary()")
        saved = self.out
        self.out = []
        a = self.ex(e["a"])
        self.emit("set", t, a.text, "whole", None)
        A = self.out
        self.out = []
        b = self.ex(e["b"])
        self.emit("set", t, b.text, "whole", None)
        B = self.out
        self.out = saved
        self.emit("if", cv, A, B)
        return E(t, ty)

    def x_index(self, e):
        a, b = self.pair(e["a"], e["b"])
        return self.index(a, b, e["l"])

    def index(self, a, b, line):
        if a.ty.kind == "map":
            raise Unsupported("map operator[]")
        if a.ty.kind != "seq":
            raise Unsupported("index into %s" % a.ty)
        ix = "%s as int" % b.text
        m = re.match(r"^(\d+)(?:[iu]\d+)$", b.text)
        if m:
            ix = m.group(1) + "int"
        self.check("0 <= %s && %s < %s.len()" % (b.text, b.text, a.text), "index in bounds @%d" % line)
        ety = a.ty.args[0]
        if a.place is not None:
            return E(None, ety, place=a.place.sub(("i", ix), ety))
        return E("%s[%s]" % (a.text, ix), ety)

    def x_cast(self, e):
        ck = e["ck"]
        a = self.ex(e["a"])
        ty = self.T(e["t"]).plain()
        if a.it is not None:
            return a
        if ck in ("NoOp", "LValueToRValue", "ConstructorConversion", "UserDefinedConversion", "ArrayToPointerDecay", "FunctionToPointerDecay"):
            return a
        if ck in ("IntegralCast",):
            if ty.kind == "opaque" or a.ty.kind == "opaque":
                return a
            return E(self.conv_int(a, ty), ty)
        if ck == "PointerToBoolean" and a.ty.kind == "bool" and a.ty.name == "pointer":
            return E(a.text, BOOL)
        if ck == "IntegralToBoolean":
            return E("(%s != 0)" % a.text, BOOL)
        if ck == "ToVoid":
            return E("()", VOID)
        raise Unsupported("cast " + ck)

    def x_initlist(self, e):
        ty = self.T(e["t"]).plain()
        args = [self.ex(x) for x in e["args"]]
        if ty.kind in ("int", "bool", "Z") and len(args) <= 1:
            return args[0] if args else E(self.zero(ty), ty)
        if ty.kind == "seq":
            if args and args[0].ty.kind == "seq" and ty.name == "std::array":
                return args[0]
            return E("seq![%s]" % ", ".join(a.text for a in args) if args else self.zero(ty), ty)
        if ty.kind == "struct":
            fs = self.u.records[ty.name]
            if len(fs) == len(args):
                return E("%s { %s }" % (ty.v(), ", ".join("%s: %s" % (f["name"], a.text) for f, a in zip(fs, args))), ty)
        raise Unsupported("initializer list of %s" % ty)

    def x_stdinit(self, e):
        return self.ex(e["a"])

    def x_lambda(self, e):
        return E(None, Ty("opaque", "lambda"), lam=(e, dict(self.env)))

    def x_fnref(self, e):
        return E(None, Ty("opaque", "fn"), fn=e["f"])

    def x_throw(self, e):
        self.do_throw(e.get("et", ""), e.get("l", 0))
        return E("()", VOID)

    def x_ctor(self, e):
        ty = self.T(e["t"]).plain()
        f = e["f"]
        if e.get("copy") and len(e["args"]) == 1:
            return self.ex(e["args"][0])
        if ty.kind == "Z":
            if not e["args"]:
                return E("0int", ty)
            a = self.ex(e["args"][0])
            return E(self.conv_int(a, ty), ty)
        if ty.kind in ("iter", "setit"):
            if len(e["args"]) == 1:
                return self.ex(e["args"][0])
            if ty.kind == "setit":
                return E("arbitrary()", ty)
        if (f.get("repo") or self.u.contract_for(f) is not None) and not f.get("defaulted"):
            return self.repo_call(f, None, e["args"], e)
        return self.std_ctor(ty, f, e)

    # closures ------------------------------------------------------------
    def closure(self, r, tys):
        """spec closure text for a lambda or functor value with the given parameter types; returns function(list of texts) -> text"""
        if r.lam is not None and r.lam[0] == "builtin":
            op = r.lam[1]
            return lambda xs: self.builtin_functor(op, xs, tys)
        if r.lam is not None:
            node, env = r.lam
            body = node["body"]

            def app(xs):
                saved_env, saved_out = self.env, self.out
                self.env = dict(env)
                for (i, x) in enumerate(self.env.values()):
                    pass
                # captured variables are looked up in the current environment (by-reference and by-value capture agree
                # for the algorithms that call the closure immediately)
                self.env.update({k: v for k, v in saved_env.items() if k not in self.env or True})
                for p, x, ty in zip(node["params"], xs, tys):
                    self.env[p["id"]] = Var(p["name"], ty, place=None, vname="(%s)" % x)
                self.pure_mode += 1
                saved_checks = self.nasserts
                self.out = []
                self.guards_off = getattr(self, "guards_off", 0) + 1
                try:
                    t = self.pure_block(body["c"])
                    obligations = [o[1] for o in self.out if o[0] == "assert"]
                except NeedStmt:
                    raise Unsupported("closure with effects")
                finally:
                    self.pure_mode -= 1
                    self.env = saved_env
                    self.out = saved_out
                    self.guards_off -= 1
                return t, obligations
            return app
        if r.fn is not None:
            def app2(xs):
                saved = self.out
                self.out = []
                self.pure_mode += 1
                try:
                    t = self.call_values(r.fn, [E(x, ty) for x, ty in zip(xs, tys)], 0)
                    ob = [o[1] for o in self.out if o[0] == "assert"]
                finally:
                    self.pure_mode -= 1
                    self.out = saved
                return t, ob
            return app2
        raise Unsupported("callable")

    def pure_block(self, stmts):
        """value of a block without effects (nested ifs and returns)"""
        if not stmts:
            raise Unsupported("closure without value")
        s = stmts[0]
        if s["k"] == "return":
            return self.ex(s["e"])
        if s["k"] == "block":
            return self.pure_block(s["c"] + stmts[1:])
        if s["k"] == "if":
            c = self.ex(s["cond"])
            self.guards.append(c.text)
            a = self.pure_block([s["then"]] + ([] if self.escapes(s["then"]) else stmts[1:]))
            self.guards[-1] = "!(%s)" % c.text
            b = self.pure_block(([s["else"]] if "else" in s else []) + stmts[1:])
            self.guards.pop()
            return E("(if %s { %s } else { %s })" % (c.text, a.text, b.text), a.ty)
        if s["k"] == "decls":
            for d in s["c"]:
                if "init" not in d:
                    raise Unsupported("closure local")
                v = self.ex(d["init"])
                if v.it is not None:
                    raise Unsupported("closure local iterator")
                self.env[d["id"]] = Var(d["name"], v.ty if self.T(d["t"]).kind in ("opaque",) else self.T(d["t"]).plain(), vname="(%s)" % v.text)
            return self.pure_block(stmts[1:])
        if s["k"] == "null":
            return self.pure_block(stmts[1:])
        raise NeedStmt()

    @staticmethod
    def escapes(s):
        if s["k"] == "return":
            return True
        if s["k"] == "block":
            return any(FnTrans.escapes(x) for x in s["c"])
        if s["k"] == "if":
            return "else" in s and FnTrans.escapes(s["then"]) and FnTrans.escapes(s["else"])
        return False

    def builtin_functor(self, op, xs, tys):
        saved = self.out
        self.out = []
        try:
            a, b = E(xs[0], tys[0]), E(xs[1], tys[1]) if len(xs) > 1 else None
            if op in ("<", ">", "<=", ">=", "==", "!="):
                r = E(self.compare(op, a, b), BOOL)
            elif op == "neg":
                r = E("(-%s)" % xs[0], tys[0])
            else:
                r = E(self.arith(op, a, b, tys[0], 0), tys[0])
            ob = [o[1] for o in self.out if o[0] == "assert"]
        finally:
            self.out = saved
        return r, ob

    # calls ---------------------------------------------------------------
    def x_call(self, e):
        if "f" not in e:
            fe = self.ex(e["fe"])
            return self.call_callable(fe, e)
        f = e["f"]
        q = strip_t(f["q"])
        return self.dispatch(q, f, None, e["args"], e)

    def x_opcall(self, e):
        f = e.get("f")
        if f is None:
            raise Unsupported("operator call")
        q = strip_t(f["q"])
        a = e["args"]
        if f.get("method"):
            return self.dispatch(q, f, a[0], a[1:], e)
        return self.dispatch(q, f, None, a, e)

    def x_mcall(self, e):
        f = e.get("f")
        if f is None:
            raise Unsupported("member pointer call")
        return self.dispatch(strip_t(f["q"]), f, e["obj"], e["args"], e)

    def call_callable(self, fe, e):
        args = [self.ex(a) for a in e["args"]]
        if fe.lam is not None:
            return self.apply_closure(fe, args)
        raise Unsupported("call through pointer")

    def apply_closure(self, fe, args):
        for a in args:
            if a.it is not None:
                raise Unsupported("closure over iterators")
        if fe.lam is not None and fe.lam[0] != "builtin":
            node, env = fe.lam
            try:
                t, ob = self.closure(fe, [a.ty for a in args])([a.text for a in args])
                for o in ob:
                    self.check(o, "in closure")
                return t
            except (Unsupported, NeedStmt):
                # effectful closure called directly: inline its body
                g = {"params": node["params"], "ret": node["ret"], "body": node["body"], "q": "lambda", "key": "lambda", "ptys": [p["t"] for p in node["params"]]}
                save = self.env
                self.env = dict(save)
                self.env.update(env)
                try:
                    return self.inline(g, None, args, None)
                finally:
                    self.env = save
        t, ob = self.closure(fe, [a.ty for a in args])([a.text for a in args])
        for o in ob:
            self.check(o, "in closure")
        return t

    def dispatch(self, q, f, obj, args, e):
        cls = self.T(f["cls"]) if f.get("method") else None
        if cls is not None and cls.kind == "Z":
            return self.zcall(q.split("::")[-1], f, obj, args, e)
        if q in ("panda::abs", "panda::algorithm::abs", "std::abs", "abs") and len(args) == 1 and self.T(f["ret"]).kind == "Z":
            a = self.ex(args[0])
            return E("zabs(%s)" % a.text, a.ty)
        if cls is not None and cls.kind == "opaque" and ("(lambda" in f.get("cls", "") or FUNCTOR.match(cls.name)) and q.endswith("operator()"):
            fe = self.ex(obj)
            return self.apply_closure(fe, [self.ex(a) for a in args])
        from stdmodel import MODELS
        if cls is not None and cls.kind in ("opaque", "struct") and GUARD.match(cls.name) and q.endswith("::dismiss"):
            fe = self.ex(obj)
            self.mutated += 1
            self.emit("set", fe.lam[1], "false", "whole", None)
            return E("()", VOID)
        if self.monitored:
            n = q.split("::")[-1]
            if cls is not None and LOCK.match(strip_q(f.get("cls", ""))):
                return self.lock_call(n, e.get("l", 0))
            if q in ("std::condition_variable::wait", "std::condition_variable::notify_one", "std::condition_variable::notify_all"):
                if n == "wait":
                    return self.cond_wait(args, e.get("l", 0))
                self.emit("set", "n1_" if n == "notify_one" else "nall_", "(n1_ + 1)" if n == "notify_one" else "true", "whole", None)
                return E("()", VOID)
            if (q.endswith("algorithm::prettyPrintln") or q in ("operator<<", "panda::operator<<")) and len(args) >= 2:
                return self.printed(q, args, e)
        if (f.get("repo") or f.get("declared_in_repo")) and not q.startswith("__builtin_"):
            if f.get("defaulted") and q.endswith("operator="):
                return self.do_assign(obj, args[0])
            h = self.u.hooks.get(q)
            if h:
                return h(self, f, obj, args, e)
            if q in self.u.spec["open"]:
                return self.havoc(q, f, obj, args, e)
            return self.repo_call(f, obj, args, e)
        if f.get("method"):
            m = MODELS.get("%s::%s" % (cls.kind if cls.kind != "opaque" else strip_t(cls.name), q.split("::")[-1]))
            if m is None:
                m = MODELS.get(q)
        else:
            m = MODELS.get(q)
        if q in ("std::getline", "std::operator>>") and not self.tp.streams:
            m = None
        if m is None and (cls is not None and cls.kind == "opaque" and STREAM.match(cls.name) or q in ("std::getline", "std::operator>>")):
            return self.havoc(q, f, obj, args, e)       # input is left open
        if m is None:
            raise Unsupported("library function %s" % q)
        return m(self, f, obj, args, e)

    def zcall(self, name, f, obj, args, e):
        line = e.get("l", 0)
        ret = self.T(f["ret"]).plain()
        if name in ("operator+", "operator-", "operator*", "operator/", "operator%") and len(args) == 1:
            a, b = self.pair(obj, args[0])
            b = self.toz(b)
            return E(self.arith(name[8:], a, b, a.ty, line), a.ty)
        if name == "operator-":
            a = self.ex(obj)
            return E("(-%s)" % a.text, a.ty)
        if name in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
            a, b = self.pair(obj, args[0])
            return E(self.compare(name[8:], a, self.toz(b)), BOOL)
        if name in ("operator+=", "operator-=", "operator*=", "operator/=", "operator%="):
            b = self.toz(self.ex(args[0]))
            a = self.lval(obj)
            self.assign(a.place, self.arith(name[8:-1], a, b, a.ty, line))
            return a
        if name == "operator=":
            return self.do_assign(obj, args[0])
        if name == "operator int":
            a = self.ex(obj)
            if self.c is not None and self.c.throws and not self.pure_mode:      # the conversion raises an exception (P04, P05)
                n = self.let("num", a.ty, a.text)
                saved = self.out
                self.out = []
                self.do_throw("std::invalid_argument", line)
                blk = self.out
                self.out = saved
                self.emit("if", "!(i32::MIN <= %s <= i32::MAX)" % n, blk, [])
                a = E(n, a.ty)
            else:
                self.check("i32::MIN <= %s <= i32::MAX" % a.text, "conversion to int @%d" % line)
            return E("(%s as i32)" % a.text, I32)
        if name in ("operator++", "operator--"):
            a = self.lval(obj)
            self.assign(a.place, "(%s %s 1)" % (a.text, name[8]))
            return a
        raise Unsupported("integer class method " + name)

    def toz(self, b):
        if b.ty.kind == "Z":
            return b
        if b.ty.kind == "int":
            return E("(%s as int)" % b.text, Ty("Z"))
        raise Unsupported("toz")

    def eval_args(self, args):
        out = []
        for i, a in enumerate(args):
            pos, mut = len(self.out), self.mutated
            r = self.ex(a)
            if self.mutated != mut:
                raise_later = [x for x in out if x.it is None and x.lam is None and x.place is None]
                # freeze earlier operands before the effects of this one
                saved = self.out[pos:]
                del self.out[pos:]
                out = [self.freeze(x) if (x._text is not None and not ATOM.match(x._text)) else x for x in out]
                self.out += saved
            out.append(r)
        return out

    def repo_call(self, f, obj, args, e):
        g = self.u.function(f)
        c = self.u.contract_for(f)
        o = None
        if obj is not None:
            o = self.ex(obj)
            if o.it is not None:
                o = self.deref(o, e.get("l", 0))
        av = self.eval_args(args)
        if c is None:
            if g is None and f["key"].partition("<")[0].rpartition("::")[2] == "operator" and "operator<<" in f["key"] and av and av[0].lam == ("stream",):
                return av[0]     # text written to a stream that is not under contract
            if g is None:
                raise Unsupported("no body and no contract for %s" % f["key"])
            return self.inline(g, o, av, e)
        return self.call_contract(c, f, g, o, av, e)

    def call_values(self, f, vals, line):
        """call of a function value with already translated arguments (pure contexts)"""
        q = strip_t(f["q"])
        if q in ("panda::abs", "panda::algorithm::abs", "std::abs", "abs") and vals[0].ty.kind == "Z":
            return E("zabs(%s)" % vals[0].text, vals[0].ty)
        c = self.u.contract_for(f)
        g = self.u.function(f)
        if c is not None:
            return self.call_contract(c, f, g, None, vals, {"l": line})
        if g is not None:
            save, self.env = self.env, dict(self.env)
            try:
                for p, v in zip(g["params"], vals):
                    self.env[p["id"]] = Var(p["name"], v.ty, vname=v.text)
                return self.pure_block(g["body"]["c"])
            finally:
                self.env = save
        raise Unsupported("call of " + q)

    def call_contract(self, c, f, g, o, av, e):
        info = FnInfo(g if g is not None else f, self.tp)
        line = e.get("l", 0) if e else 0
        names = []
        vals = []
        short = c.name.split("::")[-1]
        if not self.pure_mode:
            self.call_hook(short, e, "before", None)
        if info.method and not info.ctor:
            names.append("this")
            vals.append(o)
        for (n, _, t), a in zip(info.params, av):
            names.append(n)
            vals.append(a)
        self.u.called.add(c)
        self.u.edges.setdefault(self.u.cur, set()).add(c.id)
        texts = []
        for n, v, in zip(names, vals):
            if v.lam is not None and v.lam[0] == "builtin" and (n, v.lam[1]) in functor_params(info):
                texts.append("0int")    # the functor type determines its behaviour
                continue
            if v.lam == ("stream",):
                texts.append("0int")    # nothing is known about the state of a stream
                continue
            if v.it is not None or v.lam is not None or v.fn is not None:
                raise Unsupported("iterator or callable passed to %s" % c.name)
            texts.append(v.text)
        ptys = ([info.cls] if info.method and not info.ctor else []) + [t.plain() for _, _, t in info.params]
        # implicit widening is explicit in the tree; the exact machine type must agree
        if c.pure is not None and not info.inout:
            sub = dict(zip(c.cparams(info), ["(%s)" % t if not ATOM.match(t) else t for t in texts]))
            for r in c.requires:
                self.check(subst_names(r[1], sub), "precondition of %s @%d" % (c.name, line))
            return E("(%s)" % subst_names(c.pure, sub), info.ret.plain())
        if self.pure_mode:
            raise NeedStmt()
        c.used = "call"
        if self.monitored and info.monitor:
            self.check("!held_", "the mutex is not locked twice @%d" % line)
        self.u.seen_callee[id(c)] = g if g is not None else f
        outs = []
        tmp = self.fresh("r_")
        outtys = []
        if c.throws:
            outtys.append(("threw", "bool"))
        info.outtys = {}
        if info.ret.kind != "void" and info.refret is None:
            info.outtys[len(outtys)] = info.ret.plain()
            outtys.append(("ret", info.ret.plain().v()))
        for n, t in info.inout:
            info.outtys[len(outtys)] = t
            outtys.append((n, t.v()))
        variant = self.alias_variant(c, info, names, vals, line)
        # macros are not accepted inside Ghost(...)
        texts = [self.let("arg", v.ty, x) if "seq![" in x and v.lam is None else x for v, x in zip(vals, texts)]
        self.mutated += 1
        olds = {}
        got = []
        for n, t in outtys:
            got.append(self.fresh("o_" + n))
        self.emit("call", c.vname + variant, texts, tmp, list(zip(got, [t for _, t in outtys])), "%s @%d" % (c.name, line), c, info)
        m = dict(zip([n for n, _ in outtys], got))
        # write back the in-out arguments
        for n, t in info.inout:
            v = vals[names.index(n)]
            if v.place is None:
                continue  # a temporary
            if v.ty.kind in ("seq", "set", "map") and not c.opts.get("keepsize"):
                self.structural(v.place)
            self.assign(v.place, m[n])
        if c.throws:
            saved = self.out
            self.out = []
            self.do_throw("?", line)
            blk = self.out
            self.out = saved
            self.emit("if", m["threw"], blk, [])
        self.call_hook(short, e, "after", m.get("ret"))
        if info.refret is not None:
            if info.refret == "?":
                raise Unsupported("reference result of " + c.name)
            v = vals[names.index(info.refret)]
            if v.place is not None:
                return v
            return E(m[info.refret], v.ty)
        if info.ret.kind == "void":
            return E("()", VOID)
        return E(m["ret"], info.ret.plain())

    def call_hook(self, short, e, when, ret):
        """proof text attached to the n-th call (in order of first translation) of a contracted function"""
        if e is None:
            return
        d = self.call_index.setdefault(short, {})
        n = d.setdefault(id(e), len(d))
        self.emit("hook", "call", (short, str(n), when, ret), self.namemap())

    def alias_variant(self, c, info, names, vals, line):
        """arguments that share storage with an in-out argument need the contract's aliasing variant"""
        mut = {n for n, _ in info.inout}
        byref = {n for n, _, t in info.params if t.ref == "&"}
        found = ""
        for n in mut:
            a = vals[names.index(n)].place
            if a is None:
                continue
            for m in names:
                if m == n or m not in byref and m not in mut:
                    continue
                b = vals[names.index(m)].place
                if b is None or b.root != a.root or (m in mut and names.index(m) < names.index(n)):
                    continue
                k = min(len(a.path), len(b.path))
                differ = None
                for x, y in zip(a.path[:k], b.path[:k]):
                    if x[:2] != y[:2]:
                        differ = (x, y)
                        break
                if differ is not None:
                    if differ[0][0] in ("i", "m"):
                        self.check("%s != %s" % (differ[0][1], differ[1][1]), "arguments do not overlap @%d" % line)
                    continue
                al = c.alias
                cm = dict(zip(names, c.cparams(info)))
                if al is not None and al[0] == cm[m] and al[1] == cm[n] and [p[1] for p in b.path[len(a.path):]] == al[2] and len(b.path) >= len(a.path):
                    found = "_alias"
                    c.alias_used = True
                else:
                    raise Unsupported("overlapping arguments in call of " + c.name)
        return found

    def inline(self, g, o, av, e):
        if self.inline_depth > 8:
            raise Unsupported("inlining depth (recursion?) at " + g["key"])
        if self.pure_mode:
            # try as a pure expression
            save, self.env, st = self.env, dict(self.env), self.this
            try:
                for p, v in zip(g["params"], av):
                    self.env[p["id"]] = Var(p["name"], v.ty, vname=None, place=v.place, it=v.it, lam=v.lam) if v.place is not None or v.it is not None or v.lam is not None else Var(p["name"], v.ty, vname=v.text)
                if o is not None:
                    if o.place is None:
                        raise NeedStmt()
                    self.this = o.place
                if "body" not in g or g["body"]["k"] != "block" or g.get("ctor"):
                    raise NeedStmt()
                self.inline_depth += 1
                return self.pure_block(g["body"]["c"])
            finally:
                self.inline_depth -= 1 if False else 0
                self.env, self.this = save, st
        self.u.inlined.add(g.get("key", "?"))
        info = FnInfo(g, self.tp)
        saved_scope, saved_env, saved_this, saved_bs, saved_cs = self.scope, self.env, self.this, self.break_stack, self.cont_stack
        self.scope = self.scope + [{}]
        self.env = dict(self.env)
        self.break_stack, self.cont_stack = [], []
        self.inline_depth += 1
        try:
            if info.method and not info.ctor:
                if o.place is None:
                    n = self.let("this_", o.ty, o.text)
                    o = E(None, o.ty, place=Place(n, o.ty))
                self.this = self.freeze_place(o.place)
            elif info.ctor:
                n = self.let("this_", info.cls, "arbitrary()")
                self.this = Place(n, info.cls)
            for (pn, pid, pt), a in zip(info.params, av):
                byref = pt.ref is not None
                if a.lam is not None or a.fn is not None:
                    self.bind(pid, Var(pn, a.ty, lam=a.lam if a.lam is not None else ("fn", a.fn)))
                elif a.it is not None:
                    p = self.let(pn, "int", a.it.pos)
                    self.bind(pid, Var(pn, a.ty, it=It(a.it.cont, p, a.it.rev, a.it.begin, a.it.end)))
                elif byref and a.place is not None:
                    self.bind(pid, Var(pn, a.ty, place=self.freeze_place(a.place)))
                else:
                    vn = self.let(pn, pt.plain() if pt.kind != "opaque" else a.ty, a.text)
                    self.bind(pid, Var(pn, pt.plain() if pt.kind != "opaque" else a.ty, vname=vn))
            label = self.new_label("inl%d" % self.newlabel())
            rty = info.ret.plain()
            rv = None
            if info.ctor:
                self.ctor_inits(g)
            if not info.ctor and rty.kind != "void" and info.refret is None and rty.kind not in ("iter",):
                if rty.kind == "opaque":
                    rty = I32 if self.u.is_enum(rty.name) else rty
                rv = self.fresh("res_")
                self.emit("let", rv, rty.v(), "arbitrary()")
            self.ret_stack.append((label, rv, info))
            saved = self.out
            self.out = []
            self.stmt(g["body"])
            body = self.out
            self.out = saved
            rets = self.ret_stack.pop()
            self.emit("block", label, body)
            if info.ctor:
                return E(None, info.cls, place=self.this)
            if rty.kind == "iter":
                raise Unsupported("iterator returned from inlined function")
            if info.refret is not None:
                if info.refret == "this":
                    return E(None, self.this.ty, place=self.this)
                for (pn, pid, pt), a in zip(info.params, av):
                    if pn == info.refret:
                        return a
                raise Unsupported("reference result of inlined " + g["key"])
            if rv is None:
                return E("()", VOID)
            return E(rv, rty)
        finally:
            self.inline_depth -= 1
            self.scope, self.env, self.this, self.break_stack, self.cont_stack = saved_scope, saved_env, saved_this, saved_bs, saved_cs

    def ctor_inits(self, g):
        cls = self.this.ty
        fields = {}
        for i in g.get("inits", []):
            if "field" not in i:
                continue
            if self.T(i["e"].get("t", "int")).kind == "opaque" and strip_q(i["e"]["t"]) in ("std::mutex", "std::condition_variable"):
                fields[i["field"]] = "0int"
                continue
            v = self.ex(i["e"])
            if v.it is not None:
                raise Unsupported("iterator field")
            fields[i["field"]] = v.text
        fs = self.u.records[cls.name]
        parts = []
        for f in fs:
            if f["name"] in fields:
                parts.append("%s: %s" % (f["name"], fields[f["name"]]))
            else:
                parts.append("%s: arbitrary()" % f["name"])
        if strip_t(cls.name) == getattr(self.tp, "monitor", None):
            parts += ["%s: %s" % (n, v) for n, _, v in self.u.spec["ghostfields"]]
        self.emit("set", self.this.root, "%s { %s }" % (cls.v(), ", ".join(parts)), "whole", None)

    _lab = 0

    def newlabel(self):
        FnTrans._lab += 1
        return FnTrans._lab

    # exceptions ----------------------------------------------------------
    def do_throw(self, et, line):
        if self.pure_mode:
            raise NeedStmt()
        for h in reversed(self.throw_stack):
            tgt = h(et)
            if tgt is not None:
                self.leave(tgt)
                return
        if self.c is not None and self.c.throws:
            self.thrown = True
            self.emit("set", "threw_", "true", "whole", None)
            self.leave("$FN")
        else:
            self.check("false", "throws @%d" % line)
            self.emit("assume", "false", "unreachable after failed obligation")

    # statements ------------------------------------------------------------
    def stmt(self, s):
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            raise Unsupported("statement %s line %s" % (s.get("cls", s["k"]), s.get("l")))
        m(s)

    def s_block(self, s):
        self.scope.append({})
        mark = len(self.cleanups)
        for x in s["c"]:
            self.stmt(x)
        self.scope_end(mark)
        self.scope.pop()

    def s_null(self, s):
        pass

    def s_expr(self, s):
        self.discard = True
        try:
            e = s["e"]
            if e["k"] in ("un",) and e["op"] in ("++", "--"):
                self.ex(e)
            else:
                self.discard = False
                self.ex(e)
        finally:
            self.discard = False

    def s_decls(self, s):
        for d in s["c"]:
            self.decl(d)

    def decl(self, d):
        if d["k"] != "vardecl":
            raise Unsupported("declaration " + d.get("cls", ""))
        ty = self.T(d["t"])
        if d.get("static") and not (ty.const and ty.kind in ("int", "bool")):
            raise Unsupported("static local")
        v = self.declare(d, ty)

    def declare(self, d, ty):
        if ty.kind == "opaque" and LOCK.match(ty.name) and self.monitored:
            return self.declare_lock(d, ty)
        if ty.kind in ("opaque", "struct") and GUARD.match(ty.name):
            return self.declare_guard(d, ty)
        if ty.kind == "opaque" and STREAM.match(ty.name):
            if d.get("init", {}).get("args"):
                for a in d["init"]["args"]:
                    self.ex(a)
            self.bind(d["id"], Var(d["name"], ty, lam=("stream",)))
            return
        if "init" not in d:
            if ty.kind in ("seq", "set", "map"):
                n = self.let(d["name"], ty.plain(), self.zero(ty.plain()))
            else:
                n = self.any(d["name"], ty.plain())
            self.bind(d["id"], Var(d["name"], ty.plain(), vname=n, depth=self.loop_depth))
            self.iterlimit(d)
            return
        i = self.ex(d["init"])
        if i.lam is not None or i.fn is not None:
            self.bind(d["id"], Var(d["name"], i.ty, lam=i.lam if i.lam is not None else ("fn", i.fn)))
            return
        if i.gen is not None:
            # pair of iterators
            v = Var(d["name"], i.ty)
            v.gen = [self.freeze(x) for x in i.gen]
            self.bind(d["id"], v)
            return
        if i.it is not None:
            c = i.it.cont
            if c.place is not None:
                c = E(None, c.ty, place=self.freeze_place(c.place))
            else:
                raise Unsupported("iterator into temporary")
            n = self.let(d["name"], "int", i.it.pos)
            self.bind(d["id"], Var(d["name"], i.ty, it=It(c, n, i.it.rev), depth=self.loop_depth))
            return
        if ty.ref is not None and i.place is not None:
            self.bind(d["id"], Var(d["name"], i.place.ty, place=self.freeze_place(i.place), depth=self.loop_depth))
            return
        vt = ty.plain()
        if vt.kind in ("opaque",) and i.ty.kind != "opaque":
            vt = i.ty
        n = self.let(d["name"], vt, i.text)
        self.bind(d["id"], Var(d["name"], vt, vname=n, depth=self.loop_depth))
        self.iterlimit(d)

    def iterlimit(self, d):
        v = self.env[d["id"]]
        if v.ty.kind == "seq" and v.ty.args[0].kind == "iter":
            v.limit = self.let(d["name"] + "_limit", "int", "MAXLEN() + 1")
            self.bind(("limit", d["id"]), Var(d["name"] + "_limit", Ty("Z"), vname=v.limit, depth=self.loop_depth))

    def s_if(self, s):
        self.scope.append({})
        if "cv" in s:
            self.decl(s["cv"])
        c = self.ex(s["cond"])
        ct = c.text
        saved = self.out
        dead0 = {id(v): v.dead for v in self.env.values()}
        self.out = []
        self.scope.append({})
        self.stmt(s["then"])
        self.scope.pop()
        A = self.out
        deadA = {id(v): v.dead for v in self.env.values()}
        for v in self.env.values():
            v.dead = dead0.get(id(v), v.dead)
        self.out = []
        if "else" in s:
            self.scope.append({})
            self.stmt(s["else"])
            self.scope.pop()
        B = self.out
        leaves = lambda o: bool(o) and o[-1][0] == "leave"
        for v in self.env.values():
            if leaves(B) and not leaves(A):
                v.dead = deadA.get(id(v), v.dead)
            elif not leaves(A):
                v.dead = v.dead or deadA.get(id(v), False)
        self.out = saved
        self.emit("if", ct, A, B)
        self.scope.pop()

    def s_return(self, s):
        label, rv, info = self.ret_stack[-1]
        self.returns += 1
        def hook():
            if len(self.ret_stack) == 1 and self.c is not None and self.c.ret:
                self.emit("hook", "return", None, self.namemap())
        if "e" in s:
            if info.refret is not None:
                self.ex(s["e"])
            else:
                v = self.ex(s["e"])
                if v.ty.kind == "void":
                    pass
                elif rv is not None:
                    self.emit("set", rv, v.text, "whole", None)
                elif info.ret.kind == "iter":
                    raise Unsupported("iterator result")
        hook()
        self.leave(label)

    def s_break(self, s):
        self.leave(self.break_stack[-1])

    def s_continue(self, s):
        self.leave(self.cont_stack[-1])

    def s_for(self, s):
        self.scope.append({})
        if "init" in s:
            self.stmt(s["init"])
        ind = None
        if "inc" in s:
            e = s["inc"]
            if e["k"] == "un" and e["op"] in ("++", "--"):
                e2 = e["a"]
                if e2["k"] == "var":
                    ind = e2["id"]
            elif e["k"] == "opcall" and e["op"] in ("++", "--") and e["args"][0]["k"] == "var":
                ind = e["args"][0]["id"]
        self.loop(s, s.get("cond"), s["body"], s.get("inc"), ind)
        self.scope.pop()

    def s_while(self, s):
        self.loop(s, s["cond"], s["body"], None, None)

    def s_do(self, s):
        c = s["cond"]
        while c["k"] == "cast":
            c = c.get("e", c.get("a"))
        if (c["k"] == "const" and str(c.get("v")) in ("0", "false")) or (c["k"] == "bool" and not c.get("v")):
            # the body runs once
            n = self.newlabel()
            saved = self.out
            self.out = []
            self.new_label("brk%d" % n)
            self.break_stack.append("brk%d" % n)
            self.cont_stack.append("brk%d" % n)
            self.stmt(s["body"])
            self.break_stack.pop()
            self.cont_stack.pop()
            b = self.out
            self.out = saved
            self.emit("block", "brk%d" % n, b)
            return
        self.loop(s, s["cond"], s["body"], None, None, do=True)

    def s_range(self, s):
        from stdmodel import range_source
        r = self.ex(s["range"])
        vt = self.T(s["var"]["t"])
        rev = r.gen is not None and r.gen[0] == "reverse"
        if "bf" in s or "ef" in s:
            if not rev:
                raise Unsupported("range of a class")
            for n, m in (("bf", "rbegin"), ("ef", "rend")):
                g = self.u.function(s[n]) if n in s else None
                if g is None or not is_forwarder(g, m):
                    raise Unsupported("begin()/end() of a reversed range")
            r = r.gen[1]
        c, frozen = range_source(self, r)
        if r.ty.kind == "seq" and r.place is not None:
            c = E(None, r.ty, place=self.freeze_place(r.place))
        ctr = self.let("k", "int", "0int")
        self.scope.append({})

        def prologue():
            ety = c.ty.args[0]
            idx = ctr if not rev else "(%s.len() - 1 - %s)" % (c.text, ctr)
            if c.place is not None:
                pl = self.freeze_place(c.place.sub(("i", idx), ety))
                if vt.ref is not None:
                    self.bind(s["var"]["id"], Var(s["var"]["name"], ety, place=pl, depth=self.loop_depth))
                else:
                    n = self.let(s["var"]["name"], ety, pl.text())
                    self.bind(s["var"]["id"], Var(s["var"]["name"], ety, vname=n, depth=self.loop_depth))
            else:
                n = self.let(s["var"]["name"], ety, "%s[%s]" % (c.text, idx))
                self.bind(s["var"]["id"], Var(s["var"]["name"], ety, vname=n, depth=self.loop_depth))

        def inc():
            self.emit("set", ctr, "(%s + 1)" % ctr, "whole", None)
        # the container must not change size while it is traversed
        before = len(self.out)
        self.loop(s, None, s["body"], None, None, condtext="%s < %s.len()" % (ctr, c.text), prologue=prologue, incf=inc, counter=ctr,
                  autoinv=["0 <= %s && %s <= %s.len()" % (ctr, ctr, c.text)], dec="%s.len() - %s" % (c.text, ctr), rangecont=c)
        self.scope.pop()

    def loop(self, s, cond, body, inc, ind, do=False, condtext=None, prologue=None, incf=None, counter=None, autoinv=(), dec=None, rangecont=None):
        L = Loop()
        L.no = self.loop_no
        self.loop_no += 1
        L.line = s.get("l", 0)
        L.do = do
        L.autoinv = list(autoinv)
        L.dec = dec
        n = self.newlabel()
        L.blabel, L.clabel = self.new_label("brk%d" % n), self.new_label("cnt%d" % n)
        L.names = self.namemap()
        L.this = self.this.text() if self.this is not None else None
        L.kind = s["k"]
        L.counter = counter
        L.countermap = {}
        if ind is not None and ind in self.env:
            v = self.env[ind]
            L.counter = v.vname if v.vname else (v.it.pos if v.it is not None else None)
        self.counters[L.no] = L.counter
        self.loop_depth += 1
        outer = [(v, v.dead, v.uses) for v in self.env.values()]
        saved = self.out
        self.out = []
        L.pre_cond = []
        if condtext is None and cond is not None and not do:
            c = self.ex(cond)
            condtext = c.text
            if c.it is not None:
                raise Unsupported("loop condition")
        L.asserts = [o for o in self.out if o[0] == "assert"]
        simple = len(L.asserts) == len(self.out)
        condstm = self.out
        self.out = []
        if prologue:
            prologue()
        if self.c is not None and (L.no in self.c.loops):
            self.emit("hook", "start", L, self.namemap())
        self.break_stack.append(L.blabel)
        self.cont_stack.append(L.clabel)
        self.stmt(body)
        self.break_stack.pop()
        self.cont_stack.pop()
        b = self.out
        self.out = []
        if incf:
            incf()
        if inc is not None:
            self.s_expr({"e": inc})
        if do:
            c = self.ex(cond)
            self.emit("if", c.text, [], [("leave", L.blabel)])
        if self.c is not None and (L.no in self.c.loops):
            self.emit("hook", "end", L, self.namemap())
        tail = self.out
        self.out = saved
        if condtext is None or do:
            L.cond = "true"
            L.body = [("block", L.clabel, b)] + tail
        elif simple:
            L.cond = condtext
            # obligations of the condition hold at every evaluation
            L.condasserts = condstm
            L.body = [("block", L.clabel, b)] + tail
        else:
            L.cond = "true"
            L.body = condstm + [("if", condtext, [], [("leave", L.blabel)])] + [("block", L.clabel, b)] + tail
        if not hasattr(L, "condasserts"):
            L.condasserts = []
        if L.condasserts:
            # evaluated before the first iteration and after every iteration
            L.body = L.body + list(L.condasserts)
            for a in L.condasserts:
                self.out.append(a)
        self.loop_depth -= 1
        for v, d, u in outer:
            if v.dead and not d and v.uses > u:
                raise Unsupported("reference %s used in a loop that changes its container" % v.name)
        self.emit("block", L.blabel, [("loop", L)])
        self.emit("hook", "after", L, self.namemap())

    def s_switch(self, s):
        v = self.ex(s["cond"])
        v = self.freeze(v)
        label = self.new_label("sw%d" % self.newlabel())
        body = s["body"]["c"]
        groups = []   # (list of const texts or None for default, [stmts])
        for x in body:
            conds = []
            y = x
            while y["k"] in ("case", "default"):
                if y["k"] == "case":
                    conds.append(self.ex(y["v"]).text)
                else:
                    conds.append(None)
                y = y["sub"]
            if conds:
                groups.append((conds, [y]))
            else:
                if not groups:
                    raise Unsupported("switch")
                groups[-1][1].append(x)
        self.break_stack.append(label)

        def ends(st):
            if not st:
                return False
            l = st[-1]
            if l["k"] == "block":
                return ends(l["c"])
            if l["k"] == "if":
                return "else" in l and ends([l["then"]]) and ends([l["else"]])
            if l["k"] == "expr" and l["e"]["k"] == "throw":
                return True
            return l["k"] in ("break", "return", "continue")
        saved = self.out
        chain = []
        default = []
        for gi, (conds, st) in enumerate(groups):
            # fallthrough: append the following groups
            full = list(st)
            gj = gi
            while not ends(full) and gj + 1 < len(groups):
                gj += 1
                full += groups[gj][1]
            self.out = []
            self.scope.append({})
            for y in full:
                self.stmt(y)
            self.scope.pop()
            if None in conds:
                default = self.out
                cc = [c for c in conds if c is not None]
            else:
                chain.append((" || ".join("%s == %s" % (v.text, c) for c in conds), self.out))
        code = default
        for c, b in reversed(chain):
            code = [("if", "(%s)" % c, b, code)]
        self.out = saved
        self.break_stack.pop()
        self.emit("block", label, code)

    def s_try(self, s):
        end = self.new_label("tryend%d" % self.newlabel())
        hl = []
        handlers = []
        for c in s["catch"]:
            lab = self.new_label("catch%d" % self.newlabel())
            handlers.append((lab, c))

        def target(et):
            for lab, c in handlers:
                if c["all"] or catches(c.get("t", ""), et):
                    return lab
            return None
        saved = self.out
        self.out = []
        self.throw_stack.append(target)
        self.scope.append({})
        self.stmt(s["body"])
        self.scope.pop()
        self.throw_stack.pop()
        body = self.out + [("leave", end)]
        for lab, c in handlers:
            self.out = []
            self.scope.append({})
            self.stmt(c["body"])
            self.scope.pop()
            body = [("block", lab, body)] + self.out + [("leave", end)]
        self.out = saved
        self.emit("block", end, body)

    # iterators -------------------------------------------------------------
    def iter_step(self, node, a, op, post):
        if node["k"] != "var":
            raise Unsupported("iterator step")
        v = self.env[node["id"]]
        old = None
        if post:
            old = E(None, a.ty, it=It(a.it.cont, self.let("oldpos", "int", a.it.pos), a.it.rev))
        ln = "%s.len()" % a.it.cont.text
        if op == "++":
            self.check("%s < %s" % (a.it.pos, ln), "iterator increment")
        else:
            self.check("%s > 0" % a.it.pos, "iterator decrement")
        self.mutated += 1
        self.emit("set", v.it.pos, "(%s %s 1)" % (v.it.pos, op[0]), "whole", None)
        v.it.begin = v.it.end = False
        return old if old is not None else E(None, a.ty, it=v.it)

    def iter_op(self, op, ab, e):
        a, b = ab
        if a.it is not None and b.it is not None:
            if a.it.cont.text != b.it.cont.text or a.it.rev != b.it.rev:
                raise Unsupported("iterators into different containers: %s, %s" % (a.it.cont.text, b.it.cont.text))
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return E("(%s %s %s)" % (a.it.pos, op, b.it.pos), BOOL)
            if op == "-":
                return E("((%s - %s) as i64)" % (a.it.pos, b.it.pos), I64)
        if a.it is not None and op in ("+", "-"):
            ln = "%s.len()" % a.it.cont.text
            p = "(%s %s %s)" % (a.it.pos, op, b.text)
            self.check("0 <= %s && %s <= %s" % (p, p, ln), "iterator arithmetic")
            return E(None, a.ty, it=It(a.it.cont, p, a.it.rev))
        if b.it is not None and op == "+":
            return self.iter_op(op, [b, a], e)
        raise Unsupported("iterator operator " + op)


def strip_q(s):
    return s.replace("const ", "").replace("&", "").strip()


def is_forwarder(g, m):
    """{ return member.m(); }"""
    c = g["body"].get("c", [])
    if len(c) != 1 or c[0]["k"] != "return":
        return False
    e = c[0]["e"]
    while e["k"] == "cast" or (e["k"] == "ctor" and e.get("copy")):
        e = e["a"] if e["k"] == "cast" else e["args"][0]
    return e["k"] == "mcall" and e.get("f", {}).get("q", "").split("::")[-1] in (m, "c" + m) and e["obj"]["k"] == "member" and e["obj"]["base"]["k"] == "this"


STD_EXC = {"std::invalid_argument": ["std::logic_error", "std::exception"], "std::runtime_error": ["std::exception"],
           "std::logic_error": ["std::exception"], "std::out_of_range": ["std::logic_error", "std::exception"], "std::exception": []}


def catches(handler, et):
    h = handler.replace("const ", "").replace("&", "").strip()
    t = et.replace("const ", "").strip()
    return h == t or h in STD_EXC.get(t, [])


NAME = re.compile(r"(?<![\w.:])([A-Za-z_]\w*)(?!\w)")


def subst_names(text, sub):
    return NAME.sub(lambda m: sub.get(m.group(1), m.group(1)), text)
