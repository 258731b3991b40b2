"""Verification units: extraction, contract attachment, Verus text generation and execution."""
import os, re, sys, json, subprocess, time, hashlib, difflib
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from cpptypes import TypeParser, Ty, struct_name, split_args
import ir2verus
from ir2verus import FnTrans, FnInfo, Contract, Unsupported, NeedStmt, Var, Place, strip_t, subst_names, NAME
import stdmodel
FnTrans.std_ctor = lambda self, ty, f, e: stdmodel.std_ctor(self, ty, f, e)

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
FLAGS = ["-fgnuc-version=10.5.0", "-std=c++11", "-DNDEBUG", "-O2", "-w"]


class AttachError(Exception):
    pass


class ExtractError(Exception):
    pass


# ------------------------------------------------------------------ extraction
_cache = {}


def extractor():
    exe = os.path.join(BUILD, "cxx2ir")
    src = os.path.join(HERE, "cxx2ir.cpp")
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        subprocess.run(["bash", os.path.join(HERE, "build.sh")], check=True)
    return exe


def extract(tu, roots):
    k = (tu, tuple(roots))
    if k in _cache:
        return _cache[k]
    src = os.path.join(ROOT, tu[6:]) if tu.startswith("verif:") else os.path.join(REPO, tu)    # verif: explicit instantiations of a class template of /repo
    if not os.path.exists(src):
        raise ExtractError("missing source file " + tu)
    r = subprocess.run([extractor(), src, os.path.join(REPO, "src")] + list(roots) + ["--"] + FLAGS + ["-I" + os.path.join(REPO, "src")],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise ExtractError("extraction of %s failed:\n%s" % (tu, r.stderr[-3000:]))
    _cache[k] = json.loads(r.stdout)
    return _cache[k]


# ------------------------------------------------------------------ contract files
INSTANCES = {"int": "int", "safe": "panda::SafeInteger"}
def load_vc(name):
    """the contracts of a unit; NAME@TYPE is the same unit about the instantiation of the templates with TYPE"""
    base, _, inst = name.partition("@")
    u = parse_vc(os.path.join(ROOT, "contracts", base + ".vc"), inst)
    u["name"] = name
    return u


def parse_vc(path, inst=""):
    u = {"path": path, "tus": [], "libs": [], "imports": [], "mode": "Z", "contracts": [], "raw": [], "roots": [], "opts": {}, "open": [], "ignored": [], "ghostfields": [], "monitor": None, "shared": []}
    u["native"] = inst if inst == "int" else None
    cur = None
    loop = None
    buf = []
    target = None

    def flush():
        nonlocal buf, target
        if target is not None:
            txt = "\n".join(buf).strip()
            target(txt)
        buf, target = [], None

    def labelled(lst, no):
        def put(txt):
            m = re.match(r"^\[([^\]]*)\]\s*(.*)$", txt, re.S)
            lab, body = (m.group(1), m.group(2)) if m else ("", txt)
            lst.append((lab, body))
        return put
    lines, rep = [], None
    for no, line in enumerate(open(path), 1):
        line = line.rstrip("\n")
        if inst:
            line = re.sub(r"(panda::)?\bBigInteger\b", INSTANCES[inst], line)
        m = re.match(r"^@foreach ([\w$ ]+?) in (.*)$", line)    # a block of contracts for several instantiations
        if m:
            rep = (m.group(1).split(), [x.split("|") for x in m.group(2).split()], [])
        elif line == "@endfor":
            for vals in rep[1]:
                for no2, l in rep[2]:
                    for n, v in zip(rep[0], vals):
                        l = l.replace("$" + n + "$", v)
                    lines.append((no2, l))
            rep = None
        elif rep:
            rep[2].append((no, line))
        else:
            lines.append((no, line))
    for no, line in lines:
        if line.startswith("#"):
            continue
        if not line.startswith("@"):
            buf.append(line)
            continue
        flush()
        m = re.match(r"^@(\w+)\s*(.*)$", line)
        d, rest = m.group(1), m.group(2)
        if d == "unit":
            u["name"] = rest.strip()
        elif d == "tu":
            u["tus"].append(rest.strip())
        elif d == "lib":
            u["libs"] += rest.split()
        elif d == "import":
            u["imports"] += [n + "@" + inst if inst and "@" not in n else n for n in rest.split()]
        elif d == "mode":
            u["mode"] = rest.strip()
        elif d == "streams":
            u["streams"] = True
        elif d == "assumed":          # contracts that no unit proves
            u["assumed"] = True
        elif d == "ostreams":
            u["ostreams"] = True
        elif d == "native":
            u["native"] = rest.strip()
        elif d == "open":
            u["open"] += rest.split()
        elif d == "ignored":
            u["ignored"] += rest.split()
        elif d == "monitor":          # @monitor CLASS MUTEX FIELD...: the fields are shared, the mutex guards them
            p = rest.split()
            u["monitor"] = {"cls": p[0], "mutex": p[1], "guarded": p[2:], "inv": "true", "rely": "true", "done": "false", "update": [], "lemmas": []}
        elif d == "shared":           # classes whose const member functions change a monitor
            u["shared"] += rest.split()
        elif d in ("inv", "rely", "done"):
            u["monitor"][d] = rest.strip()
        elif d == "update":
            u["monitor"]["update"].append([x.strip() for x in rest.split("=", 1)])
        elif d == "onrelease":
            u["monitor"]["lemmas"].append(rest.strip())
        elif d == "ghostfield":       # @ghostfield NAME TYPE = VALUE OF A NEW OBJECT
            m3 = re.match(r"^(\w+) (.*?) = (.*)$", rest)
            u["ghostfields"].append((m3.group(1), m3.group(2), m3.group(3)))
        elif d == "fits":
            u["fits"] = True
        elif d == "root":
            u["roots"].append(rest.strip())
        elif d == "rust":
            buf = [rest]
            target = u["raw"].append
        elif d == "fn":
            m2 = re.match(r"^((?:\S*operator \w+)|[^\s(]+(?:\(\))?)\s*\(([^)]*)\)\s*(?:key\s+\"(.*)\")?\s*$", rest)
            if not m2:
                raise SyntaxError("%s:%d: %s" % (path, no, rest))
            cur = Contract(m2.group(1))
            cur.pnames = [x.strip() for x in m2.group(2).split(",") if x.strip()]
            cur.key = m2.group(3)
            cur.line = no
            cur.proof_hooks = []
            cur.unit = u
            u["contracts"].append(cur)
            loop = None
        elif d in ("requires", "ensures", "exc", "release"):
            buf = [rest]
            target = labelled(getattr(cur, d), no)
        elif d == "pure":
            buf = [rest]
            target = lambda t, c=cur: setattr(c, "pure", t)
        elif d == "alias":
            m3 = re.match(r"^(\w+)\s*=\s*(\w+)((?:\.\w+)*)$", rest.strip())
            cur.alias = (m3.group(1), m3.group(2), [x for x in m3.group(3).split(".") if x])
        elif d == "throws":
            cur.throws = True
        elif d == "opt":
            for o in rest.split():
                k, _, v = o.partition("=")
                cur.opts[k] = v or True
        elif d == "loop":
            loop = cur.loops.setdefault(int(rest.split()[0]), {"inv": [], "dec": None, "start": [], "end": [], "after": [], "before": []})
        elif d == "invariant":
            buf = [rest]
            target = labelled(loop["inv"], no)
        elif d == "decreases":
            buf = [rest]
            lp = loop
            if lp is None:
                raise SyntaxError("decreases outside loop")
            target = lambda t, l=lp: l.__setitem__("dec", t)
        elif d in ("start", "end", "after", "before"):
            buf = [rest]
            target = loop[d].append
        elif d == "entry":
            buf = [rest]
            target = cur.entry.append
        elif d == "return":
            cond = None
            mm = re.match(r"^if\(([^)]*)\)\s*(.*)$", rest)
            if mm:
                cond, rest = [x.strip() for x in mm.group(1).split(",")], mm.group(2)
            buf = [rest]
            target = lambda t, c=cur, cc=cond: c.ret.append((cc, t))
        elif d == "call":
            # @call fname n before|after
            p = rest.split(None, 3)
            buf = [p[3] if len(p) > 3 else ""]
            target = lambda t, c=cur, k=(p[0], p[1], p[2]): c.at.setdefault(k, []).append(t)
        else:
            raise SyntaxError("%s:%d: unknown directive @%s" % (path, no, d))
    flush()
    return u


def cparams(self, info):
    return (["this"] if info.method and not info.ctor else []) + self.pnames


Contract.cparams = cparams


# ------------------------------------------------------------------ unit
class Unit:
    def __init__(self, name):
        self.spec = load_vc(name)
        self.name = name
        self.contracts = list(self.spec["contracts"])
        self.imported = []
        libs = list(self.spec["libs"])
        self.proved_libs = {}
        seen = {name}

        def imp(n):
            if n in seen:
                return
            seen.add(n)
            o = load_vc(n)
            for m in o["imports"]:
                imp(m)
            for l in o["libs"]:
                if not o.get("assumed"):
                    self.proved_libs.setdefault(l, n)
                if l not in libs:
                    libs.append(l)
            for c in o["contracts"]:
                c.external = n
                c.assumed = bool(o.get("assumed"))
                self.imported.append(c)
        for n in self.spec["imports"]:
            imp(n)
        self.libs = libs
        self.functions = {}
        self.records = {}
        self.globals = {}
        self.hooks = dict(stdmodel.HOOKS)
        self.called = set()
        self.opened = set()
        self.seen_callee = {}
        self.edges = {}
        self.inlined = set()
        self.reserved = set()
        self.fns = {}
        self.tp = None
        self.imports_closure = seen - {name}

    def is_enum(self, n):
        return bool(re.match(r"^panda::[\w:]+$", n))

    def load(self):
        for tu in self.spec["tus"]:
            roots = [c.key if c.key and not c.key.startswith("#") else c.name for c in self.contracts] + self.spec["roots"]
            d = extract(tu, sorted(set(roots)))
            for f in d["functions"]:
                self.functions.setdefault(f["key"], f)
            self.records.update(d["records"])
        if self.spec["mode"] == "Z":
            self.records.pop("panda::BigInteger", None)
            self.records.pop("panda::SafeInteger", None)
        self.tp = TypeParser(self.spec["mode"] == "Z", self.records, native=self.spec.get("native"))
        self.tp.streams = bool(self.spec.get("streams"))
        self.tp.ostreams = bool(self.spec.get("ostreams"))
        self.tp.monitor = self.spec["monitor"]["cls"] if self.spec["monitor"] else None
        self.tp.shared = self.spec["shared"]
        names = set()
        for i, c in enumerate(self.contracts + self.imported):
            base = "f_" + re.sub(r"\W+", "_", c.name)
            n, k = base, 1
            while n in names:
                k += 1
                n = "%s_%d" % (base, k)
            names.add(n)
            c.vname = n
            c.id = c.name + (" " + c.key if c.key else "")
        libtext = "".join(open(os.path.join(ROOT, "contracts", "lib", l + ".rs")).read() for l in self.libs) + "\n".join(self.spec["raw"])
        self.reserved = set(re.findall(r"\bfn\s+(\w+)", libtext)) | names

    def function(self, f):
        return self.functions.get(f["key"])

    def match(self, c, key, q):
        if strip_t(q) != c.name:
            return False
        if c.key and c.key.startswith("#"):       # an overload, given by its number of parameters
            return len(split_args(key[key.index("(", key.rindex(c.name.split("::")[-1])) + 1:key.rindex(")")])) == int(c.key[1:])
        return c.key is None or c.key in key

    def contract_for(self, f):
        for c in self.contracts + self.imported:
            if self.match(c, f["key"], f["q"]):
                return c
        return None

    # -------------------------------------------------------------- generation
    def generate(self):
        """-> text, line map, per function info"""
        self.load()
        self.problems = []
        chunks = []
        order = []
        self.translated = {}
        for c in self.contracts:
            self.cur = c.id
            self.edges[c.id] = set()
            cands = [f for f in self.functions.values() if self.match(c, f["key"], f["q"])]
            if c.opts.get("external"):
                continue
            if len(cands) != 1:
                self.problems.append((c.name, "attach", "%d functions match the contract" % len(cands)))
                continue
            try:
                text = FnEmit(self, c, cands[0]).run()
                if c.alias:
                    text += "\n" + FnEmit(self, c, cands[0], alias=True).run()
                chunks.append((c, text))
                self.translated[c.name] = cands[0]
            except Unsupported as ex:
                self.problems.append((c.name, "unsupported", str(ex)))
            except AttachError as ex:
                self.problems.append((c.name, "attach", str(ex)))
        done = {c.vname for c, _ in chunks}
        ext = []
        for c in self.contracts + self.imported:
            if c.vname not in done and c.used == "call" and c.vname not in [x.vname for x in ext]:
                ext.append(c)
        lines = []
        self.linemap = {}

        def add(text, fn=None):
            for l in text.split("\n"):
                lines.append(l)
                if fn is not None:
                    self.linemap[len(lines)] = fn
        add("#![allow(unused_imports, unused_variables, unused_mut, unused_assignments, unused_labels, dead_code, non_snake_case, unused_parens, unused_braces, unreachable_code, non_camel_case_types)]")
        add("use vstd::prelude::*;\nuse vstd::arithmetic::div_mod::*;\nuse vstd::arithmetic::mul::*;\nuse vstd::seq_lib::*;\nuse vstd::set_lib::*;\nverus! {")
        done_rec = set()

        def rec(n):
            if n in done_rec or n not in self.records:
                return
            done_rec.add(n)
            fs = self.records[n]
            out = []
            for f in fs:
                t = self.tp.parse(f["t"]).plain()
                for r in list(self.records):
                    if r in f["t"] and r != n:
                        rec(r)
                try:
                    tv = t.v() if not t.ptr else "int"
                except TypeError:
                    tv = "int"
                out.append("pub %s: %s" % (f["name"], tv))
            if self.spec["monitor"] and strip_t(n) == self.spec["monitor"]["cls"]:
                out += ["pub %s: %s" % (g, t) for g, t, _ in self.spec["ghostfields"]]
            add("pub struct %s { %s }" % (struct_name(n), ", ".join(out)))
        for n in self.records:
            rec(n)
        for l in self.libs:
            add("// ---- lib %s" % l)
            lt = open(os.path.join(ROOT, "contracts", "lib", l + ".rs")).read()
            if l in self.proved_libs:
                # the same text is verified in an imported unit, which every check that uses this unit verifies, too
                lt = re.sub(r"^(?=(?:pub )?(?:broadcast )?proof fn )", "#[verifier::external_body] // lemma proved in unit %s\n" % self.proved_libs[l], lt, flags=re.M)
            add(lt, ("lib", l))
        for r in self.spec["raw"]:
            add(r, ("lib", self.name))
        for c in ext:
            add(self.extern_stub(c), ("stub", c.name))
        for c, t in chunks:
            add(t, ("fn", c.name, c.id))
        add("fn main() {}\n}")
        self.chunks = chunks
        return "\n".join(lines)

    def extern_stub(self, c):
        f = None
        for g in self.functions.values():
            if self.match(c, g["key"], g["q"]):
                f = g
        if f is None:
            f = self.seen_callee[id(c)]
        fe = FnEmit(self, c, f, stub=True)
        t = "#[verifier::external_body] // contract %s unit %s\n" % ("assumed in" if getattr(c, "assumed", False) else "proved in", getattr(c, "external", "?")) + fe.header() + "{ unimplemented!() }"
        if c.alias:
            t += "\n#[verifier::external_body] // contract proved in unit %s (aliased arguments)\n" % getattr(c, "external", "?") + FnEmit(self, c, f, stub=True, alias=True).header() + "{ unimplemented!() }"
        return t


def type_facts(u, text, ty):
    """facts about every container that exists: its size is bounded"""
    if ty is None:
        return []
    if ty.kind == "seq":
        r = ["%s.len() == %d" % (text, ty.extent)] if ty.extent else ["%s.len() <= MAXLEN()" % text]
        if ty.args[0].kind == "seq":
            r.append("forall|q_: int| 0 <= q_ < %s.len() ==> (#[trigger] %s[q_]).len() <= MAXLEN()" % (text, text))
        return r
    if ty.kind == "stream":
        return ["0 <= %s.p <= %s.s.len() <= MAXLEN()" % (text, text), "%s.e ==> %s.p == %s.s.len()" % (text, text, text)]
    if ty.kind == "struct":
        out = []
        for f in u.records.get(ty.name, []):
            t = u.tp.parse(f["t"]).plain()
            if t.kind == "seq":
                out += type_facts(u, "%s.%s" % (text, f["name"]), t)
        return out
    return []


def unparen(t):
    t = t.strip()
    while t.startswith("(") and t.endswith(")"):
        d = 0
        for i, ch in enumerate(t):
            d += ch == "("
            d -= ch == ")"
            if d == 0 and i < len(t) - 1:
                return t
        t = t[1:-1].strip()
    return t


def split_top(t, ops):
    d = 0
    i = 0
    while i < len(t):
        if t[i] in "([":
            d += 1
        elif t[i] in ")]":
            d -= 1
        elif d == 0:
            for o in ops:
                if t.startswith(" %s " % o, i):
                    return t[:i], o, t[i + len(o) + 2:]
        i += 1
    return None


def default_measure(cond):
    t = unparen(cond)
    r = split_top(t, ["||"])
    if r:
        return None
    r = split_top(t, ["&&"])
    while r:
        m = default_measure(r[0])
        if m:
            return m
        t = unparen(r[2])
        r = split_top(t, ["&&"])
    r = split_top(t, ["<=", ">=", "<", ">", "!="])
    if not r:
        return None
    a, op, b = r
    return "(%s) - (%s)" % ((b, a) if op in ("<", "<=", "!=") else (a, b))


class FnEmit:
    def __init__(self, unit, c, f, stub=False, alias=False):
        self.u, self.c, self.f = unit, c, f
        self.alias = alias
        self.t = FnTrans(unit, f, c)
        self.info = self.t.info
        self.lines = []
        self.conts = {}
        self.setlog = []
        self.npins = []
        if len(self.info.params) != len(c.pnames):
            raise AttachError("parameter count of %s" % c.name)
        self.pvars = []      # (contract name, Ty, entry var)
        if self.info.method and not self.info.ctor:
            self.pvars.append(("this", self.info.cls.plain(), "this_0"))
        for cn, (n, i, t) in zip(c.pnames, self.info.params):
            self.pvars.append((cn, t.plain(), self.t.fresh(re.sub(r"\W", "_", (n or cn) or "p") + "_0")))
        self.outs = []
        if c.throws:
            self.outs.append(("threw", "bool"))
        self.hasret = self.info.ret.kind != "void" and self.info.refret is None
        if self.hasret:
            self.outs.append(("result", self.info.ret.plain().v()))
        names = (["this"] if self.info.method and not self.info.ctor else []) + [n for n, _, _ in self.info.params]
        cn = dict(zip(names, [p[0] for p in self.pvars]))
        for n, t in self.info.inout:
            self.outs.append((cn[n], t.v()))

    def sub_entry(self):
        return {p[0]: p[2] for p in self.pvars}

    def sub_post(self):
        m = {p[0]: p[2] for p in self.pvars}
        for i, (n, _) in enumerate(self.outs):
            m[n] = "res_@.%d" % i
        return m

    def contract_text(self, txt, sub):
        def o(m):
            e = self.sub_entry()
            if m.group(1) not in e:
                raise AttachError("old(%s)" % m.group(1))
            return e[m.group(1)]
        txt = re.sub(r"\bold\((\w+)\)", o, txt)
        return subst_names(txt, sub)

    def header(self):
        c = self.c
        t = "fn %s(%s) -> (res_: Ghost<(%s)>)\n" % (c.vname + ("_alias" if self.alias else ""), ", ".join("Ghost(%s): Ghost<%s>" % (p[2], p[1].v()) for p in self.pvars),
                                                  "".join(o[1] + "," for o in self.outs))
        req = [self.contract_text(r[1], self.sub_entry()) for r in c.requires]
        if self.alias:
            e = self.sub_entry()
            req.append("%s == %s" % (e[c.alias[0]], ".".join([e[c.alias[1]]] + c.alias[2])))
        if req:
            t += "  requires\n" + "".join("    (%s),\n" % r for r in req)
        sub = self.sub_post()
        ens = []
        self.nens = 0
        if c.pure is not None:
            ens.append(("result", "result %s (%s)" % ("=~=" if self.info.ret.kind in ("seq", "set", "map") else "==", c.pure)))
        ens += c.ensures
        ex = c.exc
        if ens or ex:
            t += "  ensures\n"
            for l, e in ens:
                e = self.contract_text(e, sub)
                if c.throws:
                    e = "!%s ==> (%s)" % (sub["threw"], e)
                t += "    (%s), // @ensures %s\n" % (e, l)
                self.nens += 1
            for l, e in ex:
                t += "    %s ==> (%s), // @exc %s\n" % (sub["threw"], self.contract_text(e, sub), l)
                self.nens += 1
        return t

    # -------------------------------------------------------------- translate + emit
    def run(self):
        t, f, c = self.t, self.f, self.c
        t.scope = [{}]
        t.used.update({"this_0": 1, "res_": 1, "ret_": 1, "threw_": 1})
        t.loop_info = []
        decls = []
        self.param_final = {}
        if self.info.method and not self.info.ctor:
            n = t.fresh("this_")
            decls.append((n, self.info.cls.v(), "this_0"))
            t.this = Place(n, self.info.cls.plain())
            t.vty[n] = self.info.cls.plain()
            self.param_final["this"] = n
        elif self.info.ctor:
            n = t.fresh("this_")
            decls.append((n, self.info.cls.v(), "arbitrary()"))
            t.this = Place(n, self.info.cls.plain())
            t.vty[n] = self.info.cls.plain()
            self.param_final["this"] = n
        off = len(self.pvars) - len(self.info.params)
        for (cn, pty, entry), (n, i, ty) in zip(self.pvars[off:], self.info.params):
            if self.alias and cn == c.alias[0]:
                base = t.this if c.alias[1] == "this" else t.scope[0][c.alias[1]].place or Place(t.scope[0][c.alias[1]].vname, t.scope[0][c.alias[1]].ty)
                pl, pt = base, base.ty
                for fld in c.alias[2]:
                    pt = t.field_ty(pl.ty, fld)
                    pl = pl.sub(("f", fld, struct_name(pl.ty.name)), pt)
                t.bind(i, Var(n or cn, pt, place=pl))
                if n != cn:
                    t.scope[0][cn] = t.env[i]
                continue
            fm = ir2verus.FUNCTOR.match(pty.name) if pty.kind == "opaque" else None
            if fm:
                t.bind(i, Var(n or cn, pty, lam=("builtin", ir2verus.FUN[fm.group(1)])))
                continue
            vn = t.fresh(n or cn)
            decls.append((vn, pty.v(), entry))
            t.vty[vn] = pty
            t.bind(i, Var(n or cn, pty, vname=vn))
            if n != cn:
                t.scope[0][cn] = t.env[i]
            self.param_final[cn] = vn
        rv = None
        if self.hasret and not self.info.ctor:
            rv = "ret_"
            decls.append((rv, self.info.ret.plain().v(), "arbitrary()"))
        if c.throws:
            decls.append(("threw_", "bool", "false"))
        if t.monitored:
            decls += [("held_", "bool", "false"), ("acq_", self.info.cls.v(), "this_0"), ("n1_", "int", "0int"), ("nall_", "bool", "false"), ("done_", "bool", "false")]
        t.ret_stack.append(("$FN", rv, self.info))
        t.scope.append({})
        if self.info.ctor:
            t.ctor_inits(f)
        if f["body"]["k"] == "block":
            for x in f["body"]["c"]:
                t.stmt(x)
        else:
            t.stmt(f["body"])
        t.scope_end(0)
        if t.monitored:
            t.check("!held_", "the lock is given back")
        if c.ret:
            t.emit("hook", "return", None, t.namemap())
        body = t.out
        self.rename = self.pins(t)
        self.bodytext = body
        for b in c.loops:
            if b >= t.loop_no:
                raise AttachError("contract for loop %d but the function has %d loops" % (b, t.loop_no))
        self.lines = []
        attrs = ["#[verifier::loop_isolation(%s)]" % ("true" if c.opts.get("isolate") else "false"), "#[verifier::exec_allows_no_decreases_clause]"] if False else ["#[verifier::loop_isolation(false)]"]
        if c.opts.get("rlimit"):
            attrs.append("#[verifier::rlimit(%s)]" % c.opts["rlimit"])
        if c.opts.get("spinoff", True):
            attrs.append("#[verifier::spinoff_prover]")
        if c.opts.get("nodec"):
            attrs.append("#[verifier::exec_allows_no_decreases_clause]")
        self.p("\n".join(attrs))
        self.p(self.header().rstrip("\n"))
        self.p("{")
        for pv in self.pvars:
            for x in type_facts(self.u, pv[2], pv[1]):
                self.p("assume(%s); // @assume container size bound" % x)
        for n, ty, v in decls:
            self.p("let ghost mut %s: %s = %s;" % (n, ty, v))
        if c.entry:
            for e in c.entry:
                self.ptext(self.contract_text(e, self.sub_names({k: v for k, v in t.namemap_top(self)})))
        ret = self.emit_return
        self.called_hooks = set()
        r = self.T([("block", "$FN", body)], ret, set())
        if r != "esc":
            ret()
        for k in c.at:
            if k not in self.called_hooks:
                raise AttachError("no call %s %s" % k[:2])
        self.p("}")
        return "\n".join(self.lines)

    def pins(self, t):
        """names recorded when the contracts were written -> current names, for renamed locals"""
        cur = []
        for v in t.names_order:
            if v.lam is None:
                try:
                    ty = v.ty.v()
                except TypeError:
                    ty = "?"
                cur.append((v.name, ty))
        self.cur_pins = {"vars": cur, "loops": t.loop_no}
        pin = PINS.get(self.u.name, {}).get(self.c.name)
        m = {}
        self.shape_changed = False
        if pin:
            old = [tuple(x) for x in pin["vars"]]
            self.shape_changed = pin["loops"] != t.loop_no
            have = {n for n, _ in cur}
            had = {n for n, _ in old}
            miss = [x for x in old if x[0] not in have]
            new = [x for x in cur if x[0] not in had]
            seen = set()
            for n, ty in miss:
                if n in seen:
                    continue
                seen.add(n)
                for j, (n2, ty2) in enumerate(new):
                    if ty2 == ty:
                        m[n] = n2
                        new = [x for x in new if x[0] != n2]
                        break
        return m

    def sub_names(self, names, L=None):
        m = dict(names)
        for o, n in self.rename.items():
            if o not in m and n in m:
                m[o] = m[n]
        if "this" in self.param_final:
            m["this"] = self.param_final["this"]
        return m

    def proof_text(self, txt, names, L=None):
        if L is not None:
            def kn(m):
                if self.t.counters.get(int(m.group(1))) is None:
                    raise AttachError("loop %s has no counter" % m.group(1))
                return self.t.counters[int(m.group(1))]
            txt = re.sub(r"\$k(\d+)", kn, txt)
            if "$k" in txt:
                if L.counter is None:
                    raise AttachError("loop %d has no counter" % L.no)
                txt = txt.replace("$k", L.counter)
            txt = re.sub(r"\bpre\(([^()]*)\)", lambda m: self.presub(m.group(1), names, L), txt)
            txt = re.sub(r"\bstart\(([^()]*)\)", lambda m: self.presub(m.group(1), names, L, "st"), txt)
        return self.contract_text(txt, self.sub_names(names))

    def presub(self, inner, names, L, pfx="pre"):
        sub = self.sub_names(names)
        r = subst_names(inner, sub)
        return NAME.sub(lambda m: "%s%d_%s" % (pfx, L.no, m.group(1)) if m.group(1) in L.snap else m.group(1), r)

    def p(self, s):
        self.lines.append(s)

    def emit_return(self):
        vals = []
        for n, _ in self.outs:
            if n == "threw":
                vals.append("threw_")
            elif n == "result":
                vals.append(self.param_final["this"] if self.info.ctor else "ret_")
            else:
                vals.append(self.param_final[n])
        self.p("return Ghost((%s));" % "".join(v + "," for v in vals))

    # control-flow analysis on the mini IR
    def falls(self, stmts, tails=None):
        """may control reach the end of stmts?"""
        for s in stmts:
            if s[0] == "leave":
                return False
            if s[0] == "if":
                if not self.falls(s[2]) and not self.falls(s[3]):
                    return False
            if s[0] == "block":
                if not self.falls(s[2]) and not self.leaves_to(s[2], s[1]):
                    return False
            if s[0] == "loop":
                if s[1].cond == "true":
                    return False
        return True

    def leaves_to(self, stmts, lab):
        for s in stmts:
            if s[0] == "leave" and s[1] == lab:
                return True
            if s[0] == "if" and (self.leaves_to(s[2], lab) or self.leaves_to(s[3], lab)):
                return True
            if s[0] == "block" and self.leaves_to(s[2], lab):
                return True
            if s[0] == "loop" and self.leaves_to(s[1].body, lab):
                return True
        return False

    def has_leave(self, stmts):
        for s in stmts:
            if s[0] == "leave":
                return True
            if s[0] == "if" and (self.has_leave(s[2]) or self.has_leave(s[3])):
                return True
            if s[0] == "block" and self.has_leave(s[2]):
                return True
        return False

    def T(self, stmts, KE, tails):
        """emit stmts so that normal completion falls off the textual end; returns 'esc' when that never happens"""
        i = 0
        n = len(stmts)
        while i < n:
            s = stmts[i]
            rest = stmts[i + 1:]
            k = s[0]
            last = not rest
            if k == "let":
                self.p("let ghost mut %s: %s = %s;" % (s[1], s[2], s[3]))
            elif k == "set":
                self.p("proof { %s = %s; }" % (s[1], s[2]))
                self.setlog.append(s[1])
            elif k == "assert":
                self.p("assert(%s); // @assert %s" % (s[1], s[2]))
            elif k == "assume":
                self.p("assume(%s); // @assume %s" % (s[1], s[2]))
            elif k == "proof":
                self.p("proof { %s }" % s[1])
            elif k == "call":
                _, fn, args, tmp, outs, label, c, info = s
                self.p("let %s = %s(%s); // @call %s" % (tmp, fn, ", ".join("Ghost(%s)" % a for a in args), label))
                for j, (o, ty) in enumerate(outs):
                    self.p("let ghost mut %s: %s = %s@.%d;" % (o, ty, tmp, j))
                    for x in type_facts(self.u, o, info.outtys.get(j)):
                        self.p("assume(%s); // @assume container size bound" % x)
            elif k == "hook":
                self.hook(s)
            elif k == "leave":
                if s[1] in tails:
                    return "fall"
                self.conts[s[1]]()
                return "esc"
            elif k == "block":
                lab, body = s[1], s[2]
                saved = dict(self.conts)

                def cont(rest=rest, saved=saved, KE=KE):
                    cur = self.conts
                    self.conts = dict(saved)
                    self.depthguard()
                    r = self.T(rest, KE, set())
                    if r != "esc":
                        KE()
                    self.conts = cur
                self.conts[lab] = cont
                r = self.T(body, cont, {lab} | (tails if last else set()))
                self.conts = saved
                if r == "esc" and not self.falls_any(body, {lab} | (tails if last else set())):
                    return "esc"
            elif k == "if":
                c, A, B = s[1], s[2], s[3]
                la, lb = self.has_leave(A), self.has_leave(B)
                if not la and not lb:
                    self.p("if lift(Ghost(%s)) {" % c)
                    self.T(A, None, set())
                    if B:
                        self.p("} else {")
                        self.T(B, None, set())
                    self.p("}")
                else:
                    fa, fb = self.falls(A), self.falls(B)
                    if not fa or not fb or last:
                        A2 = A + (rest if fa else [])
                        B2 = B + (rest if fb else [])
                        self.p("if lift(Ghost(%s)) {" % c)
                        r1 = self.T(A2, KE, tails)
                        self.p("} else {")
                        r2 = self.T(B2, KE, tails)
                        self.p("}")
                        return "esc" if r1 == "esc" and r2 == "esc" else "fall"

                    def ke(rest=rest, KE=KE, saved=dict(self.conts)):
                        cur = self.conts
                        self.conts = dict(saved)
                        r = self.T(rest, KE, set())
                        if r != "esc":
                            KE()
                        self.conts = cur
                    self.p("if lift(Ghost(%s)) {" % c)
                    self.T(A, ke, set())
                    self.p("} else {")
                    self.T(B, ke, set())
                    self.p("}")
            elif k == "loop":
                self.loop(s[1])
                if s[1].cond == "true":
                    return "esc"
            else:
                raise AssertionError(k)
            i += 1
        return "fall"

    def falls_any(self, body, labs):
        return self.falls(body) or any(self.leaves_to(body, l) for l in labs)

    ndup = 0

    def depthguard(self):
        self.ndup += 1
        if self.ndup > 400 or len(self.lines) > 30000:
            raise Unsupported("control flow too intricate for continuation duplication")

    def modset(self, stmts, declared=None):
        m = {}
        decl = set()

        def walk(ss):
            for s in ss:
                if s[0] == "let":
                    decl.add(s[1])
                elif s[0] == "call":
                    for o, _ in s[4]:
                        decl.add(o)
                elif s[0] == "set":
                    m.setdefault(s[1], []).append(s)
                elif s[0] == "if":
                    walk(s[2])
                    walk(s[3])
                elif s[0] == "block":
                    walk(s[2])
                elif s[0] == "loop":
                    walk(s[1].body)
        walk(stmts)
        return {k: v for k, v in m.items() if k not in decl}

    def loop(self, L):
        c = self.c.loops.get(L.no)
        mods = self.modset(L.body)
        header_at = len(self.lines)
        saved_log = self.setlog
        self.setlog = []
        lab = "l%d_%d" % (L.no, len(self.lines))
        L.snap = set(mods)
        names = L.names

        def ke():
            self.p("continue '%s;" % lab)
        saved_lines = self.lines
        self.lines = []
        r = self.T(L.body, ke, set())
        body = self.lines
        self.lines = saved_lines
        log = self.setlog
        inner = set(re.findall(r"let ghost mut (\w+):", "\n".join(body)))
        L.snap = set(mods)
        extra = [v for v in dict.fromkeys(log) if v not in mods and v not in inner]
        self.setlog = saved_log + log
        for v in list(mods) + extra:
            self.p("let ghost mut pre%d_%s = %s;" % (L.no, v, v))
        if c:
            for b in c["before"]:
                self.ptext(self.proof_text(b, names, L))
        inv = []
        for v in extra:
            inv.append("%s == pre%d_%s" % (v, L.no, v))
        if "threw_" in mods:
            inv.append("!threw_")      # set only where the function is left
        for v, sets in mods.items():
            kinds = [s[3] for s in sets]
            places = [s[4] for s in sets]
            if all(k == "elem" for k in kinds) and all(pl is not None for pl in places):
                depth = min(len(pl.path) for pl in places)
                if all(x[0] == "i" for pl in places for x in pl.path[:depth]):
                    inv.append("%s.len() == pre%d_%s.len()" % (v, L.no, v))
                    if depth >= 2:
                        inv.append("forall|q_: int| 0 <= q_ < %s.len() ==> (#[trigger] %s[q_]).len() == pre%d_%s[q_].len()" % (v, v, L.no, v))
                elif places[0].path[0][0] == "f" and all([x[:2] for x in pl.path[:1]] == [places[0].path[0][:2]] for pl in places) and all(len(pl.path) == 2 and pl.path[1][0] == "i" for pl in places):
                    fld = places[0].path[0][1]
                    inv.append("%s.%s.len() == pre%d_%s.%s.len()" % (v, fld, L.no, v, fld))
                    for g in self.u.records.get(self.struct_of(v), []):
                        if g["name"] != fld:
                            inv.append("%s.%s == pre%d_%s.%s" % (v, g["name"], L.no, v, g["name"]))
        inv += L.autoinv
        labels = ["auto"] * len(inv)
        dec = L.dec
        if c:
            for l, x in c["inv"]:
                inv.append(self.proof_text(x, names, L))
                labels.append(l or "invariant")
            if c["dec"]:
                dec = self.proof_text(c["dec"], names, L)
        if dec is None and L.cond != "true":
            dec = default_measure(L.cond)
        self.p("'%s: while lift(Ghost(%s))" % (lab, L.cond))
        if inv:
            self.p("  invariant")
            for x, l in zip(inv, labels):
                self.p("    (%s), // @invariant loop %d %s" % (x.replace("\n", " "), L.no, l))
        if dec is not None:
            self.p("  decreases %s // @decreases loop %d" % (dec.replace("\n", " "), L.no))
        elif not self.c.opts.get("nodec"):
            raise AttachError("no termination measure for loop %d" % L.no)
        self.p("{")
        btxt = "\n".join(body)
        for v in mods:
            if "st%d_%s" % (L.no, v) in btxt:
                self.p("let ghost mut st%d_%s = %s;" % (L.no, v, v))
        facts = []
        for v, sets in mods.items():
            if not all(x[3] == "elem" for x in sets):
                facts += type_facts(self.u, v, self.t.vty.get(v))
        for x in facts:
            self.p("assume(%s); // @assume container size bound" % x)
        self.lines += body
        self.p("}")
        for x in facts:
            self.p("assume(%s); // @assume container size bound" % x)

    def struct_of(self, v):
        for x in self.t.names_order:
            if x.vname == v:
                return x.ty.name
        if self.t.this is not None and v == self.t.this.root:
            return self.t.this.ty.name
        return ""

    def hook(self, s):
        which, L, names = s[1], s[2], s[3]
        if which == "return":
            for cond, txt in self.c.ret:
                sub = self.sub_names(names)
                if cond and not all(x in sub for x in cond):
                    continue
                sub["result"] = self.param_final["this"] if self.info.ctor else "ret_"
                self.p("proof { %s }" % self.contract_text(txt, sub))
            return
        if which == "call":
            short, n, when, ret = L
            for txt in self.c.at.get((short, n, when), []):
                self.called_hooks.add((short, n, when))
                sub = self.sub_names(names)
                if ret:
                    sub["result"] = ret
                self.ptext(self.contract_text(txt, sub))
            return
        c = self.c.loops.get(L.no)
        if not c:
            return
        for txt in c[which]:
            self.ptext(self.proof_text(txt, names, L))

    def ptext(self, txt):
        m = re.match(r"^ghost (\w+) = (.*?);(.*)$", txt.strip(), re.S)
        if m:
            self.p("let ghost mut %s = %s;" % (m.group(1), m.group(2)))
            if m.group(3).strip():
                self.ptext(m.group(3))
        else:
            self.p("proof { %s }" % txt)


def namemap_top(self, fe):
    return list(self.namemap().items())


FnTrans.namemap_top = namemap_top

PINS = {}
_pp = os.path.join(ROOT, "contracts", "pins.json")
if os.path.exists(_pp):
    PINS = json.load(open(_pp))


# ------------------------------------------------------------------ running Verus
class Result:
    pass


def run_verus(path, extra=(), timeout=800):
    t0 = time.time()
    cmd = ["verus", path, "--output-json", "--time-expanded", "--multiple-errors", "20", "--num-threads", "8"] + list(extra)
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return {"status": "timeout", "time": time.time() - t0, "stderr": "", "errors": []}
    out = {"time": time.time() - t0, "stderr": r.stderr, "errors": []}
    try:
        j = json.loads(r.stdout)
        out["json"] = j
        vr = j.get("verification-results", {})
        out["verified"], out["nerr"] = vr.get("verified", 0), vr.get("errors", 0)
        if vr.get("success"):
            out["status"] = "ok"
        elif vr.get("encountered-vir-error") or ("verified" not in vr):
            out["status"] = "compile-error"
        else:
            out["status"] = "failed"
    except ValueError:
        out["status"] = "compile-error"
    return out


ERR = re.compile(r"^(error(?:\[\w+\])?): (.*?)$", re.M)


def parse_errors(stderr, text, linemap):
    """-> list of dicts (message, function, label, line, excerpt)"""
    src = text.split("\n")
    out = []
    blocks = re.split(r"\n(?=error|warning|note: )", "\n" + stderr)
    for b in blocks:
        m = ERR.search(b)
        if not m or m.group(2).startswith("aborting"):
            continue
        ls = [int(x) for x in re.findall(r"-->\s+[^\s:]+:(\d+):\d+", b)]
        nums = ls + [int(x) for x in re.findall(r"^\s*(\d+)\s+\|", b, re.M)]
        fn = None
        for l in ls:
            fn = linemap.get(l)
            if fn:
                break
        lab = None
        for l in nums:
            if 0 < l <= len(src):
                mm = re.search(r"// @(.*)$", src[l - 1])
                if mm:
                    lab = mm.group(1)
                    break
        out.append({"message": m.group(2), "fn": fn, "label": lab, "line": ls[0] if ls else None, "excerpt": b.strip()[:1500]})
    return out


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("unit", nargs="+")
    ap.add_argument("--pins", action="store_true")
    ap.add_argument("--show", action="store_true")
    ap.add_argument("--gen", action="store_true")
    ap.add_argument("--fn")
    a = ap.parse_args()
    os.makedirs(os.path.join(BUILD, "gen"), exist_ok=True)
    for n in a.unit:
        u = Unit(n)
        text = u.generate()
        p = os.path.join(BUILD, "gen", n.replace("@", "_") + ".rs")
        open(p, "w").write(text)
        for pr in u.problems:
            print("PROBLEM", *pr)
        if a.gen:
            continue
        extra = []
        if a.fn:
            extra = ["--verify-root", "--verify-function", a.fn]
        r = run_verus(p, extra)
        print(n, r["status"], "verified", r.get("verified"), "errors", r.get("nerr"), "%.1fs" % r["time"])
        for e in parse_errors(r["stderr"], text, u.linemap):
            print("  -", e["fn"], "|", e["message"], "|", e["label"], "| line", e["line"])
            if a.show:
                print(e["excerpt"])
        if r["status"] == "compile-error" and not a.show:
            print(r["stderr"][:3000])
