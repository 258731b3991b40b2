"""C++ canonical type strings -> verification types."""
import re

INTS = {"char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True),
        "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False), "long": (64, True),
        "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False),
        "__int128": (128, True), "unsigned __int128": (128, False)}


class Ty:
    def __init__(self, kind, name="", args=(), const=False, ref=None, ptr=False, bits=0, signed=False):
        self.kind, self.name, self.args, self.const, self.ref, self.ptr = kind, name, list(args), const, ref, ptr
        self.bits, self.signed = bits, signed
        self.extent = None

    def copy(self, **k):
        t = Ty(self.kind, self.name, self.args, self.const, self.ref, self.ptr, self.bits, self.signed)
        t.extent = self.extent
        for a, b in k.items():
            setattr(t, a, b)
        return t

    def plain(self):
        return self.copy(const=False, ref=None)

    @property
    def is_int(self):
        return self.kind == "int"

    def v(self):
        """Verus type"""
        k = self.kind
        if k == "int":
            return ("i" if self.signed else "u") + str(self.bits)
        if k == "bool":
            return "bool"
        if k == "Z":
            return "int"
        if k == "seq":
            return "Seq<%s>" % self.args[0].v()
        if k == "set":
            return "Set<%s>" % self.args[0].v()
        if k == "setit":
            return "Option<%s>" % self.args[0].v()
        if k == "map":
            return "Map<%s, %s>" % (self.args[0].v(), self.args[1].v())
        if k == "tuple":
            if len(self.args) == 0:
                return "()"
            return "(%s%s)" % (", ".join(a.v() for a in self.args), "," if len(self.args) == 1 else "")
        if k == "struct":
            return struct_name(self.name)
        if k == "void":
            return "()"
        if k == "stream":
            return "Stream"
        if k == "iter":
            return "int"
        if k == "opaque":
            return "int"
        raise TypeError("no verification type for %s %s" % (k, self.name))

    def __repr__(self):
        return "Ty(%s %s %s%s)" % (self.kind, self.name, self.args, "&" if self.ref else "")


def struct_name(n):
    return re.sub(r"\W+", "_", n.replace("panda::", "")).strip("_")


def split_args(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c in "<([{":
            depth += 1
        if c in ">)]}":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class TypeParser:
    def __init__(self, zmode=True, records=None, opaque=(), native=None):
        self.native = native        # a native integer type that is read as the mathematical integers
        self.zmode = zmode
        self.records = records or {}
        self.streams = False        # input streams are sequences of characters (otherwise what they contain is left open)
        self.ostreams = False       # an output stream is the text written so far
        self.cache = {}

    def parse(self, s):
        if s in self.cache:
            return self.cache[s]
        t = self._parse(s)
        self.cache[s] = t
        return t

    def _parse(self, s):
        s = s.strip()
        m = re.match(r"^(?:const )?char(?: const)? ?(\*(?: ?const)?)(\*?)( ?const)?( ?&)?$", s)
        if m and s.count("*") <= 2:      # the content of a string that a null character ends; the vector of arguments
            t = Ty("seq", "cstr", [Ty("int", "char", bits=8, signed=True)])
            if m.group(2):
                t = Ty("seq", "argv", [t])
            return t.copy(ref="&" if m.group(4) else None)
        ref = None
        const = False
        ptr = False
        while True:
            if s.endswith("&&"):
                ref = "&&"
                s = s[:-2].strip()
            elif s.endswith("&"):
                ref = "&"
                s = s[:-1].strip()
            elif s.endswith("*const"):
                ptr = True
                s = s[:-6].strip()
            elif s.endswith("*"):
                ptr = True
                s = s[:-1].strip()
            elif s.endswith(" const"):
                const = True
                s = s[:-6].strip()
            elif s.startswith("const "):
                const = True
                s = s[6:].strip()
            elif s.startswith("volatile "):
                s = s[9:].strip()
            else:
                break
        t = self.base(s)
        return t.copy(const=const, ref=ref, ptr=ptr)

    def base(self, s):
        if s == self.native:
            return Ty("Z", s)
        if s in INTS:
            b, sg = INTS[s]
            return Ty("int", s, bits=b, signed=sg)
        if s == "bool":
            return Ty("bool")
        if s == "void":
            return Ty("void")
        if s in ("panda::BigInteger", "panda::SafeInteger") and self.zmode:
            return Ty("Z", s)
        m = re.match(r"^(.*?\w)\s*<(.*)>$", s)
        arr = re.match(r"^(.*)\[(\d+)\]$", s)
        if arr:
            return Ty("seq", "array", [self.parse(arr.group(1))])
        if m and not s.startswith("(lambda"):
            n, a = m.group(1), split_args(m.group(2))
            n = n.replace("std::__cxx11::", "std::")
            if self.streams and n in ("std::basic_istream", "std::basic_ios", "std::basic_istringstream", "std::basic_ifstream"):
                return Ty("stream", n)
            if self.ostreams and n == "std::basic_ostream":
                return Ty("seq", "ostream", [Ty("int", "char", bits=8, signed=True)])
            if self.streams and n == "std::fpos":
                return Ty("Z", n)
            if n in ("std::vector", "std::list", "std::deque", "std::forward_list", "std::initializer_list", "std::array"):
                t = Ty("seq", n, [self.parse(a[0]).plain()])
                if n == "std::array":
                    t.extent = int(re.match(r"\d+", a[1]).group())
                return t
            if n == "std::basic_string":
                return Ty("seq", "std::string", [self.parse(a[0]).plain()])
            if n in ("std::set", "std::unordered_set"):
                return Ty("set", n, [self.parse(a[0]).plain()])
            if n in ("std::map", "std::unordered_map"):
                return Ty("map", n, [self.parse(a[0]).plain(), self.parse(a[1]).plain()])
            if n == "std::pair" and a == ["unsigned long", "int"] and not self.streams:
                return Ty("tuple", n, [Ty("int", a[0], bits=64), Ty("int", a[1], bits=32, signed=True)])     # a term of a map
            if n in ("std::pair", "std::tuple"):
                return Ty("tuple", n, [self.parse(x).plain() if not x.endswith("&") else self.parse(x) for x in a])
            if n == "__gnu_cxx::__normal_iterator":
                return Ty("iter", n, [self.parse(a[1]) if len(a) > 1 else self.parse(a[0])])
            if n in ("std::_Rb_tree_const_iterator", "std::_Rb_tree_iterator") and not a[0].startswith("std::pair<const "):
                return Ty("setit", n, [self.parse(a[0]).plain()])      # an iterator into a set is the element it denotes (None: end())
            if n == "std::reverse_iterator" and self.parse(a[0]).kind == "setit":
                return Ty("setit", "rev", self.parse(a[0]).args)
            if n == "std::reverse_iterator":
                return Ty("iter", "rev", [self.parse(a[0])])
            if n in ("std::_Rb_tree_const_iterator", "std::_Rb_tree_iterator", "std::_List_iterator", "std::_List_const_iterator",
                     "std::_Fwd_list_iterator", "std::_Fwd_list_const_iterator", "std::__detail::_Node_iterator"):
                return Ty("iter", n, [self.parse(a[0])])
        if self.streams and s == "panda::PositionGuardedFile":
            return Ty("stream", s)          # what is read through it; the position of the file is restored afterwards
        if s in self.records:
            return Ty("struct", s)
        if re.match(r"^panda::(\(anonymous namespace\)::)?[\w:]+$", s) and s not in ("panda::BigInteger", "panda::SafeInteger"):
            return Ty("int", s, bits=32, signed=True)      # enumeration
        if self.streams and re.match(r"^\(anonymous namespace\)::\w+$", s):
            return Ty("int", s, bits=32, signed=True)      # enumeration
        return Ty("opaque", s)
