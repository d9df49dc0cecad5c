"""Schemas of every shape, the headers generated for them, and what clang's type checker says about programs that include
them. Nothing that is generated is ever executed."""
import os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from .build import CLANGXX

SCALARS = ("double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool")
NUMBER = {"double": "double", "float": "float", "int32": "int32_t", "sint32": "int32_t", "sfixed32": "int32_t", "int64": "int64_t", "sint64": "int64_t",
          "sfixed64": "int64_t", "uint32": "uint32_t", "fixed32": "uint32_t", "uint64": "uint64_t", "fixed64": "uint64_t", "bool": "bool"}


class Field:
    def __init__(self, type_, name, number, repeated=False, opts=""):
        self.type, self.name, self.number, self.repeated, self.opts = type_, name, number, repeated, opts

    def text(self):
        return "    %s%s %s = %d%s;\n" % ("repeated " if self.repeated else "", self.type, self.name, self.number, " [%s]" % self.opts if self.opts else "")


class Schema:
    def __init__(self, name, messages, package="", options=()):
        self.name, self.messages, self.package, self.options = name, messages, package, options
        self.id = name.replace("/", "-")[-200:]

    def text(self):
        s = 'syntax = "proto3";\n'
        if self.package:
            s += "package %s;\n" % self.package
        for o in self.options:
            s += "option %s = true;\n" % o
        for m, fs in self.messages:
            s += "message %s {\n%s}\n" % (m, "".join(f.text() for f in fs))
        return s

    def cpp(self, m):
        return "::" + (self.package.replace(".", "::") + "::" if self.package else "") + m

    def member(self, f, rt):
        """the C++ type README.md gives for the member"""
        base = one = None
        if f.type in NUMBER:
            base = NUMBER[f.type]
            one = "::%s::field<%s>" % (rt, base)
        elif f.type == "string":
            one = base = "::%s::string_field" % rt
        elif f.type == "bytes":
            one = base = "std::vector<uint8_t>"
        else:
            one = base = self.cpp(f.type)
        if not f.repeated:
            return one
        return "std::%s<%s>" % ("list" if "cpp_use_lists" in self.options else "vector", base)


def twins():
    """file names that differ in case, in a digit, at the end of a long path, or in a directory only"""
    d = "a_directory_with_a_long_name_" * 3
    return ["twins/" + x for x in ("schema", "Schema", "schemas", "schema1", "schema2", "u/same", "v/same", d + "/" + d + "/" + d + "A", d + "/" + d + "/" + d + "B")]


def schemas():
    out = []
    F = Field
    # one kind of field alone
    for lists in (0, 1):
        o = ("cpp_use_lists",) if lists else ()
        for rep in (0, 1):
            for t in SCALARS + ("string", "bytes", "Other"):
                ms = [("Only", [F(t, "a_field", 1, rep)])]
                if t == "Other":
                    ms.append(("Other", []))
                out.append(Schema("one_%s%s%s" % (t, "_r" if rep else "", "_l" if lists else ""), ms, "p%d" % (len(out) + 1), o))
    # kinds of fields that need different parts of the runtime, in every combination, in one message or spread over several
    kinds = [("int32", 0), ("string", 0), ("bytes", 0), ("Empty", 1), ("bool", 1), ("string", 1), ("bytes", 1)]
    for k in range(1, 1 << len(kinds)):
        sel = [x for i, x in enumerate(kinds) if k >> i & 1]
        if len(sel) < 2:
            continue
        if len(sel) > 3 and k % 5:
            continue
        fs = [F(t, "f%d" % i, i + 1, r) for i, (t, r) in enumerate(sel)]
        if k & 1:
            ms = [("All", fs)]
        else:
            ms = [("Msg%d" % i, [f]) for i, f in enumerate(fs)]
        if k % 3 == 0:
            ms.reverse()
        if any(t == "Empty" for t, r in sel):
            ms.append(("Empty", []))
        out.append(Schema("mix_%d" % k, ms, "mix.m%d" % k))
    # packages, options
    mixed = [("Leaf", [F("string", "text", 7), F("bytes", "data", 8, 1)]), ("None", []), ("Hidden", [F("string", "h", 1, 0, "transient = true"), F("Leaf", "l", 2, 1, "transient = true")]),
             ("Node", [F("Leaf", "leaf", 3), F("Leaf", "leaves", 536870911, 1), F("double", "number", 1, 0, 'name = "a number, written: $1$ %d ?"'), F("None", "none", 2),
                       F("bool", "gone", 4, 0, "transient = true"), F("Hidden", "hidden", 5, 1), F("uint64", "big", 6, 1), F("bytes", "b", 18999),
                       F("string", "named", 20000, 0, 'name = "\u00e9\u00a7"'), F("string", "texts", 20001, 1)])]
    for i in range(8):
        o = tuple(n for k, n in enumerate(("cpp_use_lists", "number_names", "obfuscate_strings")) if i >> k & 1)
        out.append(Schema("opt_%d" % i, mixed, ("", "a", "a.b", "Up.low.X_1", "deep.er.also.deep.er_", "n1", "_u", "a.b.c.d.e.f.g.h")[i], o))
    out.append(Schema("nopackage", mixed))
    # messages that need each other, declared in any order
    n = 6
    chain = [("C%d" % i, [F("C%d" % (i + 1), "next", 1)] if i < n else [F("int32", "value", 1)]) for i in range(n + 1)]
    out.append(Schema("chain", chain, "chain"))
    out.append(Schema("chain_back", chain[::-1], "chain_back"))
    dia = [("Top", [F("Left", "l", 1), F("Right", "r", 2, 1)]), ("Right", [F("Bottom", "b", 1, 1), F("Left", "l", 2)]), ("Left", [F("Bottom", "b", 1)]), ("Bottom", [F("string", "s", 1)])]
    for i in range(4):
        out.append(Schema("diamond%d" % i, dia[i:] + dia[:i], "dia%d" % i))
    full = [("F%d" % i, [F("F%d" % j, "f%d" % j, j, j % 2) for j in range(i + 1, 7)]) for i in (3, 1, 5, 2, 6, 4)]
    out.append(Schema("net", full, "net"))
    # many fields, long names
    out.append(Schema("many", [("M64", [F(("int32", "string", "bytes", "bool")[i % 4], "field_%d" % i, i + 1, i % 3 == 0) for i in range(64)]), ("M33", [F("uint32", "f%d" % i, 100 + i) for i in range(33)])], "many"))
    long_ = "a_name_that_is_quite_long_" * 8
    out.append(Schema("names", [("T" + long_, [F("int32", long_, 1), F("string", long_ + "2", 2), F("bytes", "x", 3), F("T2", "_", 4, 1)]), ("T2", [F("double", "A", 1), F("double", "a", 2), F("double", "a1_", 3)])], "names"))
    # files whose paths differ in one place
    for i, n in enumerate(twins()):
        out.append(Schema(n, [("Twin", [F(("int32", "string")[i % 2], "a", 1)])], "twin%d" % i))
    # names that generated code may use itself
    busy = "value name i n a b c t s it ctx os tok os_ obj that other index result first begin end key temp tmp data size length type id read out in params label mask text count".split()
    out.append(Schema("busy", [("M%d" % k, [F(("string", "int32", "Deep", "bytes")[(i + k) % 4], w, i + 1, i % 5 == 1) for i, w in enumerate(busy)]) for k in range(2)] + [("Deep", [])], "busy"))
    return out


class Battery:
    def __init__(self, prog):
        self.dir = os.path.join(prog.dir, "battery-%d" % os.getpid())
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.rt = prog.ns
        self.exe = os.path.join(prog.dir, "protogen")
        self.schemas = schemas()
        self.refused = {}
        with ThreadPoolExecutor(8) as ex:
            for s, e in zip(self.schemas, ex.map(self.generate, self.schemas)):
                if e is not None:
                    self.refused[s.name] = e

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def header(self, s):
        return os.path.join(self.dir, s.name + ".pg.hh")

    def generate(self, s):
        p = os.path.join(self.dir, s.name + ".proto")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w", encoding="utf-8").write(s.text())
        try:
            r = subprocess.run([self.exe, p, self.header(s)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=30)
        except subprocess.TimeoutExpired:
            return "the compiler of schemas does not end"
        if r.returncode != 0:
            return (r.stdout.strip().split("\n") or [""])[0] or "exit status %d" % r.returncode
        return None

    def compile(self, name, text, args=("-fsyntax-only",), out=None):
        """(line, message) of the first errors"""
        p = os.path.join(self.dir, name + ".cc")
        open(p, "w", encoding="utf-8").write(text)
        r = subprocess.run([CLANGXX, "-w", "-ferror-limit=5", "-I" + self.dir, p] + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
        if r.returncode == 0:
            return []
        es = re.findall(r"^(.*?):(\d+):\d+: (?:fatal )?error: (.*)$", r.stdout, re.M)
        return [(os.path.basename(f), int(l), m) for f, l, m in es] or [("?", 0, r.stdout[-500:])]

    def each(self, f, items):
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(f, items))


def operations(E, rt):
    """a user's view of an entity: each expression with the type it must have"""
    v = "std::declval<%s>()"
    e, c = v % (E + "&"), v % ("const " + E + "&")
    P, out = v % ("::%s::Parameters*" % rt), []
    for t in ("const std::string&", "const std::vector<char>&", "std::istream&", "::%s::istream&" % rt, "const char*, size_t"):
        a = ", ".join(v % x.strip() for x in t.split(", "))
        out += [("%s.deserialize(%s)" % (e, a), "bool", "deserialize(%s)" % t), ("%s.deserialize(%s, %s)" % (e, a, P), "bool", "deserialize(%s, Parameters*)" % t)]
    for t in ("std::string&", "std::vector<char>&", "std::ostream&", "::%s::ostream&" % rt, "char*, size_t"):
        a = ", ".join(v % x.strip() for x in t.split(", "))
        o = e if t.startswith("char*") else c
        out += [("%s.serialize(%s)" % (o, a), "bool", "serialize(%s)" % t), ("%s.serialize(%s, %s)" % (o, a, P), "bool", "serialize(%s, Parameters*)" % t)]
    out += [("%s.empty()" % c, "bool", "empty()"), ("%s == %s" % (c, c), "bool", "operator=="), ("%s != %s" % (c, c), "bool", "operator!="), ("%s.equal(%s)" % (c, c), "bool", "equal()"),
            ("%s.clear()" % e, "void", "clear()"), ("%s.swap(%s)" % (e, e), "void", "swap()")]
    return out
