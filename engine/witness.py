"""The witness schemas, read independently of the compiler under analysis: the members each generated message must
have, the names they have in JSON, and which take part in reading and writing."""
import os, re

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "witness")

# number kinds: C++ type of a scalar
SCALAR = {"double": "double", "float": "float", "int32": "int", "sint32": "int", "sfixed32": "int", "int64": "long", "sint64": "long", "sfixed64": "long",
          "uint32": "unsigned int", "fixed32": "unsigned int", "uint64": "unsigned long", "fixed64": "unsigned long", "bool": "bool"}


class Member:
    def __init__(self, name, type_, number, repeated, opts):
        self.name, self.type, self.number, self.repeated, self.opts = name, type_, number, repeated, opts
        self.transient = opts.get("transient") == "true"

    def __repr__(self):
        return "%s %s=%d" % (self.type, self.name, self.number)


class Schema:
    def __init__(self, name):
        text = open(os.path.join(DIR, name + ".proto"), encoding="utf-8").read()
        text = re.sub(r"//[^\n]*", "", text)
        m = re.search(r"^package\s+([\w.]+)\s*;", text, re.M)
        self.package = m.group(1) if m else ""
        self.ns = self.package.replace(".", "::") + "::" if m else ""
        self.options = dict(re.findall(r"^option\s+(\w+)\s*=\s*(\w+)\s*;", text, re.M))
        self.messages = {}
        for name, body in re.findall(r"message\s+(\w+)\s*\{(.*?)\}", text, re.S):
            ms = []
            for rep, ty, fn, num, opts in re.findall(r'(repeated\s+)?([\w.]+)\s+(\w+)\s*=\s*(\d+)\s*(?:\[((?:"[^"]*"|[^"\]])*)\])?\s*;', body):
                o = {k: v.strip('"') for k, v in re.findall(r'(\w+)\s*=\s*("[^"]*"|\w+)', opts)}
                ms.append(Member(fn, ty, int(num), bool(rep), o))
            self.messages[name] = ms

    def opt(self, n):
        return self.options.get(n) == "true"

    def jsonname(self, f):
        if self.opt("number_names"):
            return str(f.number).encode()
        return f.opts.get("name", f.name).encode()

    def cpp(self, f, rt):
        """C++ type of a member; rt: namespace of the runtime"""
        if f.type in SCALAR:
            base = SCALAR[f.type]
            one = "%s::field<%s>" % (rt, base)
        elif f.type == "string":
            one = base = "%s::string_field" % rt
        elif f.type == "bytes":
            one = base = "std::vector<unsigned char, std::allocator<unsigned char>>"
        else:
            one = base = self.ns + f.type
        if not f.repeated:
            return one
        c = "std::list" if self.opt("cpp_use_lists") else "std::vector"
        return "%s<%s, std::allocator<%s>>" % (c, base, base)
