"""LLVM IR as dumped by tools/irdump.cc: loading, liveness, loops, call graph."""
import json, os, re

STR = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"


def norm(dem):
    dem = dem.replace(STR, "std::string")
    dem = dem.replace("std::__cxx11::", "std::")
    dem = dem.replace(", std::char_traits<char>", "").replace("[abi:cxx11]", "")
    return dem


class Instr:
    __slots__ = ("op", "d", "t", "o", "loc", "x")

    def __init__(self, j):
        self.op = j["op"]
        self.d = j.get("d")
        self.t = j["t"]
        self.o = [conv(o) for o in j["o"]]
        self.loc = tuple(j["l"]) if "l" in j else None
        self.x = j
        if "var" in j:
            j["var"] = [(conv(a), s) for a, s in j["var"]]
        if "in" in j:
            j["in"] = {b: conv(v) for b, v in j["in"]}
        if "cases" in j:
            j["cases"] = [(int(v), b) for v, b in j["cases"]]
        if "fv" in j:
            j["fv"] = conv(j["fv"])


def conv(o):
    k = o[0]
    if k == "r":
        return ("r", o[1])
    if k == "c":
        return ("c", o[1], int(o[2]))
    if k == "d":
        return ("d", int(o[1]))
    if k == "g":
        return ("g", o[1], o[2])
    if k == "a":
        return ("a", [conv(x) for x in o[1]])
    if k == "pi":
        return ("pi", conv(o[1]))
    return tuple(o)


class Func:
    def __init__(self, name, j, mod):
        self.name = name
        self.dem = norm(j["dem"])
        self.raw = j["dem"]
        self.decl = j["decl"]
        self.ret = j["ret"]
        self.args = j["args"]
        self.noret = j["noret"]
        self.nounwind = j["nounwind"]
        self.file = mod.files[j["file"]] if j.get("file", -1) >= 0 else None
        self.line = j.get("line", 0)
        self.mod = mod
        self._live = None
        self._heads = None
        self._blocks = None
        if not self.decl:
            self._raw = j["blocks"]
            self.nreg = j["nreg"]

    @property
    def blocks(self):
        if self._blocks is None and not self.decl:
            self._blocks = [[Instr(i) for i in b] for b in self._raw]
            self._raw = None
        return self._blocks

    # ---- control flow
    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op in ("br", "switch"):
            s = list(t.x["s"])
            if t.op == "switch":
                s += [c[1] for c in t.x["cases"]]
            return s
        if t.op == "invoke":
            return [t.x["nb"], t.x["ub"]]
        return []

    def uses(self, ins):
        out = []

        def op(o):
            if o[0] == "r":
                out.append(o[1])
            elif o[0] == "a":
                for x in o[1]:
                    op(x)
        for o in ins.o:
            op(o)
        for a, s in ins.x.get("var", ()):
            op(a)
        if "fv" in ins.x:
            op(ins.x["fv"])
        return out

    def liveness(self):
        """live-in register sets at every block start (phi uses counted at the end of the predecessor)"""
        if self._live is not None:
            return self._live
        n = len(self.blocks)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        phiuse = [set() for _ in range(n)]   # registers used by phis of successors, by predecessor
        for b, ins in enumerate(self.blocks):
            for i in ins:
                if i.op == "phi":
                    for p, v in i.x["in"].items():
                        if v[0] == "r":
                            phiuse[p].add((b, v[1]))
                    dfn[b].add(i.d)
                    continue
                for r in self.uses(i):
                    if r not in dfn[b]:
                        use[b].add(r)
                if i.d is not None:
                    dfn[b].add(i.d)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set()
                for s in self.succs(b):
                    out |= live[s]
                out |= {r for (_, r) in phiuse[b]}
                new = use[b] | (out - dfn[b])
                if new != live[b]:
                    live[b] = new
                    ch = True
        self._live = (live, phiuse)
        return self._live

    def live_at(self, b, ip):
        """registers live just before instruction ip of block b"""
        key = (b, ip)
        c = self.__dict__.setdefault("_la", {})
        if key in c:
            return c[key]
        live, phiuse = self.liveness()
        out = set()
        for s in self.succs(b):
            out |= live[s]
        out |= {r for (_, r) in phiuse[b]}
        ins = self.blocks[b]
        for k in range(len(ins) - 1, ip - 1, -1):
            i = ins[k]
            if i.d is not None:
                out.discard(i.d)
            if i.op != "phi":
                out |= set(self.uses(i))
        c[key] = frozenset(out)
        return c[key]

    def heads(self):
        """loop headers: targets of back edges (DFS), with the set of latch blocks"""
        if self._heads is not None:
            return self._heads
        color = {}
        heads = {}
        stack = [(0, iter(self.succs(0)))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s, 0) == 0:
                    color[s] = 1
                    stack.append((s, iter(self.succs(s))))
                    break
                if color[s] == 1:
                    heads.setdefault(s, set()).add(b)
            else:
                color[b] = 2
                stack.pop()
        self._heads = heads
        return heads

    def calls(self):
        for b, ins in enumerate(self.blocks or ()):
            for k, i in enumerate(ins):
                if i.op in ("call", "invoke"):
                    yield b, k, i

    def where(self):
        return self.mod.map_line(self.file, self.line)


class Module:
    def __init__(self, path):
        import gc
        gc.disable()
        j = json.load(open(path))
        gc.enable()
        gc.freeze()
        self.path = path
        self.files = j["files"]
        self.globals = j["globals"]
        self.aliases = j.get("aliases", {})
        self.types = {norm(n): t for n, t in j.get("types", {}).items()}
        self.sizes = {n: t["size"] for n, t in self.types.items()}
        self.funcs = {n: Func(n, f, self) for n, f in j["funcs"].items()}
        self.bydem = {}
        for f in self.funcs.values():
            self.bydem.setdefault(f.dem, []).append(f)
        self.linemap = {}

    def find(self, pattern, defined=True):
        """functions whose normalised demangled name matches the regex (search)"""
        r = re.compile(pattern)
        return [f for f in self.funcs.values() if r.search(f.dem) and not (defined and f.decl)]

    def loc(self, loc):
        if loc is None:
            return "?"
        f = self.files[loc[0]] if loc[0] >= 0 else "?"
        return self.map_line(f, loc[1])

    def map_line(self, f, line):
        m = self.linemap.get(f)
        if m and line in m:
            return "%s:%d" % m[line]
        return "%s:%d" % (f, line)


def header_linemap(generated, headers):
    """maps the lines of a generated header to the runtime headers it embeds"""
    gen = open(generated, errors="replace").read().split("\n")
    out = {}
    for h in headers:
        src = open(h, errors="replace").read().split("\n")
        body = [(k + 1, l) for k, l in enumerate(src) if not (l.startswith("#") and "AUTO-REMOVE" in l)]
        # anchor: the include guard line
        guard = next((l for _, l in body if l.startswith("#ifndef")), None)
        if guard is None:
            continue
        pat = re.sub(r"\\\?_X_Y_Z", r"_\\w+?", re.escape(guard)).replace("_X_Y_Z", r"_\w+?")
        rx = re.compile("^" + pat + "$")
        start = next((k for k, l in enumerate(gen) if rx.match(l)), None)
        if start is None:
            continue
        first = next(k for k, (_, l) in enumerate(body) if l == guard)
        for k, (n, l) in enumerate(body[first:]):
            out[start + k + 1] = (h, n)
    return out
