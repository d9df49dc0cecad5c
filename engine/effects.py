"""Interprocedural effect analyses on the IR: call graph, writes through a pointer, escaping exceptions."""
import re


class CallGraph:
    def __init__(self, mod):
        self.mod = mod
        self.slots = {}         # offset in the vtable -> functions
        self.taken = set()
        for g, j in mod.globals.items():
            init = j.get("init") or []
            vt = g.startswith("_ZTV")
            for e in init if isinstance(init, list) else []:
                if isinstance(e, list) and len(e) == 3 and isinstance(e[2], list) and e[2] and e[2][0] == "f":
                    if vt:
                        self.slots.setdefault(e[0] - 16, set()).add(e[2][1])
                    else:
                        self.taken.add(e[2][1])
        self._callees = {}

    def callees(self, fn):
        """list of (block, index, instr, [function names])"""
        c = self._callees.get(fn.name)
        if c is None:
            c = self._callees[fn.name] = []
            defs = None
            for b, k, i in fn.calls():
                if "fn" in i.x:
                    c.append((b, k, i, [i.x["fn"]]))
                    continue
                if defs is None:
                    defs = {q.d: q for bl in fn.blocks for q in bl if q.d is not None}
                c.append((b, k, i, self.indirect(fn, i, defs)))
        return c

    def indirect(self, fn, i, defs):
        fv = i.x.get("fv")
        if fv and fv[0] == "r" and fv[1] in defs:
            l = defs[fv[1]]
            if l.op == "load" and l.o[0][0] == "r":
                g = defs.get(l.o[0][1])
                off = 0
                if g is not None and g.op == "getelementptr" and not g.x.get("var"):
                    off = g.x.get("off", 0)
                    g = defs.get(g.o[0][1]) if g.o[0][0] == "r" else None
                if g is not None and g.op == "load":
                    n = len(i.o)
                    return sorted(f for f in self.slots.get(off, ()) if f in self.mod.funcs and len(self.mod.funcs[f].args) == n)
        return []

    def reach(self, roots):
        """reachable functions with one call path each: name -> (caller name, call instr)"""
        out = {r: None for r in roots}
        work = list(roots)
        while work:
            n = work.pop(0)
            f = self.mod.funcs.get(n)
            if f is None or f.decl:
                continue
            for b, k, i, cs in self.callees(f):
                for c in cs:
                    if c not in out:
                        out[c] = (n, i)
                        work.append(c)
        return out

    def chain(self, reach, n):
        out = []
        while n is not None and reach.get(n) is not None:
            p, i = reach[n]
            out.append("%s calls %s at %s" % (self.mod.funcs[p].dem[:120], (self.mod.funcs[n].dem if n in self.mod.funcs else n)[:120], self.mod.loc(i.loc)))
            n = p
        return out[::-1]


# ---- writes

MUTLIBC = {"memcpy": 0, "memmove": 0, "memset": 0, "strcpy": 0, "strncpy": 0, "strcat": 0, "sprintf": 0, "snprintf": 0,
           "llvm.memcpy": 0, "llvm.memmove": 0, "llvm.memset": 0, "free": 0, "realloc": 0, "freelocale": 0, "newlocale": 2, "strtok": 0,
           "fgets": 0, "fread": 0, "read": 1, "operator delete": 0}
ACCESS = re.compile(r"::(begin|end|cbegin|cend|rbegin|rend|data|c_str|front|back|operator\[\]|at|find|get|base|operator\*|operator->|str)\(")


class Writes:
    """may a function write through one of its pointer parameters (at any depth)?

    D: a pointer into the protected object; H: a pointer to an object that holds such pointers.
    Flow-insensitive inside a function; summaries per (function, parameter, kind)."""

    def __init__(self, mod, cg, skip=lambda fn: False, guards=True):
        self.mod, self.cg, self.skip = mod, cg, skip
        self.memo = {}
        self.active = set()

    def param(self, name, k, kind="D"):
        """(writes: list of (where, function, what), returns derived, holder params)"""
        key = (name, k, kind)
        if key in self.memo:
            return self.memo[key]
        if key in self.active:
            return ([], False, set())
        f = self.mod.funcs.get(name)
        if f is None or f.decl:
            return self.external(name, f, k, kind)
        self.active.add(key)
        r = self.body(f, {("r", k)} if kind == "D" else set(), {("r", k)} if kind == "H" else set())
        self.active.discard(key)
        self.memo[key] = r
        return r

    def external(self, name, f, k, kind):
        dem = f.dem if f is not None else name
        base = re.sub(r"\.p\d.*$", "", name)
        for n, a in MUTLIBC.items():
            if (base == n or dem.startswith(n + "(")) and a == k and kind == "D":
                return ([("?", dem, "passed to " + dem)], False, set())
        if "(" not in dem or dem.startswith("llvm."):
            return ([], False, set())
        if kind == "H":
            return ([], True, set())
        method = re.match(r"^[^(]*::~?[\w<>=!+\-*/\[\] ,:]+\(", dem)
        if k == 0 and not dem.rstrip().endswith(" const") and dem.startswith("std::"):
            if ACCESS.search(dem):
                return ([], True, set())
            cls = dem[:dem.index("(")]
            if "::" in cls and re.search(r"^std::(string|vector|list|basic_|[io]stream|locale|map|set|deque|stringstream)", cls) and not re.search(r"::operator(==|<<|>>|<|!=|\+)$", cls):
                return ([("?", dem, "non-const " + dem)], False, set())
        return ([], bool(ACCESS.search(dem)), set())

    def body(self, f, D, H):
        """D, H: sets of operands"""
        D, H = set(D), set(H)
        writes, ret, holders = [], False, set()
        params = {("r", i) for i in range(len(f.args))}
        changed = True
        seenw = set()

        def w(loc, what):
            k = (loc, what)
            if k not in seenw:
                seenw.add(k)
                writes.append((self.mod.loc(loc), f.dem, what))
        while changed:
            changed = False
            n0 = (len(D), len(H), len(writes), len(holders), ret)
            for b, ins in enumerate(f.blocks):
                for i in ins:
                    op = i.op
                    if op in ("getelementptr", "bitcast", "freeze", "addrspacecast"):
                        if i.o[0] in D:
                            D.add(("r", i.d))
                        if i.o[0] in H:
                            H.add(("r", i.d))
                    elif op == "phi":
                        for v in i.x["in"].values():
                            if v in D:
                                D.add(("r", i.d))
                            if v in H:
                                H.add(("r", i.d))
                    elif op == "select":
                        for v in i.o[1:]:
                            if v in D:
                                D.add(("r", i.d))
                            if v in H:
                                H.add(("r", i.d))
                    elif op == "load":
                        if i.t == "ptr" and (i.o[0] in D or i.o[0] in H):
                            D.add(("r", i.d))
                    elif op == "store":
                        if i.o[1] in D:
                            w(i.loc, "store")
                        if i.o[0] in D:
                            H.add(i.o[1])
                            # the whole object the pointer is stored in
                            for bl in f.blocks:
                                for q in bl:
                                    if q.d is not None and ("r", q.d) == i.o[1] and q.op in ("getelementptr", "bitcast"):
                                        H.add(q.o[0])
                            if i.o[1] in params:
                                holders.add(i.o[1][1])
                    elif op in ("extractvalue", "insertvalue"):
                        if any(o in D for o in i.o):
                            D.add(("r", i.d))
                    elif op == "ret":
                        if i.o and (i.o[0] in D):
                            ret = True
            for b, k, i, cs in self.cg.callees(f):
                for c in cs:
                    for a, o in enumerate(i.o):
                        for kind, S in (("D", D), ("H", H)):
                            if o not in S:
                                continue
                            ws, r, hs = self.param(c, a, kind)
                            for wh, fn, what in ws:
                                w(i.loc, what if fn == f.dem else "%s (in %s, %s)" % (what, fn, wh) if "(in " not in what else what)
                            if r and i.d is not None:
                                D.add(("r", i.d))
                            for h in hs:
                                if h < len(i.o):
                                    H.add(i.o[h])
                                    if i.o[h] in params:
                                        holders.add(i.o[h][1])
                            # a structure returned through memory may hold the pointer
                            if r and i.o and self.sret(c) and a != 0:
                                H.add(i.o[0])
            changed = n0 != (len(D), len(H), len(writes), len(holders), ret)
        return (writes, ret, holders)

    def sret(self, c):
        f = self.mod.funcs.get(c)
        return f is not None and bool(f.args) and "sret" in f.args[0]


def dominated(fn, b):
    """blocks that can only be reached through block b"""
    reach = {0} if b != 0 else set()
    work = list(reach)
    while work:
        x = work.pop()
        for s in fn.succs(x):
            if s != b and s not in reach:
                reach.add(s)
                work.append(s)
    return set(range(len(fn.blocks))) - reach


def guarded_blocks(fn, guard):
    """blocks executed only while the guard of a function-local static is held"""
    out = set()
    defs = {q.d: (q, b) for b, bl in enumerate(fn.blocks) for q in bl if q.d is not None}
    for b, k, i in fn.calls():
        if i.x.get("fn") == "__cxa_guard_acquire" and i.o[0][0] == "g" and i.o[0][1] == guard:
            # find the branch on the result
            for bb, bl in enumerate(fn.blocks):
                t = bl[-1]
                if t.op == "br" and t.o and t.o[0][0] == "r":
                    c = defs.get(t.o[0][1], (None,))[0]
                    if c is not None and c.op == "icmp" and c.o[0] == ("r", i.d):
                        s = t.x["s"][0] if c.x["p"] == "ne" else t.x["s"][1]
                        out |= dominated(fn, s)
    return out


# ---- exceptions

THROWERS = {
    "std::__throw_invalid_argument": "std::invalid_argument",
    "std::__throw_bad_cast": "std::bad_cast",
    "std::__throw_bad_function_call": "std::bad_function_call",
    "std::__throw_bad_optional_access": "std::bad_optional_access",
    "std::__throw_regex_error": "std::regex_error",
    "std::__throw_system_error": "std::system_error",
    "std::__throw_runtime_error": "std::runtime_error",
    "std::__throw_ios_failure": "std::ios_base::failure",
    "std::__throw_bad_variant_access": "std::bad_variant_access",
    "__cxa_bad_cast": "std::bad_cast",
    "std::locale::locale(char const*)": "std::runtime_error",
    "std::locale::locale(std::string const&)": "std::runtime_error",
}


class Throws:
    """types of the exceptions that may leave each function: type -> (where, function)"""

    def __init__(self, mod, cg):
        self.mod, self.cg = mod, cg
        self.esc = {n: {} for n in mod.funcs}
        self.ti = {}
        for n in mod.globals:
            if n.startswith("_ZTI"):
                self.ti[n] = mod.globals[n]
        changed = True
        while changed:
            changed = False
            for n, f in mod.funcs.items():
                if f.decl:
                    continue
                if self.step(f):
                    changed = True

    def typename(self, g):
        d = self.mod.globals.get(g, {}).get("dem", g)
        return d.replace("typeinfo for ", "")

    def bases(self, g):
        out, work = set(), [g]
        while work:
            x = work.pop()
            if x in out:
                continue
            out.add(x)
            for e in (self.mod.globals.get(x, {}).get("init") or []):
                if isinstance(e, list) and len(e) == 3 and isinstance(e[2], list) and e[2] and e[2][0] == "g" and str(e[2][1]).startswith("_ZTI"):
                    work.append(e[2][1])
        return out

    def thrown(self, f, i, cs):
        out = {}
        for c in cs:
            if c == "__cxa_throw":
                g = i.o[1][1] if i.o[1][0] == "g" else "?"
                out[g] = (self.mod.loc(i.loc), f.dem)
            elif c == "__cxa_rethrow":
                for blk in f.blocks:
                    for q in blk:
                        if q.op == "landingpad":
                            for g, w in self.caught_by(f, q).items():
                                out[g] = w
            else:
                t = self.mod.funcs.get(c)
                if t is None:
                    continue
                if t.decl:
                    for k, v in THROWERS.items():
                        if t.dem == k or t.dem.startswith(k + "("):
                            out[v] = (self.mod.loc(i.loc), f.dem)
                else:
                    out.update(self.esc[c])
        return out

    def filter(self, lp, ex):
        """those not caught by the landing pad"""
        left = {}
        for g, w in ex.items():
            bs = self.bases(g) if g.startswith("_ZTI") else {g}
            for c in lp.o:
                if c[0] == "n" or c[0] == "g" and (c[1] in bs or c[1] == "_ZTISt9exception" and g.startswith("std::")):
                    break
            else:
                left[g] = w
        return left

    def caught_by(self, f, lp):
        out = {}
        for b, blk in enumerate(f.blocks):
            t = blk[-1]
            if t.op == "invoke" and any(q is lp for q in f.blocks[t.x["ub"]]):
                cs = [t.x["fn"]] if "fn" in t.x else self.cg.indirect(f, t, {q.d: q for bl in f.blocks for q in bl if q.d is not None})
                ex = self.thrown(f, t, [c for c in cs if c != "__cxa_rethrow"])
                left = self.filter(lp, ex)
                for g, w in ex.items():
                    if g not in left:
                        out[g] = w
        return out

    def step(self, f):
        esc = self.esc[f.name]
        n = len(esc)
        for b, k, i, cs in self.cg.callees(f):
            ex = self.thrown(f, i, cs)
            if i.op == "invoke" and ex:
                lp = next((q for q in f.blocks[i.x["ub"]] if q.op == "landingpad"), None)
                if lp is not None:
                    ex = self.filter(lp, ex)
            for g, w in ex.items():
                esc.setdefault(g, w)
        return len(esc) != n
