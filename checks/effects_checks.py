"""Checks that are effect analyses over the whole program."""
import re
from common import *
from engine.effects import CallGraph, Writes, Throws, guarded_blocks


def user_roots(mod, cg, internal=False):
    """what the users of the generated code can call: every callee of the witness functions"""
    roots = {}
    for f in mod.find(r"(^|[ :])use_\w+(<|\()"):
        if f.decl or not f.file or "witness" not in f.file:
            continue
        for b, k, i, cs in cg.callees(f):
            for c in cs:
                t = mod.funcs.get(c)
                if t is None or t.decl:
                    continue
                if not re.search(r"protogen_\w+::|\b(wa|wb|wc)::|^(Whole|Part)", t.dem) or t.dem.startswith("std::"):
                    if not re.search(r"^(bool |int |void )?(protogen_\w+::|wa::|wc::|Whole|Part)", t.dem):
                        continue
                if "::internal::" in t.dem.split("(")[0] and not internal:
                    continue
                if re.search(r"(^|[ :])use_\w+[<(]", t.dem):
                    continue
                roots[c] = t
    return roots


PROCESS_WIDE = {
    "setlocale": "changes the locale of the whole process", "std::locale::global": "changes the locale of the whole process",
    "setenv": "changes the environment", "putenv": "changes the environment", "unsetenv": "changes the environment",
    "srand": "shared random state", "rand": "shared random state", "random": "shared random state", "drand48": "shared random state",
    "strtok": "keeps state between calls", "asctime": "static buffer", "ctime": "static buffer", "localtime": "static buffer",
    "gmtime": "static buffer", "strerror": "static buffer", "tmpnam": "static buffer", "ecvt": "static buffer", "fcvt": "static buffer",
    "gcvt": "static buffer", "l64a": "static buffer", "localeconv": "static buffer", "signal": "process-wide handler",
    "sigaction": "process-wide handler", "chdir": "process-wide state", "umask": "process-wide state", "exit": "ends the process",
    "_exit": "ends the process", "abort": "ends the process", "quick_exit": "ends the process", "std::terminate": "ends the process",
    "std::set_terminate": "process-wide handler", "std::set_new_handler": "process-wide handler", "fesetround": "rounding mode",
    "std::ios_base::sync_with_stdio": "process-wide state", "fork": "process", "mblen": "keeps state between calls",
    "mbtowc": "keeps state between calls", "wctomb": "keeps state between calls",
}


def name_of(dem):
    return re.sub(r"\(.*$", "", dem)


def thread_isolation(prog, rep):
    rep.rules.append("for each translation unit of generated code: no function reachable from the user-visible operations writes, directly or "
                     "through any pointer derived from it, to a variable that outlives the call and is shared between threads, except while the guard "
                     "of its one-time initialisation is held; none calls a function that changes process-wide state; the operations that are const for "
                     "the caller never write through the message")
    for w in ("wa", "wb", "wc"):
        mod = prog.mod(w)
        cg = CallGraph(mod)
        roots = user_roots(mod, cg, True)
        rep.count("entry_points", len(roots))
        reach = cg.reach(roots)
        wr = Writes(mod, cg)
        shared = {}
        for g, j in mod.globals.items():
            if j.get("const") or j.get("decl") or j.get("tls") or g.startswith(("_ZTV", "_ZTI", "_ZTS", "_ZGV", "__", "llvm.")):
                continue
            shared[g] = j
        rep.count("shared_variables", len(shared))
        for n in sorted(reach):
            f = mod.funcs.get(n)
            if f is None:
                continue
            dn = name_of(f.dem)
            if f.decl:
                if dn in PROCESS_WIDE and n in reach:
                    # only calls made by the code under analysis
                    p, i = reach[n]
                    if ours(mod.funcs[p], mod):
                        rep.add("process-state", "%s is called (%s)" % (dn, PROCESS_WIDE[dn]), mod.loc(i.loc), mod.funcs[p].dem, cg.chain(reach, n))
                continue
            rep.count("functions")
            used = {}
            for b, bl in enumerate(f.blocks):
                for i in bl:
                    for o in operands(i):
                        if o[0] == "g" and o[1] in shared:
                            used.setdefault(o[1], []).append((b, i, o))
            for g, uses in used.items():
                rep.count("uses_of_shared_variables", len(uses))
                safe = guarded_blocks(f, "_ZGV" + g[2:]) if g.startswith("_Z") else set()
                D = {o for b, i, o in uses if b not in safe}
                if not D:
                    continue
                ws, ret, _ = wr.body(masked(f, safe), D, set())
                ws = list(ws)
                # the address is handed to the callers
                todo, seen = [f.name] if ret else [], set()
                while todo:
                    callee = todo.pop()
                    if callee in seen:
                        continue
                    seen.add(callee)
                    for n2 in sorted(reach):
                        f2 = mod.funcs.get(n2)
                        if f2 is None or f2.decl:
                            continue
                        ds = {("r", i.d) for b, k, i, cs in cg.callees(f2) if callee in cs and i.d is not None}
                        if ds:
                            w2, r2, _ = wr.body(f2, ds, set())
                            ws += w2
                            if r2:
                                todo.append(n2)
                for where, fn, what in ws:
                    if where.startswith("?"):
                        where = mod.loc(uses[0][1].loc)
                    rep.add("shared-write", "the shared variable '%s' is written after its initialisation: %s" % (short_global(mod, g), what), where, f.dem,
                            cg.chain(reach, n))
        # operations that are const for the caller
        for c, t in sorted(roots.items()):
            if re.search(r"::(serialize|empty|equal|operator==|operator!=)\(.*\) const$", t.dem) and re.search(r"^(wa|wc)::|^(Whole|Part)::|^protogen_\w+::(message|field|string_field)", t.dem):
                rep.count("const_operations")
                sr = 1 if t.args and "sret" in t.args[0] else 0
                for where, fn, what in wr.param(c, sr, "D")[0]:
                    rep.add("const-write", "a const operation writes to the message: %s" % what, where, t.dem)
    rep.need("entry_points", 50)
    rep.need("const_operations", 10)
    rep.sample("shared variables: " + ", ".join(sorted(shared)[:4]))


class masked:
    """a function without the instructions of some blocks"""

    def __init__(self, f, blocks):
        self.f, self.name, self.dem, self.args, self.decl, self.mod = f, f.name + "#" + str(sorted(blocks)), f.dem, f.args, False, f.mod
        self.blocks = [bl if b not in blocks else [] for b, bl in enumerate(f.blocks)]

    def calls(self):
        for b, ins in enumerate(self.blocks):
            for k, i in enumerate(ins):
                if i.op in ("call", "invoke"):
                    yield b, k, i


def operands(i):
    out = list(i.o)
    if i.op == "phi":
        out += list(i.x["in"].values())
    return [o for o in out if type(o) is tuple]


def short_global(mod, g):
    return mod.globals[g].get("dem", g)[-120:]


def ours(f, mod):
    """code of the repository (generated header or sources), not of a library"""
    return f.file is not None and "/usr/" not in f.file


def no_exceptions(prog, rep):
    rep.rules.append("interprocedural exception-effect analysis: the set of exception types that may leave each function (throw expressions, throwing "
                     "conversions of the library, minus what the handlers on the way catch) is empty for every operation a user of the generated code can call")
    rep.assumptions.append("exhaustion of memory (std::bad_alloc, std::length_error) and exceptions thrown by user-supplied streams are outside the property")
    for w in ("wa", "wb", "wc"):
        mod = prog.mod(w)
        cg = CallGraph(mod)
        roots = user_roots(mod, cg)
        th = Throws(mod, cg)
        rep.count("entry_points", len(roots))
        reach = cg.reach(roots)
        rep.count("functions", sum(1 for n in reach if n in mod.funcs and not mod.funcs[n].decl))
        rep.count("throw_sites", sum(1 for n in reach if n in mod.funcs and not mod.funcs[n].decl for b, k, i, cs in cg.callees(mod.funcs[n]) if "__cxa_throw" in cs))
        for c, t in sorted(roots.items()):
            for g, (where, fn) in th.esc[c].items():
                rep.add("exception", "%s may leave %s" % (th.typename(g), t.dem[:100]), where, fn, cg.chain(cg.reach([c]), next((f.name for f in mod.bydem.get(fn, ())), c)))
    rep.need("entry_points", 50)
