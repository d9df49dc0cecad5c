"""main of the schema compiler: every outcome of opening, reading, parsing, generating and closing, in every combination the
code lets happen; what the exit status, the standard error and the standard output say about it."""
import re
from .explore import *
from .models import MODELS, getS, setS, cell_get, cell_set, num_piece, piece_of
from . import models
from .interp import STOP, Throw
from .vals import *

MM = []
EXC = "_ZTIN8protogen9exceptionE"


def mmodel(*pats):
    def deco(f):
        for p in pats:
            MM.append((re.compile(p), f))
        return f
    return deco


def role(st, p):
    """which stream an address lies in"""
    if type(p) is tuple and p[0] == "P":
        for k in ("in", "out", "cout", "cerr", "cin", "clog"):
            if st.ghost[k] and st.ghost[k][0][1] == p[1]:
                return k
    raise Unmodelled("another stream")


def become(m, st, p, k):
    if st.ghost[k]:
        raise Unmodelled("a second stream of its kind")
    st.ghost[k] = (("#obj", p[1]),)
    if p[2] != 0:
        raise Unmodelled("stream inside an object")
    vt = st.alloc("heap", "vtable of the stream", 64, {0: (256, 8)})
    st.wobj(p[1]).cells[0] = (("P", vt, 24), 8)


def outcome(st, name):
    """an outcome of the world: 1 or 0"""
    v = ("T", st.finsym(name, 2), (0, 1), 1)
    r = int(st.decide(v))
    st.note("in", name if r else "not " + name)
    return r


def fork(m, st, name):
    g = st.ghost
    if g["=pick"] is None or g["=pick"][0] != name:
        raise Suspend("outcome", name)
    v, g["=pick"] = g["=pick"][1], None
    return v


# ---- the streams
@mmodel(r"^std::(basic_)?ifstream(<.*>)?::(basic_)?ifstream\((char const\*|std::string const&), std::_Ios_Openmode\)$", r"^std::(basic_)?ifstream(<.*>)?::open\((char const\*|std::string const&), std::_Ios_Openmode\)$")
def _(m, st, fn, a, ins):
    d = m.env
    v = fork(m, st, "the schema can be opened")
    if "::open(" not in fn.dem:
        become(m, st, a[0], "in")
    d.path(st, a[1], 1, "string" in fn.dem.split("(")[1], "the schema")
    st.ghost["=in_open"] = v


@mmodel(r"^std::(basic_)?ifstream(<.*>)?::(basic_)?ifstream\(\)$")
def _(m, st, fn, a, ins):
    become(m, st, a[0], "in")


@mmodel(r"^std::(basic_)?ofstream(<.*>)?::(basic_)?ofstream\(\)$")
def _(m, st, fn, a, ins):
    become(m, st, a[0], "out")


@mmodel(r"^std::(basic_)?ofstream(<.*>)?::(basic_)?ofstream\((char const\*|std::string const&), std::_Ios_Openmode\)$", r"^std::(basic_)?ofstream(<.*>)?::open\((char const\*|std::string const&), std::_Ios_Openmode\)$")
def _(m, st, fn, a, ins):
    d = m.env
    v = fork(m, st, "the output can be opened")
    if "::open(" not in fn.dem:
        become(m, st, a[0], "out")
    d.path(st, a[1], 2, "string" in fn.dem.split("(")[1], "the output")
    if type(a[2]) is not int:
        raise Unmodelled("unknown mode of the output")
    if a[2] & 1 or a[2] & 8:
        d.fail(st, "the header is added to what the output file already holds", "output")
    st.ghost["=opened"] = 1
    if not v:
        st.ghost["=out_fail"] = 1


@mmodel(r"^std::(basic_)?[io]?fstream(<.*>)?::~(basic_)?[io]?fstream\(\)$")
def _(m, st, fn, a, ins):
    return None


@mmodel(r"^std::(basic_)?[io]?fstream(<.*>)?::is_open\(\)( const)?$")
def _(m, st, fn, a, ins):
    g = st.ghost
    return g["=in_open"] if role(st, a[0]) == "in" else int(g["=opened"] and not g["=out_fail"])


def status(st, k):
    """(eof or fail, bad) of a stream; None: not known"""
    g = st.ghost
    if k == "in":
        if not g["=in_open"]:
            return 1, 0
        return (None if g["=read"] else 0), g["=in_bad"]
    if k == "out":
        return g["=out_fail"], g["=out_bad"]
    if k == "cout":
        return 0, g["=cout_bad"]
    return 0, 0


@mmodel(r"^std::basic_ios<char, .*>::(good|bad|fail|operator!|operator bool)\(\) const$", r"^std::basic_ios<char>::(good|bad|fail|operator!|operator bool)\(\) const$", r"^std::(basic_)?ios(<.*>)?::(good|bad|fail|operator!|operator bool)\(\) const$")
def _(m, st, fn, a, ins):
    f, b = status(st, role(st, a[0]))
    k = re.search(r"::(good|bad|fail|operator!|operator bool)\(\) const$", fn.dem).group(1)
    if k == "bad":
        return b
    if f is None:
        v = fork(m, st, "the schema was read to its end")
        f = v
    r = int(f or b)
    return r if k in ("fail", "operator!") else 1 - r


@mmodel(r"^std::(basic_)?ostream(<.*>)?::flush\(\)$", r"^std::(basic_)?ofstream(<.*>)?::close\(\)$")
def _(m, st, fn, a, ins):
    d = m.env
    g = st.ghost
    k = role(st, a[0])
    close = "close" in fn.dem
    if k not in ("out", "cout"):
        return None if close else a[0]
    if close and (g["=out_fail"] or not g["=opened"]):
        g["=out_fail"] = 1      # nothing to close
        return None
    if g["=pending"] == k and not (g["=out_fail"] and k == "out"):
        if not fork(m, st, "the header can be written to the %s" % ("file" if k == "out" else "standard output")):
            if k == "cout":
                g["=cout_bad"] = 1
            elif close:
                g["=out_fail"] = 1
            else:
                g["=out_bad"] = 1
            g["=lost"] = 1
        elif close:
            g["=opened"] = 2
        g["=pending"] = 0
    if close and g["=opened"] == 1 and not g["=lost"]:
        if not fork(m, st, "the file can be closed"):
            g["=out_fail"] = g["=lost"] = 1
        g["=opened"] = 2
    return None if close else a[0]


@mmodel(r"^std::(basic_)?ifstream(<.*>)?::close\(\)$")
def _(m, st, fn, a, ins):
    return None


# ---- files
@mmodel(r"^realpath$")
def _(m, st, fn, a, ins):
    d = m.env
    v = fork(m, st, "the path can be resolved")
    d.path(st, a[0], 1, False, "the schema")
    if not v:
        st.ghost["=nopath"] = 1
        return 0
    p = a[1]
    if p == 0:
        p = ("P", st.alloc("heap", "the path", 4096), 0)
    o = st.wobj(p[1])
    o.cells = {k: c for k, c in o.cells.items() if type(k) is int and not p[2] <= k < p[2] + 4096}
    o.x["ctext"] = (p[2], st.ghost["full"], 4096)
    return p


@mmodel(r"^free$")
def _(m, st, fn, a, ins):
    return None


@mmodel(r"^exit$", r"^_exit$", r"^quick_exit$", r"^std::(_|quick_)?exit\(int\)$")
def _(m, st, fn, a, ins):
    st.ghost["=fast"] = int("_" in fn.dem)
    return STOP


@mmodel(r"^(std::)?(abort|terminate)(\(\))?$", r"^__clang_call_terminate$")
def _(m, st, fn, a, ins):
    return STOP


# ---- the schema compiler
@mmodel(r"^protogen::Proto3::(Proto3|~Proto3)\(\)$", r"^protogen::CppGenerator::(CppGenerator|~CppGenerator)\(\)$")
def _(m, st, fn, a, ins):
    return None


@mmodel(r"^std::vector<std::shared_ptr<protogen::Message>.*>::(c?begin|c?end)\(\)( const)?$")
def _(m, st, fn, a, ins):
    if not st.ghost["=parsed"]:
        raise Unmodelled("messages before parsing")
    return ("P", st.ghost["objs"][0][1], 0)


@mmodel(r"^std::vector<std::shared_ptr<protogen::Message>.*>::(size|empty)\(\) const$")
def _(m, st, fn, a, ins):
    return int("empty" in fn.dem)


@mmodel(r"^protogen::Proto3::parse\(std::istream&, std::string const&\)$")
def _(m, st, fn, a, ins):
    d = m.env
    g = st.ghost
    v = fork(m, st, "the schema is accepted")
    if role(st, a[1]) != "in" or not g["=in_open"]:
        d.fail(st, "something else than the schema is parsed", "input")
    if g["=parsed"]:
        d.fail(st, "the schema is parsed twice", "input")
    g["=parsed"] = g["=read"] = 1
    if not v:
        g["=refused"] = 1
        raise Throw(EXC, d.exception(st))
    g["=in_bad"] = 1 - g["=readable"]


@mmodel(r"^protogen::CppGenerator::generate\(protogen::Proto3&, std::ostream&\)$")
def _(m, st, fn, a, ins):
    d = m.env
    g = st.ghost
    v = fork(m, st, "code can be generated for the schema")
    if not g["=parsed"]:
        d.fail(st, "code is generated before the schema is parsed", "input")
    if g["=generated"]:
        d.fail(st, "code is generated twice", "output")
    k = role(st, a[2])
    if k != ("out" if g["=argc"] == 3 else "cout"):
        d.fail(st, "the header is written to another place than the one asked for", "output")
    g["=pending"] = k
    if not v:
        g["=refused"] = 1
        raise Throw(EXC, d.exception(st))
    g["=generated"] = 1


class Main(Driver):
    name = "main"

    def __init__(self, mod):
        Driver.__init__(self, mod, MM + MODELS)
        models.KEYWORDS.clear()
        self.count = {}
        fs = [f for f in mod.find(r"^main$") if f.blocks]
        if len(fs) != 1:
            raise Anchor("main")
        self.entry = fs[0]
        self.m.monitor = None

    def fail(self, st, what, rule):
        raise Violation(what, rule=rule, where=(self.entry.where(), self.entry.dem))

    def start(self):
        out = []
        for argc in (1, 2, 3, 4):
            for readable in (1, 0):
                st = State()
                g = st.ghost
                for k in ("in", "out", "cout", "cerr", "cin", "clog"):
                    g[k] = ()
                for k in ("=in_open", "=in_bad", "=read", "=parsed", "=generated", "=refused", "=opened", "=out_fail", "=out_bad", "=cout_bad", "=lost", "=pending", "=nopath", "=fast"):
                    g[k] = 0
                g["=argc"], g["=readable"], g["=pick"] = argc, readable, None
                g["err"] = ("S", ())
                g["full"] = ("S", (("v", st.widesym("path", 0, None)),))
                dummy = st.alloc("heap", "the messages", 16)
                g["objs"] = (("#obj", dummy),)
                for k in ("cout", "cerr", "cin", "clog"):
                    nm = "_ZSt%d%s" % (len(k), k)
                    if nm in self.mod.globals:
                        become(self.m, st, ("P", self.m.globobj(st, nm), 0), k)
                argv = st.alloc("heap", "argv", 8 * (argc + 1), {8 * argc: (0, 8)})
                args = ()
                for i in range(argc):
                    s = st.alloc("seq", "argument %d" % i, x={"esize": 1, "n": lin(st.widesym("arglen", 0, None)), "cstr": True})
                    st.mem[argv].cells[8 * i] = (("P", s, 0), 8)
                    args += (("#obj", s),)
                g["args"] = args
                st.note("in", "%d argument%s" % (argc - 1, "" if argc == 2 else "s"))
                if not readable:
                    st.note("in", "a schema that cannot be read to its end")
                self.m.call_function(st, self.entry, [argc, ("P", argv, 0)])
                out.append(st)
        return out

    def exception(self, st):
        t = self.mod.types["protogen::exception"]
        e = st.alloc("exc", "exception", t["size"])
        for mm in t["members"]:
            n, off, ty = mm[0], mm[1], mm[2]
            if "basic_string" in ty or "std::string" in ty:
                v = ("S", (("v", st.widesym("message", 1, None)),))
                st.ghost["message"] = v
                st.mem[e].cells[off] = (v, 32)
            else:
                v = lin(st.widesym(n, 0, None), 32)
                st.ghost["at_" + n] = v
                st.mem[e].cells[off] = (v, 4)
        return ("P", e, 0)

    def path(self, st, p, k, string, what):
        g = st.ghost
        v = getS(self.m, st, p) if string else models.cstr(self.m, st, p)
        if k >= len(g["args"]):
            self.fail(st, "%s is taken from an argument that was not given" % what, "arguments")
        s = g["args"][k][1]
        want = ("S", (("t", s, 0, st.mem[s].x["n"]),))
        if v != want and v != g["full"]:
            self.fail(st, "the path of %s is not the one given" % what, "arguments")

    def output(self, m, st, p, v):
        g = st.ghost
        k = role(st, p)
        if k in ("cerr", "clog"):
            g["err"] = s_cat(g["err"], v)
        else:
            self.fail(st, "something else than the header is written to the output", "output")

    # ---- outcomes: no joins, the number of paths is small
    def join(self, st, s):
        self.stats["states"] += 1
        self.joined = None
        return True

    def suspend_all(self, st, s):
        return []

    def handle(self, r):
        if r.kind == "suspend":
            self.suspends[r.val.kind] = self.suspends.get(r.val.kind, 0) + 1
            out = []
            for v in (1, 0):
                s2 = r.st.copy()
                s2.ghost["=pick"] = (r.val.info, v)
                s2.note("in", r.val.info if v else "it is not so that " + r.val.info)
                out.append(s2)
            return out
        return Driver.handle(self, r)

    # ---- the end
    def text(self, v):
        return "".join(p[1].decode("latin-1") if p[0] == "k" else "<%r>" % (p,) for p in s_flat(v[1]))

    def on_exit(self, st, args):
        if not args:
            self.fail(st, "the program is aborted", "status")
        self.end(st, args[0])
        return ()

    def on_return(self, st, val):
        self.end(st, val)
        return ()

    def on_throw(self, st, exc):
        self.fail(st, "an exception leaves main", "status")

    def end(self, st, code):
        g = st.ghost
        if type(code) is tuple:
            code = int(st.decide(icmp("ne", code, 0, 32)))
        code &= 255
        k = "out" if g["=argc"] == 3 else "cout"
        causes = [w for c, w in ((g["=refused"], "the schema was refused"), (g["=argc"] not in (2, 3), "there is no schema to compile, or more than two paths"),
                                 (not g["=in_open"], "the schema was not opened"), (not g["=readable"], "the schema was not read to its end"),
                                 (g["=out_fail"] or g["=lost"], "the header was not written completely")) if c]
        undone = [w for c, w in ((not g["=generated"], "no header was generated"), (k == "out" and not g["=opened"], "the output was not opened")) if c]
        self.count["outcomes"] = self.count.get("outcomes", 0) + 1
        if code == 0:
            if causes or undone:
                self.fail(st, "the exit status is 0 although " + (causes + undone)[0], "status")
            if g["=pending"]:
                self.fail(st, "the exit status is 0 while the header is not written out: whether that succeeds is not asked", "status")
            return
        if not causes and not g["=nopath"]:
            self.fail(st, "the exit status is %d although nothing went wrong" % code, "status")
        t = self.text(g["err"])
        if not t and not g["=nopath"]:
            self.fail(st, "it fails without a message on the standard error", "message")
        if g["=refused"] and g["=in_open"]:
            self.count["diagnostics"] = self.count.get("diagnostics", 0) + 1
            line, col = (("S", (num_piece(st, ("num", g["at_" + n], "int")),)) for n in ("line", "column"))
            head = self.text(s_cat(g["full"], s_const(b":"), line, s_const(b":"), col, s_const(b": error: ")))
            s = g["args"][1][1]
            head2 = self.text(s_cat(("S", (("t", s, 0, st.mem[s].x["n"]),)), s_const(b":"), line, s_const(b":"), col, s_const(b": error: ")))
            h = head if t.startswith(head) else head2
            if not t.startswith(h) or not self.text(g["message"]) in t[len(h):] or not t.endswith("\n"):
                self.fail(st, "the diagnostic is not of the form path:line:column: error: message", "message")
