"""The overloads that read and write: each must hand its input to, and take its output from, the one function that works
on streams. That function is replaced by a client that does anything a codec can do with a stream (witness/wa.cc, probe)."""
import re
from .explore import *
from .drv_codec import Types, norm
from .drv_jsonlex import focus, opaque, surely
from .drv_ops import signature, split_name
from .models import MODELS, getS, setS, cstr, s_len, cell_get, cell_set, TAILCALL, piece_of, byteval, s_atoms
from . import models, drv_protolex
from .vals import *
from .vals import s_flat

VM = []
SKIPWS = 0x1000


def vmodel(*pats):
    def deco(f):
        for p in pats:
            VM.append((re.compile(p), f))
        return f
    return deco


# ---- the function all overloads lead to
@vmodel(r"^(?!bool ).*::deserialize\((protogen_\w+)::(internal::)?istream&, protogen_\w+::Parameters\*\)$",
        r"^bool protogen_\w+::deserialize_array<.*>\(.*&, protogen_\w+::(internal::)?istream&, protogen_\w+::Parameters\*\)$",
        r"^(?!bool ).*::serialize\((protogen_\w+)::(internal::)?ostream&, protogen_\w+::Parameters\*\) const$",
        r"^bool protogen_\w+::serialize_array<.*>\(.*&, protogen_\w+::(internal::)?ostream&, protogen_\w+::Parameters\*\)$")
def _(m, st, fn, a, ins):
    d = m.env
    g = st.ghost
    if g["=core"]:
        d.fail(st, "the value is read or written twice", "overload")
    if (d.way == "read") != ("istream" in fn.dem):
        d.fail(st, "the wrong function is called", "overload")
    if a[0] != ("P", g["objs"][0][1], 0):
        d.fail(st, "another object is read or written", "overload")
    if a[2] != d.params(st):
        d.fail(st, "the parameters of the caller are not passed on", "params")
    g["=core"] = 1
    m.call_function(st, d.f_probe, [a[1]], ins)
    return TAILCALL


# ---- the client
@vmodel(r"^probe::any\(\)$")
def _(m, st, fn, a, ins):
    d = m.env
    if d.way == "read":
        return lin_or(st.finsym("stop", 2))
    if st.ghost["=pick"] is None:
        raise Suspend("any")
    v, st.ghost["=pick"] = st.ghost["=pick"], None
    return v


def lin_or(s):
    return ("T", s, (0, 1), 32)


@vmodel(r"^probe::see\(int, int, int\)$")
def _(m, st, fn, a, ins):
    d = m.env
    g = st.ghost
    sid = g["objs"][1][1]
    o = st.mem[sid]
    if not st.decide(icmp("slt", g["pos"], o.x["n"], 64)):
        d.fail(st, "the reader gets more bytes than the input has", "bytes")
    b = o.x.get(("e", g["pos"]))
    if b is None:
        for k, c in o.x.items():
            if type(k) is tuple and k[0] == "e" and difference(k[1], g["pos"]) == 0:
                b = c
    if b is None:
        d.fail(st, "the reader gets another byte than the next one of the input", "bytes")
    b = b[0][0]
    if not st.decide(icmp("eq", cast("trunc", a[0], 32, 8), b, 8)):
        d.fail(st, "the reader gets another byte than the next one of the input", "bytes")
    if not st.decide(icmp("eq", a[0], cast("sext", b, 8, 32), 32)) and not st.decide(icmp("eq", a[0], cast("zext", b, 8, 32), 32)):
        d.fail(st, "the reader gets another byte than the next one of the input", "bytes")
    for v, k in ((a[1], "line"), (a[2], "col")):
        if not surely(st, icmp("eq", v, cast("trunc", g[k], 64, 32), 32)):
            d.fail(st, "the reader gets a wrong %s" % ("line" if k == "line" else "column"), "position")
    nl = st.decide(icmp("eq", b, 10, 8))
    g["pos"] = lin_add(g["pos"], 1, 64)
    if nl:
        g["line"], g["col"] = lin_add(g["line"], 1, 64), 1
    else:
        g["col"] = lin_add(g["col"], 1, 64)
    d.tick("bytes")


@vmodel(r"^probe::ended\(\)$")
def _(m, st, fn, a, ins):
    d = m.env
    if not st.decide(icmp("eq", st.ghost["pos"], st.mem[st.ghost["objs"][1][1]].x["n"], 64)):
        d.fail(st, "the reader gets the end of the input before its last byte", "bytes")
    d.tick("ends")


@vmodel(r"^probe::finish\(\)$")
def _(m, st, fn, a, ins):
    g = st.ghost
    if g["=pick"] is None:
        raise Suspend("finish")
    g["=pick"] = None
    return int(g["=result"])


@vmodel(r"^probe::one\(\)$")
def _(m, st, fn, a, ins):
    v = fin(st.finsym("char", 256), 8)
    st.ghost["out"] = s_cat(st.ghost["out"], ("S", (("b", v),)))
    return v


@vmodel(r"^probe::(chars|text)\(\)$")
def _(m, st, fn, a, ins):
    g = st.ghost
    chars = "chars" in fn.dem
    sid = st.alloc("seq", "the text to write", x={"esize": 1, "n": lin(st.widesym("chunk", 0, None)), "cstr": True, "nz": chars})
    g["chunk"], g["cpos"] = (("#obj", sid),), 0
    if chars:
        return ("P", sid, 0)
    h = st.alloc("heap", "string", 32, {0: (("S", (("t", sid, 0, st.mem[sid].x["n"]),)), 32)})
    return ("P", h, 0)


@vmodel(r"^probe::wrote\(\)$")
def _(m, st, fn, a, ins):
    d = m.env
    g = st.ghost
    if g["chunk"]:
        sid = g["chunk"][0][1]
        n = st.mem[sid].x["n"]
        if not st.decide(icmp("eq", g["cpos"], n, 64)):
            g["out"] = s_cat(g["out"], ("S", (("t", sid, g["cpos"], n),)))
    g["chunk"], g["cpos"] = (), 0
    d.tick("writes")


# ---- the stream of the caller
@vmodel(r"^std::ios_base::flags\(\) const$")
def _(m, st, fn, a, ins):
    return st.ghost["=flags"]


def known(v):
    if type(v) is not int:
        raise Unmodelled("unknown stream flags")
    return v


@vmodel(r"^std::ios_base::flags\(std::_Ios_Fmtflags\)$")
def _(m, st, fn, a, ins):
    old, st.ghost["=flags"] = st.ghost["=flags"], known(a[1])
    return old


@vmodel(r"^std::ios_base::setf\(std::_Ios_Fmtflags(, std::_Ios_Fmtflags)?\)$")
def _(m, st, fn, a, ins):
    old = st.ghost["=flags"]
    msk = known(a[2]) if len(a) > 2 else 0
    st.ghost["=flags"] = old & ~msk | known(a[1]) & (msk if len(a) > 2 else -1)
    return old


@vmodel(r"^std::ios_base::unsetf\(std::_Ios_Fmtflags\)$")
def _(m, st, fn, a, ins):
    st.ghost["=flags"] &= ~known(a[1])


@vmodel(r"^std::(no)?skipws\(std::ios_base&\)$")
def _(m, st, fn, a, ins):
    if "noskipws" in fn.dem:
        st.ghost["=flags"] &= ~SKIPWS
    else:
        st.ghost["=flags"] |= SKIPWS
    return a[0]


@vmodel(r"^std::(basic_)?istream(<char>)?::operator>>\(std::ios_base& \(\*\)\(std::ios_base&\)\)$")
def _(m, st, fn, a, ins):
    name = a[1][1] if type(a[1]) is tuple and a[1][0] == "F" else "?"
    if "noskipws" in name:
        st.ghost["=flags"] &= ~SKIPWS
    elif "6skipws" in name:
        st.ghost["=flags"] |= SKIPWS
    else:
        raise Unmodelled("stream manipulator " + name)
    return a[0]


@vmodel(r"^std::istream_iterator<char, char, long>::operator\+\+\((int)?\)$")
def _(m, st, fn, a, ins):
    m.env.skipping(st)
    for r, f in MODELS:
        if r.search(fn.dem):
            return f(m, st, fn, a, ins)


@vmodel(r"^std::basic_ios<char, .*>::rdbuf\(\) const$", r"^std::(basic_)?ios(<char>)?::rdbuf\(\) const$")
def _(m, st, fn, a, ins):
    return a[0]


# a buffer iterator does not look at the flags
BIT = r"^std::istreambuf_iterator<char(?:, std::char_traits<char>)?>::"


@vmodel(BIT + r"istreambuf_iterator\((std::(basic_)?istream(<.*>)?&|std::streambuf\*|std::basic_streambuf<.*>\*)\)$", BIT + r"istreambuf_iterator\(\)$")
def _(m, st, fn, a, ins):
    o = st.ghost["objs"][1][1]
    cell_set(m, st, a[0], ("P", o, 0 if len(a) > 1 else st.mem[o].x["n"]), 16)


@vmodel(BIT + r"operator\*\(\) const$")
def _(m, st, fn, a, ins):
    return m.load(st, cell_get(m, st, a[0])[0], "i8")


@vmodel(BIT + r"operator\+\+\(\)$")
def _(m, st, fn, a, ins):
    v = cell_get(m, st, a[0])[0]
    if st.decide(icmp("eq", v[2], st.mem[v[1]].x["n"], 64)):
        raise Violation("the stream iterator is advanced past the end of the input", rule="memory")
    cell_set(m, st, a[0], m.padd(v, 1), 16)
    return a[0]


@vmodel(r"^bool std::operator([!=])=<char.*>\(std::istreambuf_iterator<.*> const&, std::istreambuf_iterator<.*> const&\)$", BIT + r"equal\(.*\) const$")
def _(m, st, fn, a, ins):
    r = m.cmp(st, "eq", cell_get(m, st, a[0])[0], cell_get(m, st, a[1])[0], "ptr")
    return (1 - r if type(r) is int else icmp("eq", r, 0, 1)) if "operator!=" in fn.dem else r


# ---- copying a text as a whole into the memory of the caller
@vmodel(r"^llvm\.mem(cpy|move)\.", r"^mem(cpy|move)$", r"^std::string::copy\(char\*, unsigned long, unsigned long\) const$")
def _(m, st, fn, a, ins):
    d = m.env
    g = st.ghost
    buf = g["objs"][1][1]
    dst = a[0] if "copy(char" not in fn.dem else a[1]
    if d.target == "memory" and type(dst) is tuple and dst[:2] == ("P", buf):
        if "copy(char" in fn.dem:
            v = getS(m, st, a[0])
            n = s_len(v)
            if a[3] != 0 or not st.decide(icmp("ule", n, a[2], 64)):
                raise Unmodelled("copy of a part of a text")
        else:
            n = a[2]
            src = a[1]
            v = ("S", (("t", src[1], src[2], lin_add(src[2], n, 64)),)) if type(src) is tuple and src[0] == "P" and st.mem[src[1]].kind == "seq" else None
        if n == 0 or v is not None and surely(st, icmp("eq", n, s_len(d.final(st)), 64)) and surely(st, models.streq(m, st, v, d.final(st))):
            if n == 0:
                return dst if "copy(" not in fn.dem else n
            if not st.decide(icmp("sle", lin_add(dst[2], n, 64), st.mem[buf].x["n"], 64)):
                raise Violation("write outside of the memory of the caller", rule="memory")
            if dst[2] != 0 or g["w"] != 0:
                d.fail(st, "the text is written to another place than the begin of the memory", "bytes")
            g["w"] = n
            return dst if "copy(" not in fn.dem else n
        raise Unmodelled("copy of another text: %s, %s instead of %s" % (show(n), v and show(v), show(d.final(st))))
    if "copy(char" in fn.dem:
        raise Unmodelled(fn.dem)
    m.memcpy(st, a[0], a[1], st.concrete(a[2]))
    return a[0]


class Overload(Driver):
    name = "overload"
    moving = ("pos", "cpos", "w", "line", "col")

    def __init__(self, mod, ns, fn, way, own, args):
        Driver.__init__(self, mod, VM + MODELS)
        models.KEYWORDS.clear()
        self.ns, self.entry, self.way, self.own, self.args = ns, fn, way, own, args
        self.T = Types(mod, ns)
        self.count = {}
        p = [f for f in mod.find(r"^probe::%s\(" % way) if f.blocks]
        if len(p) != 1:
            raise Anchor("probe::" + way)
        self.f_probe = p[0]
        a = args[0] if own else args[1]
        n = norm(re.sub(r"( const)?&$", "", a))
        self.target = ("memory" if a in ("char const*", "char*") else "string" if n == "std::string" else "vector" if n.startswith("std::vector<char") else
                       "stream" if n in ("std::istream", "std::ostream") else None)
        if self.target is None:
            raise Anchor("overload " + fn.dem)
        self.m.monitor = self
        vt = [nm for nm in mod.globals if nm.startswith("_ZTV")] if own else []
        self.vtable = None
        if own:
            want = "vtable for " + own
            for nm in vt:
                if demangle(mod, nm) == want:
                    self.vtable = nm
            if self.vtable is None:
                raise Anchor(want)

    def tick(self, k, n=1):
        self.count[k] = self.count.get(k, 0) + n

    def fail(self, st, what, rule):
        raise Violation(what, rule=rule, where=(self.entry.where(), self.entry.dem))

    def params(self, st):
        return ("P", st.ghost["objs"][2][1], 0) if st.ghost["=given"] else 0

    def final(self, st):
        return st.ghost["out"]

    # ---- start
    def start(self):
        out = []
        for given in (1, 0):
            for ws in ((1, 0) if self.target == "stream" and self.way == "read" else (0,)):
                st = State()
                m, g = self.m, st.ghost
                this = st.alloc("heap", "the object", 4096)
                if self.own:
                    st.mem[this].cells[0] = (("P", m.globobj(st, self.vtable), 16), 8)
                pt = self.T.t[self.ns + "::Parameters"]
                par = st.alloc("heap", "the parameters", pt["size"])
                et = self.T.t[self.ns + "::ErrorInfo"]
                eo = [mm[1] for mm in pt["members"] if mm[0] == "error"][0]
                for mm in pt["members"]:
                    if mm[0] != "error":
                        st.mem[par].cells[mm[1]] = (("T", st.finsym(mm[0], 2), (0, 1), 8), 1)
                g["perr"] = ()
                for nm, off, t, size in et["members"]:
                    v = ("S", (("v", st.widesym("message", 0, None)),)) if nm == "message" else lin(st.widesym(nm, 0, None), 32)
                    st.mem[par].cells[eo + off] = (v, 32 if nm == "message" else 4)
                    g["perr"] += ((("#off", nm), v),)
                data = st.alloc("seq", "the memory" if self.way == "write" else "the input", x={"esize": 1, "n": lin(st.widesym("length", 0, None)), "input": True})
                g["objs"] = tuple(("#obj", x) for x in (this, data, par))
                g["=given"], g["=core"], g["=pick"], g["=result"], g["=small"] = given, 0, None, None, 0
                g["pos"], g["line"], g["col"], g["cpos"], g["w"] = 0, 1, 1, 0, 0
                g["chunk"], g["#slack"] = (), None
                g["=flags"] = g["=flags0"] = 2 | (SKIPWS if ws else 0)
                n = st.mem[data].x["n"]
                first = [("P", this, 0)]
                p = [self.params(st)]
                if self.way == "read":
                    g["out"] = ("S", ())
                    text = ("S", (("t", data, 0, n),))
                    if self.target == "memory":
                        a = [("P", data, 0), n]
                    elif self.target == "stream":
                        a = [("P", self.stream(st), 0)]
                    else:
                        st.mem[data].x["cstr"] = self.target == "string"
                        h = st.alloc("heap", "the input object", 32, {0: (text, 32 if self.target == "string" else 24)})
                        a = [("P", h, 0)]
                else:
                    old = ("S", (("v", st.widesym("old", 1, None)),))
                    g["out"] = ("S", ()) if self.target == "memory" else old
                    if self.target == "memory":
                        a = [("P", data, 0), n]
                    elif self.target == "stream":
                        h = self.stream(st)
                        st.mem[h].cells["text"] = (old, 32)
                        st.mem[h].x["sstream"] = True
                        a = [("P", h, 0)]
                        g["objs"] += (("#obj", h),)
                    else:
                        h = st.alloc("heap", "the output object", 32, {0: (old, 32 if self.target == "string" else 24)})
                        a = [("P", h, 0)]
                        g["objs"] += (("#obj", h),)
                st.note("in", "with parameters" if given else "without parameters")
                if self.target == "stream" and self.way == "read":
                    st.note("in", "a stream that %s white space" % ("skips" if ws else "keeps"))
                m.call_function(st, self.entry, first + a + p)
                out.append(st)
        return out

    def stream(self, st):
        vt = st.alloc("heap", "vtable of the stream", 64, {0: (16, 8)})
        return st.alloc("heap", "the stream", 4096, {0: (("P", vt, 24), 8)})

    def stream_place(self, m, st, is_, end):
        if not end:
            self.skipping(st)
        o = st.ghost["objs"][1][1]
        return ("P", o, st.mem[o].x["n"] if end else 0)

    def skipping(self, st):
        if st.ghost["=flags"] & SKIPWS:
            raise Violation("white space of the stream is skipped while it is read", rule="whitespace")

    def output(self, m, st, p, v):
        raise Unmodelled("output to another stream")

    # ---- joins
    def constants(self, st):
        """writes what has only one value left as that value"""
        def f(v):
            if v[0] == "T":
                return self.m.settled(st, v)
            lo, hi = st.srange(v)
            return lo if lo == hi and lo is not None else v
        subst(st, f)

    def abstract(self, st, s):
        g = st.ghost
        self.constants(st)
        if s.kind == "elem":
            sid = s.info[0]
            if type(st.mem[sid].x["n"]) is int:
                g["elem"] = (("#obj", sid), s.info[1])
                return [g["#slack"]] if g["#slack"] else None
            if self.way == "read":
                if sid != g["objs"][1][1]:
                    raise Unmodelled("an element of another sequence")
                return focus(st, s)
            if g["chunk"]:
                opaque(st, "out")
            return [focus(st, s)] + ([g["#slack"]] if g["#slack"] else [])
        if s.kind in ("any", "finish"):
            if self.way == "write":
                opaque(st, "out")
            return None
        raise Unmodelled("unexpected request " + s.kind)

    def resume(self, st, s):
        g = st.ghost
        if s.kind == "any":
            out = []
            for k in range(5):
                s2 = st.copy()
                s2.ghost["=pick"] = k
                if k:
                    s2.note("in", ("", "char", "char const*", "char*", "string")[k])
                out.append(s2)
            return out
        if s.kind == "finish":
            out = []
            for r in (1, 0):
                s2 = st.copy()
                s2.ghost["=pick"], s2.ghost["=result"] = 1, r
                s2.note("in", "success" if r else "failure")
                out += self.sizes(s2) if r and self.way == "write" and self.target == "memory" else [s2]
            return out
        (_, sid), idx = g["elem"]
        if self.way == "read":
            b = st.finsym("byte", 256)
            st.wobj(sid).x["e", idx] = {0: (fin(b, 8), 1)}
            return [st]
        if g["chunk"] and sid == g["chunk"][0][1]:
            if difference(idx, g["cpos"]) != 0:
                raise Unmodelled("the text to write is looked at out of order")
            b = fin(st.finsym("byte", 256, ((1 << 256) - 2) if st.mem[sid].x["nz"] else None), 8)
            st.wobj(sid).x["e", idx] = {0: (b, 1)}
            g["out"] = s_cat(g["out"], ("S", (("b", b),)))
            g["cpos"] = lin_add(g["cpos"], 1, 64)
            return [st]
        if st.mem[sid].x.get("final"):
            st.wobj(sid).x["e", idx] = {0: (fin(st.finsym("byte", 256), 8), 1)}
            return [st]
        raise Unmodelled("an element of another sequence")

    def sizes(self, st):
        """the text is there: it fits into the memory of the caller, or not"""
        g = st.ghost
        buf = g["objs"][1][1]
        L, = syms_of(st.mem[buf].x["n"])
        out = []
        for fits in (1, 0):
            s2 = st.copy()
            if not s2.ghost["out"][1]:
                if fits:
                    out.append(s2)
                continue
            old = s2.ghost["out"]
            if fits:
                n = lin(s2.widesym("size", 1, None))
                s2.ghost["#slack"] = s2.widesym("slack", 0, None)
                target = lin_add(n, lin(s2.ghost["#slack"]), 64)

                def f(v):
                    if v[0] != "L":
                        return v
                    d = dict(v[1])
                    c = d.pop(L, 0)
                    return lin_add(mklin(d, v[2], 64), lin_scale(target, c, 64), 64) if c else v
                subst(s2, f)
            else:
                n = lin_add(lin_add(lin(L), lin(s2.widesym("excess", 0, None)), 64), 1, 64)
                s2.ghost["=small"] = 1
            e = s2.alloc("seq", "the text", x={"esize": 1, "n": n, "cstr": True, "final": True})
            new = ("S", (("t", e, 0, n),))
            for i in list(s2.mem):
                for k, c in list(s2.mem[i].cells.items()):
                    if c[0] == old:
                        s2.wobj(i).cells[k] = (new,) + tuple(c[1:])
            s2.ghost["out"] = new
            s2.note("in", "it fits" if fits else "it does not fit")
            out.append(s2)
        return out

    def on_seq_store(self, m, st, sid, idx, f, v, size):
        g = st.ghost
        if self.way != "write" or sid != g["objs"][1][1]:
            return
        if g["=result"] != 1:
            self.fail(st, "the memory of the caller is written before the text is complete", "bytes")
        if g["=small"]:
            self.fail(st, "the memory of the caller is written although the text does not fit", "bytes")
        if size != 1 or difference(idx, g["w"]) != 0:
            self.fail(st, "a byte is written to another place than the next one", "bytes")
        out = g["out"][1]
        e = out[0][1] if out and out[0][0] == "t" else None
        want = None
        if e is not None:
            for k, c in st.mem[e].x.items():
                if type(k) is tuple and k[0] == "e" and difference(k[1], idx) == 0:
                    want = c[0][0]
        if want is None or not st.decide(icmp("eq", v, want, 8)):
            self.fail(st, "another byte is written than the next one of the text", "bytes")
        g["w"] = lin_add(g["w"], 1, 64)
        w = st.wobj(sid)
        w.x.pop(("e", idx), None)

    # ---- the end
    def on_return(self, st, val):
        g = st.ghost
        m = self.m
        if type(val) is tuple and width(val) == 1:
            val = int(st.decide(val))
        val = val & 1 if type(val) is int else val
        if type(val) is not int:
            raise Unmodelled("result")
        if not g["=core"] or g["=result"] is None:
            self.fail(st, "the call ends without having read or written the value", "overload")
        if g["=flags"] != g["=flags0"]:
            self.fail(st, "the flags of the stream are not restored", "flags")
        ok = g["=result"] and not g["=small"]
        if val != ok:
            self.fail(st, "success is reported although it failed" if val else "failure is reported although it succeeded", "result")
        if g["=given"]:
            pt, par = self.T.t[self.ns + "::Parameters"], g["objs"][2][1]
            eo = [mm[1] for mm in pt["members"] if mm[0] == "error"][0]
            et = {mm[0]: mm for mm in self.T.t[self.ns + "::ErrorInfo"]["members"]}
            for (_, nm), v in g["perr"]:
                c = ("P", par, eo + et[nm][1])
                x = cell_get(m, st, c)[0]
                if g["=small"]:
                    if nm == "code" and not surely(st, icmp("eq", x, 4, 32)):
                        self.fail(st, "a text that does not fit is not reported as such", "error")
                    continue
                if x != v and (nm == "message" or not surely(st, icmp("eq", x, v, 32))):
                    self.fail(st, "the error of the caller is changed", "error")
        if self.way == "write" and ok:
            if self.target == "memory":
                if not surely(st, icmp("eq", g["w"], s_len(g["out"]), 64)):
                    self.fail(st, "the memory of the caller does not get the whole text", "bytes")
            else:
                o = st.mem[g["objs"][3][1]]
                c = o.cells.get("text" if self.target == "stream" else 0)
                if c is None:
                    self.fail(st, "the caller does not get the text", "bytes")
                if not surely(st, models.streq(m, st, c[0], g["out"])):
                    self.fail(st, "the caller gets another text than the one written: %s instead of %s" % (show(c[0])[:100], show(g["out"])[:100]), "bytes")
        self.tick("outcomes")
        return ()


def demangle(mod, nm):
    global _DEM
    if nm not in _DEM:
        import subprocess
        names = [x for x in mod.globals if x.startswith("_ZTV")] + [nm]
        r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True).stdout.split("\n")
        _DEM.update(zip(names, r))
    return _DEM[nm]


_DEM = {}


def overloads(mod, ns):
    """(function, way, entity or None, argument types) of every overload that leads to the one on streams"""
    T = Types(mod, ns)
    for nm, f in sorted(mod.funcs.items(), key=lambda kv: (kv[1].dem, kv[0])):
        if not f.blocks:
            continue
        s = signature(f.dem)
        if s is None:
            continue
        name, args = s
        r = re.match(r"^bool " + re.escape(ns) + r"::(de)?serialize_array<", name)
        if r:
            if re.search(r"::(internal::)?[io]stream&$", args[1]) and args[1].startswith(ns):
                continue
            yield f, "read" if r.group(1) else "write", None, args
            continue
        cls, mem = split_name(name)
        if mem not in ("serialize", "deserialize"):
            continue
        if args and args[0].startswith(ns) and re.search(r"::[io]stream&$", args[0]):
            continue
        own = None
        cls = norm(cls)
        if cls.startswith(ns + "::message<"):
            for E, t in sorted(T.t.items()):
                if any(norm(b) == cls for b, o in t.get("bases", ())):
                    own = E
        elif T.kind(cls) == "entity":
            own = cls
        if own is not None:
            yield f, "read" if mem == "deserialize" else "write", own, args
