"""Schema parser: Proto3::parse of source/proto3.cc on a token sequence of unknown length and contents, against
the grammar of the schema language. The lexer is replaced by its contract (drv_protolex checks it); what the
parser stores (fields, messages, options) is compared with what the reference automaton has read."""
from .drv_protolex import *
from .models import s_len, s_canon, VEC, TAILCALL

PM = []


def pmodel(*pats):
    def deco(f):
        for p in pats:
            PM.append((re.compile(p), f))
        return f
    return deco


TYPES = ("double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes")
IDENTS = ("NAME", "message", "package")
NAMES = ("NAME", "QNAME")
OPTVAL = {"true": "BOOLEAN", "false": "BOOLEAN", "NAME": "IDENTIFIER", "QNAME": "IDENTIFIER", "INTEGER": "INTEGER", "STRING": "STRING"}
EXC = "_ZTIN8protogen9exceptionE"


def classes(node):
    """sets of token codes that the grammar distinguishes at a node; everything else is an error"""
    k = node[0]
    if k == "file":
        return [("message",), ("package",), ("syntax",), ("option",), ("EOF",)]
    if k in ("syn=", "opt="):
        return [("EQUAL",)]
    if k == "f=":
        return [("EQUAL",)]
    if k == "synval":
        return [("STRING",)]
    if k in ("syn;", "pkg;", "optend", "fend"):
        return [("SCOLON",)]
    if k in ("pkg", "optname"):
        return [NAMES]
    if k == "optval":
        out = {}
        for c, t in OPTVAL.items():
            out.setdefault(t, []).append(c)
        return [tuple(v) for v in out.values()]
    if k == "msg":
        return [IDENTS]
    if k == "msg{":
        return [("BEGIN",)]
    if k == "body":
        return [("END",), ("option",), ("repeated",), ("optional",), NAMES, TYPES]
    if k == "ftype":
        return [NAMES, TYPES]
    if k == "fname":
        return [IDENTS]
    if k == "fidx":
        return [("INTEGER",)]
    if k == "fopt":
        return [("LBRACKET",), ("SCOLON",)]
    if k == "fo":
        return [("RBRACKET",), NAMES]
    if k == "foafter":
        return [("COMMA",), ("RBRACKET",), NAMES]
    return []


# ---- what is special to this driver
@pmodel(r"^protogen::Tokenizer<.*>::next\(\)$")
def _(m, st, fn, a, ins):
    g = st.ghost
    d = m.env
    if g["=ready"] == 2:
        g["=ready"] = 0
        raise Throw(EXC, d.lexer_error(st))
    if g["=ready"] == 1 or g["=ungot"]:
        g["=ready"], g["=ungot"] = 0, False
        src = m.padd(a[1], d.tkmem["current"])
        for n in ("code", "line", "column"):
            m.store(st, m.padd(a[0], d.mem[n]), m.load(st, m.padd(src, d.mem[n]), "i32"), 4)
        cell_set(m, st, m.padd(a[0], d.mem["value"]), getS(m, st, m.padd(src, d.mem["value"])), 32)
        return None
    raise Suspend("token", a[1])


@pmodel(r"^protogen::Tokenizer<.*>::unget\(\)$")
def _(m, st, fn, a, ins):
    if st.ghost["=ungot"]:
        raise Throw(EXC, m.env.lexer_error(st))
    st.ghost["=ungot"] = True


def setws(st, v):
    if st.ghost["=ws"] != "read":
        st.ghost["=ws"] = v


@pmodel(r"^std::noskipws\(std::ios_base&\)$")
def _(m, st, fn, a, ins):
    setws(st, "kept")
    return a[0]


@pmodel(r"^std::skipws\(std::ios_base&\)$")
def _(m, st, fn, a, ins):
    setws(st, "skipped")
    return a[0]


@pmodel(r"^std::ios_base::unsetf\(std::_Ios_Fmtflags\)$")
def _(m, st, fn, a, ins):
    if type(a[1]) is int and a[1] & 4096:
        setws(st, "kept")


@pmodel(r"^std::ios_base::flags\(\) const$")
def _(m, st, fn, a, ins):
    return mktab(st.finsym("flags", 2), (0, 4096), 32)


@pmodel(r"^std::shared_ptr<.*> std::make_shared<protogen::Message>\(\)$")
def _(m, st, fn, a, ins):
    i = st.alloc("heap", "message", m.mod.types["protogen::Message"]["size"])
    m.store(st, a[0], ("P", i, 0), 8)
    m.call_function(st, m.env.f_msg, [("P", i, 0)], ins)
    st.frames[-1].hook = void_result
    return TAILCALL


def options_of(m, st, p):
    c = cell_get(m, st, p)
    if c is None or type(c[0]) is not tuple or c[0][0] != "V":
        raise Unmodelled("options of something unknown")
    return c[0][1]


def void_result(m, st, fr, v):
    return None


MAP = r"^std::unordered_map<std::string, protogen::OptionEntry.*>::"


@pmodel(MAP + r"unordered_map\(\)$")
def _(m, st, fn, a, ins):
    cell_set(m, st, a[0], ("V", st.alloc("map", "options", x={"writes": ()})), 56)


@pmodel(MAP + r"(unordered_map|operator=)\(std::unordered_map<.*(const&|&&)\)$")
def _(m, st, fn, a, ins):
    cell_set(m, st, a[0], ("V", options_of(m, st, a[1])), 56)
    if "&&)" in fn.dem:
        cell_set(m, st, a[1], ("V", st.alloc("map", "options", x={"writes": ()})), 56)
    return a[0] if "operator=" in fn.dem else None


@pmodel(MAP + r"~unordered_map\(\)$")
def _(m, st, fn, a, ins):
    return None


@pmodel(MAP + r"(size|empty|count)\(.*\) const$")
def _(m, st, fn, a, ins):
    if "::empty" in fn.dem:
        return ("T", st.finsym("empty", 2), (0, 1), 1)
    return lin(st.widesym("count", 0, None))


@pmodel(MAP + r"(?:emplace|insert)(?:<.*>)?\(", r"^std::(?:pair|enable_if)<.*>(?:::type)? std::unordered_map<std::string, protogen::OptionEntry.*>::(?:emplace|insert)\b")
def _(m, st, fn, a, ins):
    m.env.fail(st, "an option that is written again does not replace the earlier value", "option")


@pmodel(MAP + r"operator\[\]\(std::string (const&|&&)\)$")
def _(m, st, fn, a, ins):
    d = m.env
    e = st.alloc("heap", "entry", m.mod.types["protogen::OptionEntry"]["size"])
    o = st.mem[e]
    for n, (off, t) in d.off["protogen::OptionEntry"].items():
        o.cells[off] = (("S", ()), 32) if "basic_string" in t else (0, 4)
    i = options_of(m, st, a[0])
    w = st.wobj(i)
    w.x["writes"] = w.x["writes"] + ((getS(m, st, a[1]), ("#obj", e)),)
    return ("P", e, 0)


@pmodel(r"^std::vector<(protogen::Field|std::shared_ptr<protogen::Message>),.*>::(push_back|emplace_back)(<.*>)?\(.*\)$")
def _(m, st, fn, a, ins):
    v = cell_get(m, st, a[0])[0][1]
    if "protogen::Field" in fn.dem.split(",")[0]:
        m.env.on_field(st, a[0], a[1])
    else:
        m.env.on_message(st, a[0], a[1])
    o = st.wobj(v)
    o.x["n"] = lin_add(o.x["n"], 1, 64)
    for k in [k for k in o.x if type(k) is tuple]:
        del o.x[k]


@pmodel(r"^std::vector<std::shared_ptr<protogen::Message>,.*>::(c?begin|c?end|size|empty|operator\[\]|at)\(.*\)( const)?$")
def _(m, st, fn, a, ins):
    """while a reference is being resolved the messages are looked up in a sequence of their own"""
    d = m.env
    for rx, f in MODELS:
        if rx.search(fn.dem):
            break
    if st.ghost["=pend"] and a[0] == ("P", d.objs(st)[1], d.off["protogen::Proto3"]["messages"][0]):
        o = d.pending(st)
        if o is not None and o["ref"] == 0:
            tmp = st.alloc("alloca", "view", 24)
            cell_set(m, st, ("P", tmp, 0), ("V", st.ghost["m2"][1]), 24)
            return f(m, st, fn, [("P", tmp, 0)] + a[1:], ins)
    return f(m, st, fn, a, ins)


class Parser(ProtoLex):
    name = "parser"
    K = 1
    KEYS = True
    RESTLO = 2          # that an element is not the last one is kept
    moving = ()

    def __init__(self, mod):
        Driver.__init__(self, mod, PM + MODELS)
        self.count = {}
        models.KEYWORDS.clear()
        self.TT = self.type("protogen::Token")
        self.mem = {n: off for n, off, _, _ in mod.types[self.TT]["members"]}
        t = [t for t in mod.types if t.startswith("protogen::Tokenizer<") and "members" in mod.types[t]]
        if len(t) != 1:
            raise Anchor("type Tokenizer")
        self.tkmem = {n: off for n, off, _, _ in mod.types[t[0]]["members"]}
        self.off = {}
        for t, need in (("Field", "type name index options"), ("Message", "fields name package options"), ("Proto3", "messages options fileName"),
                        ("TypeInfo", "id qname ref repeated optional"), ("OptionEntry", "name type value"), ("exception", "")):
            t = "protogen::" + t
            self.type(t)
            self.off[t] = {n: (off, ty) for n, off, ty, _ in mod.types[t]["members"]}
            for n in need.split():
                if n not in self.off[t]:
                    raise Anchor("%s::%s" % (t, n))
        self.FT = mod.types["protogen::FieldType"]["enum"]
        self.OT = mod.types["protogen::OptionType"]["enum"]
        self.f_parse = self.one(r"^protogen::Proto3::parse\(")
        self.f_msg = self.one(r"^protogen::Message::Message\(\)$")
        self.f_next = self.f_parse

    def here(self):
        return None

    def fail(self, st, what, rule):
        raise Violation(what, rule=rule)

    def tick(self, k):
        self.count[k] = self.count.get(k, 0) + 1

    # ---- start
    def stream_place(self, m, st, is_, end):
        if not end and st.ghost["=ws"] != "kept":
            raise Violation("the stream iterator is created while the stream still skips white space", rule="whitespace")
        if not end:
            st.ghost["=ws"] = "read"
        return ("P", st.ghost["objs"][3][1], 0)

    def start(self):
        st = State()
        m = self.m
        g = st.ghost
        off = self.off["protogen::Proto3"]
        tree = st.alloc("heap", "schema", self.mod.types["protogen::Proto3"]["size"])
        vt = st.alloc("heap", "vtable of istream", 64, {0: (16, 8)})
        is_ = st.alloc("heap", "stream", 4096, {0: (("P", vt, 24), 8)})
        name = st.alloc("alloca", "file name", 32, {0: (("S", (("v", st.widesym("file", 0, None)),)), 32)})
        dummy = st.alloc("seq", "input", x={"esize": 1, "n": 0})
        msgs = st.alloc("seq", "messages", x={"esize": 16, "n": lin(st.widesym("messages", 0, None))})
        opts = st.alloc("map", "options", x={"writes": ()})
        o = st.mem[tree]
        o.cells[off["messages"][0]] = (("V", msgs), 24)
        o.cells[off["options"][0]] = (("V", opts), 56)
        o.cells[off["fileName"][0]] = (("S", ()), 32)
        g["objs"] = tuple(("#obj", x) for x in (is_, tree, name, dummy))
        g["=ws"] = "unknown"
        g["=node"] = ("file",)
        g["=ready"], g["=ungot"] = 0, False
        g["pkg"] = ("S", ())
        for k in ("mname", "fname", "ftype", "val", "oname", "num", "last", "m2"):
            g[k] = 0
        g["rep"], g["optl"], g["ft"] = 0, 0, 0
        g["=dup"], g["=ci"], g["=cn"], g["=in"], g["=bad#"] = 0, 0, 0, 0, 0
        g["opts"] = ()
        g["mapT"], g["mapM"], g["mapF"], g["msg"] = ("#obj", opts), 0, 0, 0
        g["=pend"] = 0
        self.m.call_function(st, self.f_parse, [("P", tree, 0), ("P", is_, 0), ("P", name, 0)])
        return st

    def lexer_error(self, st):
        t = self.mod.types["protogen::exception"]
        e = st.alloc("exc", "exception", t["size"])
        for n, (off, ty) in self.off["protogen::exception"].items():
            st.mem[e].cells[off] = (("S", (("v", st.widesym("message", 0, None)),)), 32) if "basic_string" in ty else (lin(st.widesym(n, 0, None), 32), 4)
        return ("P", e, 0)

    # ---- strings of the program
    def sload(self, st, p):
        return getS(self.m, st, p)

    def same(self, st, a, b):
        r = streq(self.m, st, a, b)
        return (type(r) is int and r == 1) or surely(st, r)

    def qualified(self, pkg, name):
        return name if not pkg[1] else s_cat(s_cat(pkg, ("S", (("k", b"."),))), name)

    # ---- suspension
    def abstract(self, st, s):
        g = st.ghost
        rests = []
        if s.kind == "token":
            self.check_options(st, 1 if g["=node"][0] in ("optend", "foafter") else 0)
            p = s.info
            o = st.wobj(p[1])
            base = p[2] + self.tkmem["current"]
            for n in self.mem.values():
                o.cells.pop(base + n, None)
            g["=last"] = 0
            g["last"] = 0
            g["elem"] = 0
            self.forget(st)
        elif s.kind == "elem":
            sid, idx = s.info
            if self.is_messages(st, sid) and sid == self.messages(st):
                self.leave(st)
            elif g["=pend"] and sid == g["pend"][0][1]:
                self.leave(st)
            rests = self.focus(st, s)
            sid, idx = s.info
            if surely(st, icmp("eq", idx, 0, 64)):
                g["=last"], g["last"] = 1, -1
            else:
                if not (g["=pend"] and sid == g["m2"][1]) and g["=node"] == ("end",):
                    g["last"] = lin_add(idx, 1, 64, -1)
                g["=last"] = 2
        else:
            raise Unmodelled("unexpected request " + s.kind)
        return rests

    def forget(self, st):
        """the earlier messages and fields that were looked at: only their being the one asked for matters"""
        g = st.ghost
        for i, o in list(st.mem.items()):
            if o.kind == "seq" and any(type(k) is tuple for k in o.x):
                o = st.wobj(i)
                for k in [k for k in o.x if type(k) is tuple]:
                    del o.x[k]
            if o.kind == "heap" and o.x.get("seen") == 0:
                o = st.wobj(i)
                off = self.off["protogen::Message"]
                pk, nm = (o.cells[off[x][0]][0] for x in ("package", "name"))
                o.x["seen"] = 2 if g["ftype"] and self.same(st, self.qualified(pk, nm), g["ftype"]) else 1
                o.cells.clear()

    def messages(self, st):
        tree = self.objs(st)[1]
        return st.mem[tree].cells[self.off["protogen::Proto3"]["messages"][0]][0][1]

    def is_messages(self, st, sid):
        return st.mem[sid].x["esize"] == 16

    def focus(self, st, s):
        """the length of the sequence becomes: the index asked for + an unknown rest"""
        sid, idx = s.info
        o = st.wobj(sid)
        for k in [k for k in o.x if type(k) is tuple and k[0] == "e"]:
            del o.x[k]
        g = st.ghost
        n = o.x["n"]
        rest = dict(g.get("#rest", {}))
        if type(n) is tuple:
            ns = rest.get(sid)
            if ns is None or ns not in syms_of(n):
                ns = n[1][0][0]
            new = st.widesym("rest", 1, None)
            target = lin_add(lin(new), lin_add(lin(ns), lin_add(n, idx, 64, -1), 64, -1), 64)

            def f(v):
                if v[0] != "L":
                    return v
                d = dict(v[1])
                c = d.pop(ns, 0)
                if not c:
                    return v
                return lin_add(mklin(d, v[2], v[3]), lin_scale(target, c, 64), 64)
            subst(st, f)
            if type(idx) is tuple:
                idx = f(idx)
            rest[sid] = new
        s.info = (sid, idx)
        g["elem"] = (("#obj", sid), idx)
        rest = {k: v for k, v in rest.items() if k in st.mem}
        g["#rest"] = rest
        return [rest[k] for k in sorted(rest)]

    # ---- environment
    def resume(self, st, s):
        if s.kind == "token":
            return self.token(st, s.info)
        return self.element(st)

    def token(self, st, tok):
        node = st.ghost["=node"]
        out = []
        cs = [c for c in classes(node)]
        known = {x for c in cs for x in c}
        other = tuple(c for c in CODES if c not in known)
        for c in cs + [other]:
            s2 = st.copy()
            if c is other:
                cm = mask([CODES[x] for x in c])
            else:
                cm = mask([CODES[x] for x in c])
            sym = s2.finsym("code", 42, cm)
            v = ("S", (("v", s2.widesym("text", 0 if node[0] == "optval" or "STRING" in c or c is other else 1, None)),))
            s2.ghost["val"] = v
            s2.note("in", "|".join(c) if c is not other else "(other)")
            p = ("P", tok[1], tok[2] + self.tkmem["current"])
            code = ("T", sym, tuple(range(42)), 32) if len(c) > 1 else CODES[c[0]]
            self.m.store(s2, self.m.padd(p, self.mem["code"]), code, 4)
            for n in ("line", "column"):
                self.m.store(s2, self.m.padd(p, self.mem[n]), lin(s2.widesym(n, 1, 2**31 - 1), 32), 4)
            cell_set(self.m, s2, self.m.padd(p, self.mem["value"]), v, 32)
            s2.ghost["=ready"] = 1
            out += self.forked(s2, lambda x: self.feed(x, c if c is not other else None, p, code))
        s2 = st.copy()
        s2.note("in", "(malformed)")
        s2.ghost["=ready"] = 2
        s2.ghost["=node"] = ("bad", "malformed text")
        out.append(s2)
        return out

    def feed(self, st, c, p, code):
        """the reference reads a token of the class c (None: not allowed here)"""
        g = st.ghost
        node = g["=node"]
        k = node[0]
        v = g["val"]
        g["val"] = 0
        if k == "bad":
            return
        if c is None:
            g["=node"] = ("bad", "grammar")
            return
        self.tick("tokens accepted")
        t = c[0]

        def settext(b):
            cell_set(self.m, st, self.m.padd(p, self.mem["value"]), ("S", (("k", b),) if b else ()), 32)
        if k == "file":
            g["=node"] = {"message": ("msg",), "package": ("pkg",), "syntax": ("syn=",), "option": ("optname", "sT"), "EOF": ("end",)}[t]
            if t == "EOF":
                return self.at_end(st)
        elif k == "syn=":
            g["=node"] = ("synval",)
        elif k == "synval":
            s2 = st.copy()
            g["=node"] = ("syn;",)
            settext(b"proto3")
            s2.facts["not", v[1][0][1], b"proto3"] = True
            s2.ghost["=node"] = ("bad", "language version")
            return [st, s2]
        elif k == "syn;":
            g["=node"] = ("file",)
        elif k == "pkg":
            g["=node"] = ("pkg;",)
            g["oname"] = v
        elif k == "pkg;":
            g["=node"] = ("file",)
            g["pkg"], g["oname"] = g["oname"], 0
        elif k == "optname":
            g["=node"] = ("opt=", node[1])
            g["oname"] = v
        elif k == "opt=":
            g["=node"] = ("optval", node[1])
        elif k == "optval":
            if t in ("true", "false"):
                # the text is that of the word
                pass
            g["opts"] = g["opts"] + ((node[1], g["oname"], self.OT[OPTVAL[t]], v),)
            g["oname"] = 0
            g["=node"] = ("foafter",) if node[1] == "sF" else ("optend", node[1])
        elif k == "optend":
            g["=node"] = ("file",) if node[1] == "sT" else ("body",)
        elif k == "msg":
            g["=node"] = ("msg{",)
            g["mname"] = v
            g["=dup"] = 0
            g["mapM"] = g["msg"] = 0
            n = st.mem[self.messages(st)].x["n"]
            if n != 0:
                s2 = st.copy()
                if s2.assume(icmp("sgt", n, 0, 64), True):
                    s2.ghost["=dup"] = 1
                    self.reject(s2)
                    s2.note("in", "(name already used)")
                    return [st, s2]
        elif k == "msg{":
            g["=node"] = ("body",)
        elif k == "body" and t == "END":
            g["=node"] = ("file",)
        elif k == "body" and t == "option":
            g["=node"] = ("optname", "sM")
        elif k == "body" and t in ("repeated", "optional"):
            g["rep"], g["optl"] = int(t == "repeated"), int(t == "optional")
            g["=node"] = ("ftype",)
        elif k in ("body", "ftype"):
            if k == "body":
                g["rep"] = g["optl"] = 0
            g["ftype"] = 0
            if t == "NAME":
                g["ft"] = self.FT["TYPE_MESSAGE"]
                g["ftype"] = self.qualified(g["pkg"], v)
            else:
                tab = [0] * 42
                for x in TYPES:
                    tab[CODES[x]] = self.FT["TYPE_" + x.upper()]
                g["ft"] = mktab(code[1], tuple(tab), 32)
            g["=node"] = ("fname",)
            g["=ci"] = g["=cn"] = 0
            g["mapF"] = 0
        elif k == "fname":
            g["fname"] = v
            g["=node"] = ("f=",)
            return self.conflict(st, "=cn", "(name already used)")
        elif k == "f=":
            g["=node"] = ("fidx",)
        elif k == "fidx":
            g["=node"] = ("fopt",)
            n = st.widesym("number", 0, 2**63 - 1)
            g["num"] = lin(n)
            g["numtext"] = v
            out = []
            for lo, hi in ((0, 0), (1, 18999), (19000, 19999), (20000, 2**29 - 1), (2**29, 2**63 - 1)):
                s2 = st.copy()
                s2.dom[n] = (lo, hi, 1, 0)
                if (lo, hi) not in ((1, 18999), (20000, 2**29 - 1)):
                    s2.ghost["=bad#"] = 1
                    self.reject(s2)
                s2.note("in", "(number in %d..%d)" % (lo, hi))
                out += [s2] if s2.ghost["=bad#"] else self.conflict(s2, "=ci", "(number already used)") or [s2]
            return out
        elif k == "fopt":
            g["=node"] = ("fo",) if t == "LBRACKET" else ("body",)
        elif k in ("fo", "foafter"):
            if t == "COMMA":
                g["=node"] = ("fo",)
            elif t == "RBRACKET":
                g["=node"] = ("fend",)
            else:
                g["=node"] = ("opt=", "sF")
                g["oname"] = v
        elif k == "fend":
            g["=node"] = ("body",)
        else:
            raise Unmodelled("reference state %s" % (node,))
        return None

    def conflict(self, st, flag, text):
        """also the case where an earlier field of the message has the same number or name"""
        n = self.fieldcount(st)
        if n == 0 or n is None:
            return None
        s2 = st.copy()
        if not s2.assume(icmp("sgt", n, 0, 64), True):
            return None
        s2.ghost[flag] = 1
        self.reject(s2)
        s2.note("in", text)
        return [st, s2]

    def reject(self, st):
        """the schema must be rejected because of the field or message being read, whatever follows"""
        g = st.ghost
        g["=node"] = ("bad", "number" if g["=bad#"] else "duplicate")
        g["rep"], g["optl"], g["ft"], g["ftype"], g["opts"] = 0, 0, 0, 0, ()

    def fieldcount(self, st):
        m = st.ghost["msg"]
        if not m:
            return 0
        return st.mem[self.fieldseq(st, m[1])].x["n"]

    def fieldseq(self, st, msg):
        return st.mem[msg].cells[self.off["protogen::Message"]["fields"][0]][0][1]

    # ---- elements of the sequences
    def element(self, st):
        (_, sid), idx = st.ghost["elem"]
        return self.forked(st, lambda x: self.element2(x, sid, idx))

    def element2(self, st, sid, idx):
        g = st.ghost
        n = st.mem[sid].x["n"]
        msgs = self.is_messages(st, sid)
        inner = g["=pend"] and msgs and g["m2"] and sid == g["m2"][1]
        resolving = g["=node"] == ("end",)
        if msgs and resolving and not inner:
            flag = "=mk"
        elif msgs and resolving:
            flag = "=tin"
        elif resolving:
            flag = "=fk"
        else:
            flag = "=in"
        # is the sequence read from its start?
        want = {"=in": g["=dup"] if msgs else g["=ci"] or g["=cn"], "=tin": g.get("=tgt", 0)}.get(flag)
        if g["=last"] == 1:
            if want is not None:
                g[flag] = int(bool(want))
        else:
            d = difference(idx, g["last"])
            if flag not in ("=mk", "=fk"):
                if d is None or d < 0:
                    # out of order: any element
                    out = []
                    for hit in ((0, 1) if g.get(flag) == 1 else (0,)):
                        out += self.forked(st.copy(), lambda x: self.deliver(x, sid, idx, msgs, resolving, inner, hit))
                    return out
                if d > 1 and g[flag]:
                    s2 = st.copy()
                    s2.ghost[flag] = 0      # skipped
                    s2.ghost["last"] = lin_add(idx, 1, 64, -1)
                    g["last"] = lin_add(idx, 1, 64, -1)
                    return self.element2(s2, sid, idx) + self.element2(st, sid, idx)
        if flag in ("=in", "=tin"):
            g["last"] = idx
        out = []
        for hit in ((0, 1) if g.get(flag) == 1 else (0,)):
            s2 = st.copy()
            if g.get(flag) == 1 and not hit:
                if not s2.assume(icmp("sgt", n, lin_add(idx, 1, 64), 64), True):
                    continue
            if hit:
                s2.ghost[flag] = 2 if flag in ("=mk", "=fk") else 0
            out += self.forked(s2, lambda x: self.deliver(x, sid, idx, msgs, resolving, inner, hit))
        return out

    def generic(self, st, name="message"):
        return st.alloc("heap", name, self.mod.types["protogen::Message"]["size"], x={"seen": 0})

    def setmsg(self, st, i, pkg, name):
        off = self.off["protogen::Message"]
        st.mem[i].cells[off["package"][0]] = (pkg, 32)
        st.mem[i].cells[off["name"][0]] = (name, 32)

    def deliver(self, st, sid, idx, msgs, resolving, inner, hit):
        g = st.ghost
        out = []

        def elem(s, cells):
            s.wobj(sid).x["e", idx] = cells
            out.append(s)

        def text(s, n, lo=1):
            return ("S", (("v", s.widesym(n, lo, None)),))
        if msgs:
            for haspkg in (0, 1):
                s = st.copy()
                i = self.generic(s)
                if hit and inner:
                    if haspkg:
                        continue
                    self.setmsg(s, i, ("S", ()), s.ghost["tname"])
                elif hit and not resolving:
                    if haspkg:
                        continue
                    self.setmsg(s, i, s.ghost["pkg"], s.ghost["mname"])
                else:
                    pkg = text(s, "package") if haspkg else ("S", ())
                    nm = text(s, "name")
                    self.setmsg(s, i, pkg, nm)
                    target = s.ghost["tname"] if inner else self.qualified(s.ghost["pkg"], s.ghost["mname"]) if not resolving and s.ghost["mname"] else None
                    if target is not None:
                        c = streq(self.m, s, self.qualified(pkg, nm), target)
                        if not s.assume(c, False):
                            continue
                if resolving and not inner or g["=node"][0] == "bad":
                    # its fields
                    n = s.widesym("fields", 1 if hit else 0, None)
                    f = s.alloc("seq", "fields", x={"esize": self.mod.types["protogen::Field"]["size"], "n": lin(n)})
                    s.mem[i].cells[self.off["protogen::Message"]["fields"][0]] = (("V", f), 24)
                    s.ghost["=fk"] = 1 if hit else 0
                elem(s, {0: (("P", i, 0), 8)})
            return out
        off, toff = self.off["protogen::Field"], self.off["protogen::TypeInfo"]
        t = off["type"][0]

        def common(s, cells):
            """what does not matter here but may be looked at"""
            for n in ("repeated", "optional"):
                cells.setdefault(t + toff[n][0], (("T", s.finsym(n, 2), (0, 1), 8), 1))
            cells.setdefault(off["index"][0], (lin(s.widesym("number", 1, 2**29 - 1), 32), 4))
            cells.setdefault(t + toff["id"][0], (("T", s.finsym("type", 42, mask(self.FT.values())), tuple(range(42)), 32), 4))
            cells.setdefault(t + toff["qname"][0], (text(s, "type", 0), 32))
            cells.setdefault(off["options"][0], (("V", s.alloc("map", "options", x={"writes": ()})), 56))
            elem(s, cells)
        if g["=node"][0] == "bad" and not (g["msg"] and sid == self.fieldseq(st, g["msg"][1])) and not (hit and g["=ci"] + g["=cn"]):
            s = st.copy()
            s.note("in", "(field)")
            common(s, {off["name"][0]: (text(s, "name"), 32), t + toff["ref"][0]: (0, 8)})
            return out
        if resolving:
            for kind in ((2,) if hit else (0, 1, 2)):
                for tgt in ((0, 1) if kind == 2 else (0,)):
                    s = st.copy()
                    q = text(s, "type") if kind else ("S", ())
                    cells = {off["name"][0]: (text(s, "name"), 32), t + toff["qname"][0]: (q, 32)}
                    tid = self.FT["TYPE_MESSAGE"]
                    if not kind:
                        sy = s.finsym("type", 42, mask(v for k, v in self.FT.items() if k != "TYPE_MESSAGE"))
                        tid = ("T", sy, tuple(range(42)), 32)
                    cells[t + toff["id"][0]] = (tid, 4)
                    ref = 0
                    if kind == 1:
                        i = self.generic(s)
                        self.setmsg(s, i, ("S", ()), q)
                        ref = ("P", i, 0)
                    cells[t + toff["ref"][0]] = (ref, 8)
                    if kind == 2:
                        s.ghost["=pend"] = 1
                        s.ghost["pend"] = (("#obj", sid), idx)
                        s.ghost["tname"] = q
                        s.ghost["=tgt"] = tgt
                        s.ghost["=tin"] = tgt
                        s.ghost["m2"] = ("#obj", s.alloc("seq", "messages", x={"esize": 16, "n": lin(s.widesym("messages", 1, None))}))
                        s.note("in", "(field with the type of a later or unknown message: %s)" % ("known" if tgt else "unknown"))
                    else:
                        s.note("in", "(field)")
                    common(s, cells)
            return out
        # an earlier field of the message
        for rel in ((0,) if hit and g["=ci"] or type(g["num"]) is int else (-1, 1)):
            s = st.copy()
            g2 = s.ghost
            if type(g2["num"]) is int:
                ix = lin(s.widesym("number", 1, 2**29 - 1), 32)
            elif rel == 0:
                ix = g2["num"]
            else:
                d = s.widesym("distance", 1, None)
                ix = lin_add(g2["num"], lin_scale(lin(d), rel, 64), 64)
            if type(ix) is tuple:
                ix = ("L", ix[1], ix[2], 32)
            if hit and g["=cn"]:
                nm = g2["fname"]
            else:
                nm = text(s, "name")
                if g2["fname"] and not s.assume(streq(self.m, s, nm, g2["fname"]), False):
                    continue
            common(s, {off["index"][0]: (ix, 4), off["name"][0]: (nm, 32)})
        return out

    def pending(self, st):
        """the field whose type is being resolved"""
        (_, sid), idx = st.ghost["pend"]
        o = st.mem.get(sid)
        c = o.x.get(("e", idx)) if o is not None else None
        if c is None:
            return None
        t = self.off["protogen::Field"]["type"][0]
        toff = self.off["protogen::TypeInfo"]
        return {"ref": c[t + toff["ref"][0]][0], "id": c[t + toff["id"][0]][0], "qname": c[t + toff["qname"][0]][0]}

    def leave(self, st):
        """the field that was being resolved is left behind"""
        g = st.ghost
        if not g["=pend"]:
            return
        p = self.pending(st)
        if p is None:
            raise Unmodelled("the field being resolved is lost")
        if p["ref"] == 0:
            self.fail(st, "a field whose type is %s message is left unresolved" % ("a known" if g["=tgt"] else "an unknown"), "reference")
        self.refok(st, p["ref"], g["tname"])
        if not self.same(st, p["qname"], g["tname"]):
            self.fail(st, "the type name of a field is changed", "reference")
        self.tick("references resolved")
        g["=pend"] = 0
        for k in ("pend", "tname", "m2"):
            g[k] = 0

    def refok(self, st, ref, q):
        if type(ref) is not tuple or ref[0] != "P":
            self.fail(st, "a field refers to something that is not a message", "reference")
        off = self.off["protogen::Message"]
        o = st.mem[ref[1]]
        if o.x.get("seen"):
            if o.x["seen"] != 2:
                self.fail(st, "a field refers to a message that does not have the name of its type", "reference")
            return
        pk, nm = (o.cells.get(off[x][0]) for x in ("package", "name"))
        if pk is None or nm is None or not self.same(st, self.qualified(pk[0], nm[0]), q):
            self.fail(st, "a field refers to a message that does not have the name of its type", "reference")

    # ---- what the parser stores
    def check_options(self, st, allowed):
        g = st.ghost
        if g["=node"][0] == "bad":
            for i, o in list(st.mem.items()):
                if o.kind == "map" and o.x["writes"]:
                    st.wobj(i).x["writes"] = ()
            return
        exp = list(g["opts"])
        off = self.off["protogen::OptionEntry"]
        for i, o in list(st.mem.items()):
            if o.kind != "map" or not o.x["writes"]:
                continue
            for key, (_, e) in o.x["writes"]:
                if not exp:
                    self.fail(st, "an option is stored that the schema does not have", "option")
                scope, name, typ, val = exp.pop(0)
                own = g["map" + scope[1]]
                if not own:
                    if ("#obj", i) in (g["mapT"], g["mapM"], g["mapF"]):
                        self.fail(st, "an option is stored with the wrong element", "option")
                    g["map" + scope[1]] = ("#obj", i)
                elif own[1] != i:
                    self.fail(st, "an option is stored with the wrong element", "option")
                c = st.mem[e].cells
                if not self.same(st, key, name) or not self.same(st, c[off["name"][0]][0], name):
                    self.fail(st, "an option is stored with another name", "option")
                if not self.same(st, c[off["value"][0]][0], val):
                    self.fail(st, "an option is stored with another value", "option")
                if not surely(st, icmp("eq", c[off["type"][0]][0], typ, 32)):
                    self.fail(st, "an option is stored with another type", "option")
                self.tick("options stored")
            st.wobj(i).x["writes"] = ()
        if len(exp) > allowed:
            self.fail(st, "an option of the schema is not stored", "option")
        g["opts"] = tuple(exp)

    def on_field(self, st, vec, elem):
        g = st.ghost
        node = g["=node"]
        if g["=bad#"]:
            self.fail(st, "a field with a number that is not allowed is accepted", "number")
        if g["=ci"] or g["=cn"]:
            self.fail(st, "a field with the %s of an earlier field is accepted" % ("number" if g["=ci"] else "name"), "duplicate")
        if node[0] == "bad":
            return
        if node != ("body",) or not g["fname"]:
            self.fail(st, "a field is stored before the end of its declaration", "model")
        if vec[0] != "P" or not st.mem[vec[1]].size == self.mod.types["protogen::Message"]["size"] or vec[2] != self.off["protogen::Message"]["fields"][0]:
            self.fail(st, "a field is stored in something that is not a message", "model")
        if not g["msg"]:
            g["msg"] = ("#obj", vec[1])
        elif g["msg"][1] != vec[1]:
            self.fail(st, "the fields of a message are stored in different messages", "model")
        self.check_options(st, 0)
        off, toff = self.off["protogen::Field"], self.off["protogen::TypeInfo"]

        def num(o, t):
            return self.m.load(st, self.m.padd(elem, o), t)

        t = off["type"][0]
        want = g["ft"]
        if not surely(st, icmp("eq", num(t + toff["id"][0], "i32"), want, 32)):
            self.fail(st, "a field is stored with another type", "model")
        for n, w in (("repeated", g["rep"]), ("optional", g["optl"])):
            v = num(t + toff[n][0], "i8")
            if not surely(st, icmp("eq", v, cast("trunc", w, 64, 8), 8)):
                self.fail(st, "a field is stored with the wrong '%s' mark" % n, "model")
        if not self.same(st, self.sload(st, self.m.padd(elem, off["name"][0])), g["fname"]):
            self.fail(st, "a field is stored with another name", "model")
        ix = num(off["index"][0], "i32")
        if type(ix) is tuple and ix[0] == "L" and ix[1] == g["num"][1] and ix[2] == g["num"][2]:
            pass
        elif not surely(st, icmp("eq", ix, cast("trunc", g["num"], 64, 32), 32)):
            self.fail(st, "a field is stored with another number", "number")
        if want == self.FT["TYPE_MESSAGE"]:
            if not self.same(st, self.sload(st, self.m.padd(elem, t + toff["qname"][0])), g["ftype"]):
                self.fail(st, "the type name of a field is not the qualified name of the message", "reference")
            ref = num(t + toff["ref"][0], "ptr")
            if ref != 0:
                self.refok(st, ref, g["ftype"])
        mp = cell_get(self.m, st, self.m.padd(elem, off["options"][0]))[0][1]
        if g["mapF"] and g["mapF"][1] != mp:
            self.fail(st, "the options of a field are not stored with it", "option")
        self.tick("fields stored")
        for k in ("fname", "ft", "ftype", "num", "numtext", "mapF"):
            g[k] = 0
        g["rep"] = g["optl"] = 0
        g["=bad#"] = 0

    def on_message(self, st, vec, elem):
        g = st.ghost
        if g["=dup"]:
            self.fail(st, "a message with the name of an earlier message is accepted", "duplicate")
        if g["=node"][0] == "bad":
            return
        if not g["mname"] or g["=node"] != ("file",):
            self.fail(st, "a message is stored before its end", "model")
        if g["fname"]:
            self.fail(st, "a field of a message is not stored", "model")
        self.check_options(st, 0)
        p = self.m.load(st, elem, "ptr")
        if type(p) is not tuple or p[0] != "P":
            self.fail(st, "a null message is stored", "model")
        if g["msg"]:
            if g["msg"][1] != p[1]:
                self.fail(st, "the stored message is not the one that has the fields", "model")
        elif st.mem[self.fieldseq(st, p[1])].x["n"] != 0:
            self.fail(st, "an empty message is stored with fields", "model")
        if vec != ("P", self.objs(st)[1], self.off["protogen::Proto3"]["messages"][0]):
            self.fail(st, "a message is stored elsewhere", "model")
        off = self.off["protogen::Message"]
        if not self.same(st, self.sload(st, self.m.padd(p, off["name"][0])), g["mname"]):
            self.fail(st, "a message is stored with another name", "model")
        if not self.same(st, self.sload(st, self.m.padd(p, off["package"][0])), g["pkg"]):
            self.fail(st, "a message is stored with another package", "model")
        mp = cell_get(self.m, st, self.m.padd(p, off["options"][0]))[0][1]
        if g["mapM"] and g["mapM"][1] != mp:
            self.fail(st, "the options of a message are not stored with it", "option")
        self.tick("messages stored")
        for k in ("mname", "msg", "mapM"):
            g[k] = 0

    def strto(self, m, st, name, a):
        g = st.ghost
        t = models.cstr(m, st, a[0])
        known = g.get("numtext") and self.same(st, t, g["numtext"])
        if not known and g["=node"][0] != "bad":
            raise Unmodelled("number of an unknown text")
        if type(a[1]) is tuple:
            m.store(st, a[1], m.padd(a[0], s_len(t)), 8)
        if name.endswith("max"):
            raise Unmodelled(name)
        if a[2] not in (10,):
            return lin(st.widesym("other", 0, 2**63 - 1))
        return g["num"] if known else lin(st.widesym("other", 0, 2**63 - 1))

    # ---- the end
    def at_end(self, st):
        g = st.ghost
        for k in ("mname", "oname"):
            g[k] = 0
        n = st.mem[self.messages(st)].x["n"]
        g["=mk"] = g["=fk"] = 0
        # whether one particular unresolved field exists
        if n != 0:
            s2 = st.copy()
            if s2.assume(icmp("sgt", n, 0, 64), True):
                s2.ghost["=mk"] = 1
                return [st, s2]
        return None

    def on_throw(self, st, exc):
        g = st.ghost
        if exc[0] != EXC:
            raise Violation("the parser lets an exception other than protogen::exception escape (%s)" % exc[0], rule="exception", where=(self.f_parse.where(), self.f_parse.dem))
        node = g["=node"]
        where = (self.f_parse.where(), self.f_parse.dem)
        self.tick("rejections")
        if node[0] == "bad":
            return ()
        if node == ("end",):
            if g["=pend"] and not g["=tgt"]:
                return ()
            raise Violation("a schema is rejected although its types are known", rule="reference", where=where)
        rule = "grammar"
        if node == ("fopt",):
            rule = "number"
        elif node == ("body",) and g["fname"] or node == ("msg{",):
            rule = "duplicate"
        raise Violation("a schema of the language is rejected (%s)" % nodetext(node), rule=rule, where=where)

    def on_return(self, st, val):
        g = st.ghost
        node = g["=node"]
        where = (self.f_parse.where(), self.f_parse.dem)
        self.tick("schemas accepted")
        if node[0] == "bad":
            raise Violation("a schema outside of the language is accepted (%s)" % node[1], rule=node[1] if node[1] in ("number", "duplicate") else "grammar", where=where)
        if node != ("end",):
            raise Violation("the parser ends before the end of the schema", rule="grammar", where=where)
        self.check_options(st, 0)
        self.leave(st)
        if g["=mk"] == 1 or g["=mk"] == 2 and g["=fk"] == 1:
            raise Violation("the type of a field is never resolved", rule="reference", where=where)
        off = self.off["protogen::Proto3"]
        tree = self.objs(st)[1]
        if not self.same(st, self.sload(st, ("P", tree, off["fileName"][0])), self.sload(st, ("P", self.objs(st)[2], 0))):
            raise Violation("the file name is not stored", rule="model", where=where)
        if cell_get(self.m, st, ("P", tree, off["options"][0]))[0][1] != g["mapT"][1]:
            raise Violation("the options of the schema are lost", rule="option", where=where)
        return ()


def nodetext(node):
    return {"file": "between declarations", "body": "in a message", "end": "at its end"}.get(node[0], "after part of a declaration: " + str(node[0]))
