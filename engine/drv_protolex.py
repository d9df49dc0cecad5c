"""Schema lexer: InputStream and Tokenizer of source/proto3.cc against the lexical grammar of the
schema language. The stream iterators deliver a byte sequence of unknown length and contents."""
from .drv_jsonlex import *
from .models import model, cell_get, cell_set


SYM = {"=": "EQUAL", "{": "BEGIN", "}": "END", ";": "SCOLON", ",": "COMMA", "<": "LT", ">": "GT", "[": "LBRACKET", "]": "RBRACKET"}
# the token codes are part of the interface between lexer and parser; FieldType has the same numbers
CODES = {"EOF": 0, "message": 1, "NAME": 2, "EQUAL": 3, "repeated": 4, "double": 6, "float": 7, "int32": 8, "int64": 9, "uint32": 10,
         "uint64": 11, "sint32": 12, "sint64": 13, "fixed32": 14, "fixed64": 15, "sfixed32": 16, "sfixed64": 17, "bool": 18, "string": 19,
         "bytes": 20, "syntax": 22, "QNAME": 23, "STRING": 24, "INTEGER": 25, "enum": 27, "SCOLON": 28, "package": 29, "LT": 30, "GT": 31,
         "map": 32, "COMMA": 33, "BEGIN": 34, "END": 35, "option": 36, "true": 37, "false": 38, "LBRACKET": 39, "RBRACKET": 40, "optional": 41}
WORDS3 = [w.encode() for w in CODES if w.islower()]
IDL = LETTERS + b"_"
IDC = IDL + DIG


class Ref3:
    def classes(self, node):
        k = node[0]
        rest = Ref.rest
        if k == "start":
            firsts = bytes(sorted({w[0] for w in WORDS3}))
            out = [("blank", mask(b" \t\r")), ("nl", mask(b"\n")), ('"', mask(b'"')), ("/", mask(b"/")), ("dig", mask(DIG))]
            out += [(c, mask(c.encode())) for c in SYM]
            out += [("w" + chr(c), mask([c])) for c in firsts]
            out.append(("letter", mask(bytes(c for c in IDL if c not in firsts))))
            return rest(self, out)
        if k == "word":
            p = node[1]
            nxt = bytes(sorted({w[len(p)] for w in WORDS3 if w.startswith(p) and len(w) > len(p)})) if p is not None else b""
            return rest(self, [("w" + chr(c), mask([c])) for c in nxt] + [("letter", mask(bytes(c for c in IDC if c not in nxt))), (".", mask(b"."))])
        if k == "dot":
            return rest(self, [("letter", mask(IDL))])
        if k == "qname":
            return rest(self, [("letter", mask(IDC)), (".", mask(b"."))])
        if k == "int":
            return rest(self, [("dig", mask(DIG))])
        if k == "str":
            return rest(self, [('"', mask(b'"')), ("nl", mask(b"\n")), ("nul", 1)])
        if k == "slash":
            return rest(self, [("/", mask(b"/")), ("*", mask(b"*"))])
        if k == "linec":
            return rest(self, [("nl", mask(b"\n"))])
        if k in ("blockc", "star"):
            return rest(self, [("*", mask(b"*")), ("/", mask(b"/"))])
        return [("any", ALL)]


# ---- std::istream_iterator<char>: a place in the byte sequence (the end iterator: its end)
IT = r"^std::istream_iterator<char, char, long>::"


@model(IT + r"istream_iterator\(std::istream_iterator<.*> const&\)$")
def _(m, st, fn, a, ins):
    cell_set(m, st, a[0], cell_get(m, st, a[1])[0], 16)


@model(IT + r"istream_iterator\(std::istream&\)$")
def _(m, st, fn, a, ins):
    cell_set(m, st, a[0], m.env.stream_place(m, st, a[1], False), 16)


@model(IT + r"istream_iterator\(\)$")
def _(m, st, fn, a, ins):
    cell_set(m, st, a[0], m.env.stream_place(m, st, None, True), 16)


@model(IT + r"operator\*\(\) const$")
def _(m, st, fn, a, ins):
    return cell_get(m, st, a[0])[0]


@model(IT + r"operator\+\+\((int)?\)$")
def _(m, st, fn, a, ins):
    post = "(int)" in fn.dem
    it = a[1] if post else a[0]
    v = cell_get(m, st, it)[0]
    n = st.mem[v[1]].x["n"]
    if st.decide(icmp("eq", v[2], n, 64)):
        raise Violation("the stream iterator is advanced past the end of the input", rule="memory")
    cell_set(m, st, it, m.padd(v, 1), 16)
    if post:
        cell_set(m, st, a[0], v, 16)
        return None
    return a[0]


@model(r"^std::operator([!=])=\(std::istream_iterator<char, char, long> const&, std::istream_iterator<char, char, long> const&\)$",
       IT + r"_M_equal\(std::istream_iterator<.*> const&\) const$")
def _(m, st, fn, a, ins):
    r = m.cmp(st, "eq", cell_get(m, st, a[0])[0], cell_get(m, st, a[1])[0], "ptr")
    return negate(r) if "operator!=" in fn.dem else r


class ProtoLex(JsonLex):
    name = "protolex"
    KEY = WORDS3

    def __init__(self, mod):
        Driver.__init__(self, mod, MODELS)
        self.ref = Ref3()
        models.KEYWORDS.clear()
        models.KEYWORDS.update({w: 1 for w in WORDS3})
        self.tokens = {}
        I = r"<std::istream_iterator<char, char, long>>"
        self.f_is = self.one(r"^protogen::InputStream" + I + r"::InputStream\(")
        self.f_ctor = self.one(r"^protogen::Tokenizer" + I + r"::Tokenizer\(")
        self.f_next = self.one(r"^protogen::Tokenizer" + I + r"::next\(\)$")
        self.f_unget = self.one(r"^protogen::Tokenizer" + I + r"::unget\(\)$")
        self.TT = self.type("protogen::Token")
        self.mem = {n: off for n, off, _, _ in mod.types[self.TT]["members"]}
        for k in ("code", "value", "line", "column"):
            if k not in self.mem:
                raise Anchor("Token::" + k)
        t = [t for t in mod.types if t.startswith("protogen::Tokenizer<") and "members" in mod.types[t]]
        if len(t) != 1:
            raise Anchor("type Tokenizer")
        self.T = t[0]
        self.tkmem = {n: off for n, off, _, _ in mod.types[self.T]["members"]}
        if "current" not in self.tkmem:
            raise Anchor("Tokenizer::current")

    def type(self, n):
        if n not in self.mod.types or "members" not in self.mod.types[n]:
            raise Anchor("type " + n)
        return n

    def start(self):
        st = State()
        n = st.widesym("length", 0, None)
        seq = st.alloc("seq", "the input", x={"esize": 1, "n": lin(n), "input": True})
        a = st.alloc("alloca", "first", 16, {0: (("P", seq, 0), 16)})
        b = st.alloc("alloca", "last", 16, {0: (("P", seq, lin(n)), 16)})
        is_ = st.alloc("heap", "stream", 4096)
        tok = st.alloc("heap", "tokenizer", self.mod.types[self.T]["size"])
        ret = st.alloc("alloca", "returned token", self.mod.types[self.TT]["size"])
        g = st.ghost
        g["objs"] = tuple(("#obj", x) for x in (seq, is_, tok, ret))
        g["=step"] = "stream"
        g["=node"] = ("start",)
        g["pos"] = 0
        g["line"], g["col"] = 1, 1
        g["tok"] = (0, 0)
        g["out"] = ("S", ())
        g["=pending"] = False
        g["pb"] = 0
        g["=kind"] = ""
        self.m.call_function(st, self.f_is, [("P", is_, 0), ("P", a, 0), ("P", b, 0)])
        return st

    def abstract(self, st, s):
        if s.kind == "token":
            return st.ghost.get("#n")
        if s.kind != "elem":
            raise Unmodelled("unexpected request " + s.kind)
        rest = focus(st, s)
        node = st.ghost["=node"]
        if node[0] in ("linec", "blockc", "star", "slash", "start") or node == ("done", "NONE"):
            forget_texts(st)
        opaque(st, "out", node[0] == "word" and node[1] is not None, node == ("word", None))
        return rest

    def feed(self, st, cls, b, again=False):
        g = st.ghost
        node = g["=node"]
        if not again:
            g["pos"] = lin_add(g["pos"], 1, 64)
        k = node[0]
        if k == "done":
            if node[1] == "NONE":
                return
            if g["=pending"]:
                raise Unmodelled("the lexer looks two bytes ahead")
            g["=pending"], g["pb"] = True, b
            return

        def advance():
            if cls in ("nl", "otherNL"):
                g["line"], g["col"] = lin_add(g["line"], 1, 64), 1
            else:
                g["col"] = lin_add(g["col"], 1, 64)

        def pend(kind):
            g["=node"] = ("done", kind)
            g["=pending"], g["pb"] = True, b

        def emit(v):
            g["out"] = s_cat(g["out"], ("S", (piece_of(v),)))

        if k == "word":
            if cls == "." :
                g["=node"] = ("dot",)
            elif cls[0] == "w" and len(cls) == 2:
                g["=node"] = ("word", node[1] + cls[1:].encode())
            elif cls == "letter":
                g["=node"] = ("word", None)
            else:
                pend(self.wordkind(node))
                return
            emit(b)
            advance()
            return
        if k == "qname":
            if cls in (".", "letter"):
                g["=node"] = ("dot",) if cls == "." else ("qname",)
                emit(b)
                advance()
            else:
                pend("QNAME")
            return
        if k == "int":
            if cls == "dig":
                emit(b)
                advance()
            else:
                pend("INTEGER")
            return
        if k == "start":
            if cls in ("blank", "nl"):
                advance()
                return
            g["tok"] = (g["line"], g["col"])
            g["out"] = ("S", ())
            if cls == '"':
                g["=node"] = ("str",)
            elif cls == "/":
                g["=node"] = ("slash",)
            elif cls == "dig":
                g["=node"] = ("int",)
                emit(b)
            elif cls in SYM:
                g["=node"] = ("done", SYM[cls])
            elif cls[0] == "w" and len(cls) == 2:
                g["=node"] = ("word", cls[1:].encode())
                emit(b)
            elif cls == "letter":
                g["=node"] = ("word", None)
                emit(b)
            else:
                g["=node"] = ("done", "NONE")
            advance()
            return
        advance()
        if k == "dot":
            if cls == "letter":
                g["=node"] = ("qname",)
                emit(b)
            else:
                g["=node"] = ("done", "NONE")
        elif k == "str":
            if cls == '"':
                g["=node"] = ("done", "STRING")
            elif cls in ("nl", "nul"):
                g["=node"] = ("done", "NONE")
            else:
                emit(b)
        elif k == "slash":
            g["=node"] = ("linec",) if cls == "/" else ("blockc",) if cls == "*" else ("done", "NONE")
        elif k == "linec":
            if cls == "nl":
                g["=node"] = ("start",)
        elif k == "blockc":
            if cls == "*":
                g["=node"] = ("star",)
        elif k == "star":
            g["=node"] = ("start",) if cls == "/" else ("star",) if cls == "*" else ("blockc",)
        else:
            raise Unmodelled("reference state %s" % (node,))

    def wordkind(self, node):
        return node[1].decode() if node[1] in WORDS3 else "NAME"

    def finish(self, st):
        g = st.ghost
        node = g["=node"]
        if node[0] == "done":
            return node[1]
        n = st.mem[self.objs(st)[0]].x["n"]
        if not st.decide(icmp("eq", g["pos"], n, 64)):
            raise Violation("a token ends before its end in the grammar (%s)" % self.nodename(node), rule="token", where=self.here())
        k = node[0]
        if k in ("start", "linec"):
            return "EOF"
        return {"word": lambda: self.wordkind(node), "int": lambda: "INTEGER", "qname": lambda: "QNAME"}.get(k, lambda: "NONE")()

    def nodename(self, node):
        return {"start": "before a token", "word": "in a name", "qname": "in a qualified name", "dot": "in a qualified name", "int": "in a number", "str": "in a string"}.get(node[0], "in a comment")

    def on_throw(self, st, exc):
        kind = self.finish(st)
        if exc[0] != "_ZTIN8protogen9exceptionE":
            raise Violation("the lexer lets an exception other than protogen::exception escape (%s)" % exc[0], rule="exception", where=self.here())
        if kind != "NONE":
            raise Violation("the lexer rejects a token of the grammar (%s)" % kind, rule="token", where=self.here())
        self.tokens["malformed"] = self.tokens.get("malformed", 0) + 1
        return ()

    def on_return(self, st, val):
        g = st.ghost
        seq, is_, tok, ret = self.objs(st)
        step = g["=step"]
        if step == "stream":
            g["=step"] = "ctor"
            self.m.call_function(st, self.f_ctor, [("P", tok, 0), ("P", is_, 0)])
            return [st]
        if step == "unget":
            g["=step"] = "again"
            self.m.call_function(st, self.f_next, [("P", ret, 0), ("P", tok, 0)])
            return [st]
        if step in ("next", "again"):
            kind = self.finish(st) if step == "next" else g["=kind"]
            self.tokens[kind] = self.tokens.get(kind, 0) + 1
            if kind == "NONE":
                raise Violation("the lexer accepts malformed text", rule="token", where=self.here())
            for obj, off in ((ret, 0), (tok, self.tkmem["current"])):
                self.compare(st, ("P", obj, off), kind)
            if step == "next" and kind == "EOF":
                if g["=kind"] == "EOF":
                    return []
                g["=kind"] = "EOF"
                self.m.call_function(st, self.f_next, [("P", ret, 0), ("P", tok, 0)])
                return [st]
            if step == "next":
                s2 = st.copy()
                s2.ghost["=step"], s2.ghost["=kind"] = "unget", kind
                self.m.call_function(s2, self.f_unget, [("P", tok, 0)])
                return [s2] + self.goon(st)
            return self.goon(st)
        return self.goon(st)

    def compare(self, st, p, kind):
        g = st.ghost

        def fld(n):
            return self.m.load(st, self.m.padd(p, self.mem[n]), "i32")
        code = fld("code")
        if not st.decide(icmp("eq", code, CODES[kind], 32)):
            got = [k for k, v in CODES.items() if v == code]
            raise Violation("the lexer delivers %s where the grammar has %s" % (got[0] if got else show(code), kind), rule="token", where=self.here())
        if kind not in ("NAME", "QNAME", "INTEGER", "STRING") and not kind.islower():
            if kind == "EOF":
                return
        else:
            tv = getS(self.m, st, self.m.padd(p, self.mem["value"]))
            r = streq(self.m, st, tv, g["out"])
            if not (type(r) is int and r == 1) and not surely(st, r):
                raise Violation("the text of a token (%s) is not the text of the schema: %s instead of %s" % (kind, show(tv)[:150], show(g["out"])[:150]), rule="text", where=self.here())
        for k, n in ((0, "line"), (1, "column")):
            if not surely(st, icmp("eq", fld(n), g["tok"][k], 64)):
                raise Violation("the %s of a token (%s) is not where it starts" % (n, kind), rule="position", where=self.here())

    def goon(self, st):
        g = st.ghost
        seq, is_, tok, ret = self.objs(st)
        g["=node"], g["=step"], g["=kind"] = ("start",), "next", ""
        g["out"] = ("S", ())
        # whatever the previous token was
        for obj, off in ((ret, 0), (tok, self.tkmem["current"])):
            for n in ("code", "line", "column"):
                self.m.store(st, ("P", obj, off + self.mem[n]), lin(st.widesym(n, 0, None)), 4)
            cell_set(self.m, st, ("P", obj, off + self.mem["value"]), ("S", (("v", st.widesym("text", 0, None)),)), 32)

        g.pop("elem", None)
        o = st.wobj(seq)
        for k in [k for k in o.x if type(k) is tuple]:
            del o.x[k]
        s = Suspend("token")
        return [(st, s, self.joined)] if self.join(st, s) else []

    def resume(self, st, s):
        if s.kind != "token":
            return JsonLex.resume(self, st, s)
        seq, is_, tok, ret = self.objs(st)

        def f(s):
            g = s.ghost
            if g["=pending"]:
                b = g["pb"]
                ms = [m for _, m in self.ref.classes(("start",)) if s.dom[b[1]] & m]
                if len(ms) > 1:
                    raise ForkSym(b[1], ms)
                g["=pending"], g["pb"] = False, 0
                cls = [c for c, m in self.ref.classes(("start",)) if s.dom[b[1]] & m][0]
                s.note("in", "(" + cls + ")")
                self.feed(s, cls, b, True)
            self.m.call_function(s, self.f_next, [("P", ret, 0), ("P", tok, 0)])
        return self.forked(st, f)
