"""The properties and the analyses that decide them. See DESIGN.md."""
import time
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *      # noqa
import effects_checks as ef
import generated_checks as gc
from engine import drv_jsonlex, drv_protolex, drv_parser, drv_codec, drv_base64, drv_write, drv_number, drv_ops, drv_overload, drv_main
from engine.witness import Schema

CHECKS = {}


def prop(pid, level="proof"):
    def g(f):
        CHECKS[pid] = (f, level)
        return f
    return g


def lexer(prog, rep, rules):
    mod = prog.mod("wa")
    d = drv_jsonlex.JsonLex(mod, prog.ns)
    d.explore([d.start()])
    rep.driver(d, "JSON lexer", rules)
    rep.counts["obligations"] = sum(d.tokens.values())
    for k in d.ids:
        if not d.tokens.get(k) and not d.findings:
            rep.expect("no token of kind %s was ever delivered" % k)
    rep.rules.append("abstract interpretation of the tokenizer and its input stream, to a fixpoint over all byte sequences of any length, in lock-step with a "
                     "reference automaton; an obligation is one delivered token compared with the reference")
    rep.sample("tokens compared by kind: %s" % d.tokens)
    rep.assumptions += ["clang's translation of the source to LLVM IR", "the model of std::string and of string iterators in engine/models.py",
                        "positions and lengths stay below 2^31"]


@prop("J01")
def J01(prog, rep):
    lexer(prog, rep, {"token-kind", "number-text", "progress", "memory", "exception"})


@prop("J02")
def J02(prog, rep):
    lexer(prog, rep, {"string-kind", "string-text"})


@prop("J03")
def J03(prog, rep):
    lexer(prog, rep, {"position"})


def schema_lexer(prog, rep, rules):
    d = drv_protolex.ProtoLex(prog.mod("compiler"))
    d.explore([d.start()])
    rep.driver(d, "schema lexer", rules)
    rep.counts["obligations"] = sum(d.tokens.values())
    for k in drv_protolex.CODES:
        if not d.tokens.get(k) and not d.findings:
            rep.expect("no token %s was ever delivered" % k)
    rep.rules.append("abstract interpretation of InputStream and Tokenizer over the stream iterators, to a fixpoint over all byte sequences of any length, in "
                     "lock-step with a reference automaton; an obligation is one delivered token, or one malformed text, compared with the reference")
    rep.sample("tokens compared by kind: %s" % d.tokens)
    rep.assumptions += ["clang's translation of the source to LLVM IR", "the models of std::string and std::istream_iterator in the engine",
                        "positions and lengths stay below 2^31"]


@prop("C01")
def C01(prog, rep):
    schema_lexer(prog, rep, {"token", "text", "progress", "memory", "exception"})


@prop("C15")
def C15(prog, rep):
    schema_lexer(prog, rep, {"position"})


def parser(prog, rep, rules):
    d = drv_parser.Parser(prog.mod("compiler"))
    d.explore([d.start()])
    rep.driver(d, "schema parser", rules)
    rep.counts["obligations"] = sum(d.count.values())
    if not d.findings:
        for k in ("tokens accepted", "schemas accepted", "rejections", "messages stored", "references resolved", "options stored", "fields stored"):
            if not d.count.get(k):
                rep.expect("nothing was compared: " + k)
    rep.rules.append("abstract interpretation of Proto3::parse to a fixpoint over all token sequences, in lock-step with a reference grammar; an obligation is one "
                     "token taken, one element stored, one acceptance or one rejection compared with the reference")
    rep.sample("compared: %s" % d.count)
    rep.assumptions += ["clang's translation of the source to LLVM IR", "the models of the standard library in the engine", "the lexer keeps its contract (C01)"]


@prop("C02")
def C02(prog, rep):
    parser(prog, rep, {"grammar", "whitespace", "progress", "memory", "exception"})


@prop("C03")
def C03(prog, rep):
    parser(prog, rep, {"model"})


@prop("C04")
def C04(prog, rep):
    parser(prog, rep, {"number", "duplicate"})


@prop("C05")
def C05(prog, rep):
    parser(prog, rep, {"reference"})


@prop("C16")
def C16(prog, rep):
    parser(prog, rep, {"option"})


def codec_readers(prog, rep, rules, need):
    """every read function of the witnesses, and every function that reads a whole document"""
    total = {}
    for w in ("wa", "wb", "wc"):
        mod, schema = prog.mod(w), Schema(w)
        have, want = set(), set()
        drivers = []
        for f, X in drv_codec.readers(mod, prog.ns):
            have.add(X)
            if drv_codec.Types(mod, prog.ns).kind(X) == "bytes":
                continue        # see J08
            drivers.append(lambda f=f, X=X: drv_codec.Read(mod, prog.ns, f, X, schema))
        for name in schema.messages:
            want.add(schema.ns + name + "_type")
        docs = drv_codec.documents(mod)
        for name in schema.messages:
            if schema.ns + name not in {X for _, X in docs}:
                rep.problem("%s: no function that reads a document of type %s" % (w, name))
        for f, X in docs:
            drivers.append(lambda f=f, X=X: drv_codec.Document(mod, prog.ns, f, X))
        for make in drivers:
            d = make()
            s = d.start()
            d.explore(s if type(s) is list else [s])
            rep.driver(d, w, rules)
            want |= d.callees
            for k, v in d.count.items():
                total[k] = total.get(k, 0) + v
            rep.counts["codecs"] = rep.counts.get("codecs", 0) + 1
        for X in sorted(want - have):
            rep.problem("%s: no codec of %s was found" % (w, X))
    rep.counts["obligations"] = sum(total.values())
    if not rep.findings:
        for k in need:
            if not total.get(k):
                rep.expect("nothing was compared: " + k)
    rep.rules.append("abstract interpretation of every instantiation json<T>::read and of deserialize over all token sequences, each against the contract its callers rely on "
                     "(the codecs called are replaced by that contract); an obligation is one token, element, acceptance, rejection or outcome compared with the reference")
    rep.sample("compared: %s" % total)
    rep.assumptions += ["clang's translation of the source to LLVM IR", "the models of the standard library in the engine", "the lexer keeps its contract (J01)",
                        "the witness schemas cover the type constructors of generated code: every scalar type, string, bytes, messages, both containers, the options"]


@prop("J04")
def J04(prog, rep):
    codec_readers(prog, rep, {"grammar", "assign", "array", "value", "context", "document", "memory", "exception"}, ("tokens", "elements", "acceptances", "documents", "outcomes"))


@prop("J14")
def J14(prog, rep):
    codec_readers(prog, rep, {"null", "presence"}, ("nulls", "acceptances"))


@prop("J17")
def J17(prog, rep):
    codec_readers(prog, rep, {"error"}, ("rejections", "outcomes"))


@prop("J05")
def J05(prog, rep):
    for w in ("wa",):
        mod = prog.mod(w)
        fs = mod.find(r"::tokenizer::ignore\(\)$")
        if len(fs) != 1:
            raise Anchor("tokenizer::ignore")
        d = drv_codec.Read(mod, prog.ns, fs[0], None, None, "ignore")
        d.explore([d.start()])
        rep.driver(d, w, {"ignore", "memory", "exception"})
        rep.counts["obligations"] = sum(d.count.values())
        if not d.findings:
            for k in ("tokens", "acceptances", "rejections", "nested values"):
                if not d.count.get(k):
                    rep.expect("nothing was compared: " + k)
        rep.sample("compared: %s" % d.count)
    rep.rules.append("abstract interpretation of tokenizer::ignore over all token sequences, in lock-step with the grammar of a JSON value; values inside the value are skipped by induction, "
                     "for which the depth that is counted must grow by one and be below a bound at every recursive call, and be restored at the end")
    rep.assumptions += ["clang's translation of the source to LLVM IR", "the models of the standard library in the engine", "the lexer keeps its contract (J01)"]


BEGUN = time.time()


def run(rep, label, rules, total, d):
    if rep.findings and time.time() - BEGUN > 60:
        d.PATIENCE, d.TIME = 1, 5       # there is an answer: a short look at the rest
    s = d.start()
    d.explore(s if type(s) is list else [s])
    rep.driver(d, label, rules)
    for k, v in d.count.items():
        total[k] = total.get(k, 0) + v
    rep.counts["codecs"] = rep.counts.get("codecs", 0) + 1
    return d


def needed(rep, total, need):
    rep.counts["obligations"] = sum(total.values())
    if not rep.findings:
        for k in need:
            if not total.get(k):
                rep.expect("nothing was compared: " + k)
    rep.sample("compared: %s" % total)


WRITING = ["clang's translation of the source to LLVM IR", "the models of the standard library in the engine", "the text of a number is what J10 says",
           "the witness schemas cover the type constructors of generated code: every scalar type, string, bytes, messages, both containers, the options"]
WRITER = ("abstract interpretation of every instantiation json<T>::write on an unknown object, in lock-step with a reader of the text as it is emitted "
          "(the codecs called are replaced by the contract that is checked for them); ")


@prop("J06")
def J06(prog, rep):
    total = {}
    mod = prog.mod("wa")
    T = drv_codec.Types(mod, prog.ns)
    for f, X in drv_write.writers(mod, prog.ns):
        if T.kind(X) in ("string", "string_field"):
            run(rep, "wa", {"grammar", "value", "ascii", "refuse", "error", "context", "memory", "exception"}, total, drv_write.Write(mod, prog.ns, f, X, Schema("wa")))
    needed(rep, total, ("characters", "completions", "failures"))
    rep.rules.append(WRITER + "an obligation is one character of the emitted text, one completion or one refusal compared with what the bytes of the string mean")
    rep.assumptions += WRITING


@prop("J07")
def J07(prog, rep):
    total = {}
    rules = {"grammar", "value", "member", "array", "presence", "context", "document", "error", "refuse", "memory", "exception"}
    for w in ("wa", "wb", "wc"):
        mod, schema = prog.mod(w), Schema(w)
        T = drv_codec.Types(mod, prog.ns)
        have, want = set(), set()
        for f, X in drv_write.writers(mod, prog.ns):
            have.add(X)
            if T.kind(X) in ("string", "bytes"):
                continue        # see J06, J08
            want |= run(rep, w, rules, total, drv_write.Write(mod, prog.ns, f, X, schema)).callees
        docs = drv_write.documents(mod)
        for name in schema.messages:
            want.add(schema.ns + name + "_type")
            if schema.ns + name not in {X for _, X in docs}:
                rep.problem("%s: no function that writes a document of type %s" % (w, name))
        for f, X in docs:
            want |= run(rep, w, rules, total, drv_write.Document(mod, prog.ns, f, X)).callees
        for X in sorted(want - have):
            rep.problem("%s: no codec of %s was found" % (w, X))
    needed(rep, total, ("objects", "members", "elements", "completions", "failures", "documents", "outcomes"))
    rep.rules.append(WRITER + "an obligation is one object, member, element, completion, failure or outcome compared with the object that is written")
    rep.assumptions += WRITING


@prop("J08")
def J08(prog, rep):
    total = {}
    rules = {"grammar", "value", "base64", "context", "error", "refuse", "memory", "exception", "null"}
    for w in ("wa", "wb"):
        mod, schema = prog.mod(w), Schema(w)
        T = drv_codec.Types(mod, prog.ns)
        for f, X in drv_codec.readers(mod, prog.ns):
            if T.kind(X) == "bytes":
                run(rep, w + " reading", rules, total, drv_base64.Base64Read(mod, prog.ns, f, X, schema))
        for f, X in drv_write.writers(mod, prog.ns):
            if T.kind(X) == "bytes":
                run(rep, w + " writing", rules, total, drv_write.Write(mod, prog.ns, f, X, schema))
    needed(rep, total, ("groups", "acceptances", "rejections", "completions"))
    rep.rules.append("abstract interpretation of the reader of base64 text over all texts, and of its writer over all byte sequences, in lock-step with RFC 4648; "
                     "an obligation is one group of four characters, acceptance, rejection or completion compared with the reference")
    rep.assumptions += WRITING[:2] + ["the lexer keeps its contract (J01)"]


def numbers(prog, rep, which, rules, need):
    total = {}
    for w in ("wa", "wb", "wc"):
        mod = prog.mod(w)
        for f, T, c in drv_number.functions(mod):
            if c is not which:
                continue
            d = c(mod, prog.ns, f, T)
            d.explore(d.regions())
            rep.driver(d, w, rules)
            for k, v in d.count.items():
                total[k] = total.get(k, 0) + v
            rep.counts["conversions"] = rep.counts.get("conversions", 0) + 1
    if rep.counts.get("conversions", 0) < 8:
        rep.problem("only %d functions that convert numbers were found" % rep.counts.get("conversions", 0))
    needed(rep, total, need)
    rep.rules.append("abstract interpretation over regions of numbers (intervals of integers and of doubles, integral or not, with the shape of their text), split at every number the code "
                     "compares with until each region decides every comparison; an obligation is one region with its outcome and value compared with the reference")
    rep.assumptions += ["clang's translation of the source to LLVM IR", "the models of the C library: strtod rounds correctly, printf %.17g (%.9g) of a double (float) reads back as the same value",
                        "the text of the number is one of the JSON grammar (J01 checks it)"]


@prop("J09")
def J09(prog, rep):
    numbers(prog, rep, drv_number.Read, None, ("regions", "numbers", "refusals", "conversions"))


@prop("J10")
def J10(prog, rep):
    numbers(prog, rep, drv_number.Write, None, ("regions", "texts", "conversions"))


@prop("J16")
def J16(prog, rep):
    total, kinds = {}, {}
    for w in ("wa", "wb", "wc"):
        mod, schema = prog.mod(w), Schema(w)
        T = drv_codec.Types(mod, prog.ns)
        have = set()
        for f, own, op, args, X in drv_ops.operations(mod, prog.ns):
            d = run(rep, w, None, total, drv_ops.Ops(mod, prog.ns, f, own, op, args, X))
            kinds[op] = kinds.get(op, 0) + 1
            have.add((op, own or X))
            if not d.count.get("operations") and not d.findings and not d.problems:
                rep.problem("%s: %s never returned" % (w, f.dem))
        for name in schema.messages:
            for op, X in [(o, schema.ns + name + "_type") for o in ("empty", "clear", "equal", "swap")] + [(o, schema.ns + name) for o in ("empty", "clear", "equal", "swap", "eq")]:
                if (op, X) not in have:
                    rep.problem("%s: no operation %s of %s was found" % (w, op, X))
    rep.counts["codecs"] = None
    del rep.counts["codecs"]
    rep.counts["functions"] = sum(kinds.values())
    needed(rep, total, ("operations", "parts"))
    rep.sample("functions by operation: %s" % kinds)
    rep.rules.append("abstract interpretation of every operation on unknown objects: one finite unknown per field decides which operands have a value, which values are zero or empty and which "
                     "are the same (only possible combinations); calls to operations of the parts are replaced by their meaning, each being checked itself; "
                     "an obligation is one part of an object, after the operation, compared with the meaning of the operation")
    rep.assumptions += ["clang's translation of the source to LLVM IR", "the models of std::string and of the containers in the engine (comparison, swap, copy, clear)", "values are not NaN",
                        "the witness schemas cover the type constructors of generated code: every scalar type, string, bytes, messages, both containers, the options"]


@prop("J15")
def J15(prog, rep):
    total, kinds = {}, {}
    for w in ("wa", "wb", "wc"):
        mod, schema = prog.mod(w), Schema(w)
        have = set()
        for f, way, own, args in drv_overload.overloads(mod, prog.ns):
            d = run(rep, w, None, total, drv_overload.Overload(mod, prog.ns, f, way, own, args))
            k = "%s, %s %s" % ("message" if own else "array", way, d.target)
            kinds[k] = kinds.get(k, 0) + 1
            have.add((own, way, d.target))
            if not d.count.get("outcomes") and not d.findings and not d.problems:
                rep.problem("%s: %s never returned" % (w, f.dem))
        for name in schema.messages:
            for way in ("read", "write"):
                for t in ("string", "vector", "memory", "stream"):
                    if w == "wa" and (schema.ns + name, way, t) not in have:
                        rep.problem("%s: no overload of %s was found that does: %s, %s" % (w, name, way, t))
    if not any(k.startswith("array, read") for k in kinds) or not any(k.startswith("array, write") for k in kinds):
        rep.problem("no overload for arrays was found")
    rep.counts["functions"] = sum(kinds.values())
    needed(rep, total, ("bytes", "ends", "writes", "outcomes"))
    rep.sample("overloads: %s" % kinds)
    rep.rules.append("abstract interpretation of every overload, with the function on streams replaced by a client that calls the stream's operations in any order (the loop of the reader, any sequence of the four "
                     "ways to write); an obligation is one byte seen, one end, one write or one outcome, compared with the bytes and the memory of the caller")
    rep.assumptions += ["clang's translation of the source to LLVM IR", "the models of std::string, std::vector<char>, std::istream_iterator and std::ostream in the engine",
                        "a client asks for the end before it looks at a byte (the tokenizer, checked by J01, does)"]


@prop("C06")
def C06(prog, rep):
    d = drv_main.Main(prog.mod("compiler"))
    total = {}
    run(rep, "compiler", None, total, d)
    needed(rep, total, ("outcomes", "diagnostics"))
    rep.counts["outcomes_of_the_world"] = sum(d.suspends.values())
    rep.rules.append("abstract interpretation of main and what it calls, with every outcome of opening, reading, parsing, generating, writing and closing (all combinations the code asks for); an obligation is one "
                     "end of the program, compared with what happened before")
    rep.assumptions += ["clang's translation of the source to LLVM IR", "Proto3::parse and CppGenerator::generate return or throw protogen::exception", "a std::ofstream reports a failed write or close by its state after flush or close",
                        "the loop that sorts the fields does not change the outcome"]


@prop("C08", "other")
def C08(prog, rep):
    gc.member_types(prog, rep)


@prop("C11", "other")
def C11(prog, rep):
    gc.self_contained(prog, rep)


@prop("J12", "other")
def J12(prog, rep):
    ef.thread_isolation(prog, rep)


@prop("J13", "other")
def J13(prog, rep):
    ef.no_exceptions(prog, rep)


if __name__ == "__main__":
    pid = sys.argv[1]
    stmt = {}
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        j = json.loads(l)
        stmt[j["id"]] = j["title"]
    f, level = CHECKS[pid]
    sys.exit(main(pid, f, level, stmt.get(pid, "")))
