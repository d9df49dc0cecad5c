"""What every check shares: building the program representation, the outcome rules and the evidence file.

exit 0  the property holds on everything analysed (KNOWN-FINDING lines for recorded defects)
        Where part of the code is outside the analysed language, the rest is analysed and held; each part left
        out gives an INCOMPLETE line and an entry in the evidence (--strict: exit 2 instead)
exit 1  a violation that known_findings.txt does not list (VIOLATION line)
exit 2  no answer (build failure, vanished anchor, nothing that could be analysed)"""
import json, os, re, resource, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)

from engine import build, ir            # noqa: E402
from engine import explore             # noqa: E402
from engine.explore import Anchor       # noqa: E402
from engine.interp import Unmodelled    # noqa: E402


class Finding:
    """a violation: the rule broken, the construct (file:line, function) and the path or facts that show it"""

    def __init__(self, rule, what, where="?", func="", path=()):
        self.rule, self.what, self.where, self.func, self.path = rule, what, where, func, list(path)

    def text(self):
        return "%s: %s [%s %s]" % (self.rule, self.what, self.where, self.func)


class Report:
    def __init__(self):
        self.findings = []
        self.problems = []
        self.cuts = []          # parts of the exploration that were cut off
        self.unmet = []         # expectations that fail when parts are cut off
        self.counts = {}
        self.rules = []
        self.samples = []
        self.assumptions = []

    def add(self, *a, **k):
        self.findings.append(Finding(*a, **k))

    def problem(self, s):
        self.problems.append(str(s))

    def cut(self, s):
        self.cuts.append(str(s))

    def expect(self, s):
        self.unmet.append(str(s))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def need(self, name, minimum=1):
        """an analysis that found nothing to analyse gives no answer"""
        if self.counts.get(name, 0) < minimum:
            self.problem("expected at least %d %s, found %d" % (minimum, name, self.counts.get(name, 0)))

    def driver(self, d, label=None, rules=None):
        """takes over the outcome of a fixpoint driver; rules: the kinds of findings of interest"""
        for f in d.findings.values():
            if rules is None or f.rule is None or f.rule in rules:
                self.add(f.rule or d.name, f.what, f.where, f.func or "", f.path)
        for p in d.problems:
            self.cut("%s: %s" % (label or d.name, p))
        self.count("abstract_states", d.stats["states"])
        self.count("transfer_segments", d.stats["segments"])
        self.counts["functions_analysed"] = self.counts.get("functions_analysed", 0)
        for n in sorted(d.m.visited):
            fs.add(n)


class Program:
    """the analysed program, loaded on demand"""

    def __init__(self):
        self.dir = build.build()
        self.mods = {}
        self.ns = open(os.path.join(self.dir, "ns")).read()

    def mod(self, name):
        if name not in self.mods:
            bad = os.path.join(self.dir, name + ".broken")
            if os.path.exists(bad):
                raise build.BuildError(open(bad).read()[-3000:])
            m = ir.Module(os.path.join(self.dir, name + ".json"))
            h = os.path.join(self.dir, name + ".pg.hh")
            if os.path.exists(h):
                d = os.path.join(build.REPO, "source", "cpp")
                hs = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".hh")]
                m.linemap[h] = ir.header_linemap(h, hs)
            self.mods[name] = m
        return self.mods[name]


fs = set()


def short(w):
    return str(w).replace(build.REPO + "/", "")


def known():
    out = []
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) rule=(\S+) construct=(.*?) what=(.*)$", l.strip())
        if m:
            out.append({"property": m.group(1), "rule": m.group(2), "construct": m.group(3), "what": m.group(4)})
    return out


def main(pid, analyse, level, statement):
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    rep = Report()
    explore.Driver.DEADLINE = t0 + 660
    try:
        prog = Program()
        rep.prog = prog
        analyse(prog, rep)
    except Anchor as e:
        rep.problem("anchor not found: %s" % e)
    except build.BuildError as e:
        rep.problem("build: %s" % e)
    except Unmodelled as e:
        rep.problem("outside the analysed language: %s" % e)
    except MemoryError:
        rep.problem("out of memory")
    except Exception:
        rep.problem("internal error: " + traceback.format_exc())
    strict = "--strict" in sys.argv
    if strict or not rep.cuts or not rep.counts.get("obligations"):
        rep.problems += rep.unmet
    if strict or not rep.counts.get("obligations"):
        rep.problems += rep.cuts
        rep.cuts = []
    listed = [k for k in known() if k["property"] == pid]
    new, old = [], []
    for f in rep.findings:
        for k in listed:
            if k["rule"] == f.rule and re.search(k["construct"], f.func + " " + f.what):
                old.append(k)
                break
        else:
            new.append(f)
    for k in listed:
        if k in old:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    rp = os.path.join(ev, pid + ".violation.txt")
    if os.path.exists(rp):
        os.unlink(rp)
    if new:
        with open(rp, "w") as o:
            o.write("property %s: %s\n" % (pid, statement))
            for f in new:
                o.write("\n%s\n  at %s %s\n" % (f.rule + ": " + f.what, short(f.where), f.func))
                for p in f.path:
                    o.write("  " + short(p) + "\n")
        for f in new[:5]:
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("  " + short(f.text())[:600])
    for p in rep.problems[:10]:
        print("NO-ANSWER property=%s %s" % (pid, short(p)[:700]))
    for p in rep.cuts[:10]:
        print("INCOMPLETE property=%s not analysed: %s" % (pid, short(p)[-600:]))
    cov = dict(rep.counts)
    if fs:
        cov["functions_analysed"] = len(fs)
    expl = "; ".join(rep.rules) or "see DESIGN.md"
    if level == "proof":
        cov.setdefault("obligations", 0)
        cov["discharged"] = cov.get("obligations", 0) if not new and not rep.problems else cov.get("discharged", 0)
        cov["checker_cmd"] = "cd /verif && checks/run %s" % pid
        cov["trusted_base"] = rep.assumptions
    cov["explanation"] = expl
    if rep.samples:
        cov["samples"] = [short(s) for s in rep.samples]
    if rep.problems or rep.cuts:
        cov["incomplete"] = [short(p) for p in (rep.problems + rep.cuts)[:20]]
        level = "other"
    json.dump({"property": pid, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1")),
               "level": level, "coverage": cov, "assumptions": rep.assumptions, "wall_s": round(time.time() - t0, 1),
               "violations": len(new)}, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    if new:
        return 1
    if rep.problems:
        return 2
    print("OK property=%s %s" % (pid, " ".join("%s=%s" % (k, v) for k, v in cov.items() if isinstance(v, int))))
    return 0
