"""Builds, from the current source of the repository, what the analysis looks at:
   - compiler: LLVM IR of the schema compiler (source/*.cc, source/cpp/*.cc)
   - wa, wb, wc: LLVM IR of the code generated for the witness schemas, with the runtime
The IR is obtained with clang at -O0 (plus SROA), never executed. The only program
of the repository that runs is its own code generator, as part of the build."""
import os, sys, json, hashlib, subprocess, shutil, re, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PROTOGEN_REPO", "/repo")
CLANGXX = "clang++-18"
BUILD = os.environ.get("PROTOGEN_BUILD", os.path.join(VERIF, "build"))


class BuildError(Exception):
    pass


def run(cmd, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    except subprocess.TimeoutExpired:
        raise BuildError("no end of: " + " ".join(cmd))
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def irdump():
    src = os.path.join(VERIF, "tools", "irdump.cc")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    exe = os.path.join(BUILD, "irdump-" + h)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        flags = run(["llvm-config-18", "--cxxflags", "--ldflags"]).split()
        run([CLANGXX, "-O1", "-w", src, "-o", exe + ".tmp"] + flags + ["-fexceptions", "-lLLVM-18"])
        os.rename(exe + ".tmp", exe)
    return exe


def source_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, d) for d in ("source", "include")] + [os.path.join(VERIF, "witness")]
    files = [os.path.join(REPO, "CMakeLists.txt"), os.path.abspath(__file__), os.path.join(VERIF, "tools", "irdump.cc")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
    h.update(REPO.encode())
    return h.hexdigest()[:16]


WITNESSES = ("wa", "wb", "wc")


def compile_ir(src, out, incs, defs=()):
    run([CLANGXX, "-std=c++11", "-O0", "-Xclang", "-disable-O0-optnone", "-Xclang", "-fsanitize-address-use-after-scope", "-g", "-gcolumn-info", "-emit-llvm", "-c", "-w",
         "-fno-discard-value-names", src, "-o", out + ".raw"] + ["-I" + i for i in incs] + ["-D" + d for d in defs])
    run(["opt-18", "-passes=sroa,simplifycfg<no-sink-common-insts;no-hoist-common-insts;no-switch-to-lookup>,sroa", out + ".raw", "-o", out])
    os.unlink(out + ".raw")


def build():
    """returns the folder with compiler.json, wa.json, wb.json, wc.json and the generated headers"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build()
    finally:
        lock.close()


def _build():
    dump = irdump()
    key = source_hash()
    out = os.path.join(BUILD, "ir-" + key)
    if os.path.exists(os.path.join(out, "done")):
        return out
    for d in os.listdir(BUILD):   # keep one result only
        if d.startswith("ir-"):
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    os.makedirs(out)
    bt = os.path.join(out, "cmake")
    run(["cmake", "-S", REPO, "-B", bt, "-G", "Unix Makefiles", "-DCMAKE_BUILD_TYPE=Release", "-DCMAKE_CXX_COMPILER=" + CLANGXX,
         "-DCMAKE_CXX_FLAGS_RELEASE=-O1", "-Wno-dev"])
    run(["make", "-C", bt, "--no-print-directory", "-j8", "protogen"])
    incs = [os.path.join(REPO, "include"), os.path.join(bt, "__include")]
    srcs = [os.path.join(REPO, "source", f) for f in sorted(os.listdir(os.path.join(REPO, "source"))) if f.endswith(".cc") and f != "template.cc"]
    cpp = os.path.join(REPO, "source", "cpp")
    srcs += [os.path.join(cpp, f) for f in sorted(os.listdir(cpp)) if f.endswith(".cc")]
    jobs = []
    bcs = []
    for s in srcs:
        o = os.path.join(out, os.path.basename(s) + ".bc")
        bcs.append(o)
        jobs.append((s, o, incs, ()))
    m = re.search(r"PROTOGEN_VERSION_NAMING\s+\"([^\"]*)\"", open(os.path.join(bt, "__include", "cmake.hh")).read())
    ns = "protogen" + (m.group(1) if m else "")
    broken = {}
    for w in WITNESSES:
        try:
            run([os.path.join(bt, "protogen"), os.path.join(VERIF, "witness", w + ".proto"), os.path.join(out, w + ".pg.hh")], timeout=60)
        except BuildError as e:
            broken[w] = str(e)
            continue
        jobs.append((os.path.join(VERIF, "witness", w + ".cc"), os.path.join(out, w + ".bc"), [out], ("protogen_W=" + ns,)))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for j, f in [(j, ex.submit(compile_ir, *j)) for j in jobs]:
            try:
                f.result()
            except BuildError as e:
                w = os.path.basename(j[1])[:-3]
                if w not in WITNESSES:
                    raise
                broken[w] = str(e)      # the properties of the generated code get no answer, the others do
    run(["llvm-link-18"] + bcs + ["-o", os.path.join(out, "compiler.bc")])
    for mod in ("compiler",) + WITNESSES:
        if mod in broken:
            open(os.path.join(out, mod + ".broken"), "w").write(broken[mod])
        else:
            run([dump, os.path.join(out, mod + ".bc"), os.path.join(out, mod + ".json")])
    keep = os.path.join(out, "auto")
    shutil.copytree(os.path.join(bt, "__include"), keep)
    shutil.copy2(os.path.join(bt, "protogen"), os.path.join(out, "protogen"))
    shutil.rmtree(bt)
    for f in bcs:
        os.unlink(f)
    open(os.path.join(out, "ns"), "w").write(ns)
    open(os.path.join(out, "done"), "w").write(key)
    return out


if __name__ == "__main__":
    print(build())
