#!/usr/bin/env python3
"""Builds the harness from /repo's current working tree. Content-hash cached object files under /verif/build."""
import hashlib, json, os, re, subprocess, sys, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
HARNESS = os.path.join(VERIF, "harness")
CXX = "clang++"
JOBS = 8


class BuildError(Exception):
    pass


def config_hpp(symmetric=1, final=1, futex=0, fault=0):
    text = open(os.path.join(REPO, "src/config.hpp.in")).read()
    sub = {"YACLIB_ASAN": "0", "YACLIB_TSAN": "0", "YACLIB_MEMSAN": "0", "YACLIB_UBSAN": "0", "YACLIB_FAULT": str(fault),
           "YACLIB_COVERAGE": "0", "YACLIB_CORO_NEED": "1", "YACLIB_SYMMETRIC_TRANSFER": str(symmetric),
           "YACLIB_FINAL_SUSPEND_TRANSFER": str(final), "YACLIB_FUTEX": str(futex)}
    text = re.sub(r"\$\{(\w+)\}", lambda m: sub.get(m.group(1), "0"), text)
    return text


def lib_sources(fault):
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        rel = os.path.relpath(root, REPO)
        if not fault and rel.startswith("src/fault"):
            continue
        for f in sorted(files):
            if f.endswith(".cpp"):
                out.append(os.path.join(rel, f))
    return sorted(out)


_tree_hash = None


def tree_hash():
    """hash of everything a translation unit may include"""
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for top in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), HARNESS):
            for root, dirs, files in os.walk(top):
                dirs.sort()
                for f in sorted(files):
                    if f.endswith((".hpp", ".h", ".in")) or "." not in f:
                        p = os.path.join(root, f)
                        h.update(os.path.relpath(p, top).encode())
                        h.update(open(p, "rb").read())
        _tree_hash = h.hexdigest()
    return _tree_hash


COMMON = ["-std=c++20", "-g1", "-fno-omit-frame-pointer", "-Wno-everything", "-pthread"]
MODES = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all", "-DMC_ASAN", "-DYACLIB_LOG_DEBUG"],
    # no YACLIB_LOG_DEBUG: what the assertions of the library read must not order anything
    "tsan": ["-O1", "-fsanitize=thread", "-DMC_TSAN"],
    "plain": ["-O1", "-DYACLIB_LOG_DEBUG"],
    "cov": ["-O0", "-DYACLIB_LOG_DEBUG", "-fprofile-instr-generate", "-fcoverage-mapping", "-DMC_COV"],
}
LINK = {
    "asan": ["-fsanitize=address,undefined"],
    "tsan": ["-fsanitize=thread"],
    "plain": [],
    "cov": ["-fprofile-instr-generate"],
}


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])
    return p.stdout


def build_mc(mode, props, variant="st1", verbose=False):
    """props: list of scenario source files (without .cpp). Returns the path of the binary."""
    st = {"st1": dict(symmetric=1, final=1), "st0": dict(symmetric=0, final=0), "st10": dict(symmetric=1, final=0),
          "fx2": dict(symmetric=1, final=1, futex=2), "fx1": dict(symmetric=1, final=1, futex=1)}[variant]
    base = os.path.join(BUILD, "mc")
    gen = os.path.join(base, "gen-" + variant)
    os.makedirs(os.path.join(gen, "yaclib"), exist_ok=True)
    os.makedirs(os.path.join(base, "obj"), exist_ok=True)
    cfg = config_hpp(**st)
    # clang 18 keeps members of an awaiter in registers across an inlined await_suspend and writes them to the frame
    # after the coroutine was published (llvm #56301): never inline them.
    # the non-TSAN branch of the library is the one that is judged (fences are emulated)
    cfg += "\n#undef YACLIB_TSAN\n#undef YACLIB_ASAN\n#undef YACLIB_INLINE\n#define YACLIB_INLINE inline __attribute__((noinline))\n"
    cfgp = os.path.join(gen, "yaclib/config.hpp")
    if not os.path.exists(cfgp) or open(cfgp).read() != cfg:
        open(cfgp, "w").write(cfg)
    inc = ["-I" + os.path.join(HARNESS, "mc/include"), "-I" + os.path.join(HARNESS, "mc"), "-I" + gen,
           "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
    units = [(os.path.join(REPO, s), "lib_" + s.replace("/", "_")[:-4], MODES[mode]) for s in lib_sources(False)]
    units.append((os.path.join(HARNESS, "mc/mc.cpp"), "mc",
                  ["-O2", "-fno-builtin"] + [f for f in MODES[mode] if f.startswith("-DMC")]))
    for p in props:
        units.append((os.path.join(HARNESS, "props", p + ".cpp"), "prop_" + p, MODES[mode]))
    jobs = []
    objs = []
    key0 = tree_hash() + cfg + mode + " ".join(COMMON)
    for src, name, flags in units:
        h = hashlib.sha256((key0 + " ".join(flags)).encode() + open(src, "rb").read()).hexdigest()[:16]
        obj = os.path.join(base, "obj", f"{variant}-{mode}-{name}-{h}.o")
        objs.append(obj)
        if not os.path.exists(obj):
            jobs.append((src, obj, flags))
    # big translation units first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))

    def compile_one(j):
        src, obj, flags = j
        tmp = obj + f".{os.getpid()}.tmp"
        run([CXX] + COMMON + flags + inc + ["-c", src, "-o", tmp])
        os.replace(tmp, obj)

    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(compile_one, jobs))
    h = hashlib.sha256("".join(objs).encode()).hexdigest()[:16]
    out = os.path.join(base, f"mc-{variant}-{mode}-{h}")
    if not os.path.exists(out):
        tmp = out + f".{os.getpid()}.tmp"
        run([CXX] + LINK[mode] + objs + ["-pthread", "-o", tmp])
        os.replace(tmp, out)
    return out


FAULT_MODES = {
    # no AddressSanitizer: the fibers of the library switch with swapcontext and do not describe the main stack to it
    "ubsan": ["-O1", "-fsanitize=undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS",
              "-DYACLIB_LOG_DEBUG", "-DYACLIB_LOG_WARN"],
    "plain": ["-O1", "-D_GLIBCXX_ASSERTIONS", "-DYACLIB_LOG_DEBUG", "-DYACLIB_LOG_WARN"],
}


def build_fault(mode, props, backend):
    """The library with YACLIB_FAULT=THREAD or FIBER, unmodified, and the case driver harness/fz"""
    fault = {"thread": 1, "fiber": 2}[backend]
    base = os.path.join(BUILD, "fz")
    gen = os.path.join(base, "gen-" + backend)
    os.makedirs(os.path.join(gen, "yaclib"), exist_ok=True)
    os.makedirs(os.path.join(base, "obj"), exist_ok=True)
    cfg = config_hpp(fault=fault)
    # llvm #56301, see build_mc
    cfg += "\n#undef YACLIB_INLINE\n#define YACLIB_INLINE inline __attribute__((noinline))\n"
    cfgp = os.path.join(gen, "yaclib/config.hpp")
    if not os.path.exists(cfgp) or open(cfgp).read() != cfg:
        open(cfgp, "w").write(cfg)
    inc = ["-I" + os.path.join(HARNESS, "mc"), "-I" + os.path.join(HARNESS, "fz"), "-I" + gen,
           "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
    flags = FAULT_MODES[mode]
    units = [(os.path.join(REPO, s), "lib_" + s.replace("/", "_")[:-4]) for s in lib_sources(True)
             if fault == 2 or not s.startswith("src/fault/fiber")]
    units.append((os.path.join(HARNESS, "fz/fz.cpp"), "fz"))
    for p in props:
        units.append((os.path.join(HARNESS, "fz", p + ".cpp"), "prop_" + p))
    key0 = tree_hash() + cfg + mode + " ".join(COMMON + flags)
    jobs, objs = [], []
    for src, name in units:
        h = hashlib.sha256(key0.encode() + open(src, "rb").read()).hexdigest()[:16]
        obj = os.path.join(base, "obj", f"{backend}-{mode}-{name}-{h}.o")
        objs.append(obj)
        if not os.path.exists(obj):
            jobs.append((src, obj))
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))

    def compile_one(j):
        tmp = j[1] + f".{os.getpid()}.tmp"
        run([CXX] + COMMON + flags + inc + ["-c", j[0], "-o", tmp])
        os.replace(tmp, j[1])

    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(compile_one, jobs))
    out = os.path.join(base, f"fz-{backend}-{mode}-" + hashlib.sha256("".join(objs).encode()).hexdigest()[:16])
    if not os.path.exists(out):
        tmp = out + f".{os.getpid()}.tmp"
        run([CXX] + (["-fsanitize=undefined"] if mode == "ubsan" else []) + objs + ["-pthread", "-o", tmp])
        os.replace(tmp, out)
    return out


if __name__ == "__main__":
    if sys.argv[1] == "fault":
        print(build_fault(sys.argv[2], sys.argv[3].split(","), sys.argv[4]))
        sys.exit(0)
    mode = sys.argv[1]
    props = sys.argv[2].split(",")
    variant = sys.argv[3] if len(sys.argv) > 3 else "st1"
    print(build_mc(mode, props, variant))
