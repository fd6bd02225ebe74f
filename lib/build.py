"""Content-addressed build of /repo's current working tree plus the harness drivers.

Every object is keyed by the hash of (compiler, flags, preprocessed translation unit), so a
cached object can only be reused for byte-identical input; nothing depends on mtimes, and a
changed file is always recompiled. Objects live in /verif/build (git-ignored).
"""
import concurrent.futures as cf
import hashlib, os, re, subprocess, sys, shutil, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")

# the definitions of the repository's own test build, plus the hook guard
DEFS = ["LOG_DEBUG", "EXPORT_INTERNALS", "HACL_CAN_COMPILE_VEC128", "HACL_CAN_COMPILE_VEC256",
        "USE_STANDARD_PRIMES", "ELECTIONGUARD_BUILD_SHARED", "SPDLOG_FMT_EXTERNAL", "ONLY_C_LOCALE=1", "HAS_STRING_VIEW=1",
        "ELECTIONGUARD_VERIF_HOOKS"]
INCS = ["include", "src", "src/electionguard", "src/karamel"]

SAN_COMMON = ["-O1", "-g1", "-fno-omit-frame-pointer"]
VARIANTS = {
    # fast functional build; library assertions of libstdc++ on
    "plain": dict(cc="gcc", cxx="g++", flags=["-O1"], hacl=["-O2"], defs=["_GLIBCXX_ASSERTIONS"],
                  link=[]),
    # the same at the operator's log level
    "info": dict(cc="gcc", cxx="g++", flags=["-O1"], hacl=["-O2"], defs=["_GLIBCXX_ASSERTIONS"], nodefs=["LOG_DEBUG"],
                 link=[]),
    # AddressSanitizer + LeakSanitizer + UndefinedBehaviorSanitizer
    "asan": dict(cc="clang", cxx="clang++", defs=["_GLIBCXX_ASSERTIONS"],
                 flags=SAN_COMMON + ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment,null,object-size,nonnull-attribute",
                                     "-fno-sanitize-recover=undefined"],
                 hacl=["-O1"], link=["-fsanitize=address,undefined"]),
    "tsan": dict(cc="clang", cxx="clang++", defs=[],
                 flags=SAN_COMMON + ["-fsanitize=thread"], hacl=["-O2"],
                 link=["-fsanitize=thread"]),
    # libFuzzer coverage + ASan/UBSan
    "fuzz": dict(cc="clang", cxx="clang++", defs=["_GLIBCXX_ASSERTIONS"],
                 flags=SAN_COMMON + ["-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize=vptr,alignment,null,object-size,nonnull-attribute",
                                     "-fno-sanitize-recover=undefined"],
                 hacl=["-O1"], link=["-fsanitize=address,undefined,fuzzer"]),
}


class BuildError(Exception):
    pass


_ver = {}


def _ccver(cc):
    if cc not in _ver:
        _ver[cc] = subprocess.run([cc, "--version"], capture_output=True, text=True).stdout
    return _ver[cc]


def lib_sources():
    text = open(os.path.join(REPO, "src/CMakeLists.txt")).read()
    text = re.sub(r"#[^\n]*", "", text)
    m = re.search(r"set\(PROJECT_SOURCE_FILES(.*?)\)", text, re.S)
    if not m:
        raise BuildError("PROJECT_SOURCE_FILES not found")
    res = []
    for f in re.findall(r"\$\{PROJECT_SOURCE_DIR\}(/\S+\.(?:cpp|c))\b", m.group(1)):
        res.append(REPO + f)
    return res


def _run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, **kw)


def _flags_for(variant, src, extra):
    v = VARIANTS[variant]
    is_c = src.endswith(".c")
    comp = v["cc"] if is_c else v["cxx"]
    flags = list(v["flags"])
    if "/src/karamel/" in src:
        flags += v["hacl"]
    flags += ["-w", "-fPIC", "-pthread", "-std=c11" if is_c else "-std=c++17"]
    if is_c:
        flags[-1] = "-std=gnu11"
    flags += ["-D" + d for d in DEFS + v["defs"] if d not in v.get("nodefs", ())]
    flags += ["-I" + os.path.join(REPO, i) for i in INCS]
    flags += ["-I" + HARNESS]
    flags += extra
    return comp, flags


def compile_one(variant, src, extra=()):
    comp, flags = _flags_for(variant, src, list(extra))
    pp = _run([comp] + flags + ["-E", src])
    if pp.returncode:
        raise BuildError("preprocessing %s failed:\n%s" % (src, pp.stderr.decode(errors="replace")[-4000:]))
    h = hashlib.sha256()
    h.update(_ccver(comp).encode())
    # definitions and include paths only act on the preprocessor, whose output is hashed
    h.update("\0".join(f for f in flags if f[:2] not in ("-D", "-I")).encode())
    h.update(pp.stdout)
    key = h.hexdigest()[:32]
    obj = os.path.join(OUT, "obj", key + ".o")
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
        r = _run([comp] + flags + ["-c", src, "-o", tmp])
        if r.returncode:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stderr.decode(errors="replace")[-6000:]))
        os.replace(tmp, obj)
    return obj, key


_SLOW = ("manifest.cpp", "ballot.cpp", "ballot_compact.cpp", "election.cpp", "encrypt.cpp")


def build(variant, name, harness_sources, extra_link=(), extra_flags=(), lib=True):
    """returns the path of an executable made of the library's and the harness' objects"""
    srcs = (lib_sources() if lib else []) + [os.path.join(HARNESS, s) if not s.startswith("/") else s
                                             for s in harness_sources]
    order = sorted(srcs, key=lambda s: (0 if os.path.basename(s) in _SLOW else 1, s))
    jobs = {}
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        futs = {s: ex.submit(compile_one, variant, s, extra_flags) for s in order}
        for s, f in futs.items():
            jobs[s] = f.result()
    v = VARIANTS[variant]
    h = hashlib.sha256(("\0".join(sorted(k for _, k in jobs.values())) + "|".join(v["link"]) +
                        "|".join(extra_link) + name + variant).encode()).hexdigest()[:24]
    exe = os.path.join(OUT, "bin", "%s-%s-%s" % (name, variant, h))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".tmp%d" % os.getpid()
        r = _run([v["cxx"]] + v["link"] + ["-pthread", "-o", tmp] + [jobs[s][0] for s in srcs] +
                 list(extra_link) + ["-lfmt", "-ldl"])
        if r.returncode:
            raise BuildError("linking %s failed:\n%s" % (name, r.stderr.decode(errors="replace")[-6000:]))
        os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    import time
    t = time.time()
    print(build(sys.argv[1], sys.argv[2], sys.argv[3:]))
    print("%.1fs" % (time.time() - t))
