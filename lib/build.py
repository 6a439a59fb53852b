"""Out-of-tree builds of /repo's working tree (library) and /verif's harnesses, per sanitizer variant.

Objects are cached in /verif/build by a hash over the *contents* of everything that can influence them (all library
headers and the source itself, the stand-ins, the flags), so a changed tree is always recompiled."""
import concurrent.futures as cf, hashlib, os, subprocess, sys, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EDIE_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
GUARD = []
BASE = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-w", "-I" + os.path.join(VERIF, "stubs"), "-I" + os.path.join(REPO, "include"),
        "-I" + os.path.join(VERIF, "harness"), "-DNDEBUG", "-DSPDLOG_SHARED_LIB", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL", "-DSPDLOG_ACTIVE_LEVEL=SPDLOG_LEVEL_DEBUG"] + GUARD
VARIANTS = {
    # EncoderBase's constructor downcasts to the derived class while it is under construction: -vptr reports the idiom itself.
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,nonnull-attribute", "-fno-sanitize-recover=all"],
    "fuzz": ["-O1", "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize=vptr,nonnull-attribute", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O2"],
}
CXX = "clang++"
LIBS = ["-lspdlog", "-lfmt", "-lpthread"]
SLOW = ["message_decoder.cpp", "encoder.cpp", "rxconfig_handler.cpp", "range_decompressor.cpp", "parser.cpp", "header_decoder.cpp"]


class BuildError(Exception):
    pass


def lib_sources():
    out = []
    for d in ("src/common/src", "src/decoders/common/src", "src/decoders/oem/src"):
        out += glob.glob(os.path.join(REPO, d, "**", "*.cpp"), recursive=True)
    out.sort(key=lambda p: (SLOW.index(os.path.basename(p)) if os.path.basename(p) in SLOW else 99, p))
    return out


def _hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def _tree(root):
    r = []
    for d, dirs, fs in os.walk(root):
        dirs[:] = [x for x in dirs if x not in ("test", "tests", "resources", "__pycache__")]
        r += [os.path.join(d, f) for f in fs if f.endswith((".hpp", ".h"))]
    return r


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])


def build(harness, variant, extra_flags=(), link_flags=()):
    """Compile the whole library and harness/<harness>.cpp; return the executable's path."""
    os.makedirs(BUILD, exist_ok=True)
    flags = BASE + VARIANTS[variant] + list(extra_flags)
    stubh = _hash_files(_tree(os.path.join(VERIF, "stubs")))
    libh = _hash_files(_tree(os.path.join(REPO, "include")) + _tree(os.path.join(REPO, "src")))
    harh = _hash_files(_tree(os.path.join(VERIF, "harness")))
    vdir = os.path.join(BUILD, variant)
    os.makedirs(vdir, exist_ok=True)
    # precompiled header with the third-party headers only
    pchsrc = os.path.join(VERIF, "lib", "pch.hpp")
    key = hashlib.sha256((" ".join(flags) + stubh + open(pchsrc).read()).encode()).hexdigest()[:16]
    pch = os.path.join(vdir, "pch_%s.pch" % key)
    if not os.path.exists(pch):
        tmp = pch + ".%d" % os.getpid()
        _run([CXX] + flags + ["-x", "c++-header", pchsrc, "-o", tmp])
        os.replace(tmp, pch)
    jobs = [(s, False) for s in lib_sources()]
    hs = os.path.join(VERIF, "harness", harness + ".cpp")
    jobs.insert(0, (hs, True))

    def obj(src, is_h):
        with open(src, "rb") as f:
            body = f.read()
        k = hashlib.sha256((" ".join(flags) + src + stubh + libh + (harh if is_h else "")).encode() + body).hexdigest()[:20]
        o = os.path.join(vdir, os.path.basename(src) + "." + k + ".o")
        if not os.path.exists(o):
            tmp = o + ".%d" % os.getpid()
            _run([CXX] + flags + ["-include-pch", pch, "-c", src, "-o", tmp])
            os.replace(tmp, o)
        else:
            os.utime(o)
        return o

    with cf.ThreadPoolExecutor(int(os.environ.get("EDIE_JOBS", "8"))) as ex:
        objs = list(ex.map(lambda j: obj(*j), jobs))
    ek = hashlib.sha256(("|".join(objs) + "|".join(link_flags)).encode()).hexdigest()[:20]
    exe = os.path.join(vdir, "%s.%s" % (harness, ek))
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        _run([CXX] + [f for f in flags if f.startswith("-f") or f.startswith("-g")] + objs + LIBS + list(link_flags) + ["-o", tmp])
        os.replace(tmp, exe)
    _gc(vdir)
    return exe


def _gc(vdir, keep=400):
    fs = [os.path.join(vdir, f) for f in os.listdir(vdir)]
    if len(fs) > keep:
        fs.sort(key=lambda p: os.path.getmtime(p))
        for p in fs[: len(fs) - keep // 2]:
            try:
                os.unlink(p)
            except OSError:
                pass


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "asan"))
