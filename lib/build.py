"""Builds libcwd variants and harnesses from /repo's current working tree into /verif/build (git-ignored)."""
import fcntl, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"
VARIANTS = {
    "plain": ["-O1", "-g"],
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
             "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g", "-fsanitize=thread"],
    "noloc": ["-O1", "-g"],
    "selfcheck": ["-O1", "-g"],
    "selfcheckt": ["-O1", "-g"],
    "stl": ["-O1", "-g", "-D_GLIBCXX_DEBUG"],
    "clang": ["-O2", "-g"],
    "release": ["-O3", "-DNDEBUG"],
}

# The compiler of the library and of the harness, where it is not the default one.
COMPILER = {"clang": "clang++"}

# The build options of the library, where they are not the default ones.
OPTIONS = {
    "noloc": {"CW_CONFIG_LOCATION": "0"},
    "selfcheck": {"CW_CONFIG_DEBUG": "1"},
    "selfcheckt": {"CW_CONFIG_DEBUG": "1", "CW_CONFIG_DEBUGT": "1"},
    "stl": {"CW_CONFIG_GLIBCXX_DEBUG": "1"},
}

# Compiler flags of the harnesses, where different.
HARNESS = {
    "plain": ["-O1"],
    "noloc": ["-O1"],
    "selfcheck": ["-O1"],
    "selfcheckt": ["-O1"],
    "clang": ["-O1"],
    "release": ["-O1", "-DNDEBUG"],
    "stl": ["-O1", "-D_GLIBCXX_DEBUG"],
}

class BuildError(Exception):
    pass

def sh(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-8000:])
    return r.stdout

def tree_hash(extra=()):
    h = hashlib.sha256()
    for root in ("src", "include"):
        for d, dirs, files in os.walk(os.path.join(REPO, root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    for f in ("debug.h", "nodebug.h", "sys.h", "CMakeLists.txt"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    for d, dirs, files in os.walk(os.path.join(VERIF, "shim")):
        dirs.sort()
        for f in sorted(files):
            h.update(open(os.path.join(d, f), "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    for e in extra:
        h.update(e.encode())
    return h.hexdigest()[:20]

def gen_headers(out, options={}):
    """What configure generates (see /repo/CMakeLists.txt), with the data directory below the current directory."""
    top = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)\s*\n\s*DESCRIPTION", top)
    major, minor, rev = m.groups() if m else ("2", "0", "1")
    subst = {
        "CW_CONFIG_GLIBCXX_DEBUG": "0", "CW_CONFIG_LOCATION": "1", "CW_CONFIG_DEBUG": "0", "CW_CONFIG_DEBUGOUTPUT": "0",
        "CW_CONFIG_DEBUGT": "0", "CW_CONFIG_BUILTIN_RETURN_ADDRESS_OFFSET": "-1", "VERSION_MAJOR": major,
        "VERSION_MINOR": minor, "VERSION_REVISION": rev, "CW_PATH_PROG_PS": "", "PS_ARGUMENT": "",
        "libcwd_datadir": "cwd-datadir", "CW_SYS_TYPEDEFS": "", "CW_SYS_REDEFINES_FIX": "", **options,
    }
    have = {"HAVE_PWD_H", "HAVE_SYS_RESOURCE_H", "HAVE_DLOPEN", "HAVE__RTLD_GLOBAL", "HAVE_GETEGID", "HAVE_GETGROUPS",
            "HAVE_GETGID"}
    def config(src, dst):
        t = open(src).read()
        t = re.sub(r"#cmakedefine01 (\w+)", r"#define \1 1", t)
        t = re.sub(r"#cmakedefine (\w+)", lambda m: "#define " + m[1] if m[1] in have else "/* #undef %s */" % m[1], t)
        t = re.sub(r"@(\w+)@", lambda m: subst.get(m[1], ""), t)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        open(dst, "w").write(t)
    inc = os.path.join(REPO, "include")
    config(os.path.join(inc, "cmake-config.h.in"), os.path.join(out, "config.h"))
    config(os.path.join(inc, "cwd_sys.h.in"), os.path.join(out, "cwd_sys.h"))
    config(os.path.join(inc, "libcwd", "config.h.in"), os.path.join(out, "libcwd", "config.h"))
    return "%s.%s.%s" % (major, minor, rev)

def includes(gen):
    return ["-I" + os.path.join(VERIF, "shim"), "-I" + gen, "-I" + os.path.join(gen, "libcwd"),
            "-I" + os.path.join(REPO, "include"), "-I" + REPO]

def sources():
    out = []
    for d in ("src", "src/utils"):
        p = os.path.join(REPO, d)
        out += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith((".cxx", ".cc", ".cpp"))]
    return out

class Lock:
    def __init__(self, path): self.path = path
    def __enter__(self):
        self.f = open(self.path, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def prune(keep):
    """Keep the build directory small: only the most recent library trees stay."""
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d))]
    ds.sort(key=os.path.getmtime, reverse=True)
    for d in ds[int(os.environ.get("VP_KEEP", "16")):]:
        if d != keep:
            shutil.rmtree(d, ignore_errors=True)

def build_gen(variant="plain"):
    """Returns (gen, version) of the generated headers."""
    options = OPTIONS.get(variant, {})
    os.makedirs(BUILD, exist_ok=True)
    gen = os.path.join(BUILD, "gen-" + tree_hash(sorted(map(repr, options.items()))))
    ok = os.path.join(gen, "version")
    with Lock(os.path.join(BUILD, "gen.lock")):
        if not os.path.exists(ok):
            shutil.rmtree(gen, ignore_errors=True)
            v = gen_headers(gen, options)
            with open(ok, "w") as f:
                f.write(v)
        os.utime(gen)
        return gen, open(ok).read()

def build_lib(variant):
    """Returns (dir, gen) of a built libcwd.so."""
    os.makedirs(BUILD, exist_ok=True)
    flags = VARIANTS[variant]
    d = os.path.join(BUILD, variant + "-" + tree_hash(flags))
    gen, version = build_gen(variant)
    with Lock(os.path.join(BUILD, variant + ".lock")):
        if os.path.exists(os.path.join(d, "ok")):
            os.utime(d)
            return d, gen
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        cxx = COMPILER.get(variant, CXX)
        base = [cxx, "-std=c++20", "-fPIC", "-DCWDEBUG", '-DVERSION="%s"' % version, "-w"] + flags + includes(gen)
        def cc(src):
            o = os.path.join(d, os.path.relpath(src, REPO).replace("/", "_") + ".o")
            sh(base + ["-c", src, "-o", o])
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(cc, sources()))
        sh([cxx, "-shared", "-o", os.path.join(d, "libcwd.so")] + flags + objs + ["-ldw", "-lelf", "-ldl", "-lpthread"])
        open(os.path.join(d, "ok"), "w").close()
        prune(d)
    return d, gen

def harness_flags(gen, debug=True):
    return ["-std=c++20", "-w", "-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "harness")] + \
        (["-DCWDEBUG"] if debug else []) + includes(gen)

def build_harness(name, variant="plain", extra=(), libs=(), src=None, cflags=None):
    """Compiles the harness while the library is being built; `cflags' replaces the default compiler flags."""
    gen, _ = build_gen(variant)
    cxx = COMPILER.get(variant, CXX)
    src = src or os.path.join(VERIF, "harness", name + ".cpp")
    flags = list(cflags) if cflags is not None else HARNESS.get(variant, VARIANTS[variant])
    h = hashlib.sha256(os.path.basename(gen).encode())
    for dd in (os.path.join(VERIF, "harness"), os.path.join(VERIF, "lib")):
        for f in sorted(os.listdir(dd)):
            if f.endswith((".h", ".inc")) or os.path.join(dd, f) == src:
                h.update(open(os.path.join(dd, f), "rb").read())
    h.update(repr((extra, libs, flags)).encode())
    base = variant + "-" + name + "-" + h.hexdigest()[:16]
    with Lock(os.path.join(BUILD, variant + "-" + name + ".lock")):
        with ThreadPoolExecutor(1) as ex:
            lib = ex.submit(build_lib, variant)
            obj = os.path.join(gen, base + ".o")
            err = None
            if not os.path.exists(obj):
                try:
                    sh([cxx] + flags + harness_flags(gen) + list(extra) + ["-c", src, "-o", obj + ".tmp"])
                    os.rename(obj + ".tmp", obj)
                except BuildError as e:
                    err = e
            d, _ = lib.result()
            if err:
                raise err
        exe = os.path.join(d, base)
        if not os.path.exists(exe):
            tmp = exe + ".tmp"
            sh([cxx] + flags + [obj, "-o", tmp, "-L" + d, "-lcwd",
                "-Wl,-rpath," + d, "-ldl", "-lpthread", "-rdynamic"] + list(libs))
            os.rename(tmp, exe)
    return exe, d, gen
