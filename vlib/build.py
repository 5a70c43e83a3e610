"""Content-addressed incremental build of /repo's library and the harnesses.

Every object is keyed by its command line and by the contents of every file
the compiler read for it, so a change anywhere in /repo's working tree leads
to recompilation of what it touches and of nothing else.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

# compilation flags of the default CMake build of the repository, split so
# that a configuration can drop or add any of them
DEFAULT = {
    "NDEBUG": True, "CURVE_ALT_BN128": True, "NO_PROCPS": True, "BINARY_OUTPUT": True,
    "MONTGOMERY_OUTPUT": True, "USE_ASM": True,
}


class BuildError(Exception):
    pass


def config(**kw):
    """Flag list for a configuration: keyword overrides of DEFAULT plus
    _cxx (list of raw flags), _opt, _hw (use of carry-less multiplication)."""
    d = dict(DEFAULT)
    cxx = list(kw.pop("_cxx", []))
    opt = kw.pop("_opt", "-O2")
    hw = kw.pop("_hw", True)
    d.update(kw)
    fl = ["-std=gnu++14", opt, "-g0", "-w"]
    fl += ["-D" + k for k, v in sorted(d.items()) if v is True]
    fl += ["-D%s=%s" % (k, v) for k, v in sorted(d.items()) if v not in (True, False)]
    if hw:
        fl += ["-mpclmul", "-msse4.1"]
    return fl + cxx + ["-I" + REPO, "-I" + os.path.join(VERIF, "harness")]


def sha(path, memo={}):
    try:
        st = os.stat(path)
    except OSError:
        return None
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in memo:
        with open(path, "rb") as f:
            memo[k] = hashlib.sha256(f.read()).hexdigest()
    return memo[k]


def compile_one(src, flags, cxx="g++"):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    cmd = [cxx] + flags + ["-c", src]
    key = hashlib.sha256("\0".join(cmd).encode()).hexdigest()[:24]
    base = os.path.join(BUILD, "obj", os.path.basename(src).replace(".cpp", "") + "-" + key)
    obj, man = base + ".o", base + ".json"
    try:
        with open(man) as f:
            deps = json.load(f)
        if os.path.exists(obj) and all(sha(p) == h for p, h in deps.items()):
            return obj
    except (OSError, ValueError):
        pass
    tmp = "%s.%d.tmp" % (base, os.getpid())
    r = subprocess.run(cmd + ["-MD", "-MF", tmp + ".d", "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("compiling %s failed:\n%s\n%s" % (src, " ".join(cmd), r.stderr[-4000:]))
    with open(tmp + ".d") as f:
        txt = f.read().replace("\\\n", " ")
    files = txt.split(":", 1)[1].split()
    deps = {p: sha(p) for p in files if not p.startswith("/usr/")}
    os.unlink(tmp + ".d")
    os.replace(tmp, obj)
    with open(man + ".tmp", "w") as f:
        json.dump(deps, f)
    os.replace(man + ".tmp", man)
    return obj


def library_sources():
    """The sources of the library target, read from the working tree."""
    with open(os.path.join(REPO, "libff", "CMakeLists.txt")) as f:
        txt = f.read()
    m = re.search(r"add_library\(\s*ff\b(.*?)\)", txt, re.S)
    names = re.findall(r"[\w/.+-]+\.cpp", m.group(1))
    srcs = [os.path.join(REPO, "libff", n) for n in names]
    return [s for s in srcs if os.path.exists(s)]


def link(objs, out, flags, libs, cxx="g++"):
    # each library object enters the link only when needed
    h = hashlib.sha256("\0".join(objs + libs + [cxx]).encode())
    for o in objs:
        h.update((sha(o) or "").encode())
    stamp = out + ".key"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return out
    extra = [f for f in flags if f.startswith("-fsanitize") or (f == "-fopenmp" and "-DVOMP" not in flags)]
    r = subprocess.run([cxx] + extra + objs + ["-o", out + ".tmp"] + libs, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("linking %s failed:\n%s" % (out, r.stderr[-4000:]))
    os.replace(out + ".tmp", out)
    with open(stamp, "w") as f:
        f.write(h.hexdigest())
    return out


LIBS = ["-lgmpxx", "-lgmp", "-lsodium", "-lcrypto", "-lpthread"]


def build_many(reqs, jobs=None):
    """reqs: list of (name, [(source, extra flags)...], flags, cxx). Returns executables."""
    jobs = jobs or os.cpu_count() or 4
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    lib = library_sources()
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = {}
        plan = []
        for name, srcs, flags, cxx in reqs:
            mine = []
            for s, x in srcs:
                p = s if s.startswith("/") else os.path.join(VERIF, "harness", s)
                mine.append((p, tuple(flags + list(x)), cxx))
            mine += [(s, tuple(flags), cxx) for s in lib]
            for k in mine:
                if k not in futs:
                    futs[k] = ex.submit(compile_one, k[0], list(k[1]), k[2])
            plan.append((name, mine, flags, cxx))
        outs = []
        linked = {}
        for name, mine, flags, cxx in plan:
            objs = [futs[k].result() for k in mine]
            key = hashlib.sha256(repr((mine, flags, cxx)).encode()).hexdigest()[:12]
            out = os.path.join(BUILD, "bin", name + "-" + key)
            if out not in linked:
                linked[out] = ex.submit(link, objs, out, flags, LIBS, cxx)
            outs.append(linked[out])
        return [o.result() for o in outs]


def java_overrides():
    srcs = sorted(os.path.join(VERIF, "java", f) for f in os.listdir(os.path.join(VERIF, "java")) if f.endswith(".java"))
    h = hashlib.sha256("".join(sha(s) for s in srcs).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, "java-" + h)
    if not os.path.exists(os.path.join(out, "done")):
        os.makedirs(out, exist_ok=True)
        r = subprocess.run(["javac", "-cp", JARS, "-d", out] + srcs, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("javac failed:\n" + r.stderr[-4000:])
        open(os.path.join(out, "done"), "w").close()
    return out
