"""Builds the symbolic (VSYM) and replay (double) drivers from /repo's current working tree."""
import hashlib, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CORE = "/opt/gismo-core"
CXX = "clang++"
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
JOBS = os.cpu_count() or 4
CORE_SRC = ["gsCore/gsDofMapper", "gsCore/gsBoxTopology", "gsCore/gsBoundary", "gsIO/gsOptionList", "gsIO/gsXml",
            "gsIO/gsFileManager", "gsIO/gsOptionListXml", "gsParallel/gsOpenMP"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_files():
    out = [os.path.join(REPO, "gsKLShell.h")]
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            if f.endswith((".h", ".hpp")):
                out.append(os.path.join(root, f))
    return sorted(out)


def repo_hash():
    return sha(*[p + "\n" + read(p).decode("utf8", "replace") for p in repo_files()])


def sym_hash(skip=()):
    fs = []
    for root, _, files in os.walk(os.path.join(VERIF, "sym")):
        for f in files:
            if f not in skip:
                fs.append(os.path.join(root, f))
    return sha(*[read(p) for p in sorted(fs)])


class BuildError(Exception):
    pass


def overlay():
    """A copy of /repo's headers.  The only edit: an integer moment that the source stores in the scalar
    type T is declared integral (a symbolic scalar does not convert to int implicitly)."""
    d = os.path.join(BUILD, "ov-" + repo_hash())
    dst = os.path.join(d, "gsKLShell")
    if os.path.isdir(dst):
        return d
    tmp = d + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    for p in repo_files():
        q = os.path.join(tmp, "gsKLShell", os.path.relpath(p, REPO))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        s = read(p).decode("utf8", "replace")
        if p.endswith("gsMaterialMatrixIntegrate.h"):
            s = re.sub(r"\bT(\s+getMoment\s*\(\s*\)\s*const)", r"index_t\1", s)
            s = re.sub(r"\bT(\s*>::type\s+getMoment_impl)", r"index_t\1", s)
        with open(q, "w") as f:
            f.write(s)
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return d


def flags(sym, ov, implicit_int=False):
    f = [CXX, "-std=c++11", "-w", "-O0", "-ferror-limit=5", "-I" + os.path.join(VERIF, "sym"), "-I" + os.path.join(VERIF, "sym", "cfg"),
         "-I" + ov, "-I" + CORE + "/src", "-I" + CORE + "/optional", "-I" + CORE + "/external"]
    if sym:
        f += ["-DVSYM"]
        if implicit_int:
            f += ["-DVSYM_IMPLICIT_INT"]
    return f


def compile_one(cmd, src, obj, log):
    if os.path.exists(obj):
        return 0.0
    t = time.time()
    tmp = obj + ".tmp%d-%d" % (os.getpid(), threading.get_ident())
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("compilation of %s failed:\n%s" % (os.path.basename(src), r.stdout.decode("utf8", "replace")[-6000:]))
    os.rename(tmp, obj)
    log.append((os.path.basename(src), time.time() - t))
    return time.time() - t


def build(drivers, sym, defs=None, log=None, pool=None):
    """drivers: list of driver sources (basename in /verif/drivers, optionally 'file.cpp:-DX=1').  Returns the executable."""
    log = log if log is not None else []
    os.makedirs(BUILD, exist_ok=True)
    ov = overlay()
    rh, sh = repo_hash(), sym_hash()
    tag = "s" if sym else "d"
    dh = sym_hash(("encode.h", "main.cpp"))
    corekey = sha("core", tag, dh)
    objs, jobs = [], []
    mainsrc = os.path.join(VERIF, "sym", "main.cpp")
    mobj = os.path.join(BUILD, "main-%s-%s.o" % (tag, sh))

    def drv(spec):
        f = spec.split(":")
        src = os.path.join(VERIF, "drivers", f[0])
        extra = f[1:]
        common = b"".join(read(os.path.join(VERIF, "drivers", x)) for x in sorted(os.listdir(os.path.join(VERIF, "drivers"))) if x.endswith(".h"))
        obj = os.path.join(BUILD, "%s-%s-%s.o" % (re.sub(r"\W", "_", spec), tag, sha(rh, dh, read(src), common, spec)))
        try:
            compile_one(flags(sym, ov) + extra, src, obj, log)
        except BuildError:
            if not sym:
                raise
            compile_one(flags(sym, ov, True) + extra, src, obj, log)
        return obj

    def core(s):
        obj = os.path.join(BUILD, "core-%s-%s-%s.o" % (s.replace("/", "_"), tag, corekey))
        compile_one(flags(sym, ov), os.path.join(CORE, "src", s + ".cpp"), obj, log)
        return obj

    def mainf():
        compile_one([x for x in flags(sym, ov) if x != "-O0"] + ["-O2"], mainsrc, mobj, log)
        return mobj

    own = pool is None
    pool = pool or ThreadPoolExecutor(JOBS)
    try:
        fs = [pool.submit(drv, d) for d in drivers] + [pool.submit(mainf)] + [pool.submit(core, s) for s in CORE_SRC]
        objs = [f.result() for f in fs]
    finally:
        if own:
            pool.shutdown()
    exe = os.path.join(BUILD, "exe-%s-%s" % (tag, sha(*objs)))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run([CXX] + objs + ["-o", tmp, "-Wl,--unresolved-symbols=ignore-all", "-lgmpxx", "-lgmp", "-lquadmath", "-lz"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError("link failed:\n" + r.stdout.decode("utf8", "replace")[-4000:])
        os.rename(tmp, exe)
    return exe
