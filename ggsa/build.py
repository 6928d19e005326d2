"""Build the analysed program from /repo's current working tree.

Every translation unit of src/ is compiled (never run) by clang to LLVM IR,
together with the drivers that only instantiate header templates; the IR is
linked and dumped to JSON.  Results are cached by content hash.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GGSA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANG = "clang++"
SRCS = ["nvarstr", "satsys", "satellite", "gnssobs", "gnssobsrv", "bern_utils", "antenna",
        "antenna_pcv", "antex", "navrnx", "gpsnav", "galnav", "glonav", "bdsnav", "obsrnx", "sp3c"]
BASE = ["-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-g",
        "-fstandalone-debug", "-ffp-contract=off", "-fdelayed-template-parsing", "-w",
        "-ferror-limit=3"]


class BuildError(Exception):
    pass


def sources():
    d = os.path.join(REPO, "src")
    out = []
    for f in sorted(os.listdir(d)):
        if f.endswith((".cpp", ".hpp", ".h", ".hh", ".ipp", ".tpp", ".cc", ".cxx", ".inl")):
            out.append(os.path.join(d, f))
    return out


def tu_list():
    """translation units: what Makefile.am lists, else every known .cpp"""
    am = os.path.join(REPO, "src", "Makefile.am")
    names = []
    try:
        import re
        txt = open(am).read()
        m = re.search(r"dist_libgnss_la_SOURCES\s*=((?:.*\\\n)*.*)", txt)
        names = re.findall(r"(\w+)\.cpp", m.group(1)) if m else []
    except OSError:
        pass
    return names or SRCS


def digest(extra=()):
    h = hashlib.sha256()
    files = sources()
    for root in ("stubs", "drivers", "tools"):
        for dp, dn, fn in sorted(os.walk(os.path.join(VERIF, root))):
            for f in sorted(fn):
                files.append(os.path.join(dp, f))
    files.append(os.path.abspath(__file__))
    am = os.path.join(REPO, "src", "Makefile.am")
    if os.path.exists(am):
        files.append(am)
    for f in files:
        h.update(f.encode())
        h.update(open(f, "rb").read())
    for e in extra:
        h.update(e.encode())
    return h.hexdigest()[:20]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def ensure_irdump():
    src = os.path.join(VERIF, "tools", "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "irdump-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + ".tmp%d" % os.getpid()
    r = run(["g++", "-std=c++17", "-O1", "-I/usr/include/llvm-18", "-I/usr/include/llvm-c-18",
             "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
             "-fno-exceptions", "-fno-rtti", src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
    if r.returncode:
        raise BuildError("irdump: " + r.stderr[-2000:])
    os.rename(tmp, exe)
    return exe


def build(config="debug"):
    """-> (json path, dict tu -> error text)"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        key = config + "-" + digest((config,))
        d = os.path.join(BUILD, key)
        out = os.path.join(d, "all.json")
        errf = os.path.join(d, "errors.txt")
        if os.path.exists(out):
            return out, _errs(errf)
        # drop older builds of this configuration
        for n in os.listdir(BUILD):
            if n.startswith(config + "-") and n != key:
                shutil.rmtree(os.path.join(BUILD, n), ignore_errors=True)
        dump = ensure_irdump()
        tmp = d + ".tmp%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        cfg = {"debug": ["-DDEBUG"], "prod": ["-DGGSA_PROD"]}[config]
        inc = ["-I", os.path.join(VERIF, "stubs"), "-I", os.path.join(REPO, "src"),
               "-include", os.path.join(VERIF, "stubs", "cxshim.hpp")]
        jobs = []
        for n in tu_list():
            jobs.append((n, os.path.join(REPO, "src", n + ".cpp")))
        dr = os.path.join(VERIF, "drivers")
        for f in sorted(os.listdir(dr)):
            if f.endswith(".cpp"):
                jobs.append(("driver_" + f[:-4], os.path.join(dr, f)))
        errors = {}

        def one(j):
            n, src = j
            bc = os.path.join(tmp, n + ".bc")
            r = run([CLANG] + BASE + cfg + inc + ["-emit-llvm", "-c", src, "-o", bc])
            return n, bc, r
        bcs = []
        with ThreadPoolExecutor(8) as ex:
            for n, bc, r in ex.map(one, jobs):
                if r.returncode:
                    errors[n] = r.stderr[-1500:]
                else:
                    bcs.append(bc)
        if not bcs:
            raise BuildError("nothing compiled: " + "\n".join(errors.values())[:3000])
        allbc = os.path.join(tmp, "all.bc")
        link = "/usr/lib/llvm-18/bin/llvm-link"
        if not os.path.exists(link):
            link = "llvm-link"
        r = run([link] + bcs + ["-o", allbc])
        if r.returncode:
            raise BuildError("llvm-link: " + r.stderr[-2000:])
        r = subprocess.run([dump, allbc, os.path.join(tmp, "all.json")], stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise BuildError("irdump: " + r.stderr[-2000:])
        for b in bcs + [allbc]:
            os.unlink(b)
        with open(os.path.join(tmp, "errors.txt"), "w") as f:
            for n, e in errors.items():
                f.write("=== %s\n%s\n" % (n, e))
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
        return out, _errs(errf)
    finally:
        lock.close()


def _errs(f):
    out, cur = {}, None
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("=== "):
                cur = l[4:].strip()
                out[cur] = ""
            elif cur:
                out[cur] += l
    return out


_progs = {}


def program(config="debug", need=()):
    """the analysed program; `need`: TUs that must have compiled"""
    from .ir import Program
    if config not in _progs:
        path, errs = build(config)
        p = Program(path)
        p.src_root = os.path.join(REPO, "src")
        p.errors = errs
        p.config = config
        _progs[config] = p
    p = _progs[config]
    for n in need:
        if n in p.errors:
            raise BuildError("translation unit %s does not compile for analysis:\n%s" % (n, p.errors[n]))
    return p


if __name__ == "__main__":
    for c in sys.argv[1:] or ["debug", "prod"]:
        p, e = build(c)
        print(c, p, "errors:", e)
