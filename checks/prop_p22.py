"""P22: no hidden state - effects of every library function are confined to its object, its arguments and the file."""
import re
import sys
from antlib import *
from ggsa.effects import Effects, params, is_const, short

# what a result may not depend on, and what may not be changed: functions of the C and C++ library
CLOCK = r"time|clock|gettimeofday|clock_gettime|times|ftime|rand|srand|random|srandom|drand48|lrand48|rand_r|getenv|secure_getenv|getpid|localeconv|nl_langinfo|uselocale|std::chrono::_V2::\w+::now\(\)|std::random_device::.*|std::locale::locale\(\)"
STATE = r"strtok|localtime|gmtime|asctime|ctime|setlocale|setenv|unsetenv|putenv|newlocale|chdir|umask|signal|sigaction|std::locale::global\(.*|atexit|at_quick_exit|std::set_new_handler.*|std::set_terminate.*|fesetround|fesetenv|feenableexcept|l64a|ecvt|fcvt|tmpnam|strerror|readdir|getpwnam|mbrtowc|wcrtomb"
FILES = r"fopen|fopen64|freopen|open|open64|creat|remove|rename|unlink|rmdir|mkdir|truncate|ftruncate|system|popen|fork|execv\w*|execl\w*|mkstemp|tmpfile|link|symlink|chmod|chown|std::basic_ofstream<.*|std::basic_fstream<.*|std::filesystem::(remove|rename|copy|create|resize|permissions).*"
EXITS = r"exit|_exit|quick_exit|_Exit|raise|kill"
WHY = (("depends on the clock, chance or the environment", CLOCK), ("uses state shared by the whole process", STATE), ("changes files or starts programs", FILES), ("ends the program", EXITS))
INIT = r"__cxx_global_var_init[\w.]*|_GLOBAL__\w*|__tls_init"
BITS = ((1, "app"), (16, "out"), (32, "trunc"))


def library(p):
    return [f for f in p.repo_funcs() if not f.decl]


def mutable(p):
    """variables of static storage duration that are not constant data; the standard library's own are not ours"""
    out = []
    for n, v in p.globals.items():
        if v["const"] or n.startswith("llvm.") or n == "__dso_handle" or v["dem"].startswith(("guard variable for", "std::", "vtable for", "typeinfo", "VTT for")):
            continue
        if v["decl"] and not v["dem"].startswith("ngpt::"):
            continue
        out.append(n)
    return out


def guarded(p, f, g):
    """skip(block, index): does this place belong to the one-time initialisation of the static variable g?"""
    m = {"_ZGV" + g[2:]} if g.startswith("_Z") else set()
    regions = []

    def is_call(i, what):
        return i["o"] in ("call", "invoke") and i["callee"][0] == "g" and i["callee"][1].startswith(what) and i["a"] and i["a"][0][0] == "g" and i["a"][0][1] in m
    for b, blk in enumerate(f.blocks):
        for k, i in enumerate(blk):
            if is_call(i, "__cxa_guard_acquire"):
                # the branch that initialises
                todo, seen = [s for s in f.succs(b)], {}
                rel = {x for x, bl in enumerate(f.blocks) for j in bl if is_call(j, "__cxa_guard_release")}
                if rel:
                    good = [s for s in todo if reaches(f, s, rel, set())]
                    if good:
                        regions.append((set(between(f, good[0], rel)), rel))
    def skip(bi, k):
        for reg, rel in regions:
            if bi in reg:
                if bi in rel:
                    at = next(x for x, j in enumerate(f.blocks[bi]) if is_call(j, "__cxa_guard_release"))
                    if k > at:
                        continue
                return True
        return False
    return skip, regions


def reaches(f, b, goal, seen):
    todo = [b]
    while todo:
        x = todo.pop()
        if x in goal:
            return True
        if x not in seen:
            seen.add(x)
            todo += f.succs(x)
    return False


def between(f, b, stop):
    seen, todo = set(), [b]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x not in stop:
            todo += f.succs(x)
    return seen


def from_the_call(p, f, regions):
    """the instruction by which a one-time initialisation uses something of the call that happens to be the first, or None"""
    for reg, rel in regions:
        inside = {i["id"] for b in reg for i in f.blocks[b]}
        defs = {i["id"]: i for b in f.blocks for i in b}
        outer = set()
        for b, blk in enumerate(f.blocks):
            for i in blk:
                if b not in reg and i["o"] == "store" and i["a"][1][0] == "l":
                    outer.add(i["a"][1][1])
        for b in reg:
            for i in f.blocks[b]:
                for v in i.get("a", []):
                    if isinstance(v, list) and v and v[0] == "l" and v[1] not in inside:
                        d = defs.get(v[1])
                        if d is None:
                            return i                    # an argument
                        if d["o"] == "alloca":
                            if i["o"] != "store" and v[1] in outer and i["o"] != "getelementptr":
                                return i
                        elif d["o"] not in ("icmp", "call", "invoke", "landingpad"):
                            return i
    return None


def statics(r, s, cfg):
    """variables with static storage duration are constant from their initialisation on"""
    p = s.P
    E = Effects(p)
    gs = mutable(p)
    texts = {f.name: str(f.blocks) for f in p.funcs.values() if not f.decl}
    # functions that give out (a part of) such a variable
    retg = {}
    E.retg = retg
    for rnd in range(4):
        grown = False
        for g in gs:
            E.retg_seed = frozenset([g])
            for f in p.funcs.values():
                if f.decl or g in retg.get(f.name, ()) or not (g in texts[f.name] or any(n in texts[f.name] for n in retg)):
                    continue
                if E.flow(f, seed_g=[g])["ret"]:
                    retg.setdefault(f.name, set()).add(g)
                    grown = True
        if not grown:
            break
    r.ob("%s: variables of static storage duration that are not compile-time constants: %d inspected" % (cfg, len(gs)), True, "")
    for g in sorted(gs):
        E.retg_seed = frozenset([g])
        name = short_name(p.globals[g]["dem"])
        for f in p.funcs.values():
            if f.decl or not (g in texts[f.name] or any(n in texts[f.name] for n, x in retg.items() if g in x)):
                continue
            if re.fullmatch(INIT, f.dem) or re.fullmatch(INIT, f.name):
                continue
            if not (f.file or "").startswith(p.root) and not f.dem.startswith("ngpt::"):
                continue
            skip, regions = guarded(p, f, g)
            e = E.flow(f, seed_g=[g], skip=skip)
            t = "%s: %s leaves the static variable %s as it is" % (cfg, short(f.dem), name)
            bad = e["writes"] + [(i, "stores its address") for i in e["escapes"] if not p.globals[g].get("diconst")]
            r.ob(t, not bad, "%s keeps state in the static variable %s: %s" % (short(f.dem), name, bad[0][1] if bad else ""), p.loc(bad[0][0]) if bad else None)
            first = from_the_call(p, f, regions)
            if regions:
                r.ob(t + ", initialised from constants", first is None, "the static variable %s is initialised from what the first call of %s was given" % (name, short(f.dem)), p.loc(first) if first else None)


def short_name(dem):
    return re.sub(r"\(ngpt::SATELLITE_SYSTEM\)", "", dem.replace("[abi:cxx11]", ""))


def calls(r, s, cfg):
    """what the library calls outside of itself"""
    p = s.P
    for f in library(p):
        bad = None
        n = 0
        for blk in f.blocks:
            for i in blk:
                if i["o"] not in ("call", "invoke") or not i["callee"] or i["callee"][0] != "g":
                    continue
                g = p.funcs.get(p.resolve(i["callee"][1]))
                if g is None or not g.decl and not g.dem.startswith("std::"):
                    continue
                n += 1
                for why, rx in WHY:
                    if re.fullmatch(rx, g.dem):
                        bad = bad or (i, "%s: %s %s" % (short(f.dem), g.dem[:60], why))
                if re.match(r"std::basic_(ifstream|filebuf)<.*>::(open|basic_ifstream)\(|std::operator(\||\^|\|=)\(std::_Ios_Openmode|std::operator\|=\(std::_Ios_Openmode", g.dem):
                    for v in i["a"]:
                        if v[0] == "i" and v[1] == 32:
                            m = [w for b, w in BITS if v[2] & b]
                            if m:
                                bad = bad or (i, "%s opens the file it reads with mode %s" % (short(f.dem), ", ".join(m)))
        r.ob("%s: %s depends on and changes nothing outside (%d outside calls)" % (cfg, short(f.dem) + str(f.line), n), not bad, bad[1] if bad else "", p.loc(bad[0]) if bad else None)


class Errno:
    """the C library's error number outlives calls: it must be set before it is looked at (a forward analysis, across calls)"""

    def __init__(self, p):
        self.p, self.memo = p, {}

    def run(self, f):
        """(loads that may see what was there when f was called, calls made in that state, may it still be there at a return?)"""
        if f.name in self.memo:
            return self.memo[f.name]
        self.memo[f.name] = ([], [], True)
        defs = {i["id"]: i for b in f.blocks for i in b}

        def loc(v):
            d = defs.get(v[1]) if v[0] == "l" else None
            return d is not None and d["o"] in ("call", "invoke") and d["callee"] and d["callee"][0] == "g" and d["callee"][1] == "__errno_location"
        todo, IN, seen = [0], {0: True}, {}
        loads, made, out = {}, {}, False
        while todo:
            b = todo.pop()
            st = IN[b]
            if seen.get(b) == st:
                continue
            seen[b] = st
            for i in f.blocks[b]:
                if i["o"] == "store" and loc(i["a"][1]):
                    st = False
                elif i["o"] == "load" and loc(i["a"][0]) and st:
                    loads[i["id"]] = i
                elif i["o"] in ("call", "invoke") and st and i["callee"] and i["callee"][0] == "g":
                    g = self.p.funcs.get(self.p.resolve(i["callee"][1]))
                    if g is not None and not g.decl:
                        made.setdefault(g.name, i)
                        st = self.run(g)[2]
                elif i["o"] == "ret" and st:
                    out = True
            for x in f.succs(b):
                n = IN.get(x, False) or st
                if x not in IN or n != IN[x] or x not in seen:
                    IN[x] = n
                    todo.append(x)
        self.memo[f.name] = (list(loads.values()), sorted(made.items()), out)
        return self.memo[f.name]


def errno(r, s, cfg):
    """no function is influenced by the error number that earlier calls left behind"""
    p = s.P
    E = Errno(p)
    fs = library(p)
    called = {i["callee"][1] for f in fs for b in f.blocks for i in b if i["o"] in ("call", "invoke") and i["callee"] and i["callee"][0] == "g"}
    called = {p.resolve(n) for n in called}
    dirty, todo = {}, [f for f in fs if f.name not in called]
    todo += [f for f in p.funcs.values() if not f.decl and f.name not in called and f not in todo]
    for f in todo:
        dirty[f.name] = None
    while todo:
        f = todo.pop()
        for n, i in E.run(f)[1]:
            if n not in dirty:
                dirty[n] = i
                todo.append(p.funcs[n])
    for f in fs:
        bad = E.run(f)[0] if f.name in dirty else []
        r.ob("%s: %s:%d is not influenced by the error number earlier calls left" % (cfg, short(f.dem), f.line), not bad,
             "%s looks at the error number which calls before it may have left" % short(f.dem), p.loc(bad[0]) if bad else None)


def constants(r, s, cfg):
    """objects and arguments given as constant are not changed"""
    p = s.P
    E = Effects(p)
    for f in library(p):
        if re.search(r"lambda|\$_\d", f.dem) or re.fullmatch(INIT, f.dem):
            continue
        for k, x in enumerate(E.roles(f)):
            if x in (None, "sret") or f.args[k]["ty"] != "ptr":
                continue
            if x[0] == "this":
                if not x[1]:
                    continue
                what = "its object"
                q = params(f.dem)[2]
                cls = q[:q.rindex("::")] if "::" in q else q
                cls = cls.split(" ")[-1]
                deep = not E.raw_members(cls)
            else:
                if not is_const(x[1]):
                    continue
                what = "its argument %s" % (f.args[k]["name"] or k)
                deep = not E.raw_members(re.sub(r" const(&|\*|&&)?$", "", x[1])) or x[1].startswith("std::vector<ngpt")
            e = E.flow(f, seed_l=[f.args[k]["id"]], deep=deep)
            bad = e["writes"]
            r.ob("%s: %s:%d leaves %s, given as constant, as it is" % (cfg, short(f.dem), f.line, what), not bad,
                 "%s changes %s, which is constant: %s" % (short(f.dem), what, bad[0][1] if bad else ""), p.loc(bad[0][0]) if bad else None)


def check():
    r = Report("P22")
    S = {cfg: r.session(cfg) for cfg in ("prod", "debug")}
    r.parallel(lambda fn, cfg: fn(r, S[cfg], cfg), [(fn, cfg) for cfg in S for fn in (statics, calls, errno, constants)])
    fs = sorted({f.dem for x in S.values() for f in library(x.P)})
    return r.finish(
        "other", "effect analysis over LLVM IR: pointer taint with summaries across calls, of static variables and constant objects; banned external calls",
        "no static variable is written after its initialisation (which uses constants only), no object given as constant is written, no call depends on or changes anything but objects, arguments, diagnostics and the file read",
        "every function of the library and every variable of static storage duration is inspected in both configurations",
        minimum=300, extra=dict(repo_functions_analysed=fs, repo_function_count=len(fs)), assumptions=["functions of the standard and date libraries behave as their signatures say", "pointers are not hidden in integers"])


if __name__ == "__main__":
    sys.exit(check())
