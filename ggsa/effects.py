"""Which memory a function may change: taint of pointers within a function, summaries across calls (flow-insensitive)."""
import re

# C functions: parameters through which they write (others are only read); absent: every one
CWRITES = {"strtol": (1,), "strtoul": (1,), "strtoll": (1,), "strtoull": (1,), "strtod": (1,), "strtof": (1,), "strtold": (1,), "__isoc23_strtol": (1,), "__isoc23_strtoul": (1,),
           "__isoc23_strtoll": (1,), "strncmp": (), "strcmp": (), "memcmp": (), "strlen": (), "strnlen": (), "memchr": (), "strchr": (), "strrchr": (), "strstr": (), "strspn": (), "strcspn": (),
           "strpbrk": (), "atoi": (), "atof": (), "atol": (), "memcpy": (0,), "memmove": (0,), "memset": (0,), "strcpy": (0,), "strncpy": (0,), "strcat": (0,), "strncat": (0,), "printf": (), "puts": (),
           "snprintf": (0,), "sprintf": (0,), "fprintf": (0,), "sscanf": None, "free": (0,), "__cxa_atexit": (), "isspace": (), "isdigit": (), "modf": (1,), "frexp": (1,), "bcmp": (), "rawmemchr": (),
           "__cxa_begin_catch": (), "__cxa_throw": (), "__cxa_free_exception": (), "__clang_call_terminate": (), "__dynamic_cast": (), "__cxa_guard_acquire": (), "__cxa_guard_release": (), "__cxa_guard_abort": ()}
RETURNS = {"strchr": 0, "strrchr": 0, "strstr": 0, "memchr": 0, "strpbrk": 0, "memcpy": 0, "memmove": 0, "strcpy": 0, "strncpy": 0, "strcat": 0, "strncat": 0}


def params(dem):
    """(parameter types, is the function const, qualified name) of a demangled name"""
    d, end = 0, None
    s = dem
    m = re.search(r"\)(\[abi:\w+\])?( const)?( ?&&?)?( \[clone.*\])?$", s)
    if not m:
        return None, False, dem
    const = bool(m.group(2))
    i = m.start()
    while i >= 0:
        if s[i] in ")>" and s[i - 1:i + 1] != "->":
            d += 1
        elif s[i] in "(<":
            d -= 1
            if d == 0:
                break
        i -= 1
    body = s[i + 1:m.start()]
    out, d, cur = [], 0, ""
    for c in body:
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        d += {"<": 1, "(": 1, "[": 1, ">": -1, ")": -1, "]": -1}.get(c, 0)
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return out, const, s[:i]


def is_const(ty):
    """is what a parameter of this type refers to constant?"""
    return bool(re.search(r" const(&|\*|&&)?$", ty.rstrip()))


class Effects:
    def __init__(self, prog):
        self.p = prog
        self.memo = {}
        self.retg = {}
        self.rawptr = {}

    # ------------------------------------------------------------ parameters
    def roles(self, f):
        """per IR parameter: None (unknown), "sret", ("this", const), ("param", type)"""
        ps, const, _ = params(f.dem)
        n = len(f.args)
        if ps is None:
            return [None] * n
        out = []
        for a in f.args:
            if "sret" in a or a["name"] == "agg.result":
                out.append("sret")
            else:
                break
        left = n - len(out)
        if left == len(ps) + 1:
            out.append(("this", const))
        elif left != len(ps):
            if left > len(ps) and not f.decl and f.args[len(out)]["name"] == "this":
                out.append(("this", const))
            return out + [None] * (n - len(out))
        return out + [("param", t) for t in ps]

    def reads_only(self, f, k):
        """is it known from the signature alone that nothing is changed through parameter k?"""
        if "(" not in f.dem:
            if f.dem.startswith("llvm."):
                return not (f.dem.startswith("llvm.mem") and k == 0)
            if f.dem in CWRITES:
                w = CWRITES[f.dem]
                return w is not None and k not in w
            return not re.fullmatch(r"fgets|fread|read|pread|qsort\w*|strtok\w*|swab|\w*sscanf|\w*scanf|getline|getdelim|mem\w*cpy|st[rp]\w*cpy\w*|st[rp]\w*cat\w*|\w*sprintf\w*|\w*snprintf\w*|bcopy|bzero|explicit_bzero|memfrob|strfry|strsep|realloc|sincosf?|\w*_r", f.dem)
        r = self.roles(f)
        if k >= len(r) or r[k] is None or r[k] == "sret":
            return False
        if r[k][0] == "this":
            return r[k][1]
        return is_const(r[k][1])

    def raw_members(self, cls):
        r = self.p.records.get(cls)
        return r is None or any("*" in m[3] or m[3].endswith("&") for m in r["members"])

    # ------------------------------------------------------------ within a function
    def names(self, v, out):
        """globals mentioned by an operand"""
        if not isinstance(v, list) or not v:
            return
        if v[0] == "g":
            out.add(self.p.resolve(v[1]))
        elif v[0] == "?":
            for m in re.findall(r"@([\w.$]+)", str(v[1])):
                out.add(self.p.resolve(m))
        elif v[0] == "agg":
            for x in v[1]:
                self.names(x[2], out)

    def flow(self, f, seed_l=(), seed_g=(), deep=True, skip=None):
        """everything a function does to what the seeds (parameter ids, global names) refer to:
        dict(writes=[(ins, what)], ret=bool, escapes=[ins], mentions=int). skip(block, index): instruction does not count."""
        P = self.p
        seed_g = set(seed_g)
        taint, hold = set(seed_l), set()
        root = {}
        allocas = set()
        for b in f.blocks:
            for i in b:
                if i["o"] == "alloca":
                    allocas.add(i["id"])
        defs = {i["id"]: i for b in f.blocks for i in b}

        def is_g(v):
            s = set()
            self.names(v, s)
            return bool(s & seed_g)

        def t(v):
            return isinstance(v, list) and bool(v) and (v[0] == "l" and v[1] in taint or is_g(v))

        def base(v):
            n = 0
            while isinstance(v, list) and v and v[0] == "l" and n < 50:
                if v[1] in allocas:
                    return v[1]
                d = defs.get(v[1])
                if d is None or d["o"] not in ("getelementptr", "bitcast"):
                    return None
                v = d["a"][0]
                n += 1
            return None
        res = dict(writes=[], ret=False, escapes=[], mentions=0)
        changed, first = True, True
        while changed:
            changed = False
            res["writes"], res["escapes"], res["mentions"] = [], [], 0

            def add(i):
                nonlocal changed
                if i["id"] not in taint:
                    taint.add(i["id"])
                    changed = True

            def keep(al):
                nonlocal changed
                if al not in hold:
                    hold.add(al)
                    changed = True
            for bi, b in enumerate(f.blocks):
                for k, i in enumerate(b):
                    o, a = i["o"], i.get("a", [])
                    if any(is_g(v) for v in a):
                        res["mentions"] += 1
                    if o in ("getelementptr", "bitcast", "phi", "select", "freeze", "extractvalue", "insertvalue", "addrspacecast", "ptrtoint", "inttoptr"):
                        vs = a if o != "phi" else [x for x in (i.get("inc") or a)]
                        if o == "phi":
                            vs = [x[0] if isinstance(x, list) and x and isinstance(x[0], list) else x for x in vs]
                        if o == "getelementptr":
                            vs = a[:1]
                        if o == "select":
                            vs = a[1:]
                        if any(t(v) for v in vs):
                            add(i)
                    elif o == "load":
                        al = base(a[0])
                        if i["t"] == "ptr" and (al in hold or deep and t(a[0])):
                            add(i)
                        elif i["t"] != "ptr" and al in hold and i["t"].startswith("{"):
                            add(i)
                    elif o == "store":
                        if t(a[1]) and not (skip and skip(bi, k)):
                            res["writes"].append((i, "stores to it"))
                        if t(a[0]):
                            al = base(a[1])
                            if al is not None:
                                keep(al)
                            elif not t(a[1]):
                                res["escapes"].append(i)
                    elif o in ("atomicrmw", "cmpxchg"):
                        if t(a[0]) and not (skip and skip(bi, k)):
                            res["writes"].append((i, "changes it"))
                    elif o == "ret":
                        if a and t(a[0]):
                            res["ret"] = True
                    elif o in ("call", "invoke"):
                        self._call(f, i, bi, k, a, t, base, hold, keep, add, res, deep, skip)
            if first:
                first, changed = False, True
        return res

    def _call(self, f, i, bi, k, a, t, base, hold, keep, add, res, deep, skip):
        cal = i["callee"]
        g = self.p.funcs.get(self.p.resolve(cal[1])) if cal and cal[0] == "g" else None
        idx = [n for n, v in enumerate(a) if t(v)]
        if g is None:
            if idx and not (skip and skip(bi, k)):
                res["writes"].append((i, "is given to an unknown function"))
            return
        nm = g.dem
        if nm.startswith("llvm.threadlocal.address") or nm.startswith("llvm.launder") or nm.startswith("llvm.strip"):
            if idx:
                add(i)
            return
        if nm.startswith(("llvm.lifetime", "llvm.assume", "llvm.dbg", "llvm.prefetch", "llvm.invariant", "llvm.objectsize")):
            return
        if nm.startswith(("llvm.memcpy", "llvm.memmove")) and 1 in idx or nm in ("memcpy", "memmove") and 1 in idx:
            pass                        # (a copy of the bytes)
        if nm.startswith(("llvm.memcpy", "llvm.memmove")) and len(a) > 1 and base(a[1]) in hold and base(a[0]) is not None:
            keep(base(a[0]))
        for n in idx:
            w = self.summary(g, n, deep)
            if w["writes"] and not (skip and skip(bi, k)):
                res["writes"].append((i, "%s changes it%s" % (short(g.dem), w["writes"])))
            if w["ret"]:
                add(i)
            if w["sret"]:
                al = base(a[0])
                if al is not None and 0 not in idx:
                    keep(al)
        # what a function returns may be one of the globals itself
        if self.retg_seed and self.retg.get(g.name) and self.retg[g.name] & self.retg_seed:
            add(i)

    retg_seed = frozenset()

    def summary(self, g, n, deep):
        """what function g does to what its parameter n refers to: dict(writes: text or "", ret: bool, sret: bool)"""
        key = (g.name, n, deep)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = dict(writes="", ret=False, sret=False)      # (recursion)
        if g.decl or n >= len(g.args):
            w = "" if self.reads_only(g, n) else " (by its signature)"
            # a method or operator of the standard library gives its object (or part of it)
            r = RETURNS.get(g.dem) == n or "(" in g.dem and g.d["ret"] == "ptr" and n == 0
            out = dict(writes=w, ret=bool(r), sret=False)
        else:
            x, y = self.retg_seed, None
            self.retg_seed = frozenset()
            e = self.flow(g, seed_l=[g.args[n]["id"]], deep=deep)
            self.retg_seed = x
            out = dict(writes=" at %s" % self.p.loc(e["writes"][0][0]) if e["writes"] else "", ret=e["ret"], sret=False)
        self.memo[key] = out
        return out


def short(dem):
    d = re.sub(r"<[^<>]*>", "", dem)
    while d != dem:
        dem, d = d, re.sub(r"<[^<>]*>", "", d)
    return d.split("(")[0].split(" ")[-1]
