"""P18: SP3 headers - opening, interval, satellites, and where the epochs start."""
from antexlib import *

CTOR3 = r"ngpt::Sp3c::Sp3c\(char const\*\)"
NEXT = r"ngpt::Sp3c::get_next_epoch\(.*\)"
LOC = "src/sp3c.cpp"
#   first line: column -> (name, width, primitive, what it must be)
LINE1 = [("year", 3, 4, "strtol", "nonzero"), ("month", 8, 2, "strtol", "nonzero"), ("day", 11, 2, "strtol", "nonzero"), ("hour", 14, 2, "strtol", ""),
         ("minute", 17, 2, "strtol", ""), ("seconds", 20, 11, "strtod", "any"), ("epochs", 32, 7, "strtol", "nonzero")]
LINE2 = [("week", 3, 4, "strtol", "nonzero"), ("sow", 8, 15, "strtod", "any"), ("interval", 24, 14, "strtod", ""), ("mjd", 39, 5, "strtol", "nonzero"), ("frac", 45, 15, "strtod", "any")]


class Header(File):
    """a header; lines are kept by name"""

    def put(self, name, n, fields=()):
        t = self.free(n)
        for col, x in fields:
            x = chars(x) if isinstance(x, (str, bytes)) else list(x)
            t[col:col + len(x)] = x
        t = t[:n]
        self.name[name] = len(self.lines)
        self.lines.append(t)
        return t

    def __init__(self):
        super().__init__()
        self.name = {}

    def build(self, sats=5, accs=5, comments=4, width=60, drop=None, change=None, cut=None, long=None):
        def ln(name, n, mark, fields=()):
            if name == drop:
                return
            if name == change:
                mark = self.free(2)
            if name == cut:
                n = self.cutat
            if name == long:
                n = 90
            t = self.put(name, n, [(0, mark)] + list(fields))
            if name == change:
                self.changed = mark
        gaps = lambda spec, n: [(c + w, " ") for _, c, w, _, _ in spec]
        ln("first", width, [I(ord("#"))] + self.free(1), [(2, " ")] + gaps(LINE1, width))
        ln("second", width, "##", gaps(LINE2, width))
        for i in range(sats):
            ln("sat%d" % i, width, "+ ", [(2, " "), (6, "   ")] if i == 0 else ())
        for i in range(accs):
            ln("acc%d" % i, width, "++")
        for k in ("c", "f", "i"):
            for i in range(2):
                ln("%s%d" % (k, i), width, "%" + k)
        for i in range(comments):
            ln("com%d" % i, 80 if i == 1 else 60, "/*")
        self.end = len(self.lines)
        return self

    def text(self, name, col):
        i = self.name.get(name)
        return self.lines[i][col:] if i is not None else []


def good(s, f):
    """(the header's numbers are valid and agree, their terms)"""
    v, ok = {}, 1
    for name, spec in (("first", LINE1), ("second", LINE2)):
        for what, col, w, prim, need in spec:
            t = f.text(name, col)
            v[what] = num(prim, t)
            if need == "any":
                # (an unreadable one counts as zero and does not agree with the other line: only readable ones are claimed)
                f.assume = bdd.AND(f.assume, number(prim, t))
            elif need == "nonzero":
                ok = bdd.AND(ok, bdd.AND(bdd.NOT(cmp_eq0(v[what])), in_range(prim, t)))
            else:
                ok = bdd.AND(ok, number(prim, t))
    t = f.text("sat0", 3)
    v["sats"] = num("strtol", t)
    ok = bdd.AND(ok, bdd.AND(icmp("sgt", v["sats"], I(0)).a[0], in_range("strtol", t)))
    c = f.text("first", 1)[0]
    ok = bdd.AND(ok, bdd.OR(is_val(c, ord("c")), is_val(c, ord("d"))))
    st = State()
    d = s.obj("start", 16)
    rv, st, ts = s.run(D % "d_sp3_start", [d] + [v[k] for k in ("year", "month", "day", "hour", "minute", "seconds")], st)
    week, sow, mjd = [s.get(D % ("d_sp3_" + k), [d], st) for k in ("week", "sow", "mjd")]
    for c in (icmp("eq", week, v["week"]), fcmp("oeq", sow, v["sow"]), fcmp("oeq", mk("fadd", mk("sitofp", v["mjd"]), v["frac"]), mjd)):
        ok = bdd.AND(ok, c.a[0])
    return ok, v


def in_range(what, t):
    return bdd.NOT(bdd.var(mk("sym", "erange", "b", S_of(t), what)))


def open_sp3(s, f, nonl=False):
    ip = setup(s)
    f.use(ip, nonl)
    st = State()
    o = s.out("sp3", rec="ngpt::Sp3c", st=st)
    name = s.cstr(st, "name", "igs.sp3")
    n0 = len(ip.log)
    rv, ns, ts = s.run(CTOR3, [o, name], st)
    return o, ns, ts, ip.log[n0:]


def accepted(r, s, t, f, want, nonl=False):
    """the file is opened exactly under `want`, an exception is thrown otherwise"""
    o, ns, ts, log = open_sp3(s, f, nonl)
    sane(r, t, log, None, LOC)
    op = [e["ok"] for e in log if e["kind"] == "open"]
    if not r.ob(t + ": the file is opened", len(op) >= 1, "the constructor opens no file", LOC):
        return o, None
    want = bdd.AND(want, op[-1])
    a = getattr(f, "assume", 1)
    r.cond(t + ": opened exactly when valid", ns.pc if ns is not None else 0, want, a, "acceptance", LOC)
    r.cond(t + ": an exception otherwise", ts.pc if ts is not None else 0, bdd.NOT(want), a, "rejection", LOC)
    if ns is not None:
        ns.pc = bdd.AND(ns.pc, bdd.AND(want, a))
    return o, ns


#   satellite lines, accuracy lines, comment lines
SHAPES = [(5, 5, 4), (5, 5, 0), (5, 5, 1), (8, 8, 4), (17, 17, 30)]
REFUSED = ["second", "sat0", "acc0", "c0", "c1", "f0", "f1", "i0", "i1"]


def check():
    r = Report("P18")
    S = {cfg: r.session(cfg) for cfg in ("prod", "debug")}
    jobs = []
    for cfg in S:
        jobs += [(shapes, cfg, x) for x in SHAPES]
        jobs += [(marks, cfg, x) for x in ["first"] + REFUSED + ["com0", "com3"]]
        jobs += [(missing, cfg, x) for x in ["first"] + REFUSED]
        jobs += [(ends, cfg, x) for x in range(0, 20)]
        jobs += [(short, cfg, x) for x in (("first", 0), ("first", 1), ("first", 2), ("first", 9), ("first", 22), ("first", 33), ("second", 2), ("second", 5), ("second", 25),
                                           ("second", 39), ("second", 46), ("sat0", 2), ("sat0", 3), ("com1", 2), ("acc1", 2), ("i1", 2))]
        jobs += [(lengthy, cfg, x) for x in ("first", "sat1", "acc2", "f1")]
        jobs += [(epochs, cfg, x) for x in ("plain", "nocomment", "end", "broken", "nonl")]
    r.parallel(lambda fn, cfg, x: fn(r, S[cfg], cfg, x), jobs)
    return r.finish(
        "proof", "gated value-flow over LLVM IR with a scripted file of arbitrary characters",
        "an SP3 file is opened exactly when its header is valid, and its epochs are read from behind the header, again after rewinding",
        "the constructor is interpreted on headers given as sequences of marked lines whose other columns are arbitrary characters; epochs are read from the object it built",
        minimum=150, assumptions=["headers with more lines of a kind behave like the enumerated ones", "the date of the first line is made and compared by ggdatetime, a primitive here"])


def shapes(r, s, cfg, x):
    f = Header().build(*x)
    f.assume = 1
    t = "%s header with %d/%d/%d lines" % ((cfg,) + x)
    ok, v = good(s, f)
    o, ns = accepted(r, s, t, f, ok)
    if ns is None or ns.pc == 0:
        return
    r.same(t + ": number of satellites", s.get(D % "d_sp3_sats", [o], ns), v["sats"], ns.pc, "the number of satellites", LOC)
    r.same(t + ": interval", s.get(D % "d_sp3_interval", [o], ns), s.get(D % "d_sp3_usec", [v["interval"]], State()), ns.pc, "the interval in microseconds", LOC)
    st = ns.copy()
    st.pc = bdd.AND(ns.pc, cmp_eq0(sub(s.get(D % "d_sp3_sats", [o], ns), I(3))))
    r.same(t + ": room for an epoch", s.get(D % "d_sp3_room", [o], st), I(3), st.pc, "the size of an epoch's vector", LOC)
    if cfg == "debug":
        printed(r, s, t, f, o, ns, v)


def printed(r, s, t, f, o, ns, v):
    """the debug print names version, epochs, coordinate system, orbit type, agency and time system"""
    ip = s.ip
    ip.log_print = True
    n0 = len(ip.log)
    s.run(D % "d_sp3_print", [o], ns.copy())
    ip.log_print = False
    out = [e["what"] for e in ip.log[n0:] if e["kind"] == "print"]
    out = [only(x, ns.pc) for x in out]
    c = f.text("first", 0)
    text = lambda col, n, line="first": mk("str", *S_of(f.text(line, 0)[col:col + n]).a)
    for what, want in (("version", c[1]), ("number of epochs", v["epochs"]), ("coordinate system", text(46, 5)), ("orbit type", text(52, 3)), ("agency", text(56, 4)),
                       ("time system", text(9, 3, "c0"))):
        r.ob("%s: the %s is printed" % (t, what), any(x is want or (x.op != "str" and want.op != "str" and not differences(x, want, ns.pc)) for x in out),
             "the columns of the %s are not among what is printed" % what, LOC)


def only(t, pc):
    """the one value of a term under a condition"""
    while t.op == "ite":
        if bdd.AND(pc, t.a[0]) == 0:
            t = t.a[2]
        elif bdd.AND(pc, bdd.NOT(t.a[0])) == 0:
            t = t.a[1]
        else:
            break
    return t


def marks(r, s, cfg, x):
    """a line with arbitrary first characters: only the specified ones are accepted"""
    f = Header().build(change=x)
    f.assume = 1
    t = "%s %s line of another kind" % (cfg, x)
    ok, v = good(s, f)
    a, b = f.changed
    if x == "first":
        ok = bdd.AND(ok, is_val(a, ord("#")))
    elif x.startswith("com"):
        # (without the / the epochs start there)
        f.assume = bdd.AND(f.assume, is_val(a, ord("/")))
        ok = bdd.AND(ok, is_val(b, ord("*")))
    else:
        m = {"second": "##", "sat0": "+ ", "acc0": "++"}.get(x) or "%" + x[0]
        ok = bdd.AND(ok, bdd.AND(is_val(a, ord(m[0])), is_val(b, ord(m[1]))))
        if x == "acc0":
            # (one more satellite line)
            f.assume = bdd.AND(f.assume, bdd.NOT(bdd.AND(is_val(a, ord("+")), is_val(b, 32))))
    accepted(r, s, t, f, ok)


def missing(r, s, cfg, x):
    if x in ("sat0", "acc0"):
        f = Header().build(sats=0 if x == "sat0" else 5, accs=0 if x == "acc0" else 5)
    else:
        f = Header().build(drop=x)
    accepted(r, s, "%s header without its %s line" % (cfg, x), f, 0)


def ends(r, s, cfg, k):
    """the file ends within the header (k: number of lines)"""
    f = Header().build(sats=5, accs=5, comments=0)
    if k >= f.end - 1 and k > f.end:
        return
    f.lines = f.lines[:min(k, f.end - 1)]
    if k == 19:
        f.lines = f.lines[:2]
        return accepted(r, s, "%s two lines, the last without its end" % cfg, f, 0, nonl=True)
    accepted(r, s, "%s file of %d lines" % (cfg, len(f.lines)), f, 0)


def short(r, s, cfg, x):
    """a line that ends early: it is not completed from elsewhere"""
    f = Header()
    f.cutat = x[1]
    f.build(cut=x[0])
    f.assume = 1
    t = "%s %s line of %d characters" % (cfg, x[0], x[1])
    # (a line that ends within its last number holds a shorter number)
    if x[0] in ("com1", "acc1", "i1") or x in (("first", 33), ("second", 46)):
        ok, v = good(s, f)
        accepted(r, s, t, f, ok)
    else:
        accepted(r, s, t, f, 0)


def lengthy(r, s, cfg, x):
    """a line longer than a header line can be is no reason to hang or crash"""
    f = Header().build(long=x)
    o, ns, ts, log = open_sp3(s, f)
    sane(r, "%s %s line of 90 characters" % (cfg, x), log, None, LOC)
    pc = bdd.OR(ns.pc if ns is not None else 0, ts.pc if ts is not None else 0)
    r.cond("%s %s line of 90 characters: ends" % (cfg, x), pc, 1, 1, "the end of the constructor", LOC)


def read_epoch(r, s, t, o, st, n):
    tp = s.out("t%d" % n, 16, st=st) if False else s.obj("t%d" % n, 16)
    vp, np_ = s.obj("vec%d" % n, 24), s.obj("n%d" % n, 4)
    esz = s.rec_size("ngpt::Sp3EpochSvRecord")
    s.obj("data%d" % n, esz * 2)
    d = "data%d" % n
    st.mem["vec%d" % n] = s.ip.content(st, "vec%d" % n).with_cell(0, 8, ptr(d, I(0))).with_cell(8, 8, ptr(d, I(esz * 2))).with_cell(16, 8, ptr(d, I(esz * 2)))
    n0 = len(s.ip.log)
    rv, ns, ts = s.run(NEXT, [o, tp, vp, np_], st)
    sane(r, t, s.ip.log[n0:], ts, LOC)
    return rv, ns, tp, np_


def epoch_line(f, name):
    spec = [("year", 3, 4), ("month", 8, 2), ("day", 11, 2), ("hour", 14, 2), ("minute", 17, 2), ("seconds", 20, 11)]
    f.put(name, 31, [(0, "*  ")] + [(c + w, " ") for _, c, w in spec if c + w < 31])
    return spec


def epoch_of(s, f, name, spec):
    """(the line is a valid epoch header, its datetime as stored by the specification)"""
    ok, v = 1, []
    for what, c, w in spec:
        prim = "strtod" if what == "seconds" else "strtol"
        t = f.text(name, c)
        v.append(num(prim, t))
        ok = bdd.AND(ok, bdd.AND(bdd.NOT(cmp_eq0(v[-1])), in_range(prim, t)) if what == "year" else number(prim, t))
    st = State()
    d = s.obj("want" + name, 16)
    rv, st, ts = s.run(D % "d_sp3_start", [d] + v, st)
    return ok, d, st


def record(f, name):
    f.put(name, 60, [(0, "PG"), (4, f.free(1)), (18, " "), (32, " "), (46, " ")])


def epochs(r, s, cfg, what):
    """epochs are read from behind the header, and again after rewinding"""
    t = "%s epochs of a file (%s)" % (cfg, what)
    f = Header().build(comments=0 if what == "nocomment" else 3)
    f.assume = 1
    spec = epoch_line(f, "e0")
    f.put("o0", 40, [(0, "V")])
    spec = epoch_line(f, "e1")
    if what != "broken":
        f.lines.append(chars("EOF"))
    o, ns, ts, log = open_sp3(s, f, nonl=what == "nonl")
    if ns is None or ns.pc == 0:
        raise AnchorError("no file can be opened")
    ok0, d0, w0 = epoch_of(s, f, "e0", spec)
    ok1, d1, w1 = epoch_of(s, f, "e1", spec)
    base = bdd.AND(ns.pc, bdd.AND(ok0, ok1))
    ns.pc = base
    for k in range(4 if what in ("end", "broken", "nonl") else 1):
        rv, ns, tp, np_ = read_epoch(r, s, "%s, reading %d" % (t, k), o, ns, k)
        if ns is None or ns.pc == 0:
            r.ob(t + ": reading returns", False, "it does not", LOC)
            return
        if k == 0:
            same_epoch(r, s, t + ", first epoch", rv, ns, tp, np_, d0, w0, 0)
        if k == 1:
            same_epoch(r, s, t + ", second epoch", rv, ns, tp, np_, d1, w1, -1 if what != "broken" else None)
        if k > 1:
            r.cond("%s, reading %d behind the end: refused" % (t, k), cmp_eq0(rv), 0, ns.pc, "success", LOC)
    rv, ns, ts = s.run(D % "d_sp3_rewind", [o], ns)
    rv, ns, tp, np_ = read_epoch(r, s, t + ", rewound", o, ns, 9)
    if ns is None:
        r.ob(t + ": reading again returns", False, "it does not", LOC)
        return
    same_epoch(r, s, t + ", rewound", rv, ns, tp, np_, d0, w0, 0)


def same_epoch(r, s, t, rv, ns, tp, np_, d, w, status):
    if status is None:
        r.cond(t + ": refused, the file has no end", cmp_eq0(rv), 0, ns.pc, "success", LOC)
        return
    r.same(t + ": status", rv, I(status), ns.pc, "the status", LOC)
    for off, part in ((0, "day"), (8, "second")):
        r.same("%s: %s" % (t, part), s.load(ns, tp, off, 8, "i64"), s.load(w, d, off, 8, "i64"), ns.pc, "the epoch", LOC)
    r.same(t + ": number of records", s.load(ns, np_, 0, 4, "i32"), I(0), ns.pc, "the number of records", LOC)


if __name__ == "__main__":
    sys.exit(check())
