"""P17: antenna files - satellites by number, system and epoch."""
from antexlib import *
from ggsa.models import dt_of, bad_date

#   s the wanted satellite, epoch inside its interval    S the same without an end of the interval
#   o p before the interval (with and without an end)    O behind it
#   b B begin or end is no date                          n no interval at all
#   x another number    y another system    r no satellite    q an unknown system    w its second code belongs to another system
#   z its number is none    v its second number is none
FOUND = ["s", "S", "os", "OS", "pS", "xs", "ys", "rs", "qs", "ns", "bs", "Bs", "ws", "zs", "vs", "xrOs", "so", "SS", "yxnOps"]
MISSING = ["", "o", "p", "O", "x", "y", "r", "q", "n", "b", "B", "w", "z", "v", "oOpxyrn"]
#   lines between the number of frequencies and the first frequency
OPTIONAL = dict(s=("VALID FROM", "VALID UNTIL", "SINEX CODE"), S=("VALID FROM", "SINEX CODE", "COMMENT"), o=("VALID FROM", "", "VALID UNTIL"), p=("", "VALID FROM", ""),
                O=("COMMENT", "VALID FROM", "VALID UNTIL", ""), b=("VALID FROM", "VALID UNTIL"), B=("VALID FROM", "VALID UNTIL"), n=("SINEX CODE", ""))


def check():
    r = Report("P17")
    S = {cfg: r.session(cfg) for cfg in ("prod", "debug")}
    jobs = []
    for cfg in S:
        full = cfg == "prod"
        jobs += [(search, cfg, (k, sy, "info", True, True)) for sy, k in zip(["gps", "glonass", "galileo", "beidou", "qzss", "irnss", "sbas", "mixed"] * 4, FOUND if full else FOUND[:6])]
        jobs += [(search, cfg, ("s", "gps", w, a, b)) for w in ("info", "pco", "both") for a in (0, 1) for b in (0, 1)]
        jobs += [(search, cfg, (k, "galileo", w, 1, 1)) for k in (MISSING if full else MISSING[:4]) for w in ("info", "pco")]
        jobs += [(search, cfg, (k, "glonass", "both", 1, 0)) for k in (FOUND[2:] if full else FOUND[2:5])]
        jobs += [(anysystem, cfg, None)]
        jobs += [(broken, cfg, x) for x in ("start", "type", "METH", "VALID FROM", "VALID UNTIL", "cut", "cutx", "noend", "nonl", "later")]
        jobs += [(again, cfg, x) for x in ("s", "xs", "sx", "os", "sc")]
    r.parallel(lambda fn, cfg, x: fn(r, S[cfg], cfg, x), jobs)
    return r.finish(
        "proof", "gated value-flow over LLVM IR with a scripted file of arbitrary characters",
        "a satellite is found exactly when an antenna of its system and number is valid at the epoch, and everything returned is that antenna's",
        "the look-ups are interpreted on files given as sequences of labelled lines whose other columns are arbitrary characters",
        minimum=200, assumptions=["files with more antennas, frequencies or optional lines behave like the enumerated ones",
                                  "dates are compared by ggdatetime, whose order is total"])


class Want:
    """the request: a number (given by its text), a system and an epoch"""

    def __init__(self, s, f, st, system):
        self.ptext = f.free(5)
        self.prn = num("strtol", self.ptext)
        self.number = number("strtol", self.ptext)
        self.letter = ord(LETTER[system]) if system else None
        self.sys = I(s.satsys()[system]) if system else sym("system", "i", 0, 7)
        self.at = s.obj("at", 16)
        fr = None
        self.t = dt_of(s.ip, st, fr, None, self.at)
        self.dates = {}

    def canon(self, S):
        """a date is read from the first 43 columns of its line"""
        if S.op == "S" and len(S.a) >= 43 and S.a[0][0] == "chr" and S.a[0][1] in self.dates:
            t = self.dates[S.a[0][1]]
            if [q[1] if q[0] == "chr" else None for q in S.a[:43]] == t:
                return S_of(t)
        return S


def antenna(s, f, w, kind, svn=1, cospar=1, letter=None, body=True, nfreq=2, **kw):
    """one antenna; the columns of its type line, its frequencies"""
    c = letter or I(w.letter)
    name, tail, sv, cos = f.free(20), f.free(4), f.free(5), f.free(10)
    p, when = w.ptext, w.number
    c2 = c
    if kind == "x":
        p = f.free(5)
        when = bdd.OR(bdd.NOT(number("strtol", p)), bdd.NOT(cmp_eq0(sub(num("strtol", p), w.prn))))
    elif kind == "y":
        c = c2 = I(ord("G" if w.letter != ord("G") else "E"))
    elif kind == "r":
        c, p, when = I(32), f.free(5), 1
    elif kind == "q":
        c = c2 = I(ord("X"))
    elif kind == "w":
        c2 = I(ord("G" if w.letter != ord("G") else "E"))
    elif kind == "z":
        p = f.free(5)
        S = S_of(p)
        when = bdd.OR(cmp_eq0(mk("nconv", "strtol", S)), bdd.var(mk("sym", "erange", "b", S, "strtol")))
    f.line("START OF ANTENNA")
    fields = [(0, name), (20, [c]), (21, p), (26, tail + [I(32)] * 10)]
    cols = 36
    if kind == "v":
        when = bdd.AND(when, bdd.NOT(number("strtol", sv)))
    elif svn:
        when = bdd.AND(when, number("strtol", sv))
    fields += [(40, [c2] + sv + f.free(4))] if svn or kind in "vw" else [(40, " " * 10)]
    if cospar:
        cos[0] = I(ord("2"))
        fields += [(50, cos)]
    else:
        fields += [(50, " " * 10)]
    f.line("TYPE / SERIAL NO", fields, when=when)
    info = dict(name=name, svn=num("strtol", sv) if svn else I(-1), cospar=cos[:9] + [I(0)] if cospar else [I(0)] * 10)
    if not body:
        return info, []
    i0 = len(f.lines)
    fr, dates = block_body(f, nfreq, optional=OPTIONAL.get(kind, ("VALID FROM", "VALID UNTIL")), **kw)
    D_, bad = {}, {}
    for what, t in dates:
        if what.startswith("VALID"):
            w.dates[t[0]] = t[:43]
            S = S_of(t[:43])
            D_[what] = mk("dt", "strptime_ymd_hms", S)
            bad[what] = bad_date(S)
    lt = lambda x, y: bdd.var(mk("eq", mk("dlt", x, y), 1))
    a, b = D_.get("VALID FROM"), D_.get("VALID UNTIL")
    if kind in "rzqxywnv":
        cond = 1
        for k in bad.values():
            cond = bdd.AND(cond, bdd.NOT(k))
        # the interval of what must not be taken holds the epoch
        cond = bdd.AND(cond, bdd.AND(bdd.NOT(lt(w.t, a)), bdd.NOT(lt(b, w.t)))) if a is not None and b is not None else cond
    else:
        cond = bad["VALID FROM"] if kind == "b" else bdd.NOT(bad["VALID FROM"])
        if b is not None:
            cond = bdd.AND(cond, bad["VALID UNTIL"] if kind == "B" else bdd.NOT(bad["VALID UNTIL"]))
        if kind in "op":
            cond = bdd.AND(cond, lt(w.t, a))
        elif kind != "b":
            cond = bdd.AND(cond, bdd.NOT(lt(w.t, a)))
            if b is not None and kind != "B":
                cond = bdd.AND(cond, lt(b, w.t) if kind == "O" else bdd.NOT(lt(b, w.t)))
    f.when[i0] = bdd.AND(f.when.get(i0, 1), cond)
    return info, fr


def run_lookup(r, s, t, o, w, how, ns):
    """how: info, pco (no satellite asked for), both"""
    lay = pco_layout(s)
    l, st = old_list(s, ns.copy())
    sv = s.out("sv", rec="ngpt::Satellite", st=st)
    rv, st, ts = s.run(D % "d_sat_ctor", [sv, I(s.satsys()["mixed"])], st)
    f = s.fn(SATINFO if how == "info" else SATPCO)
    loc = "%s:%d" % (f.file, f.line)
    args = [o, w.prn, w.sys, w.at] + ([sv] if how == "info" else [l, sv if how == "both" else NULL])
    s.ip.canon_text = w.canon
    n0 = len(s.ip.log)
    rv, ns, ts = s.run(f, args, st)
    s.ip.canon_text = None
    sane(r, t, s.ip.log[n0:], ts, loc)
    returns(r, s, t, st, ns, loc)
    return l, sv, rv, ns, lay, loc


def check_satellite(r, s, t, sv, ns, pc, w, info, loc):
    st = ns.copy()
    st.pc = pc
    g = lambda fn: s.get(D % fn, [sv], st)
    r.same(t + ": system", g("d_sat_sys"), w.sys, pc, "the satellite system", loc)
    r.same(t + ": number", g("d_sat_prn"), w.prn, pc, "the number", loc)
    r.same(t + ": vehicle number", g("d_sat_svn"), info["svn"], pc, "the vehicle number", loc)
    p = g("d_sat_cospar")
    alive = True
    for i, x in enumerate(info["cospar"]):
        if alive:
            r.same("%s: COSPAR id, character %d" % (t, i), s.load(st, p, i, 1, "i8"), x, pc, "the character", loc)
        alive = alive and not (x.op == "int" and x.a[0] == 0)
    p = s.get(D % "d_sant_str", [s.get(D % "d_sat_antr", [sv], st)], st)
    for i, x in enumerate(info["name"] + [I(0)]):
        r.same("%s: antenna type, character %d" % (t, i), s.load(st, p, i, 1, "i8"), x, pc, "the character", loc)


def judge(r, s, t, how, l, sv, rv, ns, lay, loc, w, hit):
    """hit: (columns of the type line, frequencies) of the antenna that must be found, None"""
    if ns is None or ns.pc == 0:
        return
    if hit is None:
        r.same(t + ": status", rv, I(10), ns.pc, "the status", loc)
        if how != "info":
            r.same(t + ": no offsets", s.get(D % "d_pcl_size", [l], ns), I(0), ns.pc, "the number of offsets", loc)
        return
    info, fr = hit
    ok = 1
    if how != "info":
        for q in fr:
            ok = bdd.AND(ok, freq_ok(s, q))
        result(r, s, t, rv, ns, l, 0, fr, ok, lay, loc)
    else:
        r.same(t + ": found", rv, I(0), ns.pc, "the status", loc)
    if how != "pco":
        check_satellite(r, s, t, sv, ns, bdd.AND(ns.pc, ok), w, info, loc)


def start(s, system):
    setup(s)
    f = File()
    f.header()
    st = State()
    w = Want(s, f, st, system)
    return f, st, w


def search(r, s, cfg, x):
    kinds, system, how, svn, cospar = x
    t = "%s %s %s in %s%s%s" % (cfg, how, system, kinds or "nothing", "" if svn else " without vehicle number", "" if cospar else " without COSPAR id")
    f, st, w = start(s, system)
    hit = None
    for i, k in enumerate(kinds):
        a = antenna(s, f, w, k, svn if k in "sS" else 1, cospar if k in "sS" else 1, nfreq=1 + i % 2)
        if k in "sS" and hit is None:
            hit = a
    o, ns = opened(s, f, st)
    l, sv, rv, ns, lay, loc = run_lookup(r, s, t, o, w, how, ns)
    judge(r, s, t, how, l, sv, rv, ns, lay, loc, w, hit)


def anysystem(r, s, cfg, x):
    """any letter, any requested system: found exactly when they belong together"""
    t = cfg + " any system"
    f, st, w = start(s, None)
    c = f.free(1)[0]
    info, fr = antenna(s, f, w, "s", letter=c)
    o, ns = opened(s, f, st)
    l, sv, rv, ns, lay, loc = run_lookup(r, s, t, o, w, "info", ns)
    if ns is None:
        return
    ok = 0
    for n, v in s.satsys().items():
        if n in LETTER:
            ok = bdd.OR(ok, bdd.AND(is_val(c, ord(LETTER[n])), is_val(w.sys, v)))
    r.cond(t + ": found exactly when the letter is the system's", cmp_eq0(rv), ok, ns.pc, "success", loc)
    st = ns.copy()
    st.pc = bdd.AND(ns.pc, ok)
    r.same(t + ": system", s.get(D % "d_sat_sys", [sv], st), system_of(s, c)[0], st.pc, "the satellite system", loc)


def broken(r, s, cfg, what):
    t = "%s damaged file: %s" % (cfg, what)
    f, st, w = start(s, "gps")
    hit = None
    if what == "start":
        f.line("COMMENT")
        antenna(s, f, w, "s")
    elif what == "type":
        f.line("START OF ANTENNA")
        f.line("COMMENT")
        antenna(s, f, w, "s")
    elif what == "METH":
        antenna(s, f, w, "s", drop="METH / BY / # / DATE")
    elif what == "cut":
        antenna(s, f, w, "s", body=False)
    elif what == "cutx":
        antenna(s, f, w, "x", body=False)
    elif what in ("VALID FROM", "VALID UNTIL"):
        antenna(s, f, w, "s", body=False)
        f.line("METH / BY / # / DATE")
        f.line("DAZI")
        if what == "VALID UNTIL":
            d = f.line("VALID FROM")
            w.dates[d[0]] = d[:43]
    elif what == "noend":
        antenna(s, f, w, "o", drop="END OF ANTENNA")
    elif what == "later":
        hit = antenna(s, f, w, "s")
        f.line("START OF ANTENNA")
    else:
        antenna(s, f, w, "x")
        hit = antenna(s, f, w, "s")
    o, ns = opened(s, f, st, what == "nonl")
    l, sv, rv, ns, lay, loc = run_lookup(r, s, t, o, w, "both", ns)
    if hit is not None:
        judge(r, s, t, "both", l, sv, rv, ns, lay, loc, w, hit)
    elif ns is not None and what != "VALID UNTIL":
        r.cond(t + ": refused", cmp_eq0(rv), 0, ns.pc, "success", loc)
        r.same(t + ": no offsets", s.get(D % "d_pcl_size", [l], ns), I(0), ns.pc, "the number of offsets", loc)


def again(r, s, cfg, kinds):
    """a second look-up behind one for another satellite, which the file may lack or end in"""
    t = "%s second look-up, antennas %s" % (cfg, kinds)
    f, st, w = start(s, "gps")
    hit, first = None, None
    for k in kinds:
        if k == "c":
            antenna(s, f, w, "o", body=False)
            continue
        a = antenna(s, f, w, k, nfreq=1)
        hit = a if k == "s" else hit
    o, ns = opened(s, f, st)
    sv = s.out("sv0", rec="ngpt::Satellite", st=ns)
    rv, ns, ts = s.run(D % "d_sat_ctor", [sv, I(0)], ns)
    s.ip.canon_text = w.canon
    rv, ns, ts = s.run(SATINFO, [o, add(w.prn, I(1)), w.sys, w.at, sv], ns)
    if ns is None or ns.pc == 0:
        r.ob(t + ": the first look-up returns", False, "it does not", "src/antex.cpp")
        return
    l, sv, rv, ns, lay, loc = run_lookup(r, s, t, o, w, "both", ns)
    judge(r, s, t, "both", l, sv, rv, ns, lay, loc, w, hit)


if __name__ == "__main__":
    sys.exit(check())
