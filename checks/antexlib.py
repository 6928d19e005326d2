"""Antenna (ANTEX) files as scripts of labelled lines, and the objects tied to them."""
from common import *
from ggsa.models import script_at

D = r".*ggsa_driver::%s\(.*"
CTOR = r"ngpt::Antex::Antex\(char const\*\)"
RECPCO = r"ngpt::Antex::get_antenna_pco\(ngpt::ReceiverAntenna const&, .*"
SATPCO = r"ngpt::Antex::get_antenna_pco\(int, .*"
SATINFO = r"ngpt::Antex::get_satellite_info\(.*"


def chars(t):
    return [I(b) for b in (t.encode() if isinstance(t, str) else t)]


class File:
    """lines: lists of characters; when: what is assumed of a line once it is read"""

    def __init__(self):
        self.lines, self.when, self.n = [], {}, 0

    def free(self, n, lo=1, hi=127):
        self.n += 1
        return [sym("t%d[%d]" % (self.n, i), "i", lo, hi) for i in range(n)]

    def line(self, label, fields=(), when=1, width=60):
        """a line of arbitrary characters with a label; fields: (column, characters)"""
        t = self.free(width)
        for col, x in fields:
            x = chars(x) if isinstance(x, (str, bytes)) else list(x)
            t[col:col + len(x)] = x
        i = len(self.lines)
        self.lines.append(t[:width] + chars(label))
        if when != 1:
            self.when[i] = when
        return t

    def short(self, n, fields=()):
        """a line without a label: a table of numbers when it reaches the label's columns"""
        t = self.free(min(n, 60)) + self.free(max(0, n - 60), 32, 57)
        for col, x in fields:
            t[col:col + len(x)] = x
        self.lines.append(t)
        return t

    def header(self, version="     1.4", letter="G", pcv="A", extra=1, eoh=True):
        v = chars(version.ljust(15)) if isinstance(version, str) else version
        self.line("ANTEX VERSION / SYST", [(0, v), (15, " " * 5), (20, letter)])
        self.line("PCV TYPE / REFANT", [(0, pcv)])
        for i in range(extra):
            self.line("COMMENT")
        if eoh:
            self.line("END OF HEADER", [(0, " " * 60)])

    def use(self, ip, nonl=False):
        ip.script = [tuple(t) for t in self.lines]
        ip.script_nonl = nonl
        ip.script_when = dict(self.when)
        ip.on_script = lambda i: self.when.get(i, 1)


def S_of(t):
    """the text of the given characters"""
    out = []
    for x in t:
        if x.op == "int":
            b = bytes([x.a[0] & 255])
            if out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + b)
            else:
                out.append(("lit", b))
        else:
            out.append(("chr", x))
    return mk("S", *out)


def num(what, t):
    S = S_of(t)
    return mk(what, S) if what == "strtod" else mk(what, S, I(10))


def number(what, t):
    """the text is a representable number"""
    S = S_of(t)
    return bdd.AND(bdd.NOT(cmp_eq0(mk("nconv", what, S))), bdd.NOT(bdd.var(mk("sym", "erange", "b", S, what))))


def differ(a, b):
    f = 0
    for x, y in zip(a, b):
        f = bdd.OR(f, bdd.NOT(cmp_eq0(sub(x, y))))
    return f


def system_of(s, c):
    """the system a letter stands for, and whether it stands for one"""
    E = s.satsys()
    v, known = I(E["mixed"]), 0
    for n, l in LETTER.items():
        e = is_val(c, ord(l))
        v = ite(e, I(E[n]), v)
        known = bdd.OR(known, e)
    return v, known


def setup(s):
    ip = s.ip
    ip.charwise = True
    ip.UNROLL, ip.data_unroll, ip.force_unroll = 12000, 12000, 100
    return ip


def open_file(s, f, nonl=False, reset=False):
    """the object tied to the scripted file; state after a successful opening"""
    ip = setup(s)
    f.use(ip, nonl)
    st = State()
    o = s.out("atx", rec="ngpt::Antex", st=st)
    name = s.cstr(st, "name", "igs.atx")
    return o, s.run(CTOR, [o, name], st)


# ------------------------------------------------------------------ lists of offsets
def pco_layout(s):
    """where an offset keeps its parts"""
    st = State()
    code = s.out("probecode", rec="ngpt::ObservationCode", st=st)
    v = dict(type=I(0), band=sym("pband", "i", 0, 99), attr=sym("pattr", "i", 0, 127), sys=sym("psys", "i", 0, 7),
             n=sym("pn", "f"), e=sym("pe", "f"), u=sym("pu", "f"))
    rv, st, ts = s.run(D % "d_code_ctor", [code, v["type"], v["band"], v["attr"]], st)
    p = s.out("probe", rec="ngpt::AntennaPco", st=st)
    rv, st, ts = s.run(D % "d_pco_ctor", [p, code, v["sys"], v["n"], v["e"], v["u"]], st)
    lay = {}
    for k in ("band", "sys", "n", "e", "u"):
        for off in range(0, s.rec_size("ngpt::AntennaPco")):
            for size, ty in ((1, "i8"), (4, "i32"), (8, "double")):
                if off + size <= s.rec_size("ngpt::AntennaPco") and (ty == "double") == (k in "neu"):
                    if s.load(st, p, off, size, ty) is v[k]:
                        lay.setdefault(k, (off, size, ty))
        if k not in lay:
            raise AnchorError("an offset does not keep its " + k)
    return lay


def old_list(s, st):
    """a list of offsets that already holds one"""
    l = s.out("pcolist", rec="ngpt::AntennaPcoList", st=st)
    rv, st, ts = s.run(D % "d_pcl_init", [l], st)
    c = s.out("oldcode", rec="ngpt::ObservationCode", st=st)
    rv, st, ts = s.run(D % "d_code_ctor", [c, I(0), I(7), I(0)], st)
    p = s.out("oldpco", rec="ngpt::AntennaPco", st=st)
    rv, st, ts = s.run(D % "d_pco_ctor", [p, c, I(0), F(1.0), F(2.0), F(3.0)], st)
    rv, st, ts = s.run(D % "d_pcl_add", [l, p], st)
    return l, st


def block_body(f, nfreq, count=None, optional=(), rms=(), grid=2, short=False, width=90, when=1, drop=None, sats=None, valid=()):
    """the lines of an antenna behind its type; returns the frequencies' (system letter, band, three numbers) columns"""
    def ln(label, *a, **k):
        if label != drop:
            return f.line(label, *a, **k)
    ln("METH / BY / # / DATE")
    ln("DAZI")
    ln("ZEN1 / ZEN2 / DZEN")
    n = nfreq if count is None else count
    ln("# OF FREQUENCIES", [(0, ("%6d" if rms else "%d     ") % n if isinstance(n, int) else n)], when=when)
    dates = []
    for what in optional:
        if what == "":
            f.short(7)
        else:
            dates.append((what, f.line(what)))
    out = []
    for i in range(nfreq):
        letter, band = f.free(1), f.free(2)
        ln("START OF FREQUENCY", [(3, letter), (4, band)])
        v = [f.free(10), f.free(10), f.free(10)]
        ln("NORTH / EAST / UP", [(0, v[0] + v[1] + v[2])])
        out.append((letter[0], band, v))
        for k in range(grid):
            f.short(11 if short else width)
        ln("END OF FREQUENCY")
        if i in rms:
            ln("START OF FREQ RMS")
            f.line("NORTH / EAST / UP")
            f.short(11 if short else width)
            ln("END OF FREQ RMS")
    ln("END OF ANTENNA")
    return out, dates


def freq_ok(s, q):
    c = system_of(s, q[0])[1]
    c = bdd.AND(c, number("strtol", q[1]))
    for t in q[2]:
        c = bdd.AND(c, number("strtod", t))
    return c


def check_offsets(r, s, t, l, ns, pc, freqs, lay, loc):
    """the list holds exactly the given offsets"""
    st = ns.copy()
    st.pc = pc
    r.same(t + ": number of offsets", s.get(D % "d_pcl_size", [l], st), I(len(freqs)), pc, "the number of offsets", loc)
    for i, q in enumerate(freqs):
        p = s.get(D % "d_pcl_at", [l, I(i)], st)
        if p.op != "ptr" or p.a[1].op != "int":
            r.error("%s: offset %d is not at a known place" % (t, i))
            continue
        g = lambda k: s.load(st, p, *lay[k])
        r.same("%s: system of offset %d" % (t, i), g("sys"), system_of(s, q[0])[0], pc, "the satellite system", loc)
        r.same("%s: band of offset %d" % (t, i), g("band"), num("strtol", q[1]), pc, "the frequency band", loc)
        for k, z in zip("neu", q[2]):
            r.same("%s: %s of offset %d" % (t, dict(n="north", e="east", u="up")[k], i), g(k), num("strtod", z), pc, "the offset", loc)


# ------------------------------------------------------------------ common parts of the look-up checks
def sane(r, t, log, ts, loc):
    for e in log:
        if e["kind"] in ("oob", "uninit", "nullderef", "unterminated"):
            r.ob(t + ": only initialised memory of the object is used", False, e.get("what") or "bad access", e["loc"])
        if e["kind"] == "endless":
            r.ob(t + ": ends", False, "the file is read forever: " + e["what"], e["loc"])
    bad = [e for e in log if e["kind"] == "terminate"]
    r.ob(t + ": the program is not terminated", not bad, "an exception leaves a noexcept function", bad[0]["loc"] if bad else loc)


def returns(r, s, t, st, ns, loc):
    p = st.pc
    for i, c in s.ip.script_when.items():
        p = bdd.AND(p, c)
    r.cond(t + ": returns", bdd.AND(ns.pc, p) if ns is not None else 0, p, 1, "the return of the look-up", loc)


def result(r, s, t, rv, ns, l, want, freqs, ok, lay, loc):
    """want: 0 with exactly the given offsets when they are numbers; another status: no offsets"""
    if ns is None or ns.pc == 0:
        return
    if want == 0:
        r.cond(t + ": found, unless an offset is no number", cmp_eq0(rv), ok, ns.pc, "success", loc)
        check_offsets(r, s, t, l, ns, bdd.AND(ns.pc, ok), freqs, lay, loc)
    else:
        r.same(t + ": status", rv, I(want), ns.pc, "the status", loc)
        r.same(t + ": no offsets", s.get(D % "d_pcl_size", [l], ns), I(0), ns.pc, "the number of offsets", loc)


def opened(s, f, st, nonl=False):
    o, (rv, ns, ts) = open_file(s, f, nonl)
    if ns is None or ns.pc == 0:
        raise AnchorError("no file can be opened")
    ns.mem.update({k: v for k, v in st.mem.items() if k not in ns.mem})
    ns.pc = bdd.AND(ns.pc, st.pc)
    return o, ns
