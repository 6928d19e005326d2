"""P19: Bernese satellite tables - opening, and the frequency channel of a satellite at an epoch."""
from antexlib import *
from ggsa.models import dt_of, bad_date

CTOR4 = r"ngpt::BernSatellit::BernSatellit\(char const\*\)"
LOOK = r"ngpt::BernSatellit::get_frequency_channel\(.*\)"
LOC = "src/bern_utils.cpp"
TITLE = "SATELLITE-SPECIFIC INFO FOR GPS/GLONASS/GEO/LEO/SLR, BSW5.2"
PART2 = "PART 2: ON-BOARD SENSORS"
HEAD1 = ("                                              START TIME           END TIME                 SENSOR OFFSETS (M)    "
         "   SENSOR BORESIGHT VECTOR (U) SENSOR AZIMUTH VECTOR (N)")
HEAD2 = ("PRN  TYPE  SENSOR NAME______SVN  NUMBER  YYYY MM DD HH MM SS  YYYY MM DD HH MM SS         DX        DY        DZ         X       Y       Z    "
         "      X       Y       Z      ANTEX SENSOR NAME___  IFRQ  SIGNAL LIST___________------>")
#   columns: number 0-2, type 5-6, SVN 28-31, start 41-59, end 62-81, channel 193-196
FIELDS = dict(prn=(0, 3), svn=(28, 4), start=(41, 19), stop=(62, 20), channel=(193, 4))


class Table(File):
    def __init__(self):
        super().__init__()
        self.recs, self.assume, self.fields = [], 1, {}

    def put(self, text="", n=0):
        self.lines.append(chars(text) + self.free(n))
        return self.lines[-1]

    def header(self, before=3, drop=None, change=None, tail=12):
        for name, text in [("title", TITLE)] + [("x%d" % i, None) for i in range(before)] + [("part2", PART2), ("dash", None), ("head1", HEAD1), ("head2", HEAD2), ("empty", "")]:
            if name == drop:
                continue
            if text is None:
                t = self.put("", 40)
                # (not the heading looked for)
                if name[0] == "x":
                    self.when[len(self.lines) - 1] = bdd.NOT(is_val(t[0], ord("P")))
                    self.assume = bdd.AND(self.assume, self.when[len(self.lines) - 1])
                continue
            t = self.put(text, tail if name != "empty" else 0)
            if change and name == change[0]:
                k = change[1] % len(text)
                t[k] = self.free(1)[0]
                self.changed = is_val(t[k], ord(text[k]))
        return self

    def record(self, kind="any", stop="any", cut=None):
        """a record; kind: its type (mw, other, any), stop: the end (any: arbitrary columns, open: blank, set)"""
        t = self.free(230)
        for a, b in ((3, 5), (7, 8), (32, 41), (60, 62), (82, 84), (192, 193), (197, 199)):
            t[a:b] = chars(" " * (b - a))
        if kind == "mw":
            t[5:7] = chars("MW")
        elif kind == "ml":
            t[5:6] = chars("M")
        elif kind == "slr":
            t[5:7] = chars("SL")
        if stop == "open":
            t[62:82] = chars(" " * 20)
        elif stop == "set":
            t[62:64] = chars("20")
        elif stop == "end":
            # only the last column of the field holds something
            t[62:81] = chars(" " * 19)
        if cut is not None:
            t = t[:cut]
        self.lines.append(t)
        self.recs.append(t)
        for k, (c, w) in FIELDS.items():
            f = t[c:c + w]
            if len(f) == w or (k == "stop" and len(f) > 20):
                first = [x for x in f if x.op != "int"][:1]
                if first:
                    self.fields[first[0]] = f
        return t

    def canon(self, S):
        """a number or date is read from its field, blanks follow"""
        if S.op == "S" and S.a:
            q = [x for x in S.a[:2] if x[0] == "chr"][:1]
            f = self.fields.get(q[0][1]) if q else None
            if f is not None:
                # (blanks in front are part of the field)
                w = S_of(f)
                if S.a[:len(w.a)] == w.a:
                    return w
        return S


def field(t, k):
    c, w = FIELDS[k]
    return t[c:c + w] if len(t) >= c + w else t[c:]


def readable(t, k):
    f = field(t, k)
    return number("strtol", f) if f else 0


def open_table(s, f, nonl=False):
    ip = setup(s)
    ip.charwise_max = 256
    f.use(ip, nonl)
    st = State()
    o = s.out("tab", rec="ngpt::BernSatellit", st=st)
    name = s.cstr(st, "name", "SATELLIT.I14")
    n0 = len(ip.log)
    rv, ns, ts = s.run(CTOR4, [o, name], st)
    return o, ns, ts, ip.log[n0:]


def accepted(r, s, t, f, want, nonl=False):
    o, ns, ts, log = open_table(s, f, nonl)
    sane(r, t, log, None, LOC)
    op = [e["ok"] for e in log if e["kind"] == "open"]
    if not r.ob(t + ": the file is opened", len(op) >= 1, "the constructor opens no file", LOC):
        return
    want = bdd.AND(want, op[-1])
    r.cond(t + ": opened exactly when valid", ns.pc if ns is not None else 0, want, f.assume, "acceptance", LOC)
    r.cond(t + ": an exception otherwise", ts.pc if ts is not None else 0, bdd.NOT(want), f.assume, "rejection", LOC)


# one letter per record: m a sensor of type MW   a any type, any end   s another type   M a type MW or not (second letter)
#   o open end   e closed end   l only the last column of the end is not blank
SHAPES = ["", "a", "m", "o", "e", "l", "s", "M", "aa", "sa", "oe", "eo", "ase", "Mmo", "aaa", "lsMo", "eeee"]
ENDS = ["empty", "short", "part3", "eof", "nonl"]


def check():
    r = Report("P19")
    S = {cfg: r.session(cfg) for cfg in ("prod", "debug")}
    jobs = []
    for cfg in S:
        full = cfg == "prod"
        jobs += [(opening, cfg, x) for x in [("before", n) for n in (0, 1, 3, 30)] + [("drop", n) for n in ("title", "part2", "head1", "head2")] +
                 [("change", (n, k)) for n in ("title", "part2", "head1", "head2") for k in (0, 1, 10, 50, -1)] + [("cut", n) for n in range(0, 8)] + [("nonl", 4)]]
        jobs += [(lookup, cfg, (k, e)) for k in (SHAPES if full else SHAPES[:9]) for e in (ENDS if full or len(k) < 2 else ENDS[2:4]) if k or e in ("eof", "nonl")]
        jobs += [(again, cfg, (k, e)) for k in ("m", "so", "ee") for e in ENDS]
        jobs += [(short, cfg, (a, n)) for a in ("", "m") for n in (10, 20, 28, 30, 41, 50, 62, 70, 190, 193)]
    r.parallel(lambda fn, cfg, x: fn(r, S[cfg], cfg, x), jobs)
    return r.finish(
        "proof", "gated value-flow over LLVM IR with a scripted file of arbitrary characters",
        "the first MW sensor with the requested SVN whose time span holds the epoch is found, with its PRN and channel; without one the answer is not found",
        "constructor and look-up are interpreted on tables given as sequences of lines whose columns are arbitrary characters",
        minimum=150, assumptions=["tables with more records behave like the enumerated ones", "dates are read and compared by ggdatetime, whose order is total"])


def opening(r, s, cfg, x):
    what, k = x
    f = Table()
    t = "%s table, %s %s" % (cfg, what, k)
    if what == "before":
        f.header(before=k).record()
        return accepted(r, s, t, f, 1)
    if what == "drop":
        f.header(drop=k).record()
        return accepted(r, s, t, f, 0)
    if what == "change":
        f.header(change=k).record()
        return accepted(r, s, t, f, f.changed)
    f.header(before=3)
    if what == "nonl":
        f.lines = f.lines[:k + 1]
        return accepted(r, s, t, f, 0, nonl=True)
    f.lines = f.lines[:k]
    accepted(r, s, t, f, 1 if k == 8 else 0)


def build(kinds, end, f=None):
    f = f or Table().header(before=1)
    for k in kinds:
        f.record(dict(a="any", s="slr", M="ml").get(k, "mw"), dict(o="open", e="set", m="any", l="end").get(k, "any"))
    finish(f, end)
    return f


def finish(f, end):
    if end == "empty":
        f.put("")
    elif end == "short":
        f.put("", 9)
    elif end == "part3":
        f.put("PART 3", 20)
    if end not in ("eof", "nonl"):
        # what follows the table is none of its records
        t = f.free(230)
        t[3:8] = chars("  MW ")
        f.lines.append(t)


class Ask:
    def __init__(self, s, st):
        self.svn = sym("wanted", "i", -99999, 99999)
        self.at = s.obj("at", 16)
        self.t = dt_of(s.ip, st, None, None, self.at)
        # (the latest epoch that can be expressed is not asked for)
        self.assume = lt(self.t, mk("dt", "max"))


def lt(x, y):
    return bdd.var(mk("eq", mk("dlt", x, y), 1))


def expected(f, q):
    """[(condition, record)] of what is found, and the condition of an unreadable SVN or date before"""
    rest, found, bad = 1, [], 0
    for t in f.recs:
        ty = bdd.AND(is_val(t[5], ord("M")), is_val(t[6], ord("W"))) if len(t) > 6 else 0
        sv = field(t, "svn")
        ok = readable(t, "svn")
        bad = bdd.OR(bad, bdd.AND(rest, bdd.AND(ty, bdd.NOT(ok))))
        rest = bdd.AND(rest, bdd.NOT(bdd.AND(ty, bdd.NOT(ok))))
        hit = bdd.AND(bdd.AND(rest, ty), cmp_eq0(sub(num("strtol", sv), q.svn)))
        S0, S1 = [S_of(field(t, k)) for k in ("start", "stop")]
        D0, D1 = [mk("dt", "strptime_ymd_hms", x) for x in (S0, S1)]
        blank = 1
        for c in t[62:82]:
            blank = bdd.AND(blank, is_val(c, 32))
        n0, n1 = [bad_date(x) for x in (S0, S1)]
        nodate = bdd.AND(hit, bdd.OR(n0, bdd.AND(bdd.NOT(blank), n1)))
        bad = bdd.OR(bad, nodate)
        rest = bdd.AND(rest, bdd.NOT(nodate))
        hit = bdd.AND(bdd.AND(hit, rest), bdd.AND(bdd.NOT(lt(q.t, D0)), bdd.OR(blank, lt(q.t, D1))))
        found.append((hit, t))
        rest = bdd.AND(rest, bdd.NOT(hit))
    return found, bad, rest


def look(r, s, t, f, o, q, st, n):
    """one look-up; returns the state behind it"""
    ifr, prn = s.obj("ifrq%d" % n, 4), s.obj("prn%d" % n, 4)
    n0 = len(s.ip.log)
    rv, ns, ts = s.run(LOOK, [o, q.svn, q.at, ifr, prn], st)
    sane(r, t, s.ip.log[n0:], None, LOC)
    found, bad, rest = expected(f, q)
    a = bdd.AND(st.pc, bdd.AND(q.assume, f.assume))
    if ns is None:
        r.ob(t + ": returns", False, "it does not", LOC)
        return None
    any_ = 0
    for k, (c, rec) in enumerate(found):
        # unreadable numbers and channels of what is found are not specified
        g = bdd.AND(readable(rec, "prn"), readable(rec, "channel"))
        c = bdd.AND(c, g)
        any_ = bdd.OR(any_, c)
        pc = bdd.AND(a, c)
        if pc == 0:
            continue
        r.cond("%s: record %d, found" % (t, k), bdd.AND(ns.pc, cmp_eq0(rv)), 1, pc, "success", LOC)
        r.same("%s: record %d, number" % (t, k), s.load(ns, prn, 0, 4, "i32"), num("strtol", field(rec, "prn")), bdd.AND(pc, ns.pc), "the number", LOC)
        r.same("%s: record %d, channel" % (t, k), s.load(ns, ifr, 0, 4, "i32"), num("strtol", field(rec, "channel")), bdd.AND(pc, ns.pc), "the channel", LOC)
    r.cond(t + ": not found exactly without a record", bdd.AND(ns.pc, cmp_eq0(add(rv, I(1)))), rest, a, "not found", LOC)
    r.cond(t + ": an unreadable record is an error", bdd.AND(ns.pc, icmp("sle", rv, I(0)).a[0]), 0, bdd.AND(a, bad), "no error", LOC)
    ns.pc = bdd.AND(ns.pc, bdd.AND(a, bdd.OR(rest, any_)))
    return ns


def opened_table(r, s, t, f, nonl):
    o, ns, ts, log = open_table(s, f, nonl)
    if ns is None or ns.pc == 0:
        raise AnchorError("no table can be opened")
    s.ip.canon_conv = f.canon
    return o, ns


def lookup(r, s, cfg, x):
    t = "%s table %s ended by %s" % ((cfg,) + x)
    f = build(*x)
    o, ns = opened_table(r, s, t, f, x[1] == "nonl")
    look(r, s, t, f, o, Ask(s, ns), ns, 0)
    s.ip.canon_conv = None


def again(r, s, cfg, x):
    """a second look-up does not depend on the first one"""
    t = "%s table %s ended by %s" % ((cfg,) + x)
    f = build(*x)
    o, ns = opened_table(r, s, t, f, x[1] == "nonl")
    q = Ask(s, ns)
    q.svn = sym("wanted0", "i", -99999, 99999)
    ns = look(r, s, t + ", first of two", f, o, q, ns, 0)
    if ns is not None and ns.pc:
        look(r, s, t + ", second of two", f, o, Ask(s, ns), ns, 1)
    s.ip.canon_conv = None


def short(r, s, cfg, x):
    """a record that ends early is not completed from elsewhere"""
    a, n = x
    t = "%s table with a record of %d characters behind %s" % (cfg, n, a or "nothing")
    f = Table().header(before=1)
    for k in a:
        f.record("mw", "any")
    f.record("mw", "any", cut=n)
    finish(f, "part3")
    o, ns = opened_table(r, s, t, f, False)
    q = Ask(s, ns)
    if readable(f.recs[-1], "svn"):
        # (a record of the satellite asked for that ends before its channel is not specified)
        f.assume = bdd.AND(f.assume, bdd.NOT(cmp_eq0(sub(num("strtol", field(f.recs[-1], "svn")), q.svn))))
    look(r, s, t, f, o, q, ns, 0)
    s.ip.canon_conv = None


if __name__ == "__main__":
    sys.exit(check())
