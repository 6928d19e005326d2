"""P21: readers change hands - a moved reader goes on as the original would have, and nothing is released twice."""
from antexlib import *
from ggsa.models import dt_of

NAMES = dict(mobs="ngpt::ObservationRnx", mnav="ngpt::NavigationRnx", msp3="ngpt::Sp3c", matx="ngpt::Antex", mbrn="ngpt::BernSatellit")
HDR = dict(mobs="src/obsrnx.hpp", mnav="src/navrnx.hpp", msp3="src/sp3c.hpp", matx="src/antex.hpp", mbrn="src/bern_utils.hpp")


def h(text, label):
    return text.ljust(60)[:60] + label


OBS = [h("     3.04           OBSERVATION DATA    M", "RINEX VERSION / TYPE"), h("  4595220.0000  2039434.1000  3912625.9000", "APPROX POSITION XYZ"),
       h("G    3 C1C L1C S1C", "SYS / # / OBS TYPES"), h("R    2 C1C L1C", "SYS / # / OBS TYPES"), h("", "END OF HEADER")]


def obs_epoch(minute, vals):
    out = ["> 2020 01 05 00 %02d 00.0000000  0%3d" % (minute, len(vals))]
    for sv, xs in vals:
        out.append(sv + "".join("%14.3f  " % x for x in xs))
    return out


OBS += obs_epoch(0, [("G01", (1.5, 2.5, 3.5)), ("R02", (4.5, 5.5))]) + obs_epoch(1, [("G07", (6.5, 7.5, 8.5))]) + obs_epoch(2, [("R09", (9.5, 1.25)), ("G11", (2.25, 3.25, 4.25))])


def nav_record(prn, minute, base):
    o = ["G%02d 2020 01 05 00 %02d 00" % (prn, minute) + "".join("%19.12E" % (base + k) for k in (1, 2, 3))]
    for i in range(7):
        o.append("    " + "".join("%19.12E" % (base + 10 * i + k) for k in range(2 if i == 6 else 4)))
    return o


NAV = [h("     3.04           N: GNSS NAV DATA    M: MIXED", "RINEX VERSION / TYPE"), h("", "END OF HEADER")] + nav_record(1, 0, 100) + nav_record(7, 10, 200) + nav_record(9, 20, 300)
SP3 = ["#cP2020  1  5  0  0  0.00000000      96 ORBIT IGb14 HLM  IGS", "## 2087      0.00000000   900.00000000 58853 0.0000000000000", "+    2   G01G02", "++         0  0", "++         0  0",
       "%c G  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc", "%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc", "%f  0.0000000  0.000000000  0.00000000000  0.000000000000000",
       "%f  0.0000000  0.000000000  0.00000000000  0.000000000000000", "%i    0    0    0    0      0      0      0      0         0", "%i    0    0    0    0      0      0      0      0         0", "/* comment"]
for m in (0, 15, 30):
    SP3 += ["*  2020  1  5  0 %2d  0.00000000" % m] + ["PG%02d%14.6f%14.6f%14.6f%14.6f" % (sv, m + sv, m + sv + 0.5, m + sv + 1.5, m + sv + 2.5) for sv in (1, 2)]
SP3 += ["EOF"]


def atx_antenna(name, x):
    return [h("", "START OF ANTENNA"), h(name.ljust(20), "TYPE / SERIAL NO"), h("CHAMBER", "METH / BY / # / DATE"), h("     0.0", "DAZI"), h("     0.0  90.0   5.0", "ZEN1 / ZEN2 / DZEN"), h("     1", "# OF FREQUENCIES"),
            h("   G01", "START OF FREQUENCY"), h("%10.2f%10.2f%10.2f" % (x, x + 1, x + 2), "NORTH / EAST / UP"), "   NOAZI" + "%8.2f" % 0.0 * 19, h("   G01", "END OF FREQUENCY"), h("", "END OF ANTENNA")]


ATX = [h("     1.4            M", "ANTEX VERSION / SYST"), h("A", "PCV TYPE / REFANT"), h("", "END OF HEADER")] + atx_antenna("TRM57971.00     NONE", 1.25) + atx_antenna("LEIAR25.R4      LEIT", 5.5)
from prop_p19 import TITLE, PART2, HEAD1, HEAD2


def brn_record(prn, svn, ch):
    t = [" "] * 200
    for c, x in ((0, "%3d" % prn), (5, "MW"), (28, "%4d" % svn), (41, "2010 01 01 00 00 00"), (193, "%4d" % ch)):
        t[c:c + len(x)] = x
    return "".join(t)


BRN = [TITLE, "", PART2, "---", HEAD1, HEAD2, "", brn_record(104, 730, -3), brn_record(107, 731, 5), "", "PART 3"]
FILES = dict(mobs=OBS, mnav=NAV, msp3=SP3, matx=ATX, mbrn=BRN)


def other(kind):
    """another file of the same kind: everything its header tells is different"""
    f = list(FILES[kind])
    if kind == "mobs":
        f[1] = h("  1111111.0000  2222222.0000  3333333.0000", "APPROX POSITION XYZ")
        f[2:4] = [h("made by nobody", "PGM / RUN BY / DATE"), h("G    1 L1C", "SYS / # / OBS TYPES"), h("E    1 C1X", "SYS / # / OBS TYPES")]
        return f[:6] + ["> 2020 01 05 00 00 00.0000000  0  1", "G31" + "%14.3f  " % 77.0]
    if kind == "mnav":
        f[1:1] = [h("made by nobody", "PGM / RUN BY / DATE"), h("and nothing else", "COMMENT")]
    if kind == "msp3":
        f[1] = f[1].replace("  900.0", "  300.0")
        f[2] = "+    1   G09"
        f[12:12] = ["/* a comment", "/* another one"]
        return f[:15] + ["PG09%14.6f%14.6f%14.6f%14.6f" % (1, 2, 3, 4), "EOF"]
    if kind == "matx":
        f[2:2] = [h("nothing in here", "COMMENT")]
        return f[:4] + atx_antenna("ASH700936D_M    SNOW", 9.25)
    if kind == "mbrn":
        f[1:1] = ["a preface", "of two lines"]
        f[9:] = [brn_record(99, 700, 9)]
    return f


SCRIPT = {k: [tuple(chars(t)) for t in f] for k, f in FILES.items()}
OTHER = {k: [tuple(chars(t)) for t in other(k)] for k in FILES}
BEFORE = (0, 1, 2, 4)
HOW = ("constructed", "constructed, the source released last", "assigned over one just opened", "assigned over one in use", "assigned over one at its end")


class Reader:
    """one reader kind: opening it and observing what it delivers"""

    def __init__(self, s, kind):
        self.s, self.kind, self.n = s, kind, 0
        ip = setup(s)
        ip.charwise_max = 256
        ip.script = SCRIPT[kind]
        ip.script_nonl, ip.on_script = False, None

    def open(self, name, st, other=False):
        s = self.s
        s.ip.script = OTHER[self.kind] if other else SCRIPT[self.kind]
        o = s.out(name, rec=NAMES[self.kind], st=st)
        f = s.cstr(st, name + ".fn", "file")
        rv, ns, ts = s.run(NAMES[self.kind] + r"::%s\(char const\*\)" % NAMES[self.kind].split("::")[1], [o, f], st)
        if ns is None or ns.pc == 0:
            raise AnchorError("the %s file cannot be opened" % NAMES[self.kind])
        # (the file is there)
        s.ip.script = SCRIPT[self.kind]
        return o, ns

    def fresh(self, st, what, size):
        self.n += 1
        return self.s.out("%s%d" % (what, self.n), size, st=st)

    def word(self, st, p, size, ty, off=0):
        return self.s.load(st, p, off, size, ty)

    def step(self, o, st, rewind=False):
        return getattr(self, self.kind)(o, st, rewind)

    def go(self, pat, args, st):
        rv, ns, ts = self.s.run(pat, args, st)
        if ns is None:
            raise AnchorError("%s does not return" % pat)
        return rv, ns

    def msp3(self, o, st, rewind):
        s = self.s
        if rewind:
            _, st = self.go(D % "d_sp3_rewind", [o], st)
        t, v, n = self.fresh(st, "t", 16), self.fresh(st, "v", 24), self.fresh(st, "n", 4)
        esz = s.rec_size("ngpt::Sp3EpochSvRecord")
        d = self.fresh(st, "recs", esz * 3)
        st.mem[v.a[0]] = s.ip.content(st, v.a[0]).with_cell(0, 8, d).with_cell(8, 8, ptr(d.a[0], I(esz * 3))).with_cell(16, 8, ptr(d.a[0], I(esz * 3)))
        rv, st = self.go(r"ngpt::Sp3c::get_next_epoch\(.*\)", [o, t, v, n], st)
        out = [("status", rv), ("number of records", self.word(st, n, 4, "i32"))]
        for i in range(2):
            x = ptr(d.a[0], I(esz * i))
            out.append(("satellite of record %d" % i, self.word(st, s.get(D % "d_sp3_prn", [x], st), 4, "i32")))
            out += [("coordinate %d of record %d" % (k, i), self.word(st, s.get(D % "d_sp3_val", [x, I(k)], st), 8, "double")) for k in range(4)]
        out += [(w, s.get(D % f, [o], st)) for w, f in (("number of satellites", "d_sp3_sats"), ("interval", "d_sp3_interval"))]
        return out, st

    def mnav(self, o, st, rewind):
        s = self.s
        if rewind:
            _, st = self.go(r"ngpt::NavigationRnx::rewind\(.*\)", [o] + self.minus1(), st)
        e = self.fresh(st, "e", 4)
        sy, st = self.go(r"ngpt::NavigationRnx::peak_satsys\(int&\)", [o, e], st)
        f = self.fresh(st, "frame", s.rec_size("ngpt::NavDataFrame"))
        _, st = self.go(D % "d_nav_ctor", [f], st)
        rv, st = self.go(r"ngpt::NavigationRnx::read_next_record\(.*\)", [o, f], st)
        out = [("next system", sy), ("status of peeking", self.word(st, e, 4, "i32")), ("status", rv), ("satellite", s.get(D % "d_nav_prn", [f], st))]
        return out + [("field %d" % k, s.get(D % "d_nav_data", [f, I(k)], st)) for k in (0, 3, 17, 28)], st

    def minus1(self):
        f = self.s.fn(r"ngpt::NavigationRnx::rewind\(.*\)")
        return [I(-1)] + [NULL] * (len(f.args) - 2) if len(f.args) > 1 else []

    def mobs(self, o, st, rewind):
        s = self.s
        E = s.satsys()
        if rewind:
            _, st = self.go(D % "d_rnx_rewind", [o], st)
        m, v = self.fresh(st, "cmap", 48), self.fresh(st, "ev", 24)
        _, st = self.go(D % "d_col_init", [m], st)
        _, st = self.go(D % "d_col_put", [m, I(E["gps"]), I(0), I(1), I(1), F(1.0)], st)
        _, st = self.go(D % "d_ev_init", [v, I(3), I(1)], st)
        out = [("approximate coordinate %d" % k, s.get(D % "d_rnx_approx", [o, I(k)], st)) for k in range(3)]
        mx, st = self.go(r"ngpt::ObservationRnx::max_obs\(\) const", [o], st)
        out.append(("largest number of observables", mx))
        n, t, u = self.fresh(st, "n", 4), self.fresh(st, "day", 8), self.fresh(st, "sec", 8)
        rv, st = self.go(r"ngpt::ObservationRnx::read_next_epoch\(.*\)", [o, m, v, n, t, u], st)
        out += [("status", rv), ("number of satellites", self.word(st, n, 4, "i32")), ("seconds", self.word(st, u, 8, "double"))]
        out += [("satellite", s.get(D % "d_sat_prn", [s.get(D % "d_ev_sat", [v, I(0)], st)], st)), ("value", s.get(D % "d_ev_val", [v, I(0), I(0)], st))]
        return out, st

    def matx(self, o, st, rewind):
        s = self.s
        self.n += 1
        out = []
        for name in ("LEIAR25.R4      LEIT", "TRM57971.00     NONE"):
            a = self.fresh(st, "ant", s.rec_size("ngpt::ReceiverAntenna"))
            _, st = self.go(D % "d_rant_ctor1", [a, s.cstr(st, "an%d" % self.n, name)], st)
            l = self.fresh(st, "list", s.rec_size("ngpt::AntennaPcoList"))
            _, st = self.go(D % "d_pcl_init", [l], st)
            rv, st = self.go(RECPCO, [o, a, l] + [I(0)] * (len(s.fn(RECPCO).args) - 3), st)
            out.append((name + ": status", rv))
            out.append((name + ": offsets", s.get(D % "d_pcl_size", [l], st)))
        return out, st

    def mbrn(self, o, st, rewind):
        s = self.s
        out = []
        for svn in (731, 730, 999):
            t = s.obj("at%d" % svn, 16)
            c, p = self.fresh(st, "ch", 4), self.fresh(st, "prn", 4)
            rv, st = self.go(r"ngpt::BernSatellit::get_frequency_channel\(.*\)", [o, I(svn), t, c, p], st)
            out.append(("%d: status" % svn, rv))
            if svn != 999:
                out += [("%d: channel" % svn, self.word(st, c, 4, "i32")), ("%d: number" % svn, self.word(st, p, 4, "i32"))]
        return out, st




def play(R, o, st):
    """what the reader delivers from here on"""
    a, st = R.step(o, st)
    b, st = R.step(o, st)
    c, st = R.step(o, st, True)
    d, st = R.step(o, st)
    return [("%s: %s" % (w, x), y) for w, l in (("next", a), ("second", b), ("after rewinding", c), ("thereafter", d)) for x, y in l], st


def moved(r, s, cfg, kind, before, how):
    t = "%s, %d steps before, %s" % (NAMES[kind].split("::")[1], before, how)
    loc = HDR[kind]
    R = Reader(s, kind)
    mv, asg, dt = [D % ("d_%s_%s" % (kind, x)) for x in ("move", "assign", "dtor")]
    o, st = R.open("o", State())
    for i in range(before):
        _, st = R.step(o, st)
    want, end = play(R, o, st.copy())
    n0 = len(s.ip.log)
    try:
        if how.startswith("constructed"):
            x = s.out("x", rec=NAMES[kind], st=st)
            s.ip.freed = {}
            _, st = R.go(mv, [x, o], st)
        else:
            x, st = R.open("x", st, other=True)
            s.ip.script = OTHER[kind]
            for i in range(0 if "opened" in how else 1 if "use" in how else 4):
                _, st = R.step(x, st)
            s.ip.script = SCRIPT[kind]
            s.ip.freed = {}
            _, st = R.go(asg, [x, o], st)
        if "last" not in how:
            _, st = R.go(dt, [o], st)
            s.ip.freed["o"] = 1
        got, st = play(R, x, st)
        pc = bdd.AND(st.pc, end.pc)
        _, st = R.go(dt, [x], st)
        if "last" in how:
            s.ip.freed["x"] = 1
            _, st = R.go(dt, [o], st)
    finally:
        s.ip.freed = None
    log = s.ip.log[n0:]
    sane(r, t, log, None, loc)
    for e in log:
        if e["kind"] == "doublefree":
            r.ob(t + ": everything is released once", False, "%s is released twice" % e["obj"], e["loc"])
        if e["kind"] == "uaf":
            r.ob(t + ": nothing is used after its release", False, e["what"], e["loc"])
    if pc == 0:
        return r.ob(t + ": goes on as the original", False, "no common execution", loc)
    for (w, a), (_, b) in zip(got, want):
        r.same(t + ": " + w, a, b, pc, w, loc)


def kinds(r, s, cfg, kind):
    """never copied, always movable"""
    rv = s.get(D % ("d_%s_traits" % kind), [], State())
    n = NAMES[kind].split("::")[1]
    ok = rv.op == "int"
    r.ob("%s: cannot be copied" % n, ok and not rv.a[0] & 3, "copies of %s share or duplicate what only one may own" % n, HDR[kind])
    r.ob("%s: can be moved" % n, ok and rv.a[0] & 12 == 12, "%s cannot be moved" % n, HDR[kind])


def check():
    r = Report("P21")
    S = {cfg: r.session(cfg) for cfg in ("prod", "debug")}
    jobs = []
    for cfg in S:
        for k in NAMES:
            jobs.append((kinds, cfg, (k,)))
            jobs += [(moved, cfg, (k, b, w)) for b in BEFORE if b < 3 or k not in ("matx", "mbrn") for w in HOW]
    r.parallel(lambda fn, cfg, a: fn(r, S[cfg], cfg, *a), jobs)
    return r.finish(
        "other", "gated value-flow over LLVM IR with scripted files, ownership tracked, and type traits of the compiled classes",
        "a moved reader delivers what the original would have delivered; readers cannot be copied; nothing is released twice or used after its release",
        "each kind of reader is opened, used, moved and used again; every delivered value is compared with that of the reader that was not moved",
        minimum=150, assumptions=["a stream's move carries file, position and state over and closes the source", "the enumerated histories represent every history"])


if __name__ == "__main__":
    sys.exit(check())
