"""P23: attributes of navigation messages, accuracy of GPS messages, two-digit years, constants of the systems."""
from navlib import *

HDR = "src/navrnx.hpp"
SNAP = ["data(%d)" % i for i in range(31)] + ["system", "number", "toc day", "toc second", "toe day", "toe second"]


def snap(s, fr, st):
    """everything a message tells, through its read-only accessors"""
    out = [s.get(D % "d_nav_data", [fr.p, I(i)], st) for i in range(31)]
    out += [s.get(D % "d_nav_sys", [fr.p], st), s.get(D % "d_nav_prn", [fr.p], st)]
    for w in ("toc", "toe"):
        out += list(fr.date(st, w))[:2]
    return out


def unchanged(r, s, k, fr, st, before, but):
    for n, a, b in zip(SNAP, before, snap(s, fr, st)):
        if n not in but:
            r.same("%s leaves %s" % (k, n), b, a, 1, n, HDR)


def attributes(r, s, cfg, E):
    st = State()
    fr = Frame(s, st, "frame")
    base = snap(s, fr, st)
    seen = {}
    for n, v in zip(SNAP, base):
        seen.setdefault(v, []).append(n)
    for v, ns in seen.items():
        r.ob("%s message: attributes are kept apart: %s" % (cfg, ns[0]), len(ns) == 1, "%s are the same value" % ", ".join(ns), HDR)
    # references
    for i in range(31):
        n = st.copy()
        p = s.get(D % "d_nav_datar", [fr.p, I(i)], n)
        v = sym("new%d" % i, "f")
        s.ip.state = n
        s.ip.store(n, None, None, p, 8, v)
        k = "%s message: changing field %d" % (cfg, i)
        r.same(k, s.get(D % "d_nav_data", [fr.p, I(i)], n), v, 1, "the field", HDR)
        unchanged(r, s, k, fr, n, base, ("data(%d)" % i,))
    for acc, get, sz, what, v in (("d_nav_sysr", "d_nav_sys", 1, "system", sym("newsys", "i", 0, 7)), ("d_nav_prnr", "d_nav_prn", 4, "number", sym("newprn", "i", 0, 999))):
        n = st.copy()
        p = s.get(D % acc, [fr.p], n)
        s.ip.state = n
        s.ip.store(n, None, None, p, sz, v)
        k = "%s message: changing the %s" % (cfg, what)
        r.same(k, s.get(D % get, [fr.p], n), v, 1, what, HDR)
        unchanged(r, s, k, fr, n, base, (what,))
    # dates
    n = st.copy()
    f = s.fn(D % "d_nav_settoc")
    d = s.obj("newtoc", 16)
    day, sec = s.load(n, d, 0, 8, "i64"), s.load(n, d, 8, 8, "i64")
    args = [day, sec] if len(f.args) == 3 else [d]
    rv, n, ts = s.run(f, [fr.p] + args, n)
    k = "%s message: changing the clock epoch" % cfg
    got = list(fr.date(n, "toc"))[:2]
    for w, a, b in zip(("day", "second"), got, (day, sec)):
        r.same("%s: %s" % (k, w), a, b, 1, "the " + w, HDR)
    unchanged(r, s, k, fr, n, base, ("toc day", "toc second"))
    a, b = date_of(s, s.fn(D % "d_nav_toc"), [fr.p], st)[:2], list(fr.date(st, "toc"))[:2]
    for w, x, y in zip(("day", "second"), a, b):
        r.same("%s message: clock epoch, %s" % (cfg, w), x, y, 1, "the " + w, HDR)
    # a new message
    n = State()
    m = Frame(s, n, "fresh")
    s.ip.state = n
    rv, n, ts = s.run(D % "d_nav_ctor", [m.p], n)
    for w, v in list(zip(SNAP, snap(s, m, n)))[:33]:
        if w != "system":
            r.same("%s new message: %s" % (cfg, w), v, F(0.0) if w.startswith("data") else I(0), 1, w, HDR)


def ura(r, s, cfg, E):
    f = s.fn(r"ngpt::NavDataFrame::gps_ura\(\) const")
    loc = "%s:%d" % (f.file, f.line)
    want = {0: 2.0, 1: 2.8, 2: 4.0, 3: 5.7, 4: 8.0, 5: 11.3, 6: 16.0}
    want.update({n: float(2 ** (n - 2)) for n in range(7, 15)})
    for n in range(0, 16):
        st = State()
        fr = Frame(s, st, "frame%d" % n, I(E["gps"]))
        fr.put(st, fr.off_data + 8 * 23, 8, F(float(n)))
        rv, ns, ts = s.run(f, [fr.p], st)
        k = "%s GPS accuracy for index %d" % (cfg, n)
        while rv is not None and rv.op in ("fptrunc", "fpext"):
            rv = rv.a[0]
        if rv is None:
            r.ob(k, False, "the function does not return", loc)
        elif rv.op != "flt":
            r.error("%s: the analysis could not interpret %s" % (k, cut(show(rv))))
        else:
            w = want.get(n, 3.4028234663852886e38)
            r.ob(k, abs(rv.a[0] - w) <= 1e-6 * w, "accuracy for index %d is %r m, specified %r m" % (n, rv.a[0], w), loc)


def years(r, s, cfg, E):
    f = s.fn(r"ngpt::rinex::four2two_digit_year\(int\)")
    loc = "%s:%d" % (f.file, f.line)
    y = sym("y", "i", 0, 99)
    rv = s.get(f, [y], State())
    lo = icmp("sle", y, I(79)).a[0]
    r.same("%s two-digit years up to 79" % cfg, rv, add(y, I(2000)), lo, "the year", loc)
    r.same("%s two-digit years from 80" % cfg, rv, add(y, I(1900)), bdd.NOT(lo), "the year", loc)


def constants(r, s, cfg, E):
    CLIGHT = 299792458.0
    for n, mu, om, fc in (("gps", 3.986005e14, 7.2921151467e-5, -4.442807633e-10), ("galileo", 3.986004418e14, 7.2921151467e-5, -4.442807309e-10),
                          ("beidou", 3.986004418e14, 7.2921150e-5, -2.0 * 3.986004418e14 ** 0.5 / CLIGHT ** 2)):
        for c, w in (("mi", mu), ("omegae_dot", om), ("f_clock", fc)):
            f = s.fn(r"ngpt::satellite_system_traits<\(ngpt::SATELLITE_SYSTEM\)%d>::%s\(\)" % (E[n], c))
            v = s.get(f, [], State())
            k = "%s %s %s" % (cfg, n, c)
            if v.op != "flt":
                r.error("%s: the analysis could not interpret %s" % (k, cut(show(v))))
            else:
                r.ob(k, abs(v.a[0] - w) <= 1e-13 * abs(w), "%s of %s is %r, specified %r" % (c, n, v.a[0], w), "%s:%d" % (f.file, f.line))


def check():
    r = Report("P23")
    for cfg in ("prod", "debug"):
        s = r.session(cfg)
        E = s.satsys()
        for fn in (attributes, ura, years, constants):
            fn(r, s, cfg, E)
    return r.finish(
        "proof", "abstract interpretation of the accessors and small functions with arbitrary contents",
        "every attribute is returned as it was set, and setting one changes no other; accuracies, years and constants have the specified values",
        "every attribute and every accuracy index in both configurations", minimum=1000)


if __name__ == "__main__":
    sys.exit(check())
