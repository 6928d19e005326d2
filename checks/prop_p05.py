"""P05: antenna names keep their fixed-column layout, terminated and within bounds."""
from antlib import *
from ggsa.models import chars_str, str_set

R1 = r"ngpt::ReceiverAntenna::ReceiverAntenna\(char const\*\)"
R2 = r"ngpt::ReceiverAntenna::ReceiverAntenna\(std::__cxx11::basic_string<.*> const&\)"
LOC = "src/antenna.cpp"


def bytes_of(s, st, o, off, n):
    return [s.load(st, ptr(o), off + i, 1, "i8") for i in range(n)]


def safe(r, s, mark, k):
    bad = [e for e in s.ip.log[mark:] if e["kind"] in ("oob", "overlap", "uninit", "badstr")]
    r.ob(k + ": stays within the object and reads only set characters", not bad,
         "; ".join("%s %s" % (e["kind"], e.get("what") or "") for e in bad[:2]), bad[0]["loc"] if bad else LOC)


def check():
    r = Report("P05")
    s = exact(r.session())
    rec = "ngpt::ReceiverAntenna"
    probe = s.out("probe", rec=rec, st=State())
    ob, base = text_base(s, "d_rant_str", probe)
    assert ob == "probe"

    def field(k, got, want, what, upto=None):
        for i, (g, w) in enumerate(zip(got, want)):
            if w is not None:
                r.same("%s: character %d" % (k, i), g, w, 1, what, LOC)
            else:
                r.ob("%s: character %d is set" % (k, i), all(x.op != "undef" for x in leaves(g)), "never written", LOC)

    def want_name(cs):
        n = len(cs)
        w = [cs[i] if i < n else I(32) for i in range(20)]
        if n <= 15:
            w[15] = I(32)
            w[16:20] = [I(ord(c)) for c in "NONE"]
        elif n < 20:
            w[15:20] = [None] * 5
        return w + [I(0)]
    # default
    st = State()
    o = s.out("r0", rec=rec, st=st)
    m = len(s.ip.log)
    _, ns, ts = s.run(D % "d_rant_ctor0", [o], st)
    field("default receiver antenna", bytes_of(s, ns, "r0", base, 21), [I(32)] * 20 + [I(0)], "name")
    safe(r, s, m, "default receiver antenna")
    for n in range(0, 66):
        for kind in ("text", "string"):
            st = State()
            nm = "r%s%d" % (kind, n)
            o = s.out(nm, rec=rec, st=st)
            c, cs = cstring(s, st, nm + ".t", n)
            if kind == "string":
                so = s.out(nm + ".s", 32, st=st)
                str_set(s.ip, st, so, chars_str(cs))
                c = so
            m = len(s.ip.log)
            _, ns, ts = s.run(R1 if kind == "text" else R2, [o, c], st)
            k = "receiver antenna from a %s of %d" % (kind, n)
            field(k, bytes_of(s, ns, nm, base, 21), want_name(cs), "name")
            safe(r, s, m, k)
        # serial
        st = State()
        nm = "s%d" % n
        o = s.out(nm, rec=rec, st=st)
        old = symbytes(s, st, nm, base, 20, nm, 1, 127)
        c, cs = cstring(s, st, nm + ".t", n)
        m = len(s.ip.log)
        _, ns, ts = s.run(r"ngpt::ReceiverAntenna::set_serial_nr\(char const\*\)", [o, c], st)
        k = "serial number of %d" % n
        field(k, bytes_of(s, ns, nm, base, 41), old + [cs[i] if i < n else I(32) for i in range(20)] + [I(0)], "name")
        safe(r, s, m, k)
        # satellite antenna
        for kind, fn in (("constructor", "d_sant_ctor1"), ("set_from_cstr", "d_sant_set")):
            st = State()
            nm = "t%s%d" % (kind, n)
            o = s.out(nm, rec="ngpt::SatelliteAntenna", st=st)
            c, cs = cstring(s, st, nm + ".t", n)
            _, off = text_base(s, "d_sant_str", o)
            m = len(s.ip.log)
            _, ns, ts = s.run(D % fn, [o, c], st)
            k = "satellite antenna %s, text of %d" % (kind, n)
            field(k, bytes_of(s, ns, nm, off, min(n, 20) + 1), cs[:20] + [I(0)], "type")
            safe(r, s, m, k)
    st = State()
    o = s.out("t0", rec="ngpt::SatelliteAntenna", st=st)
    _, ns, ts = s.run(D % "d_sant_ctor0", [o], st)
    field("default satellite antenna", bytes_of(s, ns, "t0", 0, 1), [I(0)], "type")
    # texts of any length: bounds only
    g = r.session()
    for nm, fn, rc in (("ra", R1, rec), ("sn", r"ngpt::ReceiverAntenna::set_serial_nr\(char const\*\)", rec),
                       ("sa", D % "d_sant_ctor1", "ngpt::SatelliteAntenna")):
        st = State()
        o = g.out(nm, rec=rc, st=st)
        p, L = g.line(st, nm + ".text", 1 << 20)
        m = len(g.ip.log)
        g.run(fn, [o, p], st)
        safe(r, g, m, "text of any length (%s)" % fn.split("::")[-1].replace("\\", "")[:30])
    return r.finish(
        "proof", "gated value-flow over LLVM IR, one symbol per character, every text length up to 65",
        "model in columns 1-15, blank, radome in 17-20 (NONE when absent), 20-character serial, NUL at the documented "
        "places, longer texts cut, nothing written outside the object",
        "constructors and setters are reduced to the character stored in every column and compared with the layout; "
        "buffer bounds are additionally decided for texts of unbounded length", minimum=2000,
        assumptions=["texts are 7-bit", "radome columns are unspecified for texts of 16..19 characters"])
