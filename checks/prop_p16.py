"""P16: antenna files - opening, receiver antennas and their phase centre offsets."""
from antexlib import *

# what a line of an antenna says about the requested one:
#   E model, radome and serial are the requested ones    M model and radome, no serial    m model and radome, another serial
#   X another model or radome, same serial               f arbitrary other columns (not E, M)
#   s model and radome, a serial of one character in any of its columns
#   m and X differ from the request in a single column only, a different one in each antenna
SEARCH = ["", "X", "E", "M", "m", "f", "XE", "XM", "ME", "mE", "MX", "Xm", "mM", "MmX", "XXE", "XmME", "mXM", "XmmXXmE", "mmmmmX", "XXXXXXM", "s", "Xs", "sssssM", "Ms", "sE"]
NOSERIAL = ["", "X", "M", "m", "f", "XM", "mM", "mX", "XXM", "XXXXXXX", "s", "Xs", "Mssss"]
DIFF = dict(X=(19, 0, 15, 7, 16, 14, 3), m=(0, 19, 6, 11, 5), s=(19, 18, 5, 0, 12))


def check():
    r = Report("P16")
    S = {cfg: r.session(cfg) for cfg in ("prod", "debug")}
    jobs = []
    for cfg in S:
        full = cfg == "prod"
        jobs += [(opening, cfg, None), (endless, cfg, None), (unopened, cfg, None)]
        jobs += [(search, cfg, (k, 1, m)) for k in (SEARCH if full else SEARCH[:7]) for m in ((0, 1) if "E" not in k or full else (0,))]
        jobs += [(search, cfg, (k, 0, 0)) for k in (NOSERIAL if full else NOSERIAL[1:4])]
        jobs += [(search, cfg, ("XE", n, 0)) for n in (2, 3, 4)] + [(search, cfg, ("XM", n, 0)) for n in (2, 3, 4)] + [(search, cfg, ("XmE", 4, 1)), (search, cfg, ("mM", 4, 0))]
        jobs += [(offsets, cfg, x) for x in OFFSETS]
        jobs += [(broken, cfg, x) for x in BROKEN]
        jobs += [(again, cfg, x) for x in ("EX", "XE", "xE", "ME", "Ec", "Ed")] + [(another, cfg, None)]
    r.parallel(lambda fn, cfg, x: fn(r, S[cfg], cfg, x), jobs)
    return r.finish(
        "proof", "gated value-flow over LLVM IR with a scripted file of arbitrary characters",
        "an antenna file is opened exactly when its header is valid; a receiver antenna is found exactly when the file holds it, and its offsets are those of its own block",
        "constructor and look-up are interpreted on files given as sequences of labelled lines whose other columns are arbitrary characters",
        minimum=200, assumptions=["files with more antennas, frequencies or optional lines behave like the enumerated ones"])


def opening(r, s, cfg, x):
    f0 = s.fn(CTOR)
    loc = "src/antex.cpp"
    for v, ok in (("     1.4", 1), ("     1.3", 1), ("1.40", 1), ("     1.2", 0), ("     1.5", 0), ("     2.0", 0), ("", 0), ("abc", 0), ("    14", 0), ("    -1.4", 0)):
        for extra in (0, 3, 700) if v == "     1.4" else (0,):
            f = File()
            c, k = f.free(1), f.free(1)
            f.header(v, c, k, extra)
            n0 = len(s.ip.log)
            o, (rv, ns, ts) = open_file(s, f)
            t = "%s version '%s' with %d more header lines" % (cfg, v, extra)
            log = s.ip.log[n0:]
            sane(r, t, log, None, loc)
            want = bdd.AND(system_of(s, c[0])[1], is_val(k[0], 65)) if ok else 0
            op = [e["ok"] for e in log if e["kind"] == "open"]
            if r.ob(t + ": the file is opened", len(op) >= 1, "the constructor opens no file", loc):
                want = bdd.AND(want, op[-1])
            r.cond(t + ": opened exactly when valid", ns.pc if ns is not None else 0, want, 1, "acceptance", loc)
            r.cond(t + ": an exception otherwise", ts.pc if ts is not None else 0, bdd.NOT(want), 1, "rejection", loc)
    # a first line that ends early has no system
    f = File()
    f.short(12, [(0, chars("     1.4" + " " * 4))])
    f.line("PCV TYPE / REFANT", [(0, "A")])
    f.line("END OF HEADER")
    n0 = len(s.ip.log)
    o, (rv, ns, ts) = open_file(s, f)
    sane(r, cfg + " short first line", s.ip.log[n0:], None, loc)
    r.cond(cfg + " short first line: refused", ns.pc if ns is not None else 0, 0, 1, "acceptance", loc)


def endless(r, s, cfg, x):
    """a header without an end: refused in bounded time"""
    f = File()
    f.header(extra=2, eoh=False)
    ip = setup(s)
    n0 = len(ip.log)
    f.use(ip)
    st = State()
    o = s.out("atx", rec="ngpt::Antex", st=st)
    name = s.cstr(st, "name", "igs.atx")
    rv, ns, ts = s.run(CTOR, [o, name], st)
    sane(r, cfg + " header without an end", ip.log[n0:], None, "src/antex.cpp")
    r.cond(cfg + " header without an end: refused", ns.pc if ns is not None else 0, 0, 1, "acceptance", "src/antex.cpp")
    r.cond(cfg + " header without an end: an exception", ts.pc if ts is not None else 0, 1, 1, "rejection", "src/antex.cpp")


def unopened(r, s, cfg, x):
    """an object tied to no file finds nothing"""
    t = cfg + " no file"
    st = State()
    setup(s)
    f = File()
    f.use(s.ip)
    want, a, z, st = request(s, st, 1)
    o = s.out("atx", rec="ngpt::Antex", st=st)
    rv, st, ts = s.run(D % "d_antex_ctor", [o], st)
    l, rv, ns, lay, loc = run_lookup(r, s, t, o, want, 0, st)
    if ns is not None:
        r.cond(t + ": not found", cmp_eq0(rv), 0, ns.pc, "success", loc)
        r.same(t + ": no offsets", s.get(D % "d_pcl_size", [l], ns), I(0), ns.pc, "the number of offsets", loc)


def request(s, st, serial):
    """the requested antenna: its 40 columns. serial: 1 of 20 characters, 0 none, 2 of 7 characters, 3 radome missing, 4 one character in the last column"""
    o = s.out("want", rec="ngpt::ReceiverAntenna", st=st)
    a = [sym("model[%d]" % i, "i", 1, 126) for i in range(11 if serial == 3 else 20)]
    s.ip.objs["wantname"] = dict(size=len(a) + 1, kind="ext", name="wantname")
    c = Content(("uninit",))
    for i, x in enumerate(a + [I(0)]):
        c = c.with_cell(i, 1, x)
    st.mem["wantname"] = c
    rv, st, ts = s.run(D % "d_rant_ctor1", [o, ptr("wantname")], st)
    if serial == 3:
        a = a + [I(32)] * 5 + chars("NONE")
    z = []
    if serial:
        z = [sym("serial[%d]" % i, "i", 1, 126) for i in range(7 if serial == 2 else 20)]
        if serial == 4:
            z[:19] = [I(32)] * 19
            st.pc = bdd.AND(st.pc, bdd.NOT(is_val(z[19], 32)))
        else:
            z[4] = I(ord("Q"))
        s.ip.objs["wantserial"] = dict(size=len(z) + 1, kind="ext", name="wantserial")
        c = Content(("uninit",))
        for i, x in enumerate(z + [I(0)]):
            c = c.with_cell(i, 1, x)
        st.mem["wantserial"] = c
        rv, st, ts = s.run(r"ngpt::ReceiverAntenna::set_serial_nr\(char const\*\)", [o, ptr("wantserial")], st)
        z = z + [I(32)] * (20 - len(z))
    return o, a, z, st


def other(t, k):
    """t with another character in column k"""
    t = list(t)
    t[k] = add(t[k], I(1)) if t[k].op == "sym" else I(t[k].a[0] + 1)
    return t


def antenna(f, kind, a, z, n=0):
    """the first two lines of an antenna"""
    f.line("START OF ANTENNA")
    k = DIFF[kind][n % len(DIFF[kind])] if kind in DIFF else 0
    if kind == "E":
        f.line("TYPE / SERIAL NO", [(0, a), (20, z)])
    elif kind == "M":
        f.line("TYPE / SERIAL NO", [(0, a), (20, " " * 20)])
    elif kind == "m":
        f.line("TYPE / SERIAL NO", [(0, a), (20, other(z or chars("%20d" % n), k))])
    elif kind == "s":
        f.line("TYPE / SERIAL NO", [(0, a), (20, " " * k + "7" + " " * (19 - k))])
    elif kind == "X":
        f.line("TYPE / SERIAL NO", [(0, other(a, k)), (20, z or " " * 20)])
    else:
        b = f.free(40)
        f.line("TYPE / SERIAL NO", [(0, b)], when=differ(a, b[:20]))


def run_lookup(r, s, t, o, want, must, ns):
    lay = pco_layout(s)
    l, st = old_list(s, ns.copy())
    n0 = len(s.ip.log)
    f = s.fn(RECPCO)
    loc = "%s:%d" % (f.file, f.line)
    rv, ns, ts = s.run(f, [o, want, l, I(must)], st)
    sane(r, t, s.ip.log[n0:], ts, loc)
    returns(r, s, t, st, ns, loc)
    return l, rv, ns, lay, loc


def search(r, s, cfg, x):
    kinds, serial, must = x
    t = "%s antennas %s wanted%s%s" % (cfg, kinds or "none", {0: " without serial", 1: "", 2: " short serial", 3: " without radome", 4: " one-character serial"}[serial], " exactly" if must else "")
    st = State()
    setup(s)
    want, a, z, st = request(s, st, serial)
    f = File()
    f.header()
    bodies = []
    for i, k in enumerate(kinds):
        antenna(f, k, a, z, i)
        # (one long antenna to be passed over: a grid of azimuths for many frequencies)
        big = k in "Xm" and i == len(kinds) - 2
        bodies.append(block_body(f, 16, grid=74, width=336)[0] if big else block_body(f, 1 + i % 2)[0])
    o, (rv, ns, ts) = open_file(s, f)
    if ns is None or ns.pc == 0:
        raise AnchorError("no file can be opened")
    ns.mem.update({k: v for k, v in st.mem.items() if k not in ns.mem})
    ns.pc = bdd.AND(ns.pc, st.pc)
    l, rv, ns, lay, loc = run_lookup(r, s, t, o, want, must, ns)
    exact = kinds.find("E")
    model = kinds.find("M")
    hit = exact if exact >= 0 else model
    w = 1 if hit < 0 else 10 if exact < 0 and must else 0
    ok = 1
    fr = bodies[hit] if hit >= 0 else []
    for q in fr:
        ok = bdd.AND(ok, freq_ok(s, q))
    result(r, s, t, rv, ns, l, w, fr, ok, lay, loc)


#   (number of frequencies, optional lines, frequencies followed by an RMS block, grid lines, short grid lines)
OFFSETS = [(1, (), (), 0, 0), (2, ("COMMENT",) * 40, (), 75, 336), (2, (), (0,), 75, 160), (2, ("COMMENT",), (), 1, 0), (3, ("VALID FROM", "SINEX CODE", ""), (), 2, 1), (2, (), (0,), 1, 0), (2, (), (0, 1), 1, 1),
           (3, ("",), (1,), 1, 1), (3, (), (0, 1), 2, 0), (0, (), (), 0, 0)]


def prepared(s, extra=None):
    st = State()
    setup(s)
    want, a, z, st = request(s, st, 1)
    f = File()
    f.header()
    return want, a, z, st, f


def offsets(r, s, cfg, x):
    nf_, opt, rms, grid, short = x
    t = "%s %d frequencies, %d optional lines, RMS behind %s, %d %sgrid lines" % (cfg, nf_, len(opt), list(rms), grid, {0: "", 1: "short "}.get(short, "long "))
    want, a, z, st, f = prepared(s)
    antenna(f, "E", a, z)
    fr, _ = block_body(f, nf_, optional=opt, rms=rms, grid=grid, short=short == 1, width=max(short, 90))
    antenna(f, "X", a, z)
    block_body(f, 1)
    o, ns = opened(s, f, st)
    l, rv, ns, lay, loc = run_lookup(r, s, t, o, want, 0, ns)
    ok = 1
    for q in fr:
        ok = bdd.AND(ok, freq_ok(s, q))
    result(r, s, t, rv, ns, l, 0, fr, ok, lay, loc)


#   (what is wrong, status when it is promised)
BROKEN = ["nofirst", "notype", "METH / BY / # / DATE", "DAZI", "ZEN1 / ZEN2 / DZEN", "# OF FREQUENCIES", "START OF FREQUENCY", "NORTH / EAST / UP",
          "END OF FREQUENCY", "count", "more", "cut", "cutX", "nonl"]


def broken(r, s, cfg, what):
    t = "%s damaged file: %s" % (cfg, what)
    want, a, z, st, f = prepared(s)
    if what == "nofirst":
        f.line("COMMENT")
    if what in ("cutX",):
        antenna(f, "M", a, z)
        block_body(f, 1)
        antenna(f, "X", a, z)
        block_body(f, 1, drop="END OF ANTENNA")
    else:
        f.line("START OF ANTENNA")
        if what == "notype":
            f.line("COMMENT")
        f.line("TYPE / SERIAL NO", [(0, a), (20, z)])
        if what == "cut":
            f.line("METH / BY / # / DATE")
        elif what == "count":
            f.line("METH / BY / # / DATE"), f.line("DAZI"), f.line("ZEN1 / ZEN2 / DZEN")
            c = f.free(6)
            f.line("# OF FREQUENCIES", [(0, c)], when=bdd.NOT(number("strtol", c)))
        elif what == "more":
            block_body(f, 2, count=3)
        elif what == "nonl":
            fr = block_body(f, 2)[0]
        else:
            block_body(f, 2, drop=what)
    o, ns = opened(s, f, st, what == "nonl")
    l, rv, ns, lay, loc = run_lookup(r, s, t, o, want, 0, ns)
    if ns is None:
        return
    if what == "nonl":
        ok = bdd.AND(freq_ok(s, fr[0]), freq_ok(s, fr[1]))
        result(r, s, t, rv, ns, l, 0, fr, ok, lay, loc)
    else:
        r.cond(t + ": refused", cmp_eq0(rv), 0, ns.pc, "success", loc)


def again(r, s, cfg, kinds):
    """a second look-up with the same object, behind one that found nothing, something or another antenna"""
    t = "%s second look-up, antennas %s" % (cfg, kinds)
    want, a, z, st, f = prepared(s)
    b = [sym("other[%d]" % i, "i", 1, 126) for i in range(20)]
    other = s.out("otherant", rec="ngpt::ReceiverAntenna", st=st)
    s.ip.objs["othername"] = dict(size=21, kind="ext", name="othername")
    c = Content(("uninit",))
    for i, y in enumerate(b + [I(0)]):
        c = c.with_cell(i, 1, y)
    st.mem["othername"] = c
    rv, st, ts = s.run(D % "d_rant_ctor1", [other, ptr("othername")], st)
    st.pc = bdd.AND(st.pc, differ(a, b))
    bodies = []
    other_name = lambda b: [add(b[0], I(1))] + b[1:]
    for k in kinds:
        # X: what the first look-up asks for (x: not even that; c, d: X or x, where the file ends)
        if k in "cd":
            f.line("START OF ANTENNA")
            f.line("TYPE / SERIAL NO", [(0, b if k == "c" else other_name(b)), (20, " " * 20)])
            f.line("METH / BY / # / DATE")
            continue
        elif k == "X":
            f.line("START OF ANTENNA")
            f.line("TYPE / SERIAL NO", [(0, b), (20, " " * 20)])
        elif k == "x":
            f.line("START OF ANTENNA")
            y = f.free(20)
            f.line("TYPE / SERIAL NO", [(0, y), (20, " " * 20)], when=bdd.AND(differ(y, b), differ(y, a)))
        else:
            antenna(f, k, a, z)
        bodies.append(block_body(f, 1)[0])
    o, ns = opened(s, f, st)
    lst = s.out("firstlist", rec="ngpt::AntennaPcoList", st=ns)
    rv, ns, ts = s.run(D % "d_pcl_init", [lst], ns)
    rv, ns, ts = s.run(RECPCO, [o, other, lst, I(0)], ns)
    if ns is None or ns.pc == 0:
        r.ob(t + ": the first look-up returns", False, "it does not", "src/antex.cpp")
        return
    l, rv, ns, lay, loc = run_lookup(r, s, t, o, want, 0, ns)
    fr = bodies[kinds.index("E")]
    result(r, s, t, rv, ns, l, 0, fr, freq_ok(s, fr[0]), lay, loc)


def another(r, s, cfg, x):
    """the object is tied to another file behind a look-up that reached the end of the first"""
    t = "%s tied to another file" % cfg
    want, a, z, st, f = prepared(s)
    antenna(f, "X", a, z)
    block_body(f, 1)
    o, ns = opened(s, f, st)
    lst = s.out("firstlist", rec="ngpt::AntennaPcoList", st=ns)
    rv, ns, ts = s.run(D % "d_pcl_init", [lst], ns)
    rv, ns, ts = s.run(RECPCO, [o, want, lst, I(0)], ns)
    g = File()
    g.n = f.n
    g.header(extra=2)
    antenna(g, "m", a, z, 1)
    block_body(g, 2, grid=1)
    antenna(g, "E", a, z)
    fr = block_body(g, 2)[0]
    g.use(s.ip)
    if ns is None or ns.pc == 0:
        raise AnchorError("no first look-up")
    pc = ns.pc
    name = s.cstr(ns, "name2", "new.atx")
    n0 = len(s.ip.log)
    rv, ns, ts = s.run(r"ngpt::Antex::reset_to_file\(char const\*\)", [o, name], ns)
    log = s.ip.log[n0:]
    sane(r, t, log, None, "src/antex.cpp")
    op = [e["ok"] for e in log if e["kind"] == "open"]
    if not r.ob(t + ": the file is opened", len(op) >= 1, "no file is opened", "src/antex.cpp"):
        return
    r.cond(t + ": accepted", ns.pc if ns is not None else 0, bdd.AND(pc, op[-1]), 1, "acceptance", "src/antex.cpp")
    if ns is None or ns.pc == 0:
        return
    l, rv, ns, lay, loc = run_lookup(r, s, t, o, want, 0, ns)
    result(r, s, t, rv, ns, l, 0, fr, bdd.AND(freq_ok(s, fr[0]), freq_ok(s, fr[1])), lay, loc)


if __name__ == "__main__":
    sys.exit(check())
