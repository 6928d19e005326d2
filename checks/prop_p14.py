"""P14: reading the epochs of an observation file."""
from obslib import *
from ggsa.models import bad_date, valid_date
from navlib import LETTER, Ex

NAME = {v: k for k, v in LETTER.items()}
MISSING = F(-999.99)
#   (map: per system the column lists of its observables, kinds of the records that follow, elements of the output)
#   kinds: system letters, ? a letter that is none, . the end of the file
MAPS = {"a": dict(G=[[0]]), "b": dict(G=[[1, 0], [2]], R=[[0]]), "c": dict(E=[[13]], G=[[0], [0, 2]]), "d": dict(G=[[3, 1, 2]]), "e": {}}
CASES = [("a", "", 2), ("a", "G", 2), ("a", "G", 1), ("a", "E", 1), ("a", "GG", 2), ("a", "EG", 1), ("a", "GEG", 2), ("a", "GSG", 3), ("b", "GR", 2), ("b", "RG", 3),
         ("b", "G", 1), ("c", "E", 1), ("c", "EG", 2), ("d", "G", 1), ("e", "GR", 1), ("b", "RJR", 2)]
LONG = [("a", "GGE" * 23, 80), ("a", "G" * 72, 72), ("c", "EG" * 14 + "GSEE", 40)]
BADS = [("a", "?", 2), ("a", "G?", 2), ("a", "?G", 2), ("a", ".", 2), ("a", "G.", 2), ("a", "GG", 1), ("a", "G", 0), ("b", "GRG", 2), ("a", "E?", 1)]


def check():
    r = Report("P14")
    S = {cfg: r.session(cfg) for cfg in ("prod", "debug")}
    jobs = []
    for cfg in S:
        jobs += [(many, cfg, c) for c in (LONG if cfg == "prod" else LONG[2:])]
        jobs += [(epoch, cfg, c) for c in (CASES if cfg == "prod" else CASES[:11])]
        jobs += [(bad, cfg, c) for c in BADS] + [(ends, cfg, None), (fewer, cfg, -1), (raw, cfg, None)]
        jobs += [(prepare, cfg, m) for m in MAPS]
    r.parallel(lambda fn, cfg, x: fn(r, S[cfg], cfg, x), jobs)
    return r.finish(
        "proof", "gated value-flow over LLVM IR with a symbolic input stream",
        "an epoch is read exactly when its lines are valid, every value comes from the columns of its own observables and line, and nothing outside the caller's elements is touched",
        "the reader is interpreted on the object an arbitrary header leads to, with symbolic lines for the enumerated sequences of records, maps and numbers of elements; "
        "acceptance condition, epoch, satellites and every value are compared with the specification as terms",
        minimum=300, assumptions=["the blank test of a field and the trimming of texts are primitives (decided by their own property)", "coefficients and numbers are compared as real expressions"])


def build(s, mp, cap):
    """an opened file, the map and the output vector"""
    E = s.satsys()
    o, lines, ns, ts, log, loc = header(s, "TtE", [14], "G")
    if ns is None:
        raise AnchorError("no header can be opened")
    st = ns.copy()
    m, v = s.out("cmap", 48, st=st), s.out("ev", 24, st=st)
    rv, st, _ = s.run(D % "d_col_init", [m], st)
    for letter, obs in mp.items():
        for i, cols in enumerate(obs):
            for j, c in enumerate(cols):
                rv, st, _ = s.run(D % "d_col_put", [m, I(E[NAME[letter]]), I(i), I(1), I(c), sym("k%s%d%d" % (letter, i, j), "f")], st)
    k = max([len(x) for x in mp.values()] + [0])
    rv, st, _ = s.run(D % "d_ev_init", [v, I(cap), I(k)], st)
    return o, m, v, st


def read(s, o, m, v, st, kinds, n=None, peek=None, valid=None):
    ip = s.ip
    use_blank(s)
    ip.canon_text = field
    ip.UNROLL, ip.data_unroll = 160, 120
    ip.force_unroll = max(24, len(kinds) + 4)
    lines = []

    def on_line(L):
        if L not in lines:
            lines.append(L)
        i = lines.index(L)
        c = read_ok(L)
        if i == 0:
            return bdd.AND(c, is_val(mk("strtol", text(L, 32), I(10)), len(kinds) if n is None else n))
        if i > len(kinds):
            return 0
        k = kinds[i - 1]
        if k == ".":
            return bdd.AND(bdd.var(mk("sym", "rdeof", "b", L, None)), is_val(mk("ch", L, I(0)), 0))
        if k == "?":
            for x in LETTER.values():
                c = bdd.AND(c, bdd.NOT(is_val(mk("ch", L, I(0)), ord(x))))
            return c
        c = bdd.AND(c, is_val(mk("ch", L, I(0)), ord(k)))
        return bdd.AND(c, valid(L, k)) if valid else c
    ip.on_line = on_line
    ip.on_peek = peek
    ip.log_chars = True
    f = s.fn(r"ngpt::ObservationRnx::read_next_epoch\(.*")
    a = [s.out(x, 8, st=st) for x in ("nsat", "mjd", "sod")]
    n0 = len(ip.log)
    pc = st.pc
    rv, ns, ts = s.run(f, [o, m, v] + a, st)
    ip.on_line = ip.on_peek = ip.canon_text = None
    ip.log_chars = False
    ip.force_unroll = 0
    ip.override(r"ngpt::string_is_empty\(char const\*, unsigned long\)", None)
    return rv, ns, ts, ip.log[n0:], lines, "%s:%d" % (f.file, f.line)


def there(p):
    return bdd.NOT(cmp_eq0(sub(p, I(-1))))


def sane(r, t, ts, log, loc):
    own_line(r, t, log)
    no_exception(r, t, ts, log, loc)
    for e in log:
        if e["kind"] in ("oob", "uninit", "nullderef", "null"):
            r.ob(t + ": only initialised memory and elements of the caller are touched", False, e.get("what") or "bad access", e["loc"])


def head(L):
    """(condition, upper condition, day, seconds) of an epoch header"""
    want = is_val(mk("ch", L, I(0)), ord(">"))
    off, ints = I(2), []
    for i in range(5):
        S = mk("S", ("line", L, off, None))
        want = bdd.AND(want, number("strtol", S))
        ints.append(mk("strtol", S, I(10)))
        off = add(off, mk("nconv", "strtol", S))
        want = bdd.AND(want, bdd.NOT(cmp_eq0(mk("ch", L, off))))
        off = add(off, I(1))
    S = mk("S", ("line", L, off, None))
    want = bdd.AND(want, number("strtod", S))
    want = bdd.AND(want, valid_date(*ints[:3]))
    want = bdd.AND(want, number("strtol", text(L, 32)))
    low = bdd.AND(want, icmp("sgt", mk("slen", L), I(34)).a[0])
    C = text(L, 41)
    clk = bdd.OR(icmp("sle", mk("slen", L), I(41)).a[0], bdd.var(mk("sym", "blank", "b", C, I(-1))))
    low = bdd.AND(low, bdd.OR(clk, number("strtod", C)))
    # (the seconds are in front of the number of satellites and of the clock offset)
    for q in (add(I(32), mk("nconv", "strtol", text(L, 32))), add(I(41), mk("nconv", "strtod", C))):
        low = bdd.AND(low, bdd.NOT(cmp_eq0(sub(off, q))))
    sod = (Ex(mk("sitofp", ints[3])) * 60 + Ex(mk("sitofp", ints[4]))) * 60 + Ex(mk("strtod", S))
    return low, want, mk("mjd", *ints[:3]), sod.t


def record(L, obs, letter):
    """(condition, upper condition, prn, values) of a satellite record"""
    P = mk("S", ("line", L, I(1), 2))
    prn = mk("strtol", P, I(10))
    want = bdd.AND(number("strtol", P), bdd.AND(icmp("sge", prn, I(1)).a[0], icmp("sle", prn, I(99)).a[0]))
    low, values, odd = want, [], 0
    for i, cols in enumerate(obs):
        val, gone = F(0.0), 0
        for j, c in enumerate(cols):
            F_ = mk("S", ("field", L, I(3 + 16 * c), WIDTH_OBS))
            miss = bdd.OR(icmp("sle", mk("slen", L), I(3 + 16 * c)).a[0], bdd.var(mk("sym", "blank", "b", F_, None)))
            v = mk("strtod", F_)
            ok = bdd.OR(miss, number("strtod", F_))
            low = bdd.AND(low, ok)
            want = bdd.AND(want, bdd.OR(gone, ok))
            odd = bdd.OR(odd, bdd.AND(bdd.NOT(miss), fcmp("oeq", v, MISSING).a[0]))
            gone = bdd.OR(gone, miss)
            val = (Ex(val) + Ex(sym("k%s%d%d" % (letter, i, j), "f")) * Ex(v)).t
        values.append((gone, val))
    return low, want, prn, values, odd


def epoch(r, s, cfg, x):
    mk_, kinds, cap = x
    mp = MAPS[mk_]
    t = "%s map %s records %s into %d" % (cfg, mk_, kinds or "none", cap)
    o, m, v, st = build(s, mp, cap)
    rv, ns, ts, log, lines, loc = read(s, o, m, v, st, kinds, peek=there)
    sane(r, t, ts, log, loc)
    if not r.ob(t + ": returns", ns is not None and len(lines) == 1 + len(kinds), "%d lines are read, the epoch has %d" % (len(lines), 1 + len(kinds)), loc):
        return
    E = s.satsys()
    ok = bdd.AND(ns.pc, cmp_eq0(rv))
    if not r.ob(t + ": can be read", ok != 0, "such epochs are never accepted", loc):
        return
    low, up, day, sod = head(lines[0])
    recs, odd = [], 0
    for L, k in zip(lines[1:], kinds):
        if k in mp:
            a, b, prn, vals, z = record(L, mp[k], k)
            low, up, odd = bdd.AND(low, a), bdd.AND(up, b), bdd.OR(odd, z)
            recs.append((k, prn, vals))
    base = bdd.AND(ns.pc, bdd.NOT(odd))
    r.cond(t + ": valid epochs are read", bdd.AND(ok, low), bdd.AND(base, low), base, "acceptance", loc)
    r.cond(t + ": only valid epochs are read", bdd.AND(ok, bdd.NOT(up)), 0, base, "acceptance of an invalid epoch", loc)
    r.cond(t + ": the status of everything else is an error", bdd.AND(ns.pc, icmp("slt", rv, I(0)).a[0]), 0, ns.pc, "a negative status", loc)
    ok = bdd.AND(ok, bdd.AND(up, base))
    if not r.ob(t + ": accepted lines are consistent", ok != 0, "no valid epoch", loc):
        return
    r.same(t + ": number of satellites", under(s.load(ns, ptr("nsat"), 0, 4, "i32"), ok), I(len(recs)), ok, "the number of satellites", loc)
    r.same(t + ": day", under(s.load(ns, ptr("mjd"), 0, 8, "i64"), ok), day, ok, "the day", loc)
    r.same(t + ": seconds of day", under(s.load(ns, ptr("sod"), 0, 8, "double"), ok), sod, ok, "the seconds of day", loc)
    for i, (k, prn, vals) in enumerate(recs):
        q = s.get(D % "d_ev_sat", [v, I(i)], ns)
        u = "%s: record %d " % (t, i)
        r.same(u + "system", under(s.get(D % "d_sat_sys", [q], ns), ok), I(E[NAME[k]]), ok, "the system", loc)
        r.same(u + "satellite", under(s.get(D % "d_sat_prn", [q], ns), ok), prn, ok, "the satellite number", loc)
        for j, (gone, val) in enumerate(vals):
            w = s.get(D % "d_ev_val", [v, I(i), I(j)], ns)
            for c, y, nm in ((gone, MISSING, "missing"), (bdd.NOT(gone), val, "present")):
                z = bdd.AND(ok, c)
                if r.ob("%svalue %d can be %s" % (u, j, nm), z != 0, "never", loc):
                    r.same("%svalue %d %s" % (u, j, nm), under(w, z), y, z, "the value", loc)


def many(r, s, cfg, x):
    """long epochs of valid records: every one arrives, in file order"""
    mk_, kinds, cap = x
    mp = MAPS[mk_]
    t = "%s map %s %d valid records into %d" % (cfg, mk_, len(kinds), cap)

    def valid(L, k):
        c = icmp("sgt", mk("slen", L), I(80)).a[0]
        if k in mp:
            a, b, prn, vals, z = record(L, mp[k], k)
            c = bdd.AND(c, bdd.AND(a, bdd.NOT(z)))
            for gone, w in vals:
                c = bdd.AND(c, bdd.NOT(gone))
        return c
    o, m, v, st = build(s, mp, cap)
    rv, ns, ts, log, lines, loc = read(s, o, m, v, st, kinds, peek=there, valid=valid)
    sane(r, t, ts, log, loc)
    if not r.ob(t + ": returns", ns is not None and len(lines) == 1 + len(kinds), "%d lines are read, the epoch has %d" % (len(lines), 1 + len(kinds)), loc):
        return
    low, up, day, sod = head(lines[0])
    r.cond(t + ": is read", cmp_eq0(rv), 1, bdd.AND(ns.pc, low), "acceptance", loc)
    ok = bdd.AND(ns.pc, bdd.AND(low, cmp_eq0(rv)))
    E, i = s.satsys(), 0
    for L, k in zip(lines[1:], kinds):
        if k in mp:
            a, b, prn, vals, z = record(L, mp[k], k)
            q = s.get(D % "d_ev_sat", [v, I(i)], ns)
            u = "%s: element %d " % (t, i)
            r.same(u + "system", under(s.get(D % "d_sat_sys", [q], ns), ok), I(E[NAME[k]]), ok, "the system", loc)
            r.same(u + "satellite", under(s.get(D % "d_sat_prn", [q], ns), ok), prn, ok, "the satellite number", loc)
            for j, (gone, val) in enumerate(vals):
                r.same("%svalue %d" % (u, j), under(s.get(D % "d_ev_val", [v, I(i), I(j)], ns), ok), val, ok, "the value", loc)
            i += 1
    r.same(t + ": number of satellites", under(s.load(ns, ptr("nsat"), 0, 4, "i32"), ok), I(i), ok, "the number of satellites", loc)


def bad(r, s, cfg, x):
    mk_, kinds, cap = x
    t = "%s map %s records %s into %d" % (cfg, mk_, kinds, cap)
    o, m, v, st = build(s, MAPS[mk_], cap)
    rv, ns, ts, log, lines, loc = read(s, o, m, v, st, kinds, peek=there)
    sane(r, t, ts, log, loc)
    if r.ob(t + ": returns", ns is not None, "never returns", loc):
        r.ob(t + ": is an error", bdd.AND(ns.pc, cmp_eq0(rv)) == 0, "status zero", loc)


def fewer(r, s, cfg, n):
    t = "%s a number of %d satellites" % (cfg, n)
    o, m, v, st = build(s, MAPS["a"], 1)
    rv, ns, ts, log, lines, loc = read(s, o, m, v, st, "", n)
    sane(r, t, ts, log, loc)
    if r.ob(t + ": returns", ns is not None and len(lines) == 1, "never returns, or reads records", loc):
        ok = bdd.AND(ns.pc, cmp_eq0(rv))
        r.same(t + ": no satellite", under(s.load(ns, ptr("nsat"), 0, 4, "i32"), ok), I(0), ok, "the number of satellites", loc)


def ends(r, s, cfg, _):
    """the end of the file, or a broken stream, before an epoch header"""
    for end in (1, 0):
        t = "%s %s" % (cfg, "end of file" if end else "broken stream")
        o, m, v, st = build(s, MAPS["a"], 1)
        from ggsa.models import stream, sset, sget, FAIL, EOF
        nm = [n for n in st.mem if n.startswith("stream:")][0]
        ip = s.ip
        if not end:
            sset(ip, st, nm, FAIL, 1)
            sset(ip, st, nm, EOF, 0)
        rv, ns, ts, log, lines, loc = read(s, o, m, v, st, "", 0, peek=lambda p: cmp_eq0(sub(p, I(-1))))
        sane(r, t, ts, log, loc)
        if not r.ob(t + ": returns", ns is not None, "never returns", loc):
            continue
        if end:
            r.same(t + ": status", rv, I(-1), ns.pc, "the status", loc)
            r.cond(t + ": the file stays usable", bdd.AND(ns.pc, bdd.OR(sget(ip, ns, nm, FAIL), sget(ip, ns, nm, EOF))), 0, 1, "an unusable stream", loc)
        else:
            r.cond(t + ": an error", icmp("sgt", rv, I(0)).a[0], 1, ns.pc, "an error", loc)


def prepare(r, s, cfg, name):
    mp = MAPS[name]
    t = "%s map %s: output vector" % (cfg, name)
    o, m, v, st = build(s, mp, 0)
    out = s.out("fresh", 24, st=st)
    f = s.fn(r"ngpt::ObservationRnx::initialize_epoch_vector\(.*")
    loc = "%s:%d" % (f.file, f.line)
    s.ip.UNROLL = s.ip.data_unroll = s.ip.force_unroll = 200
    n0 = len(s.ip.log)
    rv, ns, ts = s.run(f, [out, o, m], st)
    s.ip.force_unroll = 0
    sane(r, t, ts, s.ip.log[n0:], loc)
    if not r.ob(t + ": returned", ns is not None, "never returns", loc):
        return
    n = s.get(D % "d_ev_size", [out], ns)
    if r.ob(t + ": has elements", n.op == "int" and n.a[0] > 0, "no elements", loc):
        k = max([len(x) for x in mp.values()] + [0])
        for i in {0, 1, n.a[0] - 1}:
            r.same("%s: values of element %d" % (t, i), s.get(D % "d_ev_vals", [out, I(i)], ns), I(k), ns.pc, "the number of values", loc)


def raw(r, s, cfg, _):
    """one observation: 14 columns of value, then the digits of the loss of lock and signal strength indicators"""
    t = cfg + " single observation"
    ip = s.ip
    use_blank(s)
    ip.canon_text = field
    st = State()
    p = s.line(st, "obs", 17, "obs")[0]
    L = st.mem["obs"].base[1]
    st.pc = icmp("sgt", mk("slen", L), I(15)).a[0]
    a = [s.out(x, 8, st=st) for x in ("v", "l", "q")]
    n0 = len(ip.log)
    rv, ns, ts = s.run(D % "d_raw_obs", [p] + a, st)
    ip.canon_text = None
    ip.override(r"ngpt::string_is_empty\(char const\*, unsigned long\)", None)
    f = s.fn(r"ngpt::RawRnxObs__::resolve\(.*")
    loc = "%s:%d" % (f.file, f.line)
    no_exception(r, t, ts, ip.log[n0:], loc)
    for e in ip.log[n0:]:
        if e["kind"] in ("oob", "uninit", "nullderef", "null"):
            r.ob(t + ": only its characters are touched", False, e.get("what") or "bad access", e["loc"])
    F_ = mk("S", ("field", L, I(0), WIDTH_OBS))
    blank, ok = bdd.var(mk("sym", "blank", "b", F_, None)), number("strtod", F_)
    r.cond(t + ": accepted exactly when blank or a number", cmp_eq0(rv), bdd.OR(blank, ok), ns.pc, "acceptance", loc)
    v = s.load(ns, a[0], 0, 8, "double")
    z = bdd.AND(ns.pc, blank)
    r.same(t + ": blank value", under(v, z), MISSING, z, "the value", loc)
    z = bdd.AND(ns.pc, bdd.AND(bdd.NOT(blank), ok))
    r.same(t + ": value", under(v, z), mk("strtod", F_), z, "the value", loc)
    for q, col, nm in ((a[1], 14, "loss of lock"), (a[2], 15, "signal strength")):
        x = s.load(ns, q, 0, 4, "i32")
        c = mk("ch", L, I(col))
        for y, w, k in ((assume(z, is_val(c, 32)), I(0), "blank"), (assume(z, bdd.NOT(is_val(c, 32))), sub(c, I(48)), "digit")):
            r.same("%s: %s %s" % (t, nm, k), under(x, y), w, y, "the indicator", loc)


if __name__ == "__main__":
    sys.exit(check())
