"""P13: opening an observation file and mapping requested observables to its columns."""
from obslib import *
from ggsa.models import bad_date, valid_date

HEADS = [("E", [], ""), ("PE", [], ""), ("FE", [], ""), ("PTFE", [2], "E"), ("cTE", [12], "G"), ("TcE", [13], "C"),
         ("TtE", [14], "G"), ("TtcE", [26], "R"), ("TttE", [27], "E"), ("TTE", [2, 3], "GR"), ("TtTE", [14, 1], "RG"), ("TTPTE", [1, 2, 1], "SJI"),
         ("MnRAPDcFTE", [3], "G")] + [("TE", [1], x) for x in "GRSECJIM"]
BAD = [("TE", [0], "G"), ("TE", [-2], "G"), ("TTE", [2, 3], "GG"), ("TE", [2], "?"), ("TcE", [14], "G"), ("TtE", [27], "G")]
#   requests: per system a list of observables, each a string of parts: a digit is the (first) column of the part's code in the header,
#   - a code the header lacks, capital letters change the system of one part
REQ = [("G", [2], "G", ["0", "1"]), ("G", [3], "G", ["21", "0"]), ("G", [3], "G", ["-", "1"]), ("G", [3], "G", ["1", "-"]), ("G", [3], "G", ["2-", "02", "1"]),
       ("G", [2], "G", ["-"]), ("G", [2], "G", ["-", "-"]), ("GR", [2, 3], "GR", ["01", "1"], ["2", "10"]), ("GR", [2, 3], "GR", ["-"], ["2"]), ("G", [2], "GR", ["1"], ["0"]),
       ("GR", [2, 2], "G", ["0R0"]), ("GR", [2, 2], "G", ["R0"]), ("ER", [1, 1], "RE", ["0"], ["0"]), ("G", [2], "R", ["0"]), ("G", [2], "", []), ("CG", [2, 2], "G", ["011"])]


def check():
    r = Report("P13")
    S = {cfg: r.session(cfg) for cfg in ("prod", "debug")}
    jobs = []
    for cfg in S:
        jobs += [(heads, cfg, h) for h in (HEADS if cfg == "prod" else HEADS[:10])]
        jobs += [(bads, cfg, h) for h in BAD] + [(endless, cfg, None)]
        jobs += [(column, cfg, n) for n in ((1, 13, 14, 27) if cfg == "prod" else (3,))]
        jobs += [(request, cfg, (q, skip)) for q in (REQ if cfg == "prod" else REQ[:5]) for skip in (0, 1)]
    r.parallel(lambda fn, cfg, x: fn(r, S[cfg], cfg, x), jobs)
    return r.finish(
        "proof", "gated value-flow over LLVM IR with a symbolic input stream",
        "an observation file is opened exactly when its header is valid, and every requested observable is mapped to the columns (and only those) at which the header lists its codes",
        "the constructor is interpreted on headers of arbitrary characters for the enumerated sequences of record labels and numbers of observation types; "
        "the reading map is computed from the resulting object for requests of arbitrary codes, coefficients and found/missing patterns",
        minimum=300, assumptions=["the parser of a single observation code is a primitive (decided by P02)", "headers with more records behave like the enumerated ones (records are independent)"])


def valid(log, lines, kinds, counts, letters):
    L = lines[0]
    S = text(L, 0)
    known = 0
    for x in LETTER.values():
        known = bdd.OR(known, is_val(mk("ch", L, I(40)), ord(x)))
    want = bdd.AND(known, is_val(mk("ch", L, I(20)), ord("O")))
    conv = [e for e in log if e["kind"] == "conv" and e["S"] is S]
    want = bdd.AND(want, bdd.NOT(cmp_eq0(mk("nconv", conv[0]["what"] if conv else "strtod", S))))
    op = [e["stream"] for e in log if e.get("stream")][0]
    want = bdd.AND(want, bdd.var(sym("is_open:" + op, "b")))
    n = -1
    for k, L in zip(kinds, lines[1:]):
        if k == "T":
            n += 1
            left = counts[n]
            want = bdd.AND(want, number("strtol", text(L, 3)))
        if k in "Tt":
            for i in range(min(left, 13)):
                want = bdd.AND(want, code_ok(text(L, 7 + 4 * i)))
            left -= 13
        if k in "PD":
            for i in range(3):
                want = bdd.AND(want, number("strtod", text(L, 14 * i)))
        if k == "F":
            want = bdd.AND(want, bdd.NOT(bad_date(text(L, 0))))
    return want


def sane(r, t, log, ts, loc):
    own_line(r, t, log)
    for e in log:
        if e["kind"] in ("oob", "uninit", "nullderef"):
            r.ob(t + ": only initialised memory of the object is used", False, e.get("what") or "bad access", e["loc"])
    bad = [e for e in log if e["kind"] == "terminate"]
    r.ob(t + ": the program is not terminated", not bad, "an exception leaves a noexcept function", bad[0]["loc"] if bad else loc)


def heads(r, s, cfg, x):
    kinds, counts, letters = x
    t = "%s header %s%s %s" % (cfg, kinds, counts, letters)
    o, lines, ns, ts, log, loc = header(s, kinds, counts, letters)
    sane(r, t, log, ts, loc)
    if not r.ob(t + ": can be opened", ns is not None and ns.pc != 0, "such files are never opened", loc):
        return
    want = valid(log, lines, kinds, counts, letters)
    full = ns.pc if ts is None else bdd.OR(ns.pc, ts.pc)
    r.cond(t + ": opened exactly when valid", ns.pc, bdd.AND(want, full), 1, "acceptance", loc)
    r.ob(t + ": everything else throws", ts is not None and bdd.implies(bdd.AND(full, bdd.NOT(want)), ts.pc), "an invalid header does not throw", loc)
    rd = [e for e in log if e["kind"] == "getline" and bdd.AND(e["pc"], ns.pc)]
    r.ob(t + ": header lines read", len(rd) == len(kinds) + 1, "%d lines are read, the header has %d" % (len(rd), len(kinds) + 1), loc)
    r.same(t + ": largest number of observables", s.get(r"ngpt::ObservationRnx::max_obs\(\) const", [o], ns), I(max(list(counts) + [0])), ns.pc, "max_obs", loc)
    P = [L for k, L in zip(kinds, lines[1:]) if k == "P"]
    st = ns.copy()
    for i, a in enumerate("xyz"):
        v = s.get(D % "d_rnx_approx", [o, I(i)], ns)
        r.same("%s: approximate %s" % (t, a), v, mk("strtod", text(P[-1], 14 * i)) if P else F(0.0), ns.pc, "the coordinate", loc)
    if "F" in kinds:
        L = [L for k, L in zip(kinds, lines[1:]) if k == "F"][-1]
        st = ns.copy()
        out = s.out("tfo", 16, st=st)
        rv, n2, _ = s.run(D % "d_rnx_first", [o, out], st)
        m, q = s.load(n2, out, 0, 8, "i64"), s.load(n2, out, 8, 8, "i64")
        r.ob(t + ": time of the first observation", m.op == "dmjd" and q.op == "dsec" and m.a[0] is q.a[0] and m.a[0].a[-1] is text(L, 0),
             "the time of the first observation is not the date at the start of its record but %s" % show(m)[:200], loc)
    rewinds(r, s, t, o, ns, log)


def rewinds(r, s, t, o, ns, log):
    g = s.fn(r"ngpt::ObservationRnx::rewind\(.*\)")
    gl = "%s:%d" % (g.file, g.line)
    rd = [i for i, e in enumerate(log) if e["kind"] == "getline" and bdd.AND(e["pc"], ns.pc)]
    tells = [(i, e) for i, e in enumerate(log) if e["kind"] == "tellg"]
    if not r.ob(t + ": the end of the header is noted", bool(tells) and tells[-1][0] > rd[-1], "the position noted is not the end of the header", gl):
        return
    n1 = len(s.ip.log)
    st2 = ns.copy()
    s.run(g, [o], st2)
    sk = [e for e in s.ip.log[n1:] if e["kind"] == "seekg" and bdd.AND(e["pc"], ns.pc)]
    if r.ob(t + ": rewind seeks", len(sk) == 1, "rewind does not position the stream once", gl):
        to = sk[0]["to"]
        if to.op == "ptr":
            to = s.load(st2, to, 0, 8, "i64")
        elif to.op == "agg":
            to = to.a[0]
        r.same(t + ": rewind goes to the end of the header", under(to, ns.pc), tells[-1][1]["ret"], ns.pc, "the position", gl)


def bads(r, s, cfg, x):
    kinds, counts, letters = x
    t = "%s bad header %s%s %s" % (cfg, kinds, counts, letters)
    o, lines, ns, ts, log, loc = header(s, kinds, counts, letters)
    sane(r, t, log, ts, loc)
    r.ob(t + ": is rejected", ns is None or ns.pc == 0, "an invalid list of observation types is accepted", loc)
    r.ob(t + ": throws", ts is not None and ts.pc != 0, "no exception", loc)


def endless(r, s, cfg, _):
    def first(L):
        s.ip.exhausted = True
        return 1
    o, lines, ns, ts, log, loc = header(s, "", first=first, readable=False)
    s.ip.exhausted = False
    r.ob(cfg + " header without an end is rejected", ns is None or ns.pc == 0, "a header that never ends is accepted", loc)
    r.ob(cfg + " header without an end throws", ts is not None and ts.pc != 0, "no exception", loc)


# ------------------------------------------------------------------ reading map
def rq_code(s, st, name):
    """an arbitrary observation code"""
    full = s.fn(r"ngpt::ObservationCode::ObservationCode\(ngpt::OBSERVABLE_TYPE, int, ngpt::ObservationAttribute\)")
    p = s.out(name, rec="ngpt::ObservationCode", st=st)
    v = (sym(name + ".type", "i", 0, 5), sym(name + ".band", "i", -48, 79), sym(name + ".attr", "i", -128, 127))
    rv, ns, ts = s.run(full, [p] + list(v), st)
    return p, v, ns


def same_code(a, b):
    c = 1
    for x, y in zip(a, b):
        c = bdd.AND(c, cmp_eq0(sub(x, y)))
    return c


def head_codes(kinds, counts, letters, lines):
    """system letter -> codes in the order of the header"""
    out, n = {}, -1
    for k, L in zip(kinds, lines[1:]):
        if k == "T":
            n += 1
            left = counts[n]
        if k in "Tt":
            out.setdefault(letters[n], []).extend(code_syms(text(L, 7 + 4 * i)) for i in range(min(left, 13)))
            left -= 13
    return out


def opened(s, counts, letters):
    kinds = "".join("T" + "t" * ((c - 1) // 13) for c in counts) + "E"
    o, lines, ns, ts, log, loc = header(s, kinds, counts, letters)
    return o, head_codes(kinds, counts, letters, lines), ns


NAME = {v: k for k, v in LETTER.items()}
SRM = r"ngpt::ObservationRnx::set_read_map\(.*\) const"


def mapping(s, o, st, skip):
    f = s.fn(SRM)
    loc = "%s:%d" % (f.file, f.line)
    res = s.out("colmap", 48, st=st)
    n0 = len(s.ip.log)
    s.ip.UNROLL = 160
    s.ip.data_unroll = s.ip.force_unroll = 40
    rv, ns, ts = s.run(f, [res, o, ptr("reqmap"), I(skip)], st)
    s.ip.force_unroll = 0
    return res, ns, ts, s.ip.log[n0:], loc


def add_request(s, st, E, letter, parts, codes):
    """append one observable to the request"""
    g = s.out("obs", 24, st=st)
    for i, (sy, p) in enumerate(parts):
        k = codes[i]
        fn = D % ("d_obs_ctor" if i == 0 else "d_obs_add2")
        rv, st, _ = s.run(fn, [g, I(E[NAME[sy]]), p, k], st)
    rv, st, _ = s.run(D % "d_req_add", [ptr("reqmap"), I(E[NAME[letter]]), g], st)
    return st


def column(r, s, cfg, n):
    """one requested code against a header of n codes: the column is that of the first equal one"""
    E = s.satsys()
    o, codes, ns = opened(s, [n], "G")
    if ns is None:
        raise AnchorError("no header can be opened")
    st = ns.copy()
    s.out("reqmap", 48, st=st)
    rv, st, _ = s.run(D % "d_req_init", [ptr("reqmap")], st)
    p, v, st = rq_code(s, st, "want")
    st = add_request(s, st, E, "G", [("G", p)], [sym("k", "f")])
    res, ns, ts, log, loc = mapping(s, o, st, 0)
    t = "%s column of 1 in %d" % (cfg, n)
    no_exception(r, t, ts, log, loc)
    found, firsts = 0, []
    for j in range(n):
        c = same_code(v, codes["G"][j])
        firsts.append(bdd.AND(c, bdd.NOT(found)))
        found = bdd.OR(found, c)
    g = I(E["gps"])
    sz = s.get(D % "d_col_obs", [res, g], ns)
    r.cond(t + ": mapped exactly when the header has the code", cmp_eq0(sub(sz, I(1))), found, ns.pc, "presence", loc)
    r.cond(t + ": no entry otherwise", cmp_eq0(s.get(D % "d_col_systems", [res], ns)), bdd.NOT(found), ns.pc, "emptiness", loc)
    st = ns.copy()
    st.pc = bdd.AND(ns.pc, found)
    r.same(t + ": one part", s.get(D % "d_col_parts", [res, g, I(0)], st), I(1), st.pc, "the number of parts", loc)
    idx = s.get(D % "d_col_idx", [res, g, I(0), I(0)], st)
    for j, c in enumerate(firsts):
        x = bdd.AND(st.pc, c)
        r.same("%s: the first equal code is number %d" % (t, j), under(idx, x), I(j), x, "the column", loc)
    r.same(t + ": coefficient", s.get(D % "d_col_coef", [res, g, I(0), I(0)], st), sym("k", "f"), st.pc, "the coefficient", loc)


def request(r, s, cfg, x):
    q, skip = x
    letters, counts, rsys = q[:3]
    reqs = q[3:]
    E = s.satsys()
    t = "%s request %s %s of %s%s%s" % (cfg, rsys, " ".join("/".join(z) for z in reqs), letters, counts, " skip" if skip else "")
    o, codes, ns = opened(s, counts, letters)
    if ns is None:
        raise AnchorError("no header can be opened")
    st = ns.copy()
    s.out("reqmap", 48, st=st)
    rv, st, _ = s.run(D % "d_req_init", [ptr("reqmap")], st)
    want, kept, dead, n = {}, {}, False, 0
    for letter, obs in zip(rsys, reqs):
        for w in obs:
            parts, ks, exp, miss, cur, mixed, started = [], [], [], False, letter, False, None
            for c in w:
                if c.isalpha():
                    cur = c
                    continue
                n += 1
                p, v, st = rq_code(s, st, "want%d" % n)
                k = sym("k%d" % n, "f")
                mixed = mixed or cur != letter
                cs = codes.get(cur)
                if c == "-" or not cs:
                    miss = True
                    for h in cs or []:
                        st.pc = bdd.AND(st.pc, bdd.NOT(same_code(v, h)))
                else:
                    # (the codes of one system differ from each other)
                    for j, h in enumerate(cs):
                        e = same_code(v, h)
                        st.pc = bdd.AND(st.pc, e if j == int(c) else bdd.NOT(e))
                    exp.append((int(c), k))
                parts.append((cur, p))
                ks.append(k)
            st = add_request(s, st, E, letter, parts, ks)
            if mixed or (miss and not skip):
                dead = True
            if not miss and not mixed:
                want.setdefault(letter, []).append(exp)
                kept.setdefault(letter, []).append(ks)
    if dead:
        want = {}
    if st.pc == 0:
        raise AnchorError("empty request scenario")
    res, ns, ts, log, loc = mapping(s, o, st, skip)
    no_exception(r, t, ts, log, loc)
    for e in log:
        if e["kind"] in ("oob", "uninit", "nullderef"):
            r.ob(t + ": memory", False, e.get("what") or "bad access", e["loc"])
    r.cond(t + ": returns", ns.pc if ns is not None else 0, st.pc, 1, "the return of the map", loc)
    if ns is None:
        return
    r.same(t + ": systems of the map", s.get(D % "d_col_systems", [res], ns), I(len(want)), ns.pc, "the number of systems", loc)
    for letter in sorted(set(rsys) | set(letters)):
        g = I(E[NAME[letter]])
        w = want.get(letter, [])
        r.same("%s: observables of %s" % (t, letter), s.get(D % "d_col_obs", [res, g], ns), I(len(w)), ns.pc, "the number of observables", loc)
        for i, exp in enumerate(w):
            r.same("%s: parts of %s%d" % (t, letter, i), s.get(D % "d_col_parts", [res, g, I(i)], ns), I(len(exp)), ns.pc, "the number of parts", loc)
            for j, (idx, k) in enumerate(exp):
                u = "%s: %s%d part %d " % (t, letter, i, j)
                r.same(u + "column", s.get(D % "d_col_idx", [res, g, I(i), I(j)], ns), I(idx), ns.pc, "the column", loc)
                r.same(u + "coefficient", s.get(D % "d_col_coef", [res, g, I(i), I(j)], ns), k, ns.pc, "the coefficient", loc)
        if skip and not dead:
            ks = kept.get(letter, [])
            r.same("%s: request left for %s" % (t, letter), s.get(D % "d_req_size", [ptr("reqmap"), g], ns), I(len(ks)), ns.pc, "the number of requested observables left", loc)
            for i, kk in enumerate(ks):
                ob = s.get(D % "d_req_at", [ptr("reqmap"), g, I(i)], ns)
                v = s.get(D % "d_obs_coef", [ob, I(0)], ns)
                r.same("%s: request %s%d left" % (t, letter, i), v, kk[0], ns.pc, "the requested observable left", loc)


if __name__ == "__main__":
    sys.exit(check())
