"""P15: trimming, blank tests and column numbers respect their limits."""
from linelib import *
from obslib import number, text
from antlib import cstring, exact
from ggsa.models import str_get, chars_str

D = r".*ggsa_driver::%s(\[abi:cxx11\])?\(.*"
ALL = (1 << 64) - 1


def cases(t, pc):
    """{leaf: when}"""
    memo = {}

    def rec(t):
        if t.op != "ite":
            return {t: 1}
        if t not in memo:
            m = memo[t] = {}
            for k, c in ((1, t.a[0]), (2, bdd.NOT(t.a[0]))):
                for x, z in rec(t.a[k]).items():
                    m[x] = bdd.OR(m.get(x, 0), bdd.AND(c, z))
        return memo[t]
    out = {x: bdd.AND(z, pc) for x, z in rec(t).items()}
    return {x: z for x, z in out.items() if z}


def trims(r, cfg):
    s = exact(r.session(cfg))
    s.ip.UNROLL = s.ip.data_unroll = 120
    fns = dict(first=s.fn(D % "d_trim_first"), last=s.fn(D % "d_trim_last"), left=s.fn(D % "d_trim_left"), blank=s.fn(D % "d_blank"))
    names = dict(first="trim at the first blank", last="trim the trailing blanks", left="trim the leading blanks", blank="blank test")
    for n in list(range(0, 21)) + [40, 60, 80]:
        stops = {ALL, 0, 1, n, n + 1, max(0, n - 1), n // 2, 20, 60}
        if n > 20:
            stops = {ALL, 14, 20, n, n + 1}
        for stop in sorted(stops):
            m = min(n, stop)
            for kind, f in fns.items():
                loc = "src/nvarstr.cpp"
                k = "%s: %s, text of %d%s" % (cfg, names[kind], n, "" if stop == ALL else " limited to %d" % stop)
                st = State()
                nm = "t%d.%d.%s" % (n, stop % 1000, kind)
                c, cs = cstring(s, st, nm, n)
                mark = len(s.ip.log)
                sp = [is_val(x, 32) for x in cs[:m]]
                if kind == "blank":
                    rv, ns, ts = s.run(f, [c, I(-1 if stop == ALL else stop)], st)
                    ok = returns(r, k, ns, ts, loc)
                    if ok:
                        w = 1
                        for b in sp:
                            w = bdd.AND(w, b)
                        r.cond(k + ": true exactly when every character is a blank", truth(rv), w, ns.pc, "the result", loc)
                else:
                    o = s.out(nm + ".res", 32, st=st)
                    pos = s.out(nm + ".pos", 8, st=st)
                    rv, ns, ts = s.run(f, [o, c, pos, I(-1 if stop == ALL else stop)], st)
                    ok = returns(r, k, ns, ts, loc)
                    if ok:
                        want, rest = {}, ns.pc          # index found -> when
                        order = range(m) if kind != "last" else reversed(range(m))
                        for i in order:
                            hit = sp[i] if kind == "first" else bdd.NOT(sp[i])
                            want[i + 1 if kind == "last" else i] = bdd.AND(rest, hit)
                            rest = bdd.AND(rest, bdd.NOT(hit))
                        e = 0 if kind == "last" else m
                        want[e] = bdd.OR(want.get(e, 0), rest)
                        want = {e: z for e, z in want.items() if z}
                        got = cases(s.load(ns, pos, 0, 8, "i64"), ns.pc)
                        bad = [show(x) for x, z in got.items() if z and (x.op != "int" or z != want.get(x.a[0], 0))]
                        r.ob(k + ": position", not bad, "the position %s is not the specified one" % bad[:1], loc)
                        bad = []
                        for v, z in cases(str_get(s.ip, ns, o), ns.pc).items():
                            for e, w in want.items():
                                lo, hi = (e, m) if kind == "left" else (0, e)
                                if bdd.AND(z, w) and v is not chars_str(cs[lo:hi]):
                                    bad.append("%s where characters %d to %d are specified" % (cut(show(v)), lo, hi - 1))
                        r.ob(k + ": text", not bad, "; ".join(bad[:1]), loc)
                for e in s.ip.log[mark:]:
                    if e["kind"] in ("oob", "uninit", "badstr", "null"):
                        r.ob(k + ": reads only the text", False, "%s %s" % (e["kind"], e.get("what") or ""), e["loc"])


def returns(r, k, ns, ts, loc):
    r.ob(k + ": no exception", ts is None or ts.pc == 0, "an exception leaves the function", loc)
    return r.ob(k + ": returns", ns is not None and prune(bdd.NOT(ns.pc), bdd.support(ns.pc)) == 0, "the function does not return for every text", loc)


def numbers(r, cfg):
    s = r.session(cfg)
    s.ip.UNROLL = 60
    for N, M, var in ((1, 19, 0), (2, 19, 0), (3, 19, 0), (4, 19, 0), (3, 14, 0), (1, 19, 1), (2, 19, 1), (3, 19, 1), (4, 19, 1), (2, 14, 1)):
        f = s.fn(D % ("d_numbers_n_%d" % M if var else "d_numbers_%d_%d" % (N, M)))
        loc = "src/nvarstr.hpp"
        k = "%s: %d numbers of %d columns%s" % (cfg, N, M, " (count given)" if var else "")
        st = State()
        nm = "n%d.%d.%d" % (N, M, var)
        p, L = s.line(st, nm, 128)
        d = s.out(nm + ".data", 8 * N, st=st)
        mark = len(s.ip.log)
        rv, ns, ts = s.run(f, [p, d] + ([I(N)] if var else []), st)
        if not returns(r, k, ns, ts, loc):
            continue
        fs = [text(L, M * i) for i in range(N)]
        ok = 1
        for F in fs:
            ok = bdd.AND(ok, number("strtod", F))
        r.cond(k + ": true exactly when every field is a number", truth(rv), ok, ns.pc, "the result", loc)
        z = bdd.AND(ns.pc, ok)
        for i, F in enumerate(fs):
            r.same("%s: number %d" % (k, i), under(s.load(ns, d, 8 * i, 8, "double"), z), mk("strtod", F), z, "the number", loc)
        for e in s.ip.log[mark:]:
            if e["kind"] in ("oob", "uninit", "null"):
                r.ob(k + ": stays inside the array", False, "%s %s" % (e["kind"], e.get("what") or ""), e["loc"])


def check():
    r = Report("P15")
    for cfg in ("debug", "prod"):
        trims(r, cfg)
        numbers(r, cfg)
        for2cpp_rule(r, cfg)
    return r.finish(
        "proof", "gated value-flow over LLVM IR, one symbol per character; numbers as functions of the text they start at",
        "right trimming ends at the first blank (from the end: behind the last character that is none), left trimming begins at "
        "the first character that is no blank, the blank test is true iff every character is one, all within the given number of characters and "
        "the text; numbers of fixed width come from columns 0, M, 2M, ..., accepted iff all are representable numbers",
        "every function is reduced to the position and text it yields as a decision diagram over all characters, for texts of 0..20, 40, 60 and 80 "
        "characters and limits around their lengths, and compared with the specified ones; the number readers are compared with the conversions of "
        "a symbolic line; the exponent conversion is decided for every window of 8 arbitrary characters of a 128-byte text", minimum=9000,
        assumptions=["texts hold 7-bit characters"])
