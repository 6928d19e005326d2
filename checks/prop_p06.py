"""P06: satellite positions from Keplerian broadcast messages follow the interface documents."""
from navlib import *


def check():
    r = Report("P06")
    for c in broadcast_runs(r, ("gps", "galileo", "beidou")):
        s, n, ns, rv = c["s"], c["n"], c["ns"], c["rv"]
        loc = "%s:%d" % (c["f"].file, c["f"].line)
        tag = c["tag"]
        K = KEPLER[n]
        ok = bdd.AND(ns.pc, cmp_eq0(rv))
        fail = bdd.AND(ns.pc, bdd.NOT(cmp_eq0(rv)))
        r.ob(tag + ": no exception", not ts_pc(c), "an exception escapes", loc)
        d = lambda i: c["fr"].d(c["st0"], i)
        got = [under(s.load(ns, c["xyz"], 8 * i, 8, "double"), ok) for i in range(3)]
        if any(g.op == "undef" for g in got):
            r.ob(tag + ": position is set", False, "the position is not written on success", loc)
            continue
        M = mean_anomaly(K, d, c["tk"])
        kp = Kepler(r, s, c["loops"], ok, M, d(8))
        # the anomaly the position was computed with
        best, W = None, None
        for w in kp.candidates():
            ref = orbit(K, d, c["tk"], Ex(w))
            bad = [i for i in range(3) if differences(got[i], ref[i].t, ok)]
            if best is None or len(bad) < best[0]:
                best, W = (len(bad), bad), w
            if not bad:
                break
        if W is None:
            r.error(tag + ": no iterative solution of Kepler's equation was found")
            continue
        ref = orbit(K, d, c["tk"], Ex(W))
        for i, ax in enumerate("xyz"):
            r.same("%s: %s coordinate" % (tag, ax), got[i], ref[i].t, ok, ax + " coordinate", loc)
        why = kp.solves(W)
        r.ob(tag + ": the eccentric anomaly solves Kepler's equation to 1e-12 on success", why is not None,
             "success does not imply a converged solution of E = M + e sin E", loc)
        rest = bdd.AND(fail, bdd.NOT(bdd.OR(outside(fail, c["tk"].t), outside(fail, c["dt"].t))))
        early = kp.early(rest)
        r.ob(tag + ": inside half a week, failure is only reported after 30 iterations", early == 0,
             "a status other than zero can be returned when %s" % cut(bdd.show(early, 2)), loc)
    return r.finish(
        "proof", "gated value-flow over LLVM IR; polynomial normal forms; inductive loop invariant for Kepler's equation",
        "on success the position equals the interface-document expression of the message's elements and the time from "
        "the ephemeris reference epoch, with an eccentric anomaly that solves Kepler's equation to 1e-12; failure is reported otherwise",
        "the public state function is interpreted for a symbolic message and epoch; the three coordinates are compared as "
        "polynomials over sin/cos/atan2 atoms; the iteration is decided by an inductive invariant at the loop head",
        minimum=100, assumptions=["real arithmetic (no rounding)", "comparisons involving NaN are not considered"])


def ts_pc(c):
    return c["ts"] is not None and c["ts"].pc != 0
