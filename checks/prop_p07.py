"""P07: satellite clock corrections from Keplerian broadcast messages."""
from navlib import *


def check():
    r = Report("P07")
    for c in broadcast_runs(r, ("gps", "galileo", "beidou")):
        s, n, ns, rv = c["s"], c["n"], c["ns"], c["rv"]
        loc = "%s:%d" % (c["f"].file, c["f"].line)
        tag = c["tag"]
        K = KEPLER[n]
        ok = bdd.AND(ns.pc, cmp_eq0(rv))
        fail = bdd.AND(ns.pc, bdd.NOT(cmp_eq0(rv)))
        d = lambda i: c["fr"].d(c["st0"], i)
        got = under(s.load(ns, c["clk"], 0, 8, "double"), ok)
        if got.op == "undef":
            r.ob(tag + ": clock correction is set", False, "the clock correction is not written on success", loc)
            continue
        kp = Kepler(r, s, c["loops"], ok, mean_anomaly(K, d, c["dt"]), d(8))
        W = None
        cand = kp.candidates()
        for w in cand:
            if not differences(got, clock(K, d, c["dt"], Ex(w)).t, ok):
                W = w
                break
        if not cand:
            r.error(tag + ": no iterative solution of Kepler's equation was found")
            continue
        if W is None:       # report against the anomaly that solves the equation
            W = next((w for w in cand if kp.solves(w)), cand[-1])
        r.same(tag + ": clock correction", got, clock(K, d, c["dt"], Ex(W)).t, ok, "clock correction", loc)
        r.ob(tag + ": the eccentric anomaly solves Kepler's equation to 1e-12 on success", kp.solves(W) is not None,
             "success does not imply a converged solution of E = M + e sin E", loc)
        # inputs and outputs other than the two results are left alone
        r.ob(tag + ": the message is unchanged", ns.mem[c["fr"].name] is c["st0"].mem[c["fr"].name],
             "the navigation frame is modified", loc)
    return r.finish(
        "proof", "gated value-flow over LLVM IR; polynomial normal forms; inductive loop invariant for Kepler's equation",
        "on success the clock correction is a0 + a1 dt + a2 dt^2 + F e sqrt(A) sin E with the system's F, dt counted from the "
        "clock reference epoch across day boundaries and E solving Kepler's equation to 1e-12",
        "the public state function is interpreted for a symbolic message and epoch; the correction is compared as a "
        "polynomial over sin atoms; the iteration is decided by an inductive invariant at the loop head",
        minimum=100, assumptions=["real arithmetic (no rounding)", "comparisons involving NaN are not considered"])
