"""P24: no input file makes a reader crash, hang or leave its memory - every reading scenario of the other checks, looked at for that alone."""
import importlib
from common import *

BASE = Report
KINDS = {
    "oob": "memory outside an object is touched", "uninit": "indeterminate memory is used", "nullderef": "a null pointer is followed",
    "unterminated": "text without an end is read", "null": "a null pointer is passed on", "endless": "the file is read forever",
    "terminate": "an exception leaves a function that must not throw: the program is terminated", "doublefree": "memory is released twice", "uaf": "memory is used after its release",
    "noreturn": "a call neither returns nor throws"}
PARTS = ("p10", "p11", "p12", "p13", "p14", "p16", "p17", "p18", "p19", "p21")


class Safety(BASE):
    """runs the scenarios of another check, but only looks at how memory, exceptions and loops are dealt with"""
    lost = []

    def session(self, *a, **k):
        s = BASE.session(self, *a, **k)
        run = s.run

        def watched(pat, args, st=None):
            n = len(s.ip.log)
            rv, ns, ts = run(pat, args, st)
            # the scenarios leave paths out (a file that starts in another way); a call of which nothing comes back at all is one that never ends
            gone = not (ns is not None and ns.pc != 0) and not (ts is not None and ts.pc != 0)
            if gone and (st is None or st.pc != 0) and not any(e["kind"] in ("terminate", "assert", "endless") for e in s.ip.log[n:]):
                self.lost.append(s.P.one(pat) if isinstance(pat, str) else pat)
            return rv, ns, ts
        s.run = watched
        return s

    def ob(self, k, ok, msg="", loc=None):
        return True

    def same(self, *a, **k):
        return True

    def cond(self, *a, **k):
        return True

    def error(self, msg):
        # values that could not be compared are of no interest here
        if "could not interpret" not in msg:
            BASE.error(self, msg)

    def parallel(self, fn, jobs, width=8):
        def one(*job):
            n0 = [len(s.ip.log) for s in self.sessions]
            self.lost = []
            fn(*job)
            bad = {("noreturn", "%s:%d" % (f.file, f.line), f.dem): dict(what="in no scenario of this file") for f in self.lost}
            for s, n in zip(self.sessions, n0 + [0] * len(self.sessions)):
                for e in s.ip.log[n:]:
                    if e["kind"] in KINDS and e["pc"] != 0:
                        bad.setdefault((e["kind"], e["loc"], e["fn"]), e)
            name = "%s %s" % (self.pid, " ".join(str(getattr(x, "__name__", x)) for x in job)[:120])
            BASE.ob(self, name + ": nothing goes wrong", not bad, "; ".join("%s in %s (%s)" % (KINDS[k], cut(f, 60), e.get("what") or l) for (k, l, f), e in list(bad.items())[:3]),
                    next(iter(bad))[1] if bad else None)
        return BASE.parallel(self, one, jobs, width)

    def finish(self, *a, **k):
        return self


def check():
    r = BASE("P24")
    for m in PARTS:
        mod = importlib.import_module("prop_" + m)
        keep = mod.Report
        got = []

        def make(pid):
            got.append(Safety(pid))
            return got[-1]
        mod.Report = make
        try:
            mod.check()
        finally:
            mod.Report = keep
        for x in got:
            r.obs += x.obs
            r.errors += x.errors
            r.sessions += x.sessions
            r.child_stats += x.child_stats
        print("  %s: %d scenarios, %.0f s" % (m, sum(len(x.obs) for x in got), time.time() - r.t0))
        sys.stdout.flush()
    return r.finish(
        "proof", "gated value-flow over LLVM IR: memory, exception and loop events of every reading scenario",
        "no access outside an object, of indeterminate, null or released memory; no exception out of a noexcept function; no loop that goes on without the file going on",
        "the readers are interpreted on files of arbitrary characters in the scenarios of the checks of P10-P14, P16-P19 and P21", minimum=100)


if __name__ == "__main__":
    sys.exit(check())
