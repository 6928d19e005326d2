"""Shared reporting of the property checks."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from ggsa.api import *            # noqa
from ggsa import nf as NFM        # noqa
from ggsa.subst import subst, expand  # noqa
from ggsa.nf import nf, peq, differences, opaque, NotNumeric, key  # noqa

TRUSTED = [
    "clang 18 front end (the analysed program is its unoptimised LLVM IR)",
    "ggsa abstract interpreter and its transfer functions for libc, libstdc++ and ggdatetime (ggsa/models.py)",
    "ggdatetime is represented by the declarations in stubs/ggdatetime",
    "integer wrap-around and floating-point rounding are not modelled",
]


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.obs = []            # (key, ok, msg, loc)
        self.errors = []
        self.sessions = []
        self.notes = []
        self.child_stats = []

    def session(self, *a, **k):
        s = Session(*a, **k)
        self.sessions.append(s)
        return s

    # -- independent parts of a check, one process each ---------------------
    def parallel(self, fn, jobs, width=8):
        """fn(*job) for every job; each runs in a child process and reports back what it decided"""
        import pickle
        jobs = list(jobs)
        running, results, nxt = {}, {}, 0
        sys.stdout.flush()
        sys.stderr.flush()
        import gc
        import select
        gc.collect()
        gc.freeze()
        while nxt < len(jobs) or running:
            while nxt < len(jobs) and len(running) < width:
                rd, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(rd)
                        gc.disable()
                        self.obs, self.errors, self.notes = [], [], []
                        for s in self.sessions:
                            s.reset_stats()
                        try:
                            fn(*jobs[nxt])
                        except Exception as e:
                            self.error("%s: %s: %s" % (jobs[nxt], type(e).__name__, e))
                            if os.environ.get("GGSA_DEBUG"):
                                traceback.print_exc()
                        b = pickle.dumps((self.obs, self.errors, self.notes, [s.stats() for s in self.sessions]))
                        with os.fdopen(wr, "wb") as f:
                            f.write(b)
                        code = 0
                    finally:
                        sys.stdout.flush()
                        os._exit(code)
                os.close(wr)
                running[rd] = (pid, nxt, [])
                nxt += 1
            for rd in select.select(list(running), [], [])[0]:
                b = os.read(rd, 1 << 20)
                pid, k, buf = running[rd]
                if b:
                    buf.append(b)
                    continue
                os.close(rd)
                os.waitpid(pid, 0)
                del running[rd]
                results[k] = b"".join(buf)
        for k, job in enumerate(jobs):
            if not results[k]:
                self.error("%s: the analysis process ended early" % (job,))
                continue
            o, e, n, st = pickle.loads(results[k])
            self.obs += o
            self.errors += e
            self.notes += n
            self.child_stats += st

    # -- obligations ------------------------------------------------------
    def ob(self, k, ok, msg="", loc=None):
        """one instance of the rule; ok False is a violation"""
        self.obs.append((k, bool(ok), msg, loc))
        return bool(ok)

    def error(self, msg):
        self.errors.append(msg)

    def same(self, k, got, want, pc=1, what="value", loc=None):
        """the value computed by the code equals the specified one under pc"""
        if got is None:
            return self.ob(k, False, "%s: the function does not return here" % what, loc)
        try:
            d = differences(got, want, pc)
            if d and (expand(got) is not got or expand(want) is not want):
                d = differences(expand(got), expand(want), pc)
        except NotNumeric as e:
            self.error("%s: %s" % (k, e))
            return None
        if not d:
            return self.ob(k, True)
        c, a, b = d[0]
        o = opaque(a)
        if o:
            self.error("%s: the analysis could not interpret %s (%s)" % (k, what, o))
            return None
        return self.ob(k, False, "%s is %s, specified %s, when %s" % (what, cut(show(a)), cut(show(b)), cut(bdd.show(c, 2))), loc)

    def cond(self, k, f, want, pc=1, what="condition", loc=None):
        """two boolean functions (bdds) agree under pc"""
        return self.same(k, Bv(bdd.AND(f, pc)), Bv(bdd.AND(want, pc)), pc, what, loc)

    # -- end --------------------------------------------------------------
    def finish(self, level, technique, rule, explanation, assumptions=(), minimum=1, extra=None):
        tier = os.environ.get("VERIF_TIER", "quick")
        tier = tier if tier in ("quick", "thorough") else "quick"
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        known = load_known(self.pid)
        bad, kn = {}, {}
        for k, ok, msg, loc in self.obs:
            if not ok:
                (kn if k in known else bad).setdefault(k, (msg, loc))
        total = len(self.obs)
        if total < minimum:
            self.error("only %d rule instances were found, %d expected: anchors moved" % (total, minimum))
        fns, loads, stores, calls, steps = set(), 0, 0, 0, 0
        for x in [s.stats() for s in self.sessions] + self.child_stats:
            fns |= set(x["repo_functions"])
            calls += x["calls"]
            loads += x["loads"]
            stores += x["stores"]
            steps += x["steps"]
        cov = dict(
            obligations=total, discharged=sum(1 for o in self.obs if o[1]),
            checker_cmd="python3 checks/run.py %s" % self.pid,
            trusted_base=TRUSTED,
            rule=rule, explanation=explanation,
            repo_functions_analysed=sorted(fns), repo_function_count=len(fns),
            call_sites_interpreted=calls, memory_reads=loads, memory_writes=stores, instructions=steps,
            rule_instances=sorted({o[0] for o in self.obs})[:400],
            known_findings=sorted(kn), notes=self.notes[:40])
        if extra:
            cov.update(extra)
        ev = dict(property=self.pid, tier=tier, seed=seed, level=level, coverage=cov,
                  assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2), violations=len(bad))
        if self.errors:
            cov["analysis_errors"] = self.errors[:20]
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, self.pid + ".json.tmp%d" % os.getpid())
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(d, self.pid + ".json"))
        print("%s: %d rule instances, %d hold, %d repo functions analysed, %.1f s" % (
            self.pid, total, cov["discharged"], len(fns), time.time() - self.t0))
        for k, (msg, loc) in sorted(kn.items()):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k, known[k]))
        if bad:
            rd = os.path.join(VERIF, "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.pid + ".txt")
            with open(rp, "w") as f:
                f.write("property %s, rule: %s\n\n" % (self.pid, rule))
                for k, (msg, loc) in sorted(bad.items()):
                    f.write("VIOLATED %s\n  at %s\n  %s\n\n" % (k, loc or "?", msg))
                f.write("reproduce: cd /verif && python3 checks/run.py %s\n" % self.pid)
            for k, (msg, loc) in sorted(bad.items())[:20]:
                print("  violated: %s at %s: %s" % (k, loc or "?", msg))
            for e in self.errors[:5]:
                print("  analysis error: " + e)
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if self.errors:
            for e in self.errors[:20]:
                print("ANALYSIS-ERROR %s: %s" % (self.pid, e))
            return 2
        return 0


def truth(t):
    """an i1 result as a condition"""
    return bdd.NOT(cmp_eq0(t)) if t.op != "bool" else t.a[0]


def cut(s, n=400):
    return s if len(s) <= n else s[:n] + "..."


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    out = {}
    if os.path.exists(p):
        for e in json.load(open(p)):
            if e.get("property") == pid and "key" in e and not e.get("fixed"):
                out[e["key"]] = e["what"]
    return out
