"""Convenience layer used by the property checks."""
from .build import program, BuildError
from .interp import Interp, State, Imprecise
from .ir import AnchorError
from .terms import *
from .mem import Content, isf
from .models import peeked_is, string_at, S_literal, str_get, str_literal

SYS = ["gps", "glonass", "sbas", "galileo", "beidou", "qzss", "irnss", "mixed"]
LETTER = dict(gps="G", glonass="R", sbas="S", galileo="E", beidou="C", qzss="J", irnss="I", mixed="M")


class Session:
    """one interpreter instance with the repository's globals initialised"""

    def __init__(self, config="debug", need=()):
        self.P = program(config, need)
        self.ip = Interp(self.P)
        self._globals()
        self.entries = 0

    _ginit = {}

    def _globals(self):
        if self.P not in Session._ginit:
            ip = Interp(self.P)
            st = State()
            for f in self.P.repo_funcs():
                if f.dem.startswith("__cxx_global_var_init"):
                    _, ns, ts = ip.run(f, [], st)
                    st = ns
            objs = {k: c for k, c in st.mem.items()}
            Session._ginit[self.P] = (objs, {k: o for k, o in ip.objs.items() if o["kind"] == "heap"})
        objs, heaps = Session._ginit[self.P]
        for k, o in heaps.items():
            self.ip.objs[k] = dict(o, kind="global", content=objs.get(k, Content(("uninit",))))
        self.ip.globals_init.update({k: c for k, c in objs.items() if k.startswith("@")})

    # -- enumerations -----------------------------------------------------
    def enum(self, pat):
        """name -> value of an enumeration whose name matches"""
        for n, e in self.P.enums.items():
            if n == pat or n.endswith("::" + pat):
                return dict(e) if isinstance(e, dict) else {k: v for k, v in e}
        raise AnchorError("enumeration %s not found" % pat)

    def satsys(self):
        e = self.enum("SATELLITE_SYSTEM")
        missing = [s for s in SYS if s not in e]
        if missing:
            raise AnchorError("satellite systems missing: %s" % missing)
        return e

    # -- objects ----------------------------------------------------------
    def rec_size(self, rec):
        r = self.P.records.get(rec)
        if r is None:
            raise AnchorError("record %s not found" % rec)
        return r["size"]

    def obj(self, name, size=None, rec=None):
        """an input object with unknown (symbolic) contents"""
        if rec:
            size = self.rec_size(rec)
        self.ip.objs[name] = dict(size=size, kind="ext", name=name)
        return ptr(name)

    def out(self, name, size=None, rec=None, st=None):
        """an object nobody has written yet"""
        if rec:
            size = self.rec_size(rec)
        self.ip.objs[name] = dict(size=size, kind="stack", name=name)
        if st is not None:
            st.mem[name] = Content(("uninit",))
        return ptr(name)

    def cstr(self, st, name, text):
        b = text.encode() + b"\0" if isinstance(text, str) else text
        self.ip.objs[name] = dict(size=len(b), kind="ext", name=name)
        st.mem[name] = Content(("zero",), {0: (len(b), mk("cslice", b))})
        return ptr(name)

    def line(self, st, name, cap, lname=None):
        """a char buffer holding an arbitrary NUL-terminated line"""
        L = mk("L", lname or name, cap - 1)
        self.ip.objs[name] = dict(size=cap, kind="ext", name=name)
        st.mem[name] = Content(("line", L, cap, Content(("uninit",))))
        return ptr(name), L

    def fn(self, pat):
        return self.P.one(pat)

    def run(self, pat, args, st=None):
        f = self.P.one(pat) if isinstance(pat, str) else pat
        st = st if st is not None else State()
        self.entries += 1
        if len(f.args) != len(args):
            raise AnchorError("anchor: %s takes %d lowered arguments, %d expected" % (f.dem, len(f.args), len(args)))
        return self.ip.run(f, args, st)

    def load(self, st, p, off, size, ty):
        self.ip.state = st
        q = self.ip.quiet
        n = len(self.ip.log)
        v = self.ip.M.load(self.ip.content(st, p.a[0]), p.a[1].a[0] + off, size, ty)
        del self.ip.log[n:]
        return restrict_term(v, st.pc)

    def get(self, pat, args, st):
        """what an accessor returns in a given state (the state is not changed)"""
        n = len(self.ip.log)
        rv, ns, ts = self.run(pat, args, st.copy())
        del self.ip.log[n:]
        return restrict_term(rv, st.pc) if rv is not None else None

    def offset(self, pat, nargs_obj="arg:o", extra=()):
        """byte offset of the member an accessor returns a reference to"""
        s2 = Session(self.P.config)
        o = s2.obj(nargs_obj)
        rv, ns, ts = s2.run(pat, [o] + list(extra))
        if rv is None or rv.op != "ptr" or rv.a[0] != nargs_obj or rv.a[1].op != "int":
            raise AnchorError("accessor %s does not return a member reference" % pat)
        return rv.a[1].a[0]

    def reset_stats(self):
        s = self.ip.stats
        s["funcs"] = type(s["funcs"])()
        s["calls"] = s["loads"] = s["stores"] = 0
        self.ip.steps = 0

    # -- reporting --------------------------------------------------------
    def stats(self):
        s = self.ip.stats
        repo = [n for n in s["funcs"] if (self.P.funcs[n].file or "").startswith(self.P.root)]
        return dict(functions_analysed=len(s["funcs"]), repo_functions=sorted(
            {self.P.funcs[n].dem for n in repo}), calls=s["calls"], loads=s["loads"], stores=s["stores"],
            steps=self.ip.steps)


def under(t, f):
    """the value t takes when the boolean f (bdd) holds"""
    return restrict_term(t, f)


def is_val(atom_t, k):
    return cmp_eq0(sub(atom_t, I(k)))


def cases(t, pc=1):
    """[(condition, leaf)] of an ite tree under pc"""
    t = restrict_term(t, pc)
    if t.op != "ite":
        return [(pc, t)]
    c = t.a[0]
    out = []
    p1, p2 = bdd.AND(pc, c), bdd.AND(pc, bdd.NOT(c))
    if p1:
        out += cases(t.a[1], p1)
    if p2:
        out += cases(t.a[2], p2)
    return out


def show_cond(f):
    return bdd.show(f, 3)
