"""Abstract interpreter over the LLVM module.

Forward dataflow with gated merges: at a join the two incoming abstract states
are combined cell by cell into `ite` values under the (BDD) condition that
selects each branch.  Loops whose exit test folds to a constant are peeled;
every other loop is solved as a fixpoint with interval widening/narrowing on
the locations its body changes.
"""
import itertools
from collections import defaultdict
from .terms import *
from .mem import *
from .ir import Program, AnchorError


class Imprecise(Exception):
    """the analysis cannot decide (reported as analysis error, never a verdict)"""


class State:
    __slots__ = ("pc", "mem", "exc", "caught")

    def __init__(self, pc=1, mem=None, exc=None, caught=None):
        self.pc, self.mem, self.exc, self.caught = pc, mem if mem is not None else {}, exc, caught

    def copy(self):
        return State(self.pc, dict(self.mem), self.exc, self.caught)


class Frame:
    _n = 0

    def __init__(self, fn, stack, tag):
        self.fn, self.stack, self.tag = fn, stack, tag
        self.regs = {}
        self.cmpdist = {}
        self.folded = None
        self.ltag = {}


def within_line(L, off, pc, depth=0):
    """off is not behind the terminator of line L, whenever pc holds"""
    while isinstance(L.a[0], Term) and L.a[0].op == "d2e":
        L = L.a[0].a[0]
    if rng(sub(mk("slen", L), off), pc)[0] >= 0:
        return True
    def full(k):
        x = mk("ch", L, k)
        lo, hi = rng(x, pc)
        return lo > 0 or hi < 0 or bdd.AND(pc, cmp_eq0(x)) == 0
    if off.op == "int":
        return 0 <= off.a[0] <= 8 and all(full(I(k)) for k in range(off.a[0]))
    c, d = lin_parts(off)
    if depth > 12 or any(v != 1 for v in d.values()):
        return False
    for a in d:
        if a.op != "nconv" or a.a[1].op != "S" or len(a.a[1].a) != 1 or a.a[1].a[0][0] != "line":
            continue
        q = a.a[1].a[0]
        M = q[1]
        while isinstance(M.a[0], Term) and M.a[0].op == "d2e":
            M = M.a[0].a[0]
        if M is not L:
            continue
        k = sub(sub(off, a), q[2])
        if k.op == "int" and 0 <= k.a[0] <= 8 and within_line(L, q[2], pc, depth + 1) \
                and all(full(sub(off, I(j + 1))) for j in range(k.a[0])):
            return True
    return False


class Interp:
    MAXDEPTH = 60
    UNROLL = 160
    log_chars = False
    freed = None  # {object: condition} while releases are followed
    force_unroll = 0

    def __init__(self, prog):
        self.prog = prog
        self.M = Memory(self)
        self.objs = {}
        self.log = []
        self.loops = []
        self.ranges = {}
        self.exts = {}
        self.counters = defaultdict(int)
        self.state = None
        self.overrides = []
        self._mcache = {}
        self.quiet = False
        self.globals_init = {}
        self.stats = dict(funcs=set(), instrs=0, calls=0, loads=0, stores=0)
        self.opaque_funcs = {}
        self.frames = 0
        self.max_steps = 6_000_000
        self.steps = 0
        self.watch_loops = True
        self.hooks = {}
        self.charwise = False       # exact character-wise string comparison
        self.data_unroll = 0        # iterations of loops whose exit depends on data
        from . import models
        self.models = models.MODELS

    # ------------------------------------------------------------ objects
    def new_obj(self, name, size, kind, st, base=("uninit",)):
        self.objs[name] = dict(size=size, kind=kind, name=name)
        if st is not None:
            st.mem[name] = Content(base)
        return name

    def fresh_name(self, base):
        n = self.counters[base]
        self.counters[base] += 1
        return base if n == 0 else "%s#%d" % (base, n)

    def ext_ptr(self, base, off):
        """pointer stored in external memory: one object per (base,off)"""
        n = "*%s[%d]" % (base, off)
        if n not in self.objs:
            self.objs[n] = dict(size=None, kind="ext", name=n)
        return ptr(n, I(0))

    def field_range(self, base, off, w):
        r = self.ranges.get((base, off))
        if r:
            return r
        if w == 1:
            return 0, 1
        return -(1 << (w - 1)), (1 << (w - 1)) - 1

    def curpc(self):
        return self.state.pc if self.state is not None else 1

    def content(self, st, obj):
        c = st.mem.get(obj)
        if c is None:
            c = self.lazy_content(obj)
            st.mem[obj] = c
        return c

    def lazy_content(self, obj):
        o = self.objs.get(obj)
        if o is None:
            raise Imprecise("unknown object %s" % obj)
        if o["kind"] == "ext":
            return Content(("sym", obj))
        if o["kind"] == "global":
            return o["content"]
        return Content(("uninit",))

    def global_obj(self, name):
        name = self.prog.resolve(name)
        k = "@" + name
        if k in self.objs:
            return k
        if name in self.prog.funcs:
            self.objs[k] = dict(size=0, kind="func", name=k)
            return k
        g = self.prog.globals.get(name)
        if g is None:
            raise Imprecise("unknown global " + name)
        c = Content(("sym", k) if g["decl"] else ("zero",))
        if "init" in g:
            cells = {}
            data = {}
            for off, size, v in g["init"]:
                if v[0] == "z":
                    cells[off] = (size, mk("fill", I(0)))
                else:
                    t = self.const(v)
                    cells[off] = (size, t)
            # compact byte arrays
            if cells and all(s == 1 and v.op == "int" for s, v in cells.values()) and len(cells) > 8:
                n = max(cells) + 1
                if len(cells) == n:
                    b = bytes(cells[i][1].a[0] & 255 for i in range(n))
                    cells = {0: (n, mk("cslice", b))}
            c = Content(("zero",), cells)
        if not g["const"] and not g["decl"] and name in self.prog.written_globals():
            c = Content(("sym", k))         # whatever earlier calls left there
        self.objs[k] = dict(size=g["size"] if not g["decl"] else None, kind="global", name=k,
                            content=c, const=g["const"], dem=g.get("dem", name))
        # non-constant repo globals are set up by a dynamic initialiser
        if not g["const"] and k in self.globals_init and not (not g["decl"] and name in self.prog.written_globals()):
            self.objs[k]["content"] = self.globals_init[k]
        return k

    # ------------------------------------------------------------ events
    def event(self, kind, st, fr, ins, **kw):
        e = dict(kind=kind, pc=st.pc, loc=self.prog.loc(ins) if ins else "?",
                 fn=fr.fn.dem if fr else "?", stack=fr.stack if fr else (), **kw)
        if ins is not None and (e["loc"] == "?" or not self._in_repo(ins)):
            # attribute to the innermost repo call site
            for s in reversed(e["stack"]):
                if s[2]:
                    e["loc"] = s[1]
                    e["fn"] = s[0]
                    break
        self.log.append(e)
        return e

    def _in_repo(self, ins):
        return "f" in ins and self.prog.files[ins["f"]].startswith(self.prog.root)

    # ------------------------------------------------------------ operands
    def const(self, v):
        k = v[0]
        if k == "i":
            if v[1] == 1:
                return TRUE if v[2] else FALSE
            return I(v[2])
        if k == "I":
            return I(int(v[2]))
        if k == "f":
            return F(float(v[1]))
        if k == "n":
            return NULL
        if k == "u":
            return UNDEF
        if k == "z":
            return mk("zeroagg")
        if k == "g":
            return ptr(self.global_obj(v[1]), I(v[2]))
        if k == "agg":
            return mk("aggc", tuple((o, s, self.const(x)) for o, s, x in v[1]))
        if k == "m":
            return UNDEF
        raise Imprecise("operand %r" % (v,))

    def val(self, fr, v):
        if v[0] == "l":
            r = fr.regs.get(v[1])
            if r is None:
                raise Imprecise("undefined register in %s" % fr.fn.dem)
            return r
        return self.const(v)

    # ------------------------------------------------------------ memory ops
    def check_access(self, st, fr, ins, obj, off, size, write, what=None):
        o = self.objs.get(obj)
        if obj == NULLOBJ:
            self.event("null", st, fr, ins, write=write, what=what)
            return False
        if self.freed and bdd.AND(self.freed.get(obj, 0), st.pc):
            self.event("uaf", st, fr, ins, obj=obj, write=write, what="%s is used after its release" % obj)
        if o is None or o["size"] is None:
            return True
        lo, hi = rng(off, st.pc)
        osz = o["size"]
        if isinstance(osz, int):
            if lo >= 0 and hi + (size if isinstance(size, int) else 0) <= osz and isinstance(size, int):
                return True
            if not isinstance(size, int):
                end = add(off, size)
                if lo >= 0 and (rng(end, st.pc)[1] <= osz or self.end_within(off, size, st.pc, osz)):
                    return True
            if size == 1 and lo >= 0 and self.in_line(st, obj, off, osz):
                return True
            bad_hi = icmp("sgt", add(off, size if isinstance(size, Term) else I(size)), I(osz), st.pc)
            bad_lo = icmp("slt", off, I(0), st.pc)
            self.event("oob", st, fr, ins, obj=obj, off=off, size=size, objsize=osz, write=write,
                       range=(lo, hi), what=what,
                       cond=bdd.AND(st.pc, bdd.OR(bad_hi.a[0], bad_lo.a[0])))
            return False
        end = add(off, size if isinstance(size, Term) else I(size))
        c = icmp("sle", end, osz, st.pc).a[0]
        neg = lo < 0
        if not neg and bdd.implies(st.pc, c):
            return True
        if not neg and self.lin_le(end, osz, st.pc):
            return True
        self.event("oob", st, fr, ins, obj=obj, off=off, size=size, objsize=osz, write=write,
                   range=(lo, hi), what=what, cond=bdd.AND(st.pc, bdd.NOT(c)))
        return False

    def end_within(self, off, size, pc, osz, fuel=None):
        """off + size <= osz, deciding the alternatives of either term one by one"""
        fuel = fuel or [20000]
        fuel[0] -= 1
        if pc == 0:
            return True
        for t in (off, size):
            if t.op == "ite" and fuel[0] > 0:
                c = t.a[0]
                return all(self.end_within(t.a[k] if t is off else off, t.a[k] if t is size else size,
                                           bdd.AND(pc, c if k == 1 else bdd.NOT(c)), osz, fuel) for k in (1, 2))
        return rng(add(off, size), pc)[1] <= osz

    def in_line(self, st, obj, off, osz):
        """off is the end of a conversion (or a character behind one) of the line the buffer holds"""
        b = self.content(st, obj).base
        return b[0] == "line" and isinstance(b[2], int) and b[2] <= osz and within_line(b[1], off, st.pc)

    def lin_le(self, a, b, pc):
        """a <= b provable from an atom of pc with slack, e.g. i+1<=n from i<n"""
        d = sub(a, b)
        if rng(d, pc)[1] <= 0:
            return True
        return False

    def load_at(self, st, fr, ins, obj, off, size, ty):
        self.check_access(st, fr, ins, obj, off, size, False)
        if obj == NULLOBJ:
            return UNDEF
        o = self.objs.get(obj)
        if o is not None and o["kind"] == "strelem":
            from .models import str_char, str_get
            return str_char(str_get(self, st, o["owner"]), add(o["index"], off), st.pc)
        c = self.content(st, obj)
        if self.log_chars and c.base[0] == "line" and size == 1:
            self.event("char", st, fr, ins, off=off, L=c.base[1], mem=c)
        if off.op == "int":
            return self.M.load(c, off.a[0], size, ty)
        if off.op == "ite" and nleaves(off, 64) <= 64 and all(l.op == "int" for l in leaves(off)):
            return self.lift_ite(off, st, lambda o, s: self.M.load(c, o.a[0], size, ty))
        # symbolic offset
        base = c.base
        if base[0] == "line":
            lo, hi = rng(off, st.pc)
            if not any(o < hi + size and lo < o + s for o, (s, v) in c.cells.items()) and size == 1:
                return mk("ch", base[1], off)
        if base[0] == "upd" and base[2] is off and base[3] == size and not c.cells:
            return base[4]
        lo, hi = rng(off, st.pc)
        step = self.stride(off)
        if lo > -INF and hi < INF and (hi - lo) // step <= 80:
            # finite table lookup
            val = None
            k = hi - (hi - lo) % step
            while k >= lo:
                x = self.M.load(c, k, size, ty)
                val = x if val is None else ite(icmp("eq", off, I(k), st.pc).a[0], x, val)
                k -= step
            return val
        kind = kind_of(ty)
        if kind == "p":
            n = "*%s[?%d]" % (obj, off.id)
            self.objs.setdefault(n, dict(size=None, kind="ext", name=n))
            return ptr(n, I(0))
        return mk("sel", self.content_id(c), off, size, kind)

    def stride(self, off):
        if off.op == "lin":
            g = 0
            import math
            for _, k in off.a[1]:
                g = math.gcd(g, abs(k))
            return max(g, 1)
        return 1

    def content_id(self, c):
        b = c.base
        if not c.cells:
            if b[0] in ("sym", "line"):
                return mk("content", b[0], b[1])
            if b[0] == "zero" or b[0] == "uninit":
                return mk("content", b[0])
        return mk("content", "#%d" % id(c))

    def lift_ite(self, t, st, fn):
        if t.op == "ite":
            c = t.a[0]
            p1, p2 = bdd.AND(st.pc, c), bdd.AND(st.pc, bdd.NOT(c))
            if p1 == 0:
                return self.lift_ite(t.a[2], st, fn)
            if p2 == 0:
                return self.lift_ite(t.a[1], st, fn)
            s1, s2 = State(p1, st.mem), State(p2, st.mem)
            return ite(c, self.lift_ite(t.a[1], s1, fn), self.lift_ite(t.a[2], s2, fn))
        return fn(t, st)

    def load(self, st, fr, ins, p, size, ty):
        self.stats["loads"] += 1

        def one(x, s):
            if x.op == "ptr":
                return self.load_at(s, fr, ins, x.a[0], x.a[1], size, ty)
            if x.op == "undef":
                self.event("uninit", s, fr, ins, what="dereference of an indeterminate pointer")
                return UNDEF
            raise Imprecise("load through %s at %s" % (show(x), self.prog.loc(ins)))
        v = restrict_term(self.lift_ite(restrict_term(p, st.pc), st, one), st.pc)
        return v

    def undef_cond(self, v, pc):
        if v.op == "undef":
            return pc
        if v.op == "ite":
            c = v.a[0]
            return bdd.OR(self.undef_cond(v.a[1], bdd.AND(pc, c)),
                          self.undef_cond(v.a[2], bdd.AND(pc, bdd.NOT(c))))
        return 0

    def store_at(self, st, fr, ins, obj, off, size, val):
        self.check_access(st, fr, ins, obj, off, size, True)
        if obj == NULLOBJ:
            return
        o = self.objs.get(obj)
        if o is not None and o["kind"] == "strelem":
            from .models import str_setchar, str_get, str_set
            str_set(self, st, o["owner"], str_setchar(str_get(self, st, o["owner"]), add(o["index"], off), val, st.pc))
            return
        h = self.hooks.get("store")
        if h:
            h(st, fr, ins, obj, off, size, val)
        c = self.content(st, obj)
        if off.op == "int":
            st.mem[obj] = c.with_cell(off.a[0], size, val)
            return
        lo, hi = rng(off, st.pc)
        step = self.stride(off)
        if lo > -INF and hi < INF and (hi - lo) // step <= 40:
            n = c
            k = lo
            while k <= hi:
                e = icmp("eq", off, I(k), st.pc).a[0]
                if e != 0:
                    ty = "ptr" if any(x.op == "ptr" for x in leaves(val)) else (
                        "double" if any(isf(x) for x in leaves(val)) and size == 8 else
                        "float" if any(isf(x) for x in leaves(val)) else "i%d" % (8 * size))
                    old = self.M.load(n, k, size, ty)
                    n = n.with_cell(k, size, ite(e, val, old))
                k += step
            st.mem[obj] = n
            return
        st.mem[obj] = Content(("upd", c, off, size, val))

    def store(self, st, fr, ins, p, size, val):
        self.stats["stores"] += 1
        p = restrict_term(p, st.pc)
        if p.op == "ptr":
            self.store_at(st, fr, ins, p.a[0], p.a[1], size, val)
            return
        if p.op == "ite":
            c = p.a[0]
            s1, s2 = st.copy(), st.copy()
            s1.pc, s2.pc = bdd.AND(st.pc, c), bdd.AND(st.pc, bdd.NOT(c))
            outs = []
            if s1.pc:
                self.store(s1, fr, ins, p.a[1], size, val)
                outs.append(s1)
            if s2.pc:
                self.store(s2, fr, ins, p.a[2], size, val)
                outs.append(s2)
            m = self.merge_states(outs)
            st.mem = m.mem
            return
        if p.op == "undef":
            self.event("uninit", st, fr, ins, what="store through an indeterminate pointer")
            return
        raise Imprecise("store through %s at %s" % (show(p), self.prog.loc(ins)))

    def memcpy(self, st, fr, ins, d, s, n):
        d, s = restrict_term(d, st.pc), restrict_term(s, st.pc)
        n = restrict_term(n, st.pc)
        if n.op == "int" and n.a[0] == 0:
            return
        if n.op == "ite" or d.op == "ite" or s.op == "ite":
            t = n if n.op == "ite" else (d if d.op == "ite" else s)
            c = t.a[0]
            outs = []
            for cond, br in ((c, 1), (bdd.NOT(c), 2)):
                x = st.copy()
                x.pc = bdd.AND(st.pc, cond)
                if x.pc:
                    self.memcpy(x, fr, ins, *(u if u is not t else t.a[br] for u in (d, s, n)))
                    outs.append(x)
            st.mem = self.merge_states(outs).mem
            return
        if d.op != "ptr" or s.op != "ptr":
            raise Imprecise("memcpy operands %s %s" % (show(d), show(s)))
        sz = n.a[0] if n.op == "int" else n
        self.check_access(st, fr, ins, s.a[0], s.a[1], sz, False, what="memcpy source")
        self.check_access(st, fr, ins, d.a[0], d.a[1], sz, True, what="memcpy destination")
        if d.a[0] == NULLOBJ or s.a[0] == NULLOBJ:
            return
        if not self.quiet:
            self.event("memcpy", st, fr, ins, dst=d, src=s, n=n)
        src = self.content(st, s.a[0])
        dst = self.content(st, d.a[0])
        if n.op == "int" and d.a[1].op == "int" and s.a[1].op == "int":
            if src.base[0] == "line" and d.a[1].a[0] == s.a[1].a[0] == 0 and n.a[0] == src.base[2] and \
                    self.objs.get(d.a[0], {}).get("size") == n.a[0]:
                st.mem[d.a[0]] = src            # the whole buffer: the copy is that line as well
                return
            st.mem[d.a[0]] = self.M.copy_range(src, s.a[1].a[0], n.a[0], dst, d.a[1].a[0])
            return
        if n.op == "int" and d.a[1].op == "int" and src.base[0] == "line" and not src.cells:
            st.mem[d.a[0]] = dst.with_cell(d.a[1].a[0], n.a[0], mk("lslice", src.base[1], s.a[1]))
            return
        if n.op == "int" and d.a[1].op == "int" and n.a[0] <= 4096:
            st.mem[d.a[0]] = dst.with_cell(d.a[1].a[0], n.a[0],
                                           mk("bits", mk("sel", self.content_id(src), s.a[1], n.a[0], "o"), 0, n.a[0]))
            return
        # symbolic length
        lo, hi = rng(n, st.pc)
        if d.a[1].op == "int" and hi <= 256 and s.a[1].op == "int":
            # byte-wise gated copy
            c = dst
            for i in range(int(hi)):
                e = icmp("sgt", n, I(i), st.pc).a[0]
                if e == 0:
                    continue
                so, do = s.a[1].a[0] + i, d.a[1].a[0] + i
                o = self.objs.get(s.a[0])
                nv = self.M.load(src, so, 1, "i8")
                if e == 1:
                    c = c.with_cell(do, 1, nv)
                else:
                    c = c.with_cell(do, 1, ite(e, nv, self.M.load(c, do, 1, "i8")))
            st.mem[d.a[0]] = c
            return
        st.mem[d.a[0]] = Content(("sym", self.fresh_name("hav:%s" % d.a[0])))

    def memset(self, st, fr, ins, d, v, n):
        d = restrict_term(d, st.pc)
        n = restrict_term(n, st.pc)
        if d.op != "ptr" or (n.op == "ite"):
            t = d if d.op == "ite" else n
            if t.op != "ite":
                raise Imprecise("memset")
            outs = []
            c = t.a[0]
            for cond, br in ((c, 1), (bdd.NOT(c), 2)):
                x = st.copy()
                x.pc = bdd.AND(st.pc, cond)
                if x.pc:
                    self.memset(x, fr, ins, t.a[br] if t is d else d, v, t.a[br] if t is n else n)
                    outs.append(x)
            st.mem = self.merge_states(outs).mem
            return
        sz = n.a[0] if n.op == "int" else n
        if sz == 0:
            return
        self.check_access(st, fr, ins, d.a[0], d.a[1], sz, True, what="memset")
        if d.a[0] == NULLOBJ:
            return
        c = self.content(st, d.a[0])
        if v.op == "int":
            v = I(s8(v.a[0]))
        if n.op == "int" and d.a[1].op == "int":
            st.mem[d.a[0]] = c.with_cell(d.a[1].a[0], n.a[0], mk("fill", v))
            return
        lo, hi = rng(n, st.pc)
        olo, ohi = rng(d.a[1], st.pc)
        if hi + (ohi - olo) <= 256 and olo > -INF:
            for k in range(int(olo), int(ohi + hi)):
                e1 = icmp("sle", d.a[1], I(k), st.pc).a[0]
                e2 = icmp("sgt", add(d.a[1], n), I(k), st.pc).a[0]
                e = bdd.AND(e1, e2)
                if e == 0:
                    continue
                c = c.with_cell(k, 1, v if e == 1 else ite(e, v, self.M.load(c, k, 1, "i8")))
            st.mem[d.a[0]] = c
            return
        st.mem[d.a[0]] = Content(("sym", self.fresh_name("hav:%s" % d.a[0])))

    # ------------------------------------------------------------ merging
    def merge_states(self, sts):
        sts = [s for s in sts if s.pc != 0]
        if not sts:
            return None
        cur = sts[0]
        for s in sts[1:]:
            tot = bdd.OR(cur.pc, s.pc)
            c = bdd.restrict(cur.pc, tot)
            # prefer the simpler of pc / complement of the other side
            c2 = bdd.NOT(bdd.restrict(s.pc, tot))
            if len(bdd.support(c2)) < len(bdd.support(c)):
                c = c2
            mem = {}
            for k in cur.mem.keys() | s.mem.keys():
                a, b = cur.mem.get(k), s.mem.get(k)
                if a is b:
                    mem[k] = a
                elif a is None:
                    mem[k] = b if self.objs[k]["kind"] not in ("global", "ext") else \
                        self.M.merge_content(c, self.lazy_content(k), b)
                elif b is None:
                    mem[k] = a if self.objs[k]["kind"] not in ("global", "ext") else \
                        self.M.merge_content(c, a, self.lazy_content(k))
                else:
                    mem[k] = self.M.merge_content(c, a, b)
            exc = cur.exc if cur.exc is s.exc else (
                ite(c, cur.exc, s.exc) if cur.exc is not None and s.exc is not None else (cur.exc or s.exc))
            cau = cur.caught if cur.caught is s.caught else (
                ite(c, cur.caught, s.caught) if cur.caught is not None and s.caught is not None
                else (cur.caught or s.caught))
            cur = State(tot, mem, exc, cau)
        if len(sts) == 1:
            cur = cur.copy()
        return cur

    # ------------------------------------------------------------ functions
    def call_func(self, fn, args, st, stack, depth=0):
        """-> (ret Term|None, normal State|None, throw State|None)"""
        if depth > self.MAXDEPTH:
            raise Imprecise("call depth")
        if sum(1 for s in stack if s[0] == fn.dem) > 3:
            raise Imprecise("recursion in " + fn.dem)
        self.stats["funcs"].add(fn.name)
        self.stats["calls"] += 1
        self.frames += 1
        fr = Frame(fn, stack, "f%d" % self.frames)
        fr.depth = depth
        for a, v in zip(fn.args, args):
            fr.regs[a["id"]] = v
        exits = self.run_region(fr, None, 0, [(None, st)], None)
        rets = exits.pop("ret", [])
        thr = exits.pop("throw", [])
        assert not exits, exits.keys()
        rv = None
        if rets:
            tot = 0
            for v, s in rets:
                if rv is None:
                    rv, tot = v, s.pc
                elif v is not None:
                    nt = bdd.OR(tot, s.pc)
                    rv = ite(bdd.restrict(tot, nt), rv, v) if rv is not v else rv
                    tot = nt
        ns = self.merge_states([s for _, s in rets]) if rets else None
        if rv is not None and ns is not None:
            rv = restrict_term(rv, ns.pc)
        ts = self.merge_states(thr) if thr else None
        return rv, ns, ts

    def run_region(self, fr, blocks, start, ins, header):
        cfg = fr.fn.cfg()
        pending = defaultdict(list)
        pending[start] = ins
        exits = defaultdict(list)
        back = []
        first = True
        for b in cfg["order"]:
            if blocks is not None and b not in blocks:
                continue
            lst = pending.pop(b, None)
            if not lst:
                continue
            lst = [(p, s) for p, s in lst if s.pc != 0]
            if not lst:
                continue
            if b in cfg["loops"] and b != header:
                ex = self.run_loop(fr, b, cfg["loops"][b], lst)
                for tgt, l in ex.items():
                    if tgt in ("ret", "throw"):
                        exits[tgt] += l
                    elif tgt == header and header is not None:
                        back += l
                    elif blocks is None or tgt in blocks:
                        pending[tgt] += l
                    else:
                        exits[tgt] += l
                continue
            st = self.enter_block(fr, b, lst)
            for tgt, x in self.exec_block(fr, b, st):
                if tgt in ("ret", "throw"):
                    exits[tgt].append(x)
                    continue
                if x.pc == 0:
                    continue
                if header is not None and tgt == header:
                    back.append((b, x))
                elif blocks is None or tgt in blocks:
                    pending[tgt].append((b, x))
                else:
                    exits[tgt].append((b, x))
        if header is not None:
            exits["back"] = back
        return exits

    def enter_block(self, fr, b, lst):
        st = self.merge_states([s for _, s in lst])
        phis = {}
        for i in fr.fn.blocks[b]:
            if i["o"] != "phi":
                break
            inc = {p: v for v, p in i["in"]}
            val, tot = None, 0
            for p, s in lst:
                x = restrict_term(self.val(fr, inc[p]), s.pc)
                if val is None:
                    val, tot = x, s.pc
                else:
                    nt = bdd.OR(tot, s.pc)
                    val = ite(bdd.restrict(tot, nt), val, x) if val is not x else val
                    tot = nt
            phis[i["id"]] = restrict_term(val, st.pc)
        fr.regs.update(phis)
        return st

    # ------------------------------------------------------------ loops
    def run_loop(self, fr, header, body, ins):
        mark = len(self.log)
        lmark = len(self.loops)
        cnt = dict(self.counters)
        saved_fold = fr.folded
        result = defaultdict(list)
        cur = ins
        dists = {}
        ok = False
        unknown_folds = stale = 0
        script = len(self.script) if getattr(self, "script", None) is not None else None
        before = None
        quiet, cmps0 = 0, {}
        for it in range(self.UNROLL + 1):
            fr.folded = []
            ex = self.run_region(fr, body, header, cur, header)
            back = ex.pop("back")
            for k, l in ex.items():
                result[k] += l
            folded = [f for f in fr.folded if f[0] == header]
            if not back:
                ok = True
                break
            if script is not None and it >= script:
                now = [(b, x.pc, x.mem) for b, x in back]
                if self.same_round(now, before) and any(e["kind"] == "getline" for e in self.log[mark:]):
                    self.event("endless", back[0][1], fr, fr.fn.blocks[header][0], what="a round of the loop changes nothing")
                    ok = True
                    break
                before = now
            elif script is None and getattr(self, "exhausted", False):
                # the file has ended: a round that changes nothing is repeated forever
                now = [(b, x.pc, x.mem) for b, x in back]
                if self.same_round(now, before) and any(e["kind"] == "getline" for e in self.log[mark:]):
                    self.event("endless", back[0][1], fr, fr.fn.blocks[header][0], what="a round of the loop changes nothing")
                    ok = True
                    break
                before = now
                if it < 4:
                    cur = back
                    continue
                cmps = dict(fr.cmpdist)
                nears = any(d is not None and cmps0.get(k) is not None and d < cmps0[k] for k, d in cmps.items())
                cmps0 = cmps
                if not nears and len(back) == 1 and any(e["kind"] == "getline" for e in self.log[mark:]):
                    # ... and no comparison comes nearer to another outcome
                    quiet += 1
                    if quiet > 8:
                        self.event("endless", back[0][1], fr, fr.fn.blocks[header][0], what="nothing brings the loop nearer to an exit")
                        ok = True
                        break
                    cur = back
                    continue
            if it < self.force_unroll:
                cur = back
                continue
            if not folded:
                if it < self.data_unroll:
                    cur = back
                    continue
                break
            # nearest predicted exit
            ds = {}
            for f in folded:
                if f[1] is not None:
                    ds[f[2]] = min(f[1], ds.get(f[2], f[1]))
            if not ds:
                unknown_folds += 1
                if unknown_folds > max(8, self.data_unroll):
                    break
            else:
                # any one exit that comes nearer will do
                near = far = False
                for k, d in ds.items():
                    o = dists.get(k)
                    dists[k] = d
                    near = near or o is None or (o > d and d / (o - d) <= self.UNROLL)
                    far = far or o is not None and o > d
                if not near:
                    stale += 1
                    if far or stale > max(8, self.data_unroll):
                        break
            cur = back
        fr.folded = saved_fold
        if not ok and script is not None and it >= self.UNROLL and any(e["kind"] == "getline" for e in self.log[mark:]):
            self.event("endless", back[0][1], fr, fr.fn.blocks[header][0], what="the loop still runs after %d rounds" % it)
            ok = True
        if ok:
            return result
        del self.log[mark:]
        del self.loops[lmark:]
        self.counters.clear()
        self.counters.update(cnt)
        return self.widen_loop(fr, header, body, ins)

    def same_round(self, now, before):
        """two rounds of a loop end in the same states"""
        if before is None or len(now) != len(before):
            return False
        for (b, pc, m), (b2, pc2, m2) in zip(now, before):
            if b != b2 or pc != pc2 or len(m) != len(m2):
                return False
            for k, c in m.items():
                d = m2.get(k)
                if c is not d and (d is None or c.base != d.base or c.cells != d.cells):
                    return False
        return True

    def loop_sym(self, fr, header, obj, off, kind, lo=None, hi=None, gen=0):
        ln = None
        for i in fr.fn.blocks[header]:
            if "ln" in i:
                ln = i["ln"]
                break
        n = "loop(%s:%s)%s.%s+%s" % (fr.fn.d.get("name", fr.fn.name), ln, fr.ltag.get(header, ""), obj, off)
        if gen:
            n += "'%d" % gen
        return sym(n, kind, lo, hi)

    def widen_loop(self, fr, header, body, ins):
        st0 = self.enter_block(fr, header, ins)
        # every visit of the loop has symbols of its own
        fr.ltag[header] = self.fresh_name("visit(%s:%d)" % (fr.fn.name, header)).partition("#")[2]
        if fr.ltag[header]:
            fr.ltag[header] = "#" + fr.ltag[header]
        hasphi = fr.fn.blocks[header][0]["o"] == "phi"
        if hasphi:
            # short-circuit phis in a header do not occur at -O0 except for
            # array construction loops; treat them as havoc
            pass
        syms = {}       # (obj,off,size) -> dict(sym,init,lo,hi,kind)
        bases = {}      # obj -> base content replaced
        mark, lmark = len(self.log), len(self.loops)
        cnt = dict(self.counters)
        narrowed = False
        hist = None
        for rnd in range(40):
            del self.log[mark:]
            del self.loops[lmark:]
            self.counters.clear()
            self.counters.update(cnt)
            H = st0.copy()
            for (o, off, size), d in syms.items():
                if o in bases:
                    continue
                H.mem[o] = self.content(H, o).with_cell(off, size, d["sym"])
            for o, b in bases.items():
                H.mem[o] = b["content"]
                for (o2, off, size), d in syms.items():
                    if o2 == o:
                        H.mem[o] = H.mem[o].with_cell(off, size, d["sym"])
            Hmem = dict(H.mem)
            ex = self._region_from(fr, body, header, H, hasphi)
            back = ex.pop("back")
            if not back:
                self.note_loop(fr, header, syms, bases, None, st0, ex)
                return ex
            Sb = self.merge_states([s for _, s in back])
            changed = False
            for o in list(Sb.mem.keys()):
                if o not in Hmem:
                    ob = self.objs.get(o)
                    if ob is None or ob["kind"] not in ("ext", "global"):
                        continue          # created inside the body
                    Hmem[o] = self.lazy_content(o)
                a, b = Hmem[o], Sb.mem[o]
                if a is b:
                    continue
                if self._diff(fr, header, st0, Sb, o, a, b, syms, bases, rnd):
                    changed = True
            if not changed:
                if not narrowed:
                    narrowed = True
                    hist = {k: (d["sym"], d["lo"], d["hi"]) for k, d in syms.items()}
                    if self._narrow(fr, header, st0, Sb, syms):
                        changed = True
                        continue
                self.note_loop(fr, header, syms, bases, Sb, st0, ex)
                return ex
            elif narrowed and hist is not None:
                # narrowing was unsound: go back to the widened solution
                for k, (s, lo, hi) in hist.items():
                    if k in syms:
                        syms[k].update(sym=s, lo=lo, hi=hi)
                hist = None
        raise Imprecise("loop in %s does not stabilise" % fr.fn.dem)

    def _region_from(self, fr, body, header, H, hasphi):
        """run the loop body from the (already entered) header state"""
        cfg = fr.fn.cfg()
        if hasphi:
            for i in fr.fn.blocks[header]:
                if i["o"] != "phi":
                    break
                v = fr.regs[i["id"]]
                n = "phi(%s:%d%s).%d" % (fr.fn.d.get("name", fr.fn.name), header, fr.ltag.get(header, ""), i["id"])
                if i["t"] == "ptr" and v.op == "ptr":
                    fr.regs[i["id"]] = ptr(v.a[0], sym(n, "i"))
                else:
                    fr.regs[i["id"]] = sym(n, kind_of(i["t"]))
        pend = defaultdict(list)
        exits = defaultdict(list)
        back = []
        for tgt, x in self.exec_block(fr, header, H):
            if tgt in ("ret", "throw"):
                exits[tgt].append(x)
            elif x.pc == 0:
                pass
            elif tgt == header:
                back.append((header, x))
            elif tgt in body:
                pend[tgt].append((header, x))
            else:
                exits[tgt].append((header, x))
        for b in cfg["order"]:
            if b not in body or b == header:
                continue
            lst = [(p, s) for p, s in pend.pop(b, []) if s.pc != 0]
            if not lst:
                continue
            if b in cfg["loops"]:
                res = self.run_loop(fr, b, cfg["loops"][b], lst)
                items = []
                for tgt, l in res.items():
                    for x in l:
                        items.append((tgt, x))
                for tgt, x in items:
                    if tgt in ("ret", "throw"):
                        exits[tgt].append(x)
                    elif tgt == header:
                        back.append(x)
                    elif tgt in body:
                        pend[tgt].append(x)
                    else:
                        exits[tgt].append(x)
                continue
            st = self.enter_block(fr, b, lst)
            for tgt, x in self.exec_block(fr, b, st):
                if tgt in ("ret", "throw"):
                    exits[tgt].append(x)
                elif x.pc == 0:
                    pass
                elif tgt == header:
                    back.append((b, x))
                elif tgt in body:
                    pend[tgt].append((b, x))
                else:
                    exits[tgt].append((b, x))
        exits["back"] = back
        return exits

    def _cell_ty(self, *vs):
        if all(v.op == "bool" for v in vs):
            return "b"
        for v in vs:
            for l in leaves(v):
                if l.op == "ptr":
                    return "p"
                if isf(l):
                    return "f"
                if l.op in ("int", "lin", "bool", "ch", "slen") or (l.op == "sym" and l.a[1] == "i"):
                    return "i"
        return "o"

    def _diff(self, fr, header, st0, Sb, o, a, b, syms, bases, rnd):
        changed = False
        if a.base != b.base and not (o in bases and bases[o].get("hav")):
            # base changed: line buffers stay line buffers
            self._base_change(fr, header, st0, o, a, b, syms, bases)
            return True
        offs = {(k, s) for k, (s, v) in a.cells.items()} | {(k, s) for k, (s, v) in b.cells.items()}
        if o in bases and bases[o].get("hav"):
            return False
        # overlapping partitions: havoc the object
        items = sorted(offs)
        for i in range(len(items) - 1):
            if items[i][0] + items[i][1] > items[i + 1][0]:
                self._havoc(fr, header, st0, o, bases, syms)
                return True
        for off, s in items:
            va = a.cells.get(off, (s, None))[1]
            vb = b.cells.get(off, (s, None))[1]
            if va is vb:
                continue
            if va is None or vb is None:
                ref = vb if va is None else va
                ty = self._cell_ty(ref)
                ty = {"p": "ptr", "f": "double" if s == 8 else "float", "i": "i%d" % (8 * s), "b": "i1"}.get(ty)
                if ty is None or s not in (1, 2, 4, 8):
                    if va is None:
                        va = self.M._piece(a, a.overlapping(off, s), off, s)
                    if vb is None:
                        vb = self.M._piece(b, b.overlapping(off, s), off, s)
                else:
                    if va is None:
                        va = self.M.load(a, off, s, ty)
                    if vb is None:
                        vb = self.M.load(b, off, s, ty)
                if va is vb:
                    continue
            key = (o, off, s)
            d = syms.get(key)
            kind = self._cell_ty(va, vb)
            init = va if d is None else d["init"]
            if d is None:
                d = self._new_loopsym(fr, header, st0, Sb, o, off, s, init, vb, kind)
                syms[key] = d
                changed = True
                continue
            if d["kind"] == "i":
                l, h = rng(vb, Sb.pc)
                if l < d["lo"] or h > d["hi"]:
                    lo = d["lo"] if l >= d["lo"] else (-INF if d["gen"] > 0 else l)
                    hi = d["hi"] if h <= d["hi"] else (INF if d["gen"] > 0 else h)
                    d["gen"] += 1
                    d["lo"], d["hi"] = lo, hi
                    d["sym"] = self.loop_sym(fr, header, o, off, "i",
                                             None if lo == -INF else lo, None if hi == INF else hi)
                    changed = True
                if self.undef_cond(vb, Sb.pc) and not d.get("undef"):
                    d["undef"] = True
            elif d["kind"] == "p":
                objs = {x.a[0] for x in leaves(vb) if x.op == "ptr"}
                if d["obj"] is not None and objs - {d["obj"]}:
                    # a pointer that may denote different objects
                    d["obj"] = None
                    n = "loopptr(%s:%s).%s+%d" % (fr.fn.d.get("name"), str(header) + fr.ltag.get(header, ""), o, off)
                    self.objs.setdefault(n, dict(size=None, kind="ext", name=n))
                    d["sym"] = ptr(n, I(0))
                    changed = True
                elif d["obj"] is not None:
                    # offset interval
                    l, h = self._off_rng(vb, Sb.pc)
                    if l < d["lo"] or h > d["hi"]:
                        lo = d["lo"] if l >= d["lo"] else (-INF if d["gen"] > 0 else l)
                        hi = d["hi"] if h <= d["hi"] else (INF if d["gen"] > 0 else h)
                        d["gen"] += 1
                        d["lo"], d["hi"] = lo, hi
                        k = d["stride"]
                        d["sym"] = ptr(d["obj"], self._stride_sym(fr, header, o, off, d, lo, hi))
                        changed = True
        return changed

    def _off_rng(self, v, pc):
        lo, hi = INF, -INF
        if v.op == "ite":
            c = v.a[0]
            for x, p in ((v.a[1], bdd.AND(pc, c)), (v.a[2], bdd.AND(pc, bdd.NOT(c)))):
                if p:
                    l, h = self._off_rng(x, p)
                    lo, hi = min(lo, l), max(hi, h)
            return lo, hi
        if v.op == "ptr":
            return rng(v.a[1], pc)
        return -INF, INF

    def _stride_sym(self, fr, header, o, off, d, lo, hi):
        k, base = d["stride"], d["base"]
        if k > 1:
            l = None if lo == -INF else -((base - lo) // k) if lo <= base else (lo - base + k - 1) // k
            h = None if hi == INF else (hi - base) // k
            s = self.loop_sym(fr, header, o, off, "i", l, h)
            return add(mulc(s, k), I(base))
        return self.loop_sym(fr, header, o, off, "i", None if lo == -INF else lo,
                             None if hi == INF else hi)

    def _new_loopsym(self, fr, header, st0, Sb, o, off, s, init, back, kind):
        d = dict(init=init, kind=kind, gen=0, lo=None, hi=None, obj=None)
        if kind == "i":
            l1, h1 = rng(init, st0.pc) if init.op != "undef" else (INF, -INF)
            l2, h2 = rng(back, Sb.pc) if back.op != "undef" else (INF, -INF)
            lo, hi = min(l1, l2), max(h1, h2)
            if lo > hi:
                lo, hi = -INF, INF
            d["lo"], d["hi"] = lo, hi
            d["sym"] = self.loop_sym(fr, header, o, off, "i", None if lo == -INF else lo,
                                     None if hi == INF else hi)
        elif kind == "f":
            d["sym"] = self.loop_sym(fr, header, o, off, "f")
        elif kind == "b":
            d["sym"] = Bv(bdd.var(self.loop_sym(fr, header, o, off, "b")))
        elif kind == "p":
            oi = {x.a[0] for x in leaves(init) if x.op == "ptr"}
            ob = {x.a[0] for x in leaves(back) if x.op == "ptr"}
            if len(oi | ob) == 1:
                d["obj"] = next(iter(oi | ob))
                l1, h1 = self._off_rng(init, st0.pc) if oi else (INF, -INF)
                l2, h2 = self._off_rng(back, Sb.pc)
                d["lo"], d["hi"] = min(l1, l2), max(h1, h2)
                base = init.a[1].a[0] if init.op == "ptr" and init.a[1].op == "int" else None
                k = 1
                if base is not None and l2 != -INF and h2 != INF and back.op == "ptr":
                    dd = sub(back.a[1], init.a[1])
                    k = abs(dd.a[0]) if dd.op == "int" and dd.a[0] else 1
                d["stride"], d["base"] = k, base if base is not None else 0
                d["sym"] = ptr(d["obj"], self._stride_sym(fr, header, o, off, d, d["lo"], d["hi"]))
            else:
                n = "loopptr(%s:%s).%s+%d" % (fr.fn.d.get("name"), str(header) + fr.ltag.get(header, ""), o, off)
                self.objs.setdefault(n, dict(size=None, kind="ext", name=n))
                d["sym"] = ptr(n, I(0))
        else:
            d["sym"] = mk("bits", mk("opqbase", "loop(%s:%s).%s+%d" % (fr.fn.d.get("name"), str(header) + fr.ltag.get(header, ""), o, off)), 0, s)
        return d

    def _narrow(self, fr, header, st0, Sb, syms):
        ch = False
        for (o, off, s), d in syms.items():
            if d["kind"] == "i" and (d["lo"] == -INF or d["hi"] == INF or d["gen"] > 0):
                vb = self.M.load(Sb.mem[o], off, s, "i%d" % (8 * s)) if o in Sb.mem else None
                if vb is None:
                    continue
                l1, h1 = rng(d["init"], st0.pc) if d["init"].op != "undef" else (INF, -INF)
                l2, h2 = rng(vb, Sb.pc)
                lo, hi = max(min(l1, l2), d["lo"]), min(max(h1, h2), d["hi"])
                if lo > d["lo"] or hi < d["hi"]:
                    d["lo"], d["hi"] = lo, hi
                    d["sym"] = self.loop_sym(fr, header, o, off, "i", None if lo == -INF else lo,
                                             None if hi == INF else hi)
                    ch = True
        return ch

    def _base_change(self, fr, header, st0, o, a, b, syms, bases):
        def line_cap(x):
            if x.base[0] == "line":
                return x.base[2]
            return None
        la, lb = line_cap(a), line_cap(b)
        if la is not None and lb is not None or (lb is not None and o not in bases):
            if o in bases and bases[o].get("line"):
                # already a loop line: widening is stable by construction when
                # the back edge is any line of the same capacity
                if lb <= bases[o]["cap"]:
                    bases[o]["hav"] = True
                    return
            cap = max(x for x in (la, lb) if x is not None)
            L = mk("L", "loopline(%s:%s).%s" % (fr.fn.d.get("name"), str(header) + fr.ltag.get(header, ""), o), cap - 1)
            init_line = la is not None
            prev = Content(("uninit",)) if not init_line else a
            cells = {}
            if not init_line:
                # first iteration sees the old content
                base = ("merge", bdd.var(mk("sym", "first(%s:%s)" % (fr.fn.d.get("name"), str(header) + fr.ltag.get(header, "")), "b", None, None)),
                        a, Content(("line", L, cap, prev)))
            else:
                base = ("line", L, cap, prev)
            bases[o] = dict(content=Content(base), line=True, cap=cap, hav=True, init=a)
            return
        self._havoc(fr, header, st0, o, bases, syms)

    def _havoc(self, fr, header, st0, o, bases, syms):
        for k in [k for k in syms if k[0] == o]:
            del syms[k]
        bases[o] = dict(content=Content(("sym", "hav(%s:%s).%s" % (fr.fn.d.get("name"), str(header) + fr.ltag.get(header, ""), o))),
                        hav=True, init=st0.mem.get(o))

    def note_loop(self, fr, header, syms, bases, Sb, st0, ex):
        ln = None
        for i in fr.fn.blocks[header]:
            if "ln" in i:
                ln = self.prog.loc(i)
                break
        rec = {}
        for (o, off, s), d in syms.items():
            nxt = None
            if Sb is not None and o in Sb.mem:
                ty = {"p": "ptr", "f": "double" if s == 8 else "float", "i": "i%d" % (8 * s)}.get(d["kind"])
                try:
                    nxt = self.M.load(Sb.mem[o], off, s, ty)
                except Exception:
                    nxt = None
            rec[(o, off, s)] = dict(sym=d["sym"], init=d["init"], next=nxt)
        self.loops.append(dict(fn=fr.fn.dem, header=header, loc=ln, syms=rec, pc=st0.pc,
                               bases=list(bases), backpc=Sb.pc if Sb else 0, stack=fr.stack,
                               exits=ex, Sb=Sb, st0=st0))

    # ------------------------------------------------------------ blocks
    def exec_block(self, fr, b, st):
        out = []
        prog = self.prog
        for i in fr.fn.blocks[b]:
            o = i["o"]
            if o == "phi":
                continue
            self.steps += 1
            if self.steps > self.max_steps:
                raise Imprecise("step budget exhausted in %s" % fr.fn.dem)
            self.state = st
            if o == "br":
                if not i["a"]:
                    out.append((i["succ"][0], st))
                    return out
                c = restrict_term(self.val(fr, i["a"][0]), st.pc)
                t, f = i["succ"]
                if c.op != "bool":
                    u = self.undef_cond(c, st.pc)
                    self.event("uninit", st, fr, i, what="branch on an indeterminate value")
                    c = Bv(bdd.var(sym(self.fresh_name("undefbr"), "b")))
                cb = c.a[0]
                if cb in (0, 1) and fr.folded is not None:
                    self.note_fold(fr, b, t, f, i)
                if cb == 1:
                    out.append((t, st))
                elif cb == 0:
                    out.append((f, st))
                else:
                    p1 = assume(st.pc, cb)
                    p2 = assume(st.pc, bdd.NOT(cb))
                    if p1 and not p2:
                        st.pc = p1
                        if fr.folded is not None:
                            self.note_fold(fr, b, t, f, i)
                        out.append((t, st))
                    elif p2 and not p1:
                        st.pc = p2
                        if fr.folded is not None:
                            self.note_fold(fr, b, t, f, i)
                        out.append((f, st))
                    elif p1 and p2:
                        s2 = st.copy()
                        st.pc, s2.pc = p1, p2
                        out.append((t, st))
                        out.append((f, s2))
                return out
            if o == "switch":
                v = restrict_term(self.val(fr, i["a"][0]), st.pc)
                if self.undef_cond(v, st.pc) == st.pc:
                    self.event("uninit", st, fr, i, what="switch on an indeterminate value")
                    v = sym(self.fresh_name("undefsw"), "i")
                rest = st.pc
                by = defaultdict(list)
                for k, tgt in i["cases"]:
                    e = icmp("eq", v, I(k), rest)
                    e = e.a[0] if e.op == "bool" else 0
                    p = assume(rest, e)
                    if p:
                        by[tgt].append(p)
                        rest = assume(rest, bdd.NOT(e))
                if rest:
                    by[i["def"]].append(rest)
                for tgt, ps in by.items():
                    s2 = st.copy()
                    pc = 0
                    for p in ps:
                        pc = bdd.OR(pc, p)
                    s2.pc = pc
                    out.append((tgt, s2))
                return out
            if o == "ret":
                v = restrict_term(self.val(fr, i["a"][0]), st.pc) if i["a"] else None
                if v is not None:
                    u = self.undef_cond(v, st.pc)
                    if u and not (v.op == "undef" and False):
                        self.event("uninit", st, fr, i, what="returned value", cond=u)
                out.append(("ret", (v, st)))
                return out
            if o == "unreachable":
                return out
            if o == "resume":
                out.append(("throw", st))
                return out
            if o in ("call", "invoke"):
                rv, ns, ts = self.do_call(fr, i, st)
                if o == "invoke":
                    if ts is not None and ts.pc:
                        out.append((i["unwind"], ts))
                    if ns is None or ns.pc == 0:
                        return out
                    if rv is not None:
                        fr.regs[i["id"]] = rv
                    else:
                        fr.regs[i["id"]] = UNDEF
                    out.append((i["normal"], ns))
                    return out
                if ts is not None and ts.pc:
                    out.append(("throw", ts))
                if ns is None or ns.pc == 0:
                    return out
                st = ns
                fr.regs[i["id"]] = rv if rv is not None else UNDEF
                continue
            self.exec_simple(fr, i, st)
        raise Imprecise("block without terminator")

    def note_fold(self, fr, b, t, f, i):
        """record a constant-folded branch that could leave an enclosing loop"""
        loops = fr.fn.cfg()["loops"]
        d = None
        op = i["a"][0]
        if op[0] == "l":
            d = fr.cmpdist.get(op[1])
        for h, body in loops.items():
            if b in body and ((t in body) != (f in body)):
                fr.folded.append((h, d, i.get("id")))

    def exec_simple(self, fr, i, st):
        o = i["o"]
        R = fr.regs
        if o == "alloca":
            n = self.val(fr, i["a"][0])
            name = "%s:%s@%s.%d" % (fr.fn.d.get("name", fr.fn.name), i["name"], fr.tag, i["id"])
            size = i["size"]
            if n.op == "int":
                size *= n.a[0]
            else:
                size = mulc(n, size)
            self.new_obj(name, size, "stack", st)
            self.objs[name]["user"] = i["user"]
            self.objs[name]["var"] = i["name"]
            self.objs[name]["fn"] = fr.fn.dem
            R[i["id"]] = ptr(name, I(0))
        elif o == "load":
            p = self.val(fr, i["a"][0])
            v = self.load(st, fr, i, p, i["sz"], i["t"])
            u = self.undef_cond(v, st.pc)
            if u and i["t"][0] != "{" and i["t"][0] != "%" and i["t"][0] != "[":
                e = self.event("uninit", st, fr, i, what="read of an uninitialised location", ptr=p, cond=u)
            R[i["id"]] = v
        elif o == "store":
            v = self.val(fr, i["a"][0])
            p = self.val(fr, i["a"][1])
            if v.op in ("aggc",):
                for off, s, x in v.a[0]:
                    self.store(st, fr, i, self.gep(p, I(off)), s, x)
            elif v.op == "zeroagg":
                self.memset(st, fr, i, p, I(0), I(i["sz"]))
            elif any(x.op == "snap" for x in leaves(v)):
                self.store_snap(st, fr, i, p, v, i["sz"])
            elif v.op == "agg":
                self.store_agg(st, fr, i, p, v, i["st"])
            else:
                self.store(st, fr, i, p, i["sz"], v)
        elif o == "getelementptr":
            p = self.val(fr, i["a"][0])
            off = I(i["off"])
            for v, k, ty in i["vars"]:
                off = add(off, mulc(self.val(fr, v), k))
            R[i["id"]] = self.gep(p, off)
        elif o in ("icmp",):
            a, b = self.val(fr, i["a"][0]), self.val(fr, i["a"][1])
            a, b = restrict_term(a, st.pc), restrict_term(b, st.pc)
            if i["st"] in ("i8", "i16", "i32") and i["pred"][0] == "u":
                w = int(i["st"][1:])
                a, b = self.unsign(a, w, st.pc), self.unsign(b, w, st.pc)
            R[i["id"]] = icmp(i["pred"], a, b, st.pc)
            fr.cmpdist[i["id"]] = None
            if a.op == "int" and b.op == "int":
                fr.cmpdist[i["id"]] = abs(a.a[0] - b.a[0])
            elif a.op in ("int", "ite", "lin") and b.op in ("int", "ite", "lin"):
                lo, hi = rng(sub(a, b), st.pc)
                if lo > -INF and hi < INF and (lo > 0 or hi < 0):
                    fr.cmpdist[i["id"]] = min(abs(lo), abs(hi))
            elif a.op == "ptr" and b.op == "ptr" and a.a[0] == b.a[0]:
                d = sub(a.a[1], b.a[1])
                if d.op == "int":
                    fr.cmpdist[i["id"]] = abs(d.a[0])
        elif o == "fcmp":
            a, b = self.val(fr, i["a"][0]), self.val(fr, i["a"][1])
            R[i["id"]] = fcmp(i["pred"], restrict_term(a, st.pc), restrict_term(b, st.pc), st.pc)
        elif o in ("sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze", "sitofp",
                   "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "addrspacecast"):
            R[i["id"]] = self.cast(i, restrict_term(self.val(fr, i["a"][0]), st.pc), st)
            a0 = i["a"][0]
            if a0[0] == "l" and a0[1] in fr.cmpdist:
                fr.cmpdist[i["id"]] = fr.cmpdist[a0[1]]
        elif o in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl",
                   "lshr", "ashr"):
            a, b = self.val(fr, i["a"][0]), self.val(fr, i["a"][1])
            R[i["id"]] = self.arith(o, restrict_term(a, st.pc), restrict_term(b, st.pc), i["t"], st)
        elif o in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            a, b = self.val(fr, i["a"][0]), self.val(fr, i["a"][1])
            R[i["id"]] = self.farith(o, restrict_term(a, st.pc), restrict_term(b, st.pc))
        elif o == "fneg":
            a = self.val(fr, i["a"][0])
            R[i["id"]] = F(-a.a[0]) if a.op == "flt" else mk("fneg", a)
        elif o == "select":
            c, a, b = (self.val(fr, x) for x in i["a"])
            c = restrict_term(c, st.pc)
            if c.op != "bool":
                R[i["id"]] = mk("ite", bdd.var(sym(self.fresh_name("undefsel"), "b")), a, b)
            else:
                R[i["id"]] = ite(c.a[0], a, b)
        elif o == "landingpad":
            R[i["id"]] = self.landingpad(fr, i, st)
        elif o == "extractvalue":
            v = self.val(fr, i["a"][0])
            for k in i["idx"]:
                v = self.agg_get(v, k)
            R[i["id"]] = v
        elif o == "insertvalue":
            a, v = self.val(fr, i["a"][0]), self.val(fr, i["a"][1])
            R[i["id"]] = self.agg_set(a, i["idx"], v)
        elif o in ("extractelement", "insertelement", "shufflevector"):
            raise Imprecise("vector op")
        elif o == "atomicrmw" or o == "cmpxchg":
            raise Imprecise("atomic")
        elif o == "fence":
            pass
        else:
            raise Imprecise("opcode " + o)

    def unsign(self, t, w, pc):
        if t.op == "int":
            return I(t.a[0] % (1 << w))
        if rng(t, pc)[0] >= 0:
            return t
        if t.op == "ite" and nleaves(t, 64) <= 64:
            return lift(lambda x: self.unsign(x, w, pc), t)
        return mk("zext", t, w) if False else self.zext(t, w, pc)

    def zext(self, t, w, pc):
        if t.op == "int":
            return I(t.a[0] % (1 << w))
        if t.op == "bool":
            return t
        if t.op == "undef":
            return t
        if rng(t, pc)[0] >= 0:
            return t
        if t.op == "ite" and nleaves(t, 64) <= 64:
            return lift(lambda x: self.zext(x, w, pc), t)
        if w >= 32:
            return t
        return mk("zext", t, w)

    def agg_get(self, v, k):
        if v.op == "agg":
            return v.a[k] if k < len(v.a) else UNDEF
        if v.op == "ite":
            return ite(v.a[0], self.agg_get(v.a[1], k), self.agg_get(v.a[2], k))
        if v.op == "undef":
            return UNDEF
        if v.op == "zeroagg":
            return I(0)
        if v.op == "snap":
            return self.M.snap_get(v, k)
        return mk("xv", v, k)

    def agg_set(self, a, idx, v):
        items = list(a.a) if a.op == "agg" else []
        k = idx[0]
        while len(items) <= k:
            items.append(UNDEF)
        items[k] = v if len(idx) == 1 else self.agg_set(items[k], idx[1:], v)
        return mk("agg", *items)

    def store_agg(self, st, fr, i, p, v, ty):
        # literal struct types { T, T, ... } of scalar members
        body = ty.strip()
        if body.startswith("%"):
            raise Imprecise("store of named aggregate")
        parts = [x.strip() for x in body.strip("{} ").split(",")]
        off = 0
        for k, t in enumerate(parts):
            w = WIDTH.get(t)
            if w is None:
                raise Imprecise("store of aggregate " + ty)
            off = (off + w - 1) // w * w
            x = self.agg_get(v, k)
            q = self.gep(p, I(off))
            if any(y.op == "snap" for y in leaves(x)):
                self.store_snap(st, fr, i, q, x, w)
            else:
                self.store(st, fr, i, q, w, x)
            off += w

    def store_snap(self, st, fr, i, p, v, size):
        from .mem import SNAPS
        v, p = restrict_term(v, st.pc), restrict_term(p, st.pc)
        t = v if v.op == "ite" else p if p.op == "ite" else None
        if t is not None:
            outs = []
            for c, x in ((t.a[0], 1), (bdd.NOT(t.a[0]), 2)):
                s = st.copy()
                s.pc = bdd.AND(st.pc, c)
                if s.pc:
                    self.store_snap(s, fr, i, p if t is v else t.a[x], t.a[x] if t is v else v, size)
                    outs.append(s)
            st.mem = self.merge_states(outs).mem
            return
        if p.op != "ptr" or p.a[1].op != "int":
            raise Imprecise("aggregate store through %s" % show(p))
        if v.op == "agg":
            return self.store_agg(st, fr, i, p, v, i["st"])
        if v.op != "snap":
            return self.store(st, fr, i, p, size, v)
        self.stats["stores"] += 1
        self.check_access(st, fr, i, p.a[0], p.a[1], size, True)
        c, n, ty, _ = SNAPS[v.a[0]]
        st.mem[p.a[0]] = self.M.copy_range(c, 0, n, self.content(st, p.a[0]), p.a[1].a[0])

    def gep(self, p, off):
        if off.op == "int" and off.a[0] == 0:
            return p
        if p.op == "ptr":
            return ptr(p.a[0], add(p.a[1], off))
        if p.op == "ite":
            return ite(p.a[0], self.gep(p.a[1], off), self.gep(p.a[2], off))
        if p.op == "undef":
            return UNDEF
        return mk("gep", p, off)

    def cast(self, i, v, st):
        o, ty, sty = i["o"], i["t"], i.get("st", "")
        if v.op == "undef":
            return v
        if o in ("bitcast", "freeze", "addrspacecast"):
            return v
        if o in ("ptrtoint", "inttoptr"):
            return v
        if v.op == "snap" and o == "trunc":
            from .mem import SNAPS
            return self.M.load(SNAPS[v.a[0]][0], 0, WIDTH.get(ty, 8), ty)
        if o == "sext":
            return mulc(as_int(v), -1) if sty == "i1" else v
        if o == "zext":
            if v.op == "bool":
                return ite(v.a[0], I(1), I(0))
            return self.zext(v, int(sty[1:]), st.pc)
        if o == "trunc":
            w = int(ty[1:])
            if v.op == "bool":
                return v
            if w == 1:
                if v.op == "int":
                    return TRUE if v.a[0] & 1 else FALSE
                lo, hi = rng(v, st.pc)
                if lo >= 0 and hi <= 1:
                    r = icmp("ne", v, I(0), st.pc)
                    return r
                if v.op == "ite":
                    r = lift(lambda x: TRUE if x.op == "int" and x.a[0] & 1 else FALSE if x.op == "int" else
                             Bv(bdd.var(mk("bit0", x))), v)
                    if r is not None:
                        return r
                return Bv(bdd.var(mk("bit0", v)))

            def tr(x):
                if x.op == "int":
                    n = x.a[0] % (1 << w)
                    return I(n - (1 << w) if n >> (w - 1) else n)
                if x.op == "zext" and x.a[1] == w:
                    return x.a[0]
                lo, hi = rng(x, st.pc)
                if -(1 << (w - 1)) <= lo and hi < (1 << w):
                    return x
                if w >= 32:
                    return x          # wrap-around is not modelled
                return mk("trunc", x, w)
            r = lift(tr, v) if v.op == "ite" and nleaves(v, 64) <= 64 else tr(v)
            return r
        if o in ("sitofp", "uitofp"):
            def cv(x):
                if x.op == "int":
                    return F(x.a[0])
                return mk("sitofp", x)
            v = as_int(v)
            if v.op == "ite" and nleaves(v, 64) <= 64:
                return lift(cv, v)
            return cv(v)
        if o in ("fptosi", "fptoui"):
            def cv(x):
                if x.op == "flt":
                    return I(int(x.a[0]))
                return mk("fptosi", x)
            if v.op == "ite" and nleaves(v, 64) <= 64:
                return lift(cv, v)
            return cv(v)
        if o == "fpext":
            return v
        if o == "fptrunc":
            if v.op == "flt":
                import struct
                return F(struct.unpack("f", struct.pack("f", v.a[0]))[0])
            return mk("fptrunc", v)
        raise Imprecise(o)

    def arith(self, o, a, b, ty, st):
        if a.op == "undef" or b.op == "undef":
            return UNDEF
        if ty == "i1":
            x, y = a.a[0], b.a[0]
            if o == "and":
                return Bv(bdd.AND(x, y))
            if o == "or":
                return Bv(bdd.OR(x, y))
            if o in ("xor", "add", "sub"):
                return Bv(bdd.ite(x, bdd.NOT(y), y))
        a, b = as_int(a), as_int(b)
        # pointer differences (ptrtoint is the identity here)
        if a.op in ("ptr", "ite") or b.op in ("ptr", "ite"):
            if any(x.op == "ptr" for x in leaves(a)) or any(x.op == "ptr" for x in leaves(b)):
                r = lift(lambda x, y: self._parith(o, x, y, st), a, b)
                if r is None:
                    raise Imprecise("pointer arithmetic")
                return r
        if o == "add":
            return add(a, b)
        if o == "sub":
            return sub(a, b)
        if o == "mul":
            return mul(a, b)

        def f(x, y):
            if x.op == "int" and y.op == "int":
                m, n = x.a[0], y.a[0]
                w = int(ty[1:]) if ty[1:].isdigit() else 64
                try:
                    if o == "sdiv":
                        q = abs(m) // abs(n)
                        return I(q if (m < 0) == (n < 0) else -q)
                    if o == "udiv":
                        return I((m % (1 << w)) // (n % (1 << w)))
                    if o == "srem":
                        q = abs(m) % abs(n)
                        return I(-q if m < 0 else q)
                    if o == "urem":
                        return I((m % (1 << w)) % (n % (1 << w)))
                    if o == "and":
                        r = m & n
                    elif o == "or":
                        r = m | n
                    elif o == "xor":
                        r = m ^ n
                    elif o == "shl":
                        r = m << n
                    elif o == "ashr":
                        r = m >> n
                    elif o == "lshr":
                        r = (m % (1 << w)) >> n
                    r %= 1 << w
                    return I(r - (1 << w) if r >> (w - 1) else r)
                except (ZeroDivisionError, ValueError):
                    return UNDEF
            if o in ("sdiv", "udiv", "ashr", "lshr", "shl") and y.op == "int":
                k = y.a[0]
                if o == "shl":
                    return mulc(x, 1 << k)
                if o in ("ashr", "lshr"):
                    k = 1 << k
                if k == 1:
                    return x
                c, d = lin_parts(x)
                if k and c % k == 0 and all(v % k == 0 for v in d.values()):
                    return mk_lin(c // k, {t: v // k for t, v in d.items()})
                if o in ("sdiv", "udiv"):
                    return mk("sdiv", x, y)
                return mk(o, x, y)
            if o in ("srem", "urem") and y.op == "int":
                c, d = lin_parts(x)
                if c % y.a[0] == 0 and all(v % y.a[0] == 0 for v in d.values()):
                    return I(0)
                return mk("srem", x, y)
            if o in ("and", "or", "xor"):
                if x.op == "int":
                    x, y = y, x
                if y.op == "int":
                    if o == "and" and y.a[0] == -1 or o in ("or", "xor") and y.a[0] == 0:
                        return x
                    if o == "and" and y.a[0] == 0:
                        return I(0)
                if x is y and o in ("and", "or"):
                    return x
                if y.op != "int" and y.id < x.id:
                    x, y = y, x
            return mk(o, x, y)
        if (a.op == "ite" or b.op == "ite") and nleaves(a, 64) * nleaves(b, 64) <= 512:
            r = lift(f, a, b)
            if r is not None:
                return r
        return f(a, b)

    def _parith(self, o, x, y, st):
        if x.op == "int" and x.a[0] == 0 and o == "sub":
            x = NULL
        if o == "sub" and x.op == "ptr" and y.op == "ptr":
            if x.a[0] == y.a[0]:
                return sub(x.a[1], y.a[1])
            return mk("pdiff", x, y)
        if o == "sub" and x.op == "ptr":
            return ptr(x.a[0], sub(x.a[1], y))
        if o == "add" and x.op == "ptr" and y.op != "ptr":
            return ptr(x.a[0], add(x.a[1], y))
        if o == "add" and y.op == "ptr" and x.op != "ptr":
            return ptr(y.a[0], add(y.a[1], x))
        return mk("parith", mk("sym", o, "s", None, None), x, y)

    def farith(self, o, a, b):
        if a.op == "undef" or b.op == "undef":
            return UNDEF
        if a.op == "flt" and b.op == "flt":
            x, y = a.a[0], b.a[0]
            try:
                return F({"fadd": lambda: x + y, "fsub": lambda: x - y, "fmul": lambda: x * y,
                          "fdiv": lambda: x / y, "frem": lambda: math.fmod(x, y)}[o]())
            except (ZeroDivisionError, ValueError, OverflowError):
                pass
        if a.op == "ite" or b.op == "ite":
            if nleaves(a, 16) * nleaves(b, 16) <= 16:
                r = lift(lambda x, y: self.farith(o, x, y), a, b)
                if r is not None:
                    return r
        return mk(o, a, b)

    # ------------------------------------------------------------ exceptions
    BASES = {
        "_ZTISt13runtime_error": "_ZTISt9exception", "_ZTISt11logic_error": "_ZTISt9exception",
        "_ZTISt12out_of_range": "_ZTISt11logic_error",
        "_ZTISt16invalid_argument": "_ZTISt11logic_error",
        "_ZTISt12length_error": "_ZTISt11logic_error",
        "_ZTISt12domain_error": "_ZTISt11logic_error",
        "_ZTISt11range_error": "_ZTISt13runtime_error",
        "_ZTISt14overflow_error": "_ZTISt13runtime_error",
        "_ZTISt9bad_alloc": "_ZTISt9exception",
    }

    def exc_matches(self, thrown, caught):
        t = thrown
        while t is not None:
            if t == caught:
                return True
            t = self.BASES.get(t)
        return False

    def typeid_const(self, name):
        if not hasattr(self, "_tids"):
            self._tids = {}
        return I(self._tids.setdefault(name, len(self._tids) + 1))

    def landingpad(self, fr, i, st):
        exc = st.exc if st.exc is not None else mk("exc", "?")

        def selone(e, s):
            t = e.a[0]
            for is_catch, v in i["clauses"]:
                if v[0] == "n":
                    return I(9999)
                if v[0] == "g" and (self.exc_matches(t, v[1])):
                    return self.typeid_const(v[1])
            return I(0)
        sel = self.lift_ite(exc, st, selone)
        st.caught = exc
        for n in ("excobj", "excwhat", "excvtab"):
            self.objs.setdefault(n, dict(size=None, kind="ext", name=n))
        st.mem.setdefault("excobj", Content(("sym", "excobj")).with_cell(0, 8, ptr("excvtab")))
        return mk("agg", ptr("excobj"), sel)

    def throw(self, st, ty, cond=None):
        """split off a throwing state; returns it (or None)"""
        if cond is None:
            ts = st.copy()
            st.pc = 0
        else:
            p = assume(st.pc, cond)
            if p == 0:
                return None
            ts = st.copy()
            ts.pc = p
            st.pc = assume(st.pc, bdd.NOT(cond))
        ts.exc = mk("exc", ty)
        return ts

    # ------------------------------------------------------------ calls
    def do_call(self, fr, i, st):
        cal = i["callee"]
        args = [restrict_term(self.val(fr, a), st.pc) if a[0] != "m" else UNDEF for a in i["a"]]
        if cal[0] != "g":
            if args and args[0].op == "ptr" and args[0].a[0] == "excobj":
                return ptr("excwhat"), st, None      # what() of a caught exception
            self.event("unknown", st, fr, i, callee="indirect call", args=args)
            return mk("sym", self.fresh_name("indirect"), "o", None, None), st, None
        name = self.prog.resolve(cal[1])
        fn = self.prog.funcs.get(name)
        if fn is None:
            raise Imprecise("call of " + name)
        h = self.find_model(fn)
        if h is not None:
            r = h(self, st, args, i, fr, fn)
            if r is NotImplemented:
                stack = fr.stack + ((fr.fn.dem, self.prog.loc(i), self._in_repo(i)),)
                return self.call_func(fn, args, st, stack, fr.depth + 1)
            if isinstance(r, tuple):
                v, ts = r
            else:
                v, ts = r, None
            if isinstance(ts, list):
                ts = self.merge_states([t for t in ts if t is not None]) if any(ts) else None
            return v, (st if st.pc else None), ts
        if fn.decl:
            self.event("unknown", st, fr, i, callee=fn.dem, args=args)
            t = fn.d["ret"]
            if t == "void":
                return None, st, None
            nm = self.fresh_name("ret:" + fn.dem)
            if t == "ptr":
                self.objs.setdefault(nm, dict(size=None, kind="ext", name=nm))
                return ptr(nm, I(0)), st, None
            return sym(nm, kind_of(t)), st, None
        # by-value aggregates: callee works on a private copy
        if "byval" in i:
            for k, sz in i["byval"]:
                src = args[k]
                n = self.fresh_name("byval:%s.%d" % (fn.d.get("name", fn.name), k))
                self.new_obj(n, sz, "stack", st)
                q = self.quiet
                self.quiet = True
                self.memcpy(st, fr, i, ptr(n), src, I(sz))
                self.quiet = q
                args[k] = ptr(n)
        stack = fr.stack + ((fr.fn.dem, self.prog.loc(i), self._in_repo(i)),)
        return self.call_func(fn, args, st, stack, fr.depth + 1)

    def find_model(self, fn):
        if fn.name in self._mcache:
            return self._mcache[fn.name]
        h = None
        for r, f in self.overrides:
            if r.match(fn.dem) or r.match(fn.name):
                h = f
                break
        if h is None:
            for r, f in self.models:
                if r.match(fn.dem) or r.match(fn.name):
                    h = f
                    break
        self._mcache[fn.name] = h
        return h

    def override(self, pat, f):
        import re
        self.overrides = [o for o in self.overrides if o[0].pattern != pat]
        if f is not None:
            self.overrides.insert(0, (re.compile(pat), f))
        self._mcache.clear()

    # ------------------------------------------------------------ entry
    def run(self, fn, args, st=None):
        st = st or State()
        self.entry = fn
        return self.call_func(fn, args, st, ())
