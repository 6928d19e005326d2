"""Memory contents of one object: constant-offset cells over a base."""
from .terms import *

WIDTH = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8, "ptr": 8}


def kind_of(ty):
    if ty in ("float", "double"):
        return "f"
    if ty == "ptr":
        return "p"
    return "i"


class Content:
    __slots__ = ("base", "cells")

    def __init__(self, base, cells=None):
        self.base = base
        self.cells = cells or {}

    # base: ("uninit",) ("zero",) ("sym",name) ("line",L,cap,prev)
    #       ("merge",c,A,B) ("upd",prev,off,size,val) ("str",term)
    def with_cell(self, off, size, val):
        cells = {}
        for o, (s, v) in self.cells.items():
            if o + s <= off or o >= off + size:
                cells[o] = (s, v)
                continue
            if o < off:
                cells[o] = (off - o, sub_rng(v, s, 0, off - o))
            if o + s > off + size:
                cells[off + size] = (o + s - off - size,
                                     sub_rng(v, s, off + size - o, o + s - off - size))
        cells[off] = (size, val)
        return Content(self.base, cells)

    def overlapping(self, off, size):
        return sorted((o, s, v) for o, (s, v) in self.cells.items()
                      if o < off + size and off < o + s)


SNAPS, SNAPKEY = [], {}
SYMMEM = {}     # symbol -> (object, offset) it was read from


def is_rng(v):
    return v.op in ("fill", "lslice", "cslice", "uslice", "mslice", "bits")


def sub_rng(v, size, start, n):
    """sub-range [start, start+n) of a cell value of `size` bytes"""
    if start == 0 and n == size:
        return v
    if v.op == "fill":
        return v
    m = SYMMEM.get(v)
    if m is not None:
        return mk("mslice", m[0], m[1] + start)
    if v.op == "lslice":
        return mk("lslice", v.a[0], add(v.a[1], I(start)))
    if v.op == "mslice":
        return mk("mslice", v.a[0], v.a[1] + start)
    if v.op == "cslice":
        return mk("cslice", v.a[0][start:start + n])
    if v.op == "uslice" or v.op == "undef":
        return mk("uslice")
    if v.op == "int":
        b = (v.a[0] % (1 << (8 * size))).to_bytes(size, "little")
        return mk("cslice", b[start:start + n])
    if v.op == "bits":
        return mk("bits", v.a[0], v.a[1] + start, n)
    return mk("bits", v, start, n)


def s8(x):
    x &= 255
    return x - 256 if x > 127 else x


def rng_byte(v, size, i):
    """byte i (int term or None) of a cell value"""
    if v.op == "fill":
        return v.a[0]
    if v.op == "lslice":
        return mk("ch", v.a[0], add(v.a[1], I(i)))
    if v.op == "cslice":
        return I(s8(v.a[0][i]))
    if v.op == "mslice":
        return sym("%s[%d]:i8" % (v.a[0], v.a[1] + i), "i", -128, 127)
    if v.op in ("uslice", "undef"):
        return UNDEF
    if v.op == "int":
        return I(s8(v.a[0] >> (8 * i)))
    if size == 1 and i == 0:
        return v
    if v in SYMMEM:
        m = SYMMEM[v]
        return sym("%s[%d]:i8" % (m[0], m[1] + i), "i", -128, 127)
    if v.op == "ite":
        return ite(v.a[0], rng_byte(v.a[1], size, i), rng_byte(v.a[2], size, i))
    return mk("bits", v, i, 1)


def typed(v, size, ty):
    """reinterpret a same-size cell value at type ty"""
    if not is_rng(v):
        if ty in ("double", "float"):
            if v.op == "int":
                if v.a[0] == 0:
                    return F(0.0)
                import struct
                if size == 8:
                    return F(struct.unpack("<d", struct.pack("<q", v.a[0]))[0])
                return F(struct.unpack("<f", struct.pack("<i", v.a[0]))[0])
        elif ty == "ptr":
            if v.op == "int" and v.a[0] == 0:
                return NULL
        elif ty and ty[0] == "i":
            if v.op == "flt":
                import struct
                if size == 8:
                    return I(struct.unpack("<q", struct.pack("<d", v.a[0]))[0])
            if v.op == "bool":
                return v
        return v
    if v.op == "uslice":
        return UNDEF
    if size == 1:
        return rng_byte(v, 1, 0)
    bs = [rng_byte(v, size, i) for i in range(size)]
    return assemble(bs, ty, v)


def assemble(bs, ty, key=None):
    if any(b.op == "undef" for b in bs):
        return UNDEF
    if all(b.op == "int" for b in bs):
        n = int.from_bytes(bytes(b.a[0] & 255 for b in bs), "little", signed=True)
        return typed(I(n), len(bs), ty)
    if key is not None and key.op == "bits" and key.a[1] == 0:
        return mk("bits", key.a[0], 0, len(bs))
    return mk("cat", *bs)


class Memory:
    """helpers over a dict obj -> Content"""

    def __init__(self, interp):
        self.ip = interp

    def load(self, c, off, size, ty):
        """off: python int"""
        if ty and ty[0] == "{":
            return self.snap(c, off, size, ty)
        ov = c.overlapping(off, size)
        if len(ov) == 1 and ov[0][0] <= off and ov[0][0] + ov[0][1] >= off + size:
            o, s, v = ov[0]
            if o == off and s == size:
                return self._retype(v, size, ty) if v.op == "mslice" else typed(v, size, ty)
            if v.op == "agg":
                return self._agg_load(v, off - o, size, ty)
            v = sub_rng(v, s, off - o, size)
            return self._retype(v, size, ty) if v.op == "mslice" else typed(v, size, ty)
        if not ov:
            return self.load_base(c.base, off, size, ty)
        # several pieces
        bs = []
        for i in range(off, off + size):
            w = [x for x in ov if x[0] <= i < x[0] + x[1]]
            if w:
                o, s, v = w[0]
                bs.append(rng_byte(v, s, i - o))
            else:
                bs.append(self.load_base(c.base, i, 1, "i8"))
        if size > 1 and ty and ty[0] == "i" and any(b.op == "undef" for b in bs) \
                and not all(b.op == "undef" for b in bs):
            # a struct with padding moved in a register: keep the bytes apart
            return self.snap(c, off, size, ty)
        return assemble(bs, ty)

    def snap(self, c, off, size, ty):
        """an aggregate read as a whole: the bytes are kept as they are"""
        k = (id(c), off, size, ty)
        if k not in SNAPKEY:
            SNAPKEY[k] = len(SNAPS)
            SNAPS.append((self.copy_range(c, off, size, Content(("uninit",)), 0), size, ty, c))
        return mk("snap", SNAPKEY[k])

    def snap_get(self, v, k):
        c, size, ty, _ = SNAPS[v.a[0]]
        off = 0
        if ty[0] != "{":
            return mk("xv", v, k)
        parts = [x.strip() for x in ty.strip("{} ").split(",")]
        for j, t in enumerate(parts):
            w = {"ptr": 8, "double": 8, "float": 4}.get(t) or max(1, int(t[1:]) // 8)
            off = (off + w - 1) // w * w
            if j == k:
                return self.load(c, off, w, t)
            off += w
        return mk("undef")

    def _agg_load(self, v, off, size, ty):
        return mk("bits", v, off, size)

    def load_base(self, base, off, size, ty):
        k = base[0]
        if k == "uninit":
            return UNDEF
        if k == "zero":
            return F(0.0) if ty in ("double", "float") else (NULL if ty == "ptr" else I(0))
        if k == "sym":
            n = "%s[%d]:%s" % (base[1], off, ty)
            if ty == "ptr":
                return self.ip.ext_ptr(base[1], off)
            if ty in ("double", "float"):
                r = sym(n, "f")
                SYMMEM[r] = (base[1], off)
                return r
            if ty and ty[0] == "i" and ty[1:].isdigit():
                w = int(ty[1:])
                lo, hi = self.ip.field_range(base[1], off, w)
                r = sym(n, "i", lo, hi)
                SYMMEM[r] = (base[1], off)
                return r
            return sym("%s[%d]:%d" % (base[1], off, size), "o")
        if k == "line":
            if size == 1:
                return mk("ch", base[1], I(off))
            return mk("cat", *[mk("ch", base[1], I(off + i)) for i in range(size)])
        if k == "merge":
            return ite(base[1], self.load(base[2], off, size, ty),
                       self.load(base[3], off, size, ty))
        if k == "upd":
            _, prev, o, s, v = base
            e = icmp("eq", o, I(off), self.ip.curpc()).a[0]
            if size == s:
                if e == 1:
                    return typed(v, size, ty)
                lo, hi = rng(o, self.ip.curpc())
                old = self.load(prev, off, size, ty)
                if e == 0 or off + size <= lo or off >= hi + s:
                    return old
                return ite(e, typed(v, size, ty), old)
            return self.load(prev, off, size, ty) if e == 0 else \
                mk("selu", I(off), o, v)
        if k == "stream":
            return Bv(bdd.var(sym("%s.%d" % (base[1], off), "b")))
        if k == "str":
            return mk("strch", base[1], I(off)) if size == 1 else mk("bits", base[1], off, size)
        if k == "opq":
            if size == base[1].a[-1] if base[1].op == "opv" else False:
                return base[1]
            return mk("bits", base[1], off, size)
        raise NotImplementedError(k)

    def copy_range(self, src, soff, n, dst, doff):
        """memcpy of n bytes (python ints)"""
        out = dst
        pos = soff
        for o, s, v in src.overlapping(soff, n):
            if o > pos:
                out = self._copy_base(src, pos, o - pos, out, doff + pos - soff)
            a, b = max(o, soff), min(o + s, soff + n)
            out = out.with_cell(doff + a - soff, b - a, sub_rng(v, s, a - o, b - a))
            pos = b
        if pos < soff + n:
            out = self._copy_base(src, pos, soff + n - pos, out, doff + pos - soff)
        return out

    def _copy_base(self, src, off, n, dst, doff):
        b = src.base
        if b[0] == "uninit":
            return dst.with_cell(doff, n, mk("uslice"))
        if b[0] == "zero":
            return dst.with_cell(doff, n, mk("fill", I(0)))
        if b[0] == "line":
            return dst.with_cell(doff, n, mk("lslice", b[1], I(off)))
        if b[0] == "sym":
            # keep typed field reads possible
            return dst.with_cell(doff, n, mk("mslice", b[1], off))
        if b[0] == "merge" and n <= 4096:
            A = self.copy_range(b[2], off, n, Content(("uninit",)), 0)
            B = self.copy_range(b[3], off, n, Content(("uninit",)), 0)
            m = self.merge_content(b[1], A, B)
            for o, (s, v) in m.cells.items():
                dst = dst.with_cell(doff + o, s, v)
            return dst
        return dst.with_cell(doff, n, mk("bits", mk("opqbase", id(b)), off, n))

    def merge_content(self, c, A, B):
        """content that is A when c (bdd) else B"""
        if A is B or c == 1:
            return A
        if c == 0:
            return B
        base = A.base if A.base == B.base else None
        cells = {}
        if base is None:
            # values outside the cells differ lazily
            nb = ("merge", c, Content(A.base), Content(B.base))
        else:
            nb = base
        offs = {}
        for o, (s, v) in A.cells.items():
            offs.setdefault(o, []).append(s)
        for o, (s, v) in B.cells.items():
            offs.setdefault(o, []).append(s)
        # partition into common ranges
        cuts = set()
        for o, ss in offs.items():
            cuts.add(o)
            for s in ss:
                cuts.add(o + s)
        ivs = []
        same = set()
        for o, (s, v) in A.cells.items():
            if o in B.cells and B.cells[o][0] == s:
                same.add((o, s))
        done = []
        for o, s in sorted(same):
            va, vb = A.cells[o][1], B.cells[o][1]
            cells[o] = (s, self._merge_val(c, va, vb, s))
            done.append((o, o + s))
        rest = []
        cs = sorted(cuts)
        for i in range(len(cs) - 1):
            a, b = cs[i], cs[i + 1]
            if any(x <= a and b <= y for x, y in done):
                continue
            rest.append((a, b))
        for a, b in rest:
            oa, ob = A.overlapping(a, b - a), B.overlapping(a, b - a)
            if not oa and not ob:
                continue
            va = self._piece(A, oa, a, b - a)
            vb = self._piece(B, ob, a, b - a)
            cells[a] = (b - a, self._merge_val(c, va, vb, b - a))
        return Content(nb, cells)

    def _piece(self, C, ov, a, n):
        if ov:
            o, s, v = ov[0]
            return sub_rng(v, s, a - o, n)
        b = C.base
        if b[0] == "uninit":
            return mk("uslice")
        if b[0] == "zero":
            return I(0) if n in (1, 2, 4, 8) else mk("fill", I(0))
        if b[0] == "line":
            return mk("lslice", b[1], I(a))
        if b[0] == "sym":
            return mk("mslice", b[1], a)
        if n in (1, 2, 4, 8):
            return self.load_base(b, a, n, {1: "i8", 2: "i16", 4: "i32", 8: "i64"}[n])
        return mk("bits", mk("opqbase", id(b)), a, n)

    def _merge_val(self, c, va, vb, s):
        if va is vb:
            return va
        ra, rb = is_rng(va), is_rng(vb)
        if ra and rb and s > 8:
            return mk("mrg", c, va, vb, s)
        if ra != rb or ra:
            # bring a range to the kind of the scalar
            other = vb if ra else va
            ty = {"flt": "double"}.get(other.op)
            if ty is None:
                ty = "ptr" if any(x.op == "ptr" for x in leaves(other)) else (
                    "double" if any(isf(x) for x in leaves(other)) else
                    {1: "i8", 2: "i16", 4: "i32", 8: "i64"}.get(s))
            if ra:
                va = self._retype(va, s, ty)
            if rb:
                vb = self._retype(vb, s, ty)
        return ite(c, va, vb)

    def _retype(self, v, s, ty):
        if v.op == "mslice":
            if ty is None:
                return v
            return self.load_base(("sym", v.a[0]), v.a[1], s, ty)
        if ty is None:
            return v
        return typed(v, s, ty)


FLOATOPS = {"fadd", "fsub", "fmul", "fdiv", "fneg", "frem", "flt", "sitofp", "uitofp",
            "fpext", "fptrunc", "fn", "strtod"}


def isf(t):
    if t.op in FLOATOPS:
        return True
    return t.op == "sym" and t.a[1] == "f"
