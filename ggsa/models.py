"""Transfer functions of the external functions (libc, libstdc++, ggdatetime)."""
import bisect
import calendar
import re
from .terms import *
from .mem import *

MODELS = []


def model(*pats):
    def d(f):
        for p in pats:
            MODELS.append((re.compile(p + r"\Z"), f))
        return f
    return d


# ------------------------------------------------------------------ C strings
def conv_at(ip, st, p, fr=None, ins=None):
    """the text a conversion starts at"""
    S = string_at(ip, st, p, fr, ins)
    return slift(S, lambda x: split_text(x, ip.canon_conv)) if getattr(ip, "canon_conv", None) else S


def split_text(S, fn, depth=6):
    """fn of a text, by cases where its characters come from several lines"""
    if S.op == "S" and depth:
        for q in S.a:
            if q[0] == "chr" and q[1].op == "ite":
                c = q[1].a[0]
                both = []
                for pc in (c, bdd.NOT(c)):
                    both.append(S_join([("chr", restrict_term(x[1], pc)) if x[0] == "chr" else x for x in S.a]))
                return ite(c, split_text(both[0], fn, depth - 1), split_text(both[1], fn, depth - 1))
    return fn(S)


def S_join(parts):
    out = []
    for x in parts:
        if x[0] == "chr" and x[1].op == "int":
            x = ("lit", bytes([x[1].a[0] & 255]))
        if x[0] == "lit" and out and out[-1][0] == "lit":
            x = ("lit", out.pop()[1] + x[1])
        out.append(x)
    return mk("S", *out)


def string_at(ip, st, p, fr=None, ins=None, limit=None):
    S = string_at0(ip, st, p, fr, ins, limit)
    return slift(S, ip.canon_text) if getattr(ip, "canon_text", None) else S


def string_at0(ip, st, p, fr=None, ins=None, limit=None):
    """structural description of the NUL-terminated string at p (ptr term).
    -> term ("S", part...) ; part = ("lit",bytes) | ("line",L,off,n|None)
       | ("chr",term) | ("mem",name,off) | ("uninit",)"""
    from .interp import Imprecise
    if p.op == "ite":
        return ite(p.a[0], string_at0(ip, st, p.a[1], fr, ins, limit), string_at0(ip, st, p.a[2], fr, ins, limit))
    if p.op != "ptr":
        return mk("S", ("opq", p))
    obj, off = p.a
    if obj == NULLOBJ:
        ip.event("null", st, fr, ins, write=False, what="string argument")
        return mk("S", ("opq", p))
    c = ip.content(st, obj)
    o = ip.objs.get(obj, {})
    return content_string(ip, st, c, off, fr, ins, limit, o)


def content_string(ip, st, c, off, fr, ins, limit=None, o=None):
    if off.op == "ite" and nleaves(off, 16) <= 16:
        return lift(lambda x: content_string(ip, st, c, x, fr, ins, limit, o), off)
    base = c.base
    if off.op != "int":
        lo, hi = rng(off, st.pc)
        nul = None
        for k, (s, v) in sorted(c.cells.items()):
            if k >= hi and s >= 1 and v.op == "int" and (s == 1 and v.a[0] == 0):
                nul = k
                break
        if base[0] == "line" and not any(k + s > lo and k < (nul if nul is not None else INF)
                                         for k, (s, v) in c.cells.items()):
            return mk("S", ("line", base[1], off, None if nul is None else sub(I(nul), off)))
        return mk("S", ("opq", mk("gepc", ip.content_id(c), off)))
    pos = off.a[0]
    parts = []
    size = o.get("size") if o else None
    size = size if isinstance(size, int) else None
    cells = sorted((k, s, v) for k, (s, v) in c.cells.items() if k + s > pos)
    done = False
    n = 0
    for k, s, v in cells:
        if k > pos:
            r = _base_part(base, pos, k - pos, parts, ip, c)
            if r:
                done = True
                break
            pos = k
        skip = pos - k
        for item in _cell_parts(v, s, skip):
            if item is None:
                done = True
                break
            parts.append(item)
        if done:
            break
        pos = k + s
    if not done:
        if size is not None and pos >= size:
            parts.append(("end",))
        else:
            r = _base_part(base, pos, None, parts, ip, c)
    # compact literals
    out = []
    for q in parts:
        if q[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + q[1])
        elif q[0] == "line" and out and out[-1][0] == "line" and out[-1][1] is q[1] and \
                out[-1][3] is not None and isinstance(out[-1][2], Term) and \
                add(out[-1][2], I(out[-1][3]) if isinstance(out[-1][3], int) else out[-1][3]) is q[2]:
            m = out[-1]
            out[-1] = ("line", m[1], m[2], None if q[3] is None else m[3] + q[3])
        elif q[0] == "chr" and q[1].op == "ch" and out and out[-1][0] == "line" and out[-1][1] is q[1].a[0] \
                and isinstance(out[-1][3], int) and add(out[-1][2], I(out[-1][3])) is q[1].a[1]:
            m = out[-1]
            out[-1] = ("line", m[1], m[2], m[3] + 1)
        elif q[0] == "chr" and q[1].op == "ch":
            out.append(("line", q[1].a[0], q[1].a[1], 1))
        else:
            out.append(q)
    return mk("S", *out)


def _base_part(base, pos, n, parts, ip, c):
    """append the base bytes [pos,pos+n); True if the string ends here"""
    k = base[0]
    if k == "zero":
        return True
    if k == "uninit":
        parts.append(("uninit",))
        return False
    if k == "line":
        parts.append(("line", base[1], I(pos), n))
        return False
    if k == "sym":
        parts.append(("mem", base[1], pos, n))
        return False
    if k == "str":
        parts.append(("sval", base[1], pos))
        return True
    parts.append(("opq", ip.content_id(c), pos, n))
    return False


def _cell_parts(v, s, skip):
    if v.op == "fill":
        if v.a[0].op == "int":
            if v.a[0].a[0] == 0:
                yield None
                return
            yield ("lit", bytes([v.a[0].a[0] & 255]) * (s - skip))
            return
        yield ("opq", v)
        return
    if v.op == "cslice":
        b = v.a[0][skip:]
        z = b.find(b"\0")
        if z >= 0:
            if z:
                yield ("lit", b[:z])
            yield None
            return
        yield ("lit", b)
        return
    if v.op == "lslice":
        yield ("line", v.a[0], add(v.a[1], I(skip)), s - skip)
        return
    if v.op == "mslice":
        yield ("mem", v.a[0], v.a[1] + skip, s - skip)
        return
    if v.op == "uslice" or v.op == "undef":
        yield ("uninit",)
        return
    if v.op == "int":
        b = (v.a[0] % (1 << (8 * s))).to_bytes(s, "little")[skip:]
        z = b.find(b"\0")
        if z >= 0:
            if z:
                yield ("lit", b[:z])
            yield None
            return
        yield ("lit", b)
        return
    if s == 1:
        yield ("chr", v)
        return
    yield ("opq", v, skip, s - skip)


def S_literal(S):
    """python bytes if S is a constant string"""
    if S.op == "S":
        if not S.a:
            return b""
        if len(S.a) == 1 and S.a[0][0] == "lit":
            return S.a[0][1]
    return None


def S_uninit(S):
    return S.op == "S" and any(p[0] in ("uninit", "end") for p in S.a)


def note_string(ip, st, fr, ins, S, what):
    for x in leaves(S):
        if x.op == "S" and any(p[0] in ("uninit",) for p in x.a):
            ip.event("unterminated", st, fr, ins, S=x, what=what)
        elif x.op == "S" and any(p[0] == "end" for p in x.a):
            ip.event("unterminated", st, fr, ins, S=x, what=what)


def strlen_term(ip, st, S):
    if S.op == "ite":
        return ite(S.a[0], strlen_term(ip, st, S.a[1]), strlen_term(ip, st, S.a[2]))
    b = S_literal(S)
    if b is not None:
        return I(len(b))
    if len(S.a) == 1 and S.a[0][0] == "line" and S.a[0][3] is None:
        L, off = S.a[0][1], S.a[0][2]
        while isinstance(L.a[0], Term) and L.a[0].op == "d2e":
            L = L.a[0].a[0]
        if off.op == "int" and off.a[0] == 0:
            return mk("slen", L)
        d = sub(mk("slen", L), off)
        if rng(d, st.pc)[0] >= 0:
            return d
    if ip.charwise and S.a and all(p[0] in ("lit", "chr") for p in S.a):
        # (the pieces end at the terminator; a character that may be one ends it where it is)
        n = sum(len(p[1]) if p[0] == "lit" else 1 for p in S.a)
        out, k = I(n), n
        for p in reversed(S.a):
            if p[0] == "lit":
                k -= len(p[1])
            else:
                k -= 1
                out = ite(cmp_eq0(p[1]), I(k), out)
        return out
    hi = 0
    for p in S.a:
        if p[0] == "lit":
            hi += len(p[1])
        elif p[0] == "line" and isinstance(p[3], int):
            hi += p[3]
        elif p[0] == "line" and p[3] is None and p[2].op == "int":
            hi += max(0, p[1].a[1] - p[2].a[0])
        elif p[0] == "chr":
            hi += 1
        else:
            hi = None
            break
    return mk("strlen", S, hi)


def char_cells(ip, st, fr, ins, p, n):
    """the first n bytes behind p, or None when they are not separate values"""
    out = []
    o = ip.objs.get(p.a[0]) if p.op == "ptr" else None
    if o is None or p.a[1].op != "int":
        return None
    size = o["size"] if isinstance(o["size"], int) else None
    for i in range(n):
        if size is not None and p.a[1].a[0] + i >= size:
            break
        v = ip.M.load(ip.content(st, p.a[0]), p.a[1].a[0] + i, 1, "i8")
        out.append(restrict_term(v, st.pc))
    return out


def charlen(ip, st, fr, ins, p):
    """exact string length when every byte is a separate value"""
    if not ip.charwise or p.op != "ptr":
        return None
    cs = char_cells(ip, st, fr, ins, p, 128)
    if cs is None:
        return None
    z = [cmp_eq0(c) for c in cs]
    if not any(x == 1 for x in z):
        return None
    k = [x == 1 for x in z].index(True)
    out = I(k)
    for i in range(k - 1, -1, -1):
        out = ite(z[i], I(i), out)
    return restrict_term(out, st.pc)


@model(r"strlen")
def m_strlen(ip, st, a, ins, fr, fn):
    c = charlen(ip, st, fr, ins, a[0])
    if c is not None:
        return c
    S = string_at(ip, st, a[0], fr, ins)
    note_string(ip, st, fr, ins, S, "strlen of a string without a certain terminator")
    return strlen_term(ip, st, S)


def _span(n, S):
    """bytes a bounded comparison may read, knowing the other operand"""
    b = S_literal(S)
    if n.op == "int" and b is not None:
        return I(min(n.a[0], len(b) + 1))
    return n


def compare(ip, st, A, B, n):
    if A.op == "ite":
        return ite(A.a[0], compare(ip, st, A.a[1], B, n), compare(ip, st, A.a[2], B, n))
    if B.op == "ite":
        return ite(B.a[0], compare(ip, st, A, B.a[1], n), compare(ip, st, A, B.a[2], n))
    la, lb = S_literal(A), S_literal(B)
    k = n.a[0] if n is not None and n.op == "int" else None
    if la is not None and lb is not None and (k is not None or n is None):
        x, y = (la[:k], lb[:k]) if k is not None else (la, lb)
        return I((x > y) - (x < y))
    if A is B:
        return I(0)
    sw = la is not None and lb is None or (la is None and lb is None and B.id < A.id)
    if sw:
        A, B, la, lb = B, A, lb, la
    if lb is not None:
        if k is not None and len(lb) >= k:
            t = mk("strcmp", A, mk("S", ("lit", lb[:k])), "prefix")
        elif k is not None and len(lb) < k:
            t = mk("strcmp", A, mk("S", ("lit", lb)), "whole")
        elif n is None:
            t = mk("strcmp", A, mk("S", ("lit", lb)), "whole")
        else:
            t = mk("strcmp", A, B, n)
    else:
        t = mk("strcmp", A, B, n if n is not None else "all")
    return mulc(t, -1) if sw else t


def charwise(ip, st, fr, ins, pa, pb, n, stop):
    """exact character-by-character comparison of two byte ranges"""
    if not ip.charwise or n is None or n.op != "int" or n.a[0] > getattr(ip, "charwise_max", 64) or pa.op != "ptr" or pb.op != "ptr":
        return None
    k = n.a[0]
    if k == 0:
        return I(0)
    st2 = st.copy()
    pc = st.pc
    out, rows = I(0), []
    for i in range(k):
        st2.pc = pc
        x = restrict_term(ip.load(st2, fr, ins, ip.gep(pa, I(i)), 1, "i8"), pc)
        y = restrict_term(ip.load(st2, fr, ins, ip.gep(pb, I(i)), 1, "i8"), pc)
        e = cmp_eq0(sub(x, y))
        rows.append((e, x, y))
        pc = bdd.AND(pc, e)
        if stop:
            pc = bdd.AND(pc, bdd.NOT(cmp_eq0(x)))
        if pc == 0:
            break
    for e, x, y in reversed(rows):
        nxt = ite(cmp_eq0(x), I(0), out) if stop else out
        out = ite(e, nxt, sub(x, y))
    return out


@model(r"strncmp")
def m_strncmp(ip, st, a, ins, fr, fn):
    c = charwise(ip, st, fr, ins, a[0], a[1], a[2], True)
    if c is not None:
        return c
    A = string_at(ip, st, a[0], fr, ins)
    B = string_at(ip, st, a[1], fr, ins)
    for p, S, other in ((a[0], A, B), (a[1], B, A)):
        n = _span(a[2], other)
        if S_literal(S) is None and p.op == "ptr" and p.a[0] != NULLOBJ and n.op == "int":
            ip.check_access(st, fr, ins, p.a[0], p.a[1], n.a[0], False, what="strncmp operand")
    ip.event("strncmp", st, fr, ins, A=A, B=B, n=a[2], pa=a[0], pb=a[1])
    if a[2].op == "int" and a[2].a[0] == 0:
        return I(0)
    return compare(ip, st, A, B, a[2])


@model(r"strcmp")
def m_strcmp(ip, st, a, ins, fr, fn):
    c = charwise(ip, st, fr, ins, a[0], a[1], I(64), True)
    if c is not None:
        return c
    A = string_at(ip, st, a[0], fr, ins)
    B = string_at(ip, st, a[1], fr, ins)
    note_string(ip, st, fr, ins, A, "strcmp operand")
    note_string(ip, st, fr, ins, B, "strcmp operand")
    ip.event("strncmp", st, fr, ins, A=A, B=B, n=None, pa=a[0], pb=a[1])
    return compare(ip, st, A, B, None)


@model(r"memcmp", r"bcmp")
def m_memcmp(ip, st, a, ins, fr, fn):
    c = charwise(ip, st, fr, ins, a[0], a[1], a[2], False)
    if c is not None:
        return c
    return compare(ip, st, string_at(ip, st, a[0], fr, ins), string_at(ip, st, a[1], fr, ins), a[2])


def errno_obj(ip):
    if "errno" not in ip.objs:
        ip.objs["errno"] = dict(size=4, kind="ext", name="errno")
    return "errno"


@model(r"__errno_location")
def m_errno(ip, st, a, ins, fr, fn):
    return ptr(errno_obj(ip))


def set_erange(ip, st, S, what):
    o = errno_obj(ip)
    old = ip.M.load(ip.content(st, o), 0, 4, "i32")
    at = num_erange(what, S)
    st.mem[o] = ip.content(st, o).with_cell(0, 4, ite(at, I(34), old))
    return at


def slift(S, f):
    if S.op == "ite":
        return ite(S.a[0], slift(S.a[1], f), slift(S.a[2], f))
    return f(S)


def literal_num(what, S):
    """(value, characters consumed) of a conversion of a known text, None when the text is not known"""
    b = S_literal(S)
    if b is None:
        return None
    if what == "strtod":
        m = re.match(rb"[ \t\n\v\f\r]*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", b)
        if not m and re.match(rb"[ \t\n\v\f\r]*[+-]?(0[xX]|inf|nan)", b, re.I):
            return None
        return (F(float(m.group(0))), len(m.group(0))) if m else (F(0.0), 0)
    m = re.match(rb"[ \t\n\v\f\r]*[+-]?\d+", b)
    if m and abs(int(m.group(0))) >= 1 << 31:
        return None
    return (I(int(m.group(0))), len(m.group(0))) if m else (I(0), 0)


def num_val(what, S, *extra):
    k = literal_num(what, S) if not extra or extra[0] is I(10) else None
    return k[0] if k else mk(what, S, *extra)


def num_len(what, S):
    k = literal_num(what, S) if what in ("strtod", "strtol") else None
    return I(k[1]) if k else mk("nconv", what, S)


def num_erange(what, S):
    if what in ("strtod", "strtol") and literal_num(what, S):
        return 0
    return bdd.var(mk("sym", "erange", "b", S, what))


def _conv(ip, st, a, ins, fr, what, extra=()):
    S = conv_at(ip, st, a[0], fr, ins)
    note_string(ip, st, fr, ins, S, what + " of a string without a certain terminator")
    ip.event("conv", st, fr, ins, S=S, what=what, p=a[0], mem=ip.content(st, a[0].a[0]) if a[0].op == "ptr" else None)
    if S.op == "ite":
        o = errno_obj(ip)
        old = ip.M.load(ip.content(st, o), 0, 4, "i32")
        new = slift(S, lambda x: ite(num_erange(what, x), I(34), old))
        st.mem[o] = ip.content(st, o).with_cell(0, 4, new)
    else:
        set_erange(ip, st, S, what)
    end = a[1]
    if not (end.op == "ptr" and end.a[0] == NULLOBJ):
        q = slift(S, lambda x: num_len(what, x))
        ip.store(st, fr, ins, end, 8, ip.gep(a[0], q))
    return slift(S, lambda x: num_val(what, x, *extra))


@model(r"strtod")
def m_strtod(ip, st, a, ins, fr, fn):
    return _conv(ip, st, a, ins, fr, "strtod")


@model(r"strtof")
def m_strtof(ip, st, a, ins, fr, fn):
    return mk("fptrunc", _conv(ip, st, a, ins, fr, "strtod"))


@model(r"(__isoc23_)?strtol", r"(__isoc23_)?strtoll")
def m_strtol(ip, st, a, ins, fr, fn):
    return _conv(ip, st, a, ins, fr, "strtol", (a[2],))


@model(r"(__isoc23_)?strtoul", r"(__isoc23_)?strtoull")
def m_strtoul(ip, st, a, ins, fr, fn):
    return _conv(ip, st, a, ins, fr, "strtoul", (a[2],))


@model(r"atoi", r"atol")
def m_atoi(ip, st, a, ins, fr, fn):
    S = conv_at(ip, st, a[0], fr, ins)
    ip.event("conv", st, fr, ins, S=S, what="atoi", p=a[0])
    return slift(S, lambda x: num_val("strtol", x, I(10)))


@model(r"atof")
def m_atof(ip, st, a, ins, fr, fn):
    S = conv_at(ip, st, a[0], fr, ins)
    ip.event("conv", st, fr, ins, S=S, what="atof", p=a[0])
    return slift(S, lambda x: num_val("strtod", x))


@model(r"isspace", r"isdigit", r"isalpha", r"isalnum", r"isupper")
def m_ctype(ip, st, a, ins, fr, fn):
    cls = fn.name
    tab = {"isspace": " \t\n\v\f\r", "isdigit": "0123456789",
           "isupper": "ABCDEFGHIJKLMNOPQRSTUVWXYZ"}.get(cls)

    def f(x):
        if x.op == "int" and tab is not None:
            return I(1 if 0 <= x.a[0] < 256 and chr(x.a[0]) in tab else 0)
        return ite(bdd.var(mk("sym", cls, "b", x, None)), I(1), I(0))
    r = lift(f, as_int(a[0]))
    return r if r is not None else f(a[0])


# ------------------------------------------------------------------ memory
@model(r"llvm\.mem(cpy|move)\..*", r"memcpy", r"memmove")
def m_memcpy(ip, st, a, ins, fr, fn):
    ip.memcpy(st, fr, ins, a[0], a[1], a[2])
    return a[0]


@model(r"llvm\.memset\..*", r"memset")
def m_memset(ip, st, a, ins, fr, fn):
    ip.memset(st, fr, ins, a[0], a[1], a[2])
    return a[0]


@model(r"strcpy", r"strncpy", r"strcat")
def m_strcpy(ip, st, a, ins, fr, fn):
    if ip.charwise and fn.name != "strcat":
        c = charlen(ip, st, fr, ins, a[1])
        if c is not None and c.op == "int":
            k = c.a[0]
            n = a[2] if fn.name == "strncpy" else I(k + 1)
            if n.op == "int":
                ip.memcpy(st, fr, ins, a[0], a[1], I(min(n.a[0], k + 1)))
                if n.a[0] > k + 1:
                    ip.memset(st, fr, ins, ip.gep(a[0], I(k + 1)), I(0), I(n.a[0] - k - 1))
                return a[0]
    S = string_at(ip, st, a[1], fr, ins)
    n = a[2] if fn.name == "strncpy" else add(strlen_term(ip, st, S), I(1))
    ip.memcpy(st, fr, ins, a[0], a[1], n)
    return a[0]


@model(r"operator new(\[\])?\(unsigned long(, std::nothrow_t const&)?\)", r"malloc")
def m_new(ip, st, a, ins, fr, fn):
    n = ip.fresh_name("heap@" + fr.fn.d.get("name", fr.fn.name))
    ip.new_obj(n, a[0].a[0] if a[0].op == "int" else a[0], "heap", st)
    ip.objs[n]["array"] = "[]" in fn.dem
    ip.objs[n]["loc"] = ip.prog.loc(ins)
    return ptr(n)


@model(r"operator delete(\[\])?\(void\*.*\)", r"free")
def m_delete(ip, st, a, ins, fr, fn):
    ip.event("free", st, fr, ins, p=a[0], array="[]" in fn.dem)
    fs = getattr(ip, "freed", None)
    if fs is not None:
        for c, q in cases_of(a[0]):
            if q.op == "ptr" and q.a[0] != NULLOBJ:
                c = bdd.AND(st.pc, c)
                if bdd.AND(fs.get(q.a[0], 0), c):
                    ip.event("doublefree", st, fr, ins, obj=q.a[0])
                fs[q.a[0]] = bdd.OR(fs.get(q.a[0], 0), c)
    return None


@model(r"llvm\.(dbg|lifetime|assume|experimental\.noalias|stacksave|stackrestore|va_).*", r"__cxa_atexit",
       r"llvm\.donothing.*")
def m_nop(ip, st, a, ins, fr, fn):
    return None


# ------------------------------------------------------------------ math
def m_fn(name, arity):
    def h(ip, st, a, ins, fr, fn):
        def f(*xs):
            if all(x.op == "flt" for x in xs):
                v = [x.a[0] for x in xs]
                try:
                    if name == "round":
                        v0 = v[0]
                        return F(math.floor(abs(v0) + 0.5) * (1 if v0 >= 0 else -1))
                    if name == "fabs":
                        return F(abs(v[0]))
                    return F({"pow": math.pow, "sqrt": math.sqrt, "floor": math.floor,
                              "ceil": math.ceil, "trunc": math.trunc}[name](*v))
                except (KeyError, ValueError, OverflowError):
                    pass
            if name == "fma":
                return mk("fadd", mk("fmul", xs[0], xs[1]), xs[2])
            return mk("fn", name, *xs)
        xs = a[:arity]
        r = lift(f, *xs, cap=16)
        return r if r is not None else mk("fn", name, *xs)
    return h


import math
for _n in ("sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "exp", "log", "log10", "floor",
           "ceil", "round", "trunc", "fabs", "cbrt"):
    MODELS.append((re.compile(r"(%s|llvm\.%s\.f64|std::%s\(double\))\Z" % (_n, _n, _n)), m_fn(_n, 1)))
MODELS.append((re.compile(r"std::ggsa_sqrt\(double\)\Z"), m_fn("sqrt", 1)))
MODELS.append((re.compile(r"(abs|std::abs\(double\))\Z"), m_fn("fabs", 1)))
for _n in ("pow", "atan2", "fmod", "hypot", "copysign"):
    MODELS.append((re.compile(r"(%s|llvm\.%s\.f64)\Z" % (_n, _n)), m_fn(_n, 2)))
MODELS.append((re.compile(r"(__gnu_cxx::__promote<.*> )?.*std::pow<.*>\(.*\)\Z"),
               lambda ip, st, a, ins, fr, fn: m_fn("pow", 2)(
                   ip, st, [x if not _isint(x) else _tofp(x) for x in a], ins, fr, fn)))
for _n in ("sqrt", "sin", "cos", "atan", "atan2", "floor"):
    MODELS.append((re.compile(r".*std::%s<.*>\(int\)\Z" % _n),
                   (lambda nm: lambda ip, st, a, ins, fr, fn: m_fn(nm, 1)(
                       ip, st, [_tofp(x) for x in a], ins, fr, fn))(_n)))


def _isint(x):
    return any(l.op in ("int", "lin", "ch", "slen") or (l.op == "sym" and l.a[1] == "i") for l in leaves(x))


def _tofp(x):
    if x.op == "int":
        return F(x.a[0])
    return mk("sitofp", x)


MODELS.append((re.compile(r"llvm\.(fmuladd|fma)\.f64\Z"), m_fn("fma", 3)))


@model(r"llvm\.(smax|umax)\..*")
def m_smax(ip, st, a, ins, fr, fn):
    c = icmp("sge", a[0], a[1], st.pc).a[0]
    return ite(c, a[0], a[1])


@model(r"llvm\.(smin|umin)\..*")
def m_smin(ip, st, a, ins, fr, fn):
    c = icmp("sle", a[0], a[1], st.pc).a[0]
    return ite(c, a[0], a[1])


@model(r"abs", r"std::abs\(int\)", r"std::abs\(long\)", r"llvm\.abs\..*")
def m_iabs(ip, st, a, ins, fr, fn):
    c = icmp("sge", a[0], I(0), st.pc).a[0]
    return ite(c, a[0], mulc(a[0], -1))


# ------------------------------------------------------------------ exceptions
@model(r"__cxa_allocate_exception")
def m_alloc_exc(ip, st, a, ins, fr, fn):
    n = ip.fresh_name("exc")
    ip.new_obj(n, None, "exc", st)
    return ptr(n)


@model(r"__cxa_free_exception", r"__cxa_end_catch", r"__gxx_personality_v0")
def m_endcatch(ip, st, a, ins, fr, fn):
    return None


@model(r"__cxa_begin_catch")
def m_begincatch(ip, st, a, ins, fr, fn):
    ip.event("catch", st, fr, ins)
    return a[0]


@model(r"__cxa_throw")
def m_throw(ip, st, a, ins, fr, fn):
    ty = a[1].a[0].lstrip("@") if a[1].op == "ptr" else "?"
    ip.event("throw", st, fr, ins, ty=ty)
    return None, ip.throw(st, ty)


@model(r"__cxa_rethrow")
def m_rethrow(ip, st, a, ins, fr, fn):
    ts = st.copy()
    st.pc = 0
    ts.exc = ts.caught if ts.caught is not None else mk("exc", "?")
    return None, ts


@model(r"llvm\.eh\.typeid\.for.*")
def m_typeid(ip, st, a, ins, fr, fn):
    return ip.typeid_const(a[0].a[0].lstrip("@"))


@model(r"__clang_call_terminate", r"std::terminate\(\)", r"abort", r"std::__terminate\(\)")
def m_terminate(ip, st, a, ins, fr, fn):
    ip.event("terminate", st, fr, ins, exc=st.exc if st.caught is None else st.caught)
    st.pc = 0
    return None


@model(r"__assert_fail", r"llvm\.trap", r"exit")
def m_assert(ip, st, a, ins, fr, fn):
    ip.event("assert", st, fr, ins, what=fn.name)
    st.pc = 0
    return None


THROWS = {"__throw_out_of_range": "_ZTISt12out_of_range", "__throw_out_of_range_fmt": "_ZTISt12out_of_range",
          "__throw_invalid_argument": "_ZTISt16invalid_argument", "__throw_length_error": "_ZTISt12length_error",
          "__throw_logic_error": "_ZTISt11logic_error", "__throw_bad_alloc": "_ZTISt9bad_alloc",
          "__throw_bad_array_new_length": "_ZTISt20bad_array_new_length", "__throw_runtime_error": "_ZTISt13runtime_error"}


@model(r"std::(__throw_\w+)\(.*\)")
def m_stdthrow(ip, st, a, ins, fr, fn):
    nm = re.match(r"std::(\w+)", fn.dem).group(1)
    ip.event("throw", st, fr, ins, ty=THROWS.get(nm, nm))
    return None, ip.throw(st, THROWS.get(nm, nm))


@model(r"std::(runtime_error|invalid_argument|logic_error|out_of_range|domain_error)::.*",
       r"std::exception::.*")
def m_excctor(ip, st, a, ins, fr, fn):
    return None


# ------------------------------------------------------------------ std::string (value semantics)
STR = r"std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char>>"


def str_get(ip, st, p):
    if p.op == "ite":
        return ite(p.a[0], str_get(ip, st, p.a[1]), str_get(ip, st, p.a[2]))
    if p.op != "ptr":
        return mk("str", ("opq", p))
    c = ip.content(st, p.a[0])
    if p.a[1].op != "int":
        return mk("str", ("opq", p))
    off = p.a[1].a[0]
    cell = c.cells.get(off)
    if cell and cell[0] == 32:
        return cell[1]
    if c.base[0] == "sym":
        return mk("str", ("mem", c.base[1], off))
    v = ip.M.load(c, off, 32, "str")
    if v.op in ("str", "ite"):
        return v
    return mk("str", ("opq", v))


def str_set(ip, st, p, v):
    if p.op == "ptr" and p.a[1].op == "int":
        st.mem[p.a[0]] = ip.content(st, p.a[0]).with_cell(p.a[1].a[0], 32, v)


def S_to_str(S):
    return slift(S, lambda x: mk("str", *x.a) if x.op == "S" else mk("str", ("opq", x)))


def str_cat(*vs):
    def f(*xs):
        out = []
        for x in xs:
            for p in (x.a if x.op == "str" else (("opq", x),)):
                if p[0] == "lit" and out and out[-1][0] == "lit":
                    out[-1] = ("lit", out[-1][1] + p[1])
                else:
                    out.append(p)
        return mk("str", *out)
    r = lift(f, *vs)
    return r if r is not None else mk("str", *[("opq", v) for v in vs])


def chr_str(t):
    def f(x):
        if x.op == "int":
            return mk("str", ("lit", bytes([x.a[0] & 255])))
        return mk("str", ("chr", x))
    r = lift(f, t)
    return r if r is not None else mk("str", ("chr", t))


def str_literal(v):
    if v.op == "str":
        if not v.a:
            return b""
        if len(v.a) == 1 and v.a[0][0] == "lit":
            return v.a[0][1]
    return None


def str_size(v):
    def f(x):
        n, more = 0, []
        for p in x.a:
            if p[0] == "lit":
                n += len(p[1])
            elif p[0] == "chr":
                n += 1
            elif p[0] == "fill" and p[1].op == "int":
                n += p[1].a[0]
            elif p[0] == "num" and num_size(p[1]) is not None:
                more.append(num_size(p[1]))
            else:
                return mk("strlen", x, None)
        n = I(n)
        for m in more:
            n = add(n, m)
        return n
    return slift(v, f)


@model(STR + r"::basic_string\(\)", STR + r"::basic_string\(std::allocator<char> const&\)")
def s_ctor0(ip, st, a, ins, fr, fn):
    str_set(ip, st, a[0], mk("str"))


@model(STR + r"::basic_string(<std::allocator<char>\s*>)?\(char const\*, std::allocator<char> const&\)")
def s_ctor_cstr(ip, st, a, ins, fr, fn):
    S = string_at(ip, st, a[1], fr, ins)
    note_string(ip, st, fr, ins, S, "std::string built from a buffer without a certain terminator")
    str_set(ip, st, a[0], S_to_str(S))


def known_piece(ip, st, fr, ins, p, n, cap=2000):
    """the n characters at p, kept character by character when they are known"""
    count = [0]
    q, ip.quiet = ip.quiet, True
    cache = {}

    def rec(p, n, pc):
        count[0] += 1
        if count[0] > cap:
            return None
        if p.op == "ptr" and p.a[1].op == "ite":
            c, t = p.a[1].a[0], [ptr(p.a[0], p.a[1].a[k]) for k in (1, 2)]
            n = [n, n]
        elif p.op == "ite":
            c, t, n = p.a[0], [p.a[1], p.a[2]], [n, n]
        else:
            n = restrict_term(n, pc)
            if n.op == "ite":
                c, t, n = n.a[0], [p, p], [n.a[1], n.a[2]]
            else:
                if p.op != "ptr" or p.a[0] == NULLOBJ or p.a[1].op != "int" or n.op != "int" or not 0 <= n.a[0] <= 160:
                    return None
                cs = []
                for k in range(n.a[0]):
                    i = (p.a[0], p.a[1].a[0] + k)
                    if i not in cache:
                        cache[i] = ip.load_at(st, fr, ins, i[0], I(i[1]), 1, "i8")
                    cs.append(cache[i])
                if not all(l.op in ("int", "sym") for c in cs for l in leaves(c)):
                    return None
                return chars_str(cs)
        p1, p2 = bdd.AND(pc, c), bdd.AND(pc, bdd.NOT(c))
        if p1 == 0:
            return rec(t[1], n[1], pc)
        if p2 == 0:
            return rec(t[0], n[0], pc)
        x = rec(t[0], n[0], p1)
        y = None if x is None else rec(t[1], n[1], p2)
        return None if y is None else ite(c, x, y)
    try:
        return rec(p, n, st.pc)
    finally:
        ip.quiet = q


@model(STR + r"::basic_string\(char const\*, unsigned long, std::allocator<char> const&\)")
def s_ctor_n(ip, st, a, ins, fr, fn):
    p, n = a[1], a[2]
    if p.op == "ptr" and p.a[0] != NULLOBJ:
        ip.check_access(st, fr, ins, p.a[0], p.a[1], n.a[0] if n.op == "int" else n, False,
                        what="std::string(ptr,len)")
    v = known_piece(ip, st, fr, ins, p, n) if ip.charwise else None
    if v is not None:
        str_set(ip, st, a[0], v)
        return
    S = string_at(ip, st, p, fr, ins)
    str_set(ip, st, a[0], mk("str", ("sub", S, n)))


@model(STR + r"::basic_string<char( const)?\*, void>\(char( const)?\*, char( const)?\*, std::allocator<char> const&\)")
def s_ctor_range(ip, st, a, ins, fr, fn):
    if a[1].op == "ptr" == a[2].op and a[1].a[0] == a[2].a[0]:
        return s_ctor_n(ip, st, [a[0], a[1], sub(a[2].a[1], a[1].a[1])], ins, fr, fn)
    str_set(ip, st, a[0], mk("str", ("sub", string_at(ip, st, a[1], fr, ins), mk("rangelen", a[1], a[2]))))


@model(STR + r"::basic_string(<std::allocator<char>\s*>)?\(unsigned long, char, std::allocator<char> const&\)")
def s_ctor_fill(ip, st, a, ins, fr, fn):
    str_set(ip, st, a[0], fill_str(st, a[1], a[2]))


def fill_str(st, n, c):
    def f(n):
        if n.op == "int" and 0 <= n.a[0] <= 4096:
            x = chr_str(c)
            return str_cat(*([x] * n.a[0])) if n.a[0] else mk("str")
        return mk("str", ("fill", n, c))
    n = restrict_term(n, st.pc)
    if n.op not in ("int", "ite"):
        lo, hi = rng(n, st.pc)
        if lo is not None and hi is not None and lo >= 0 and hi - lo <= 8:
            m = I(hi)
            for k in range(lo, hi):
                m = ite(icmp("eq", n, I(k), st.pc).a[0], I(k), m)
            n = m
    r = lift(f, n)
    return r if r is not None else mk("str", ("fill", n, c))


@model(STR + r"::append\(unsigned long, char\)")
def s_app_fill(ip, st, a, ins, fr, fn):
    str_set(ip, st, a[0], str_cat(str_get(ip, st, a[0]), fill_str(st, a[1], a[2])))
    return a[0]


@model(STR + r"::append\(char const\*, unsigned long\)")
def s_app_n(ip, st, a, ins, fr, fn):
    t = ptr(ip.fresh_name("strtmp"))
    ip.objs[t.a[0]] = dict(size=32, kind="stack", name=t.a[0])
    st.mem[t.a[0]] = Content(("uninit",))
    s_ctor_n(ip, st, [t] + list(a[1:]), ins, fr, fn)
    str_set(ip, st, a[0], str_cat(str_get(ip, st, a[0]), str_get(ip, st, t)))
    return a[0]


@model(STR + r"& " + STR + r"::append<(char const\*|char\*), void>\(.*\)")
def s_app_range(ip, st, a, ins, fr, fn):
    if a[1].op == "ptr" == a[2].op and a[1].a[0] == a[2].a[0]:
        return s_app_n(ip, st, [a[0], a[1], sub(a[2].a[1], a[1].a[1])], ins, fr, fn)
    return s_other(ip, st, a, ins, fr, fn)


@model(STR + r"::(begin|end|cbegin|cend)\(\)( const)?")
def s_iter(ip, st, a, ins, fr, fn):
    """iterators for reading; a modification through them is reported as unknown"""
    v = str_get(ip, st, a[0])
    if any(str_chars(x, st.pc) is None for c, x in cases_of(v)):
        return s_other(ip, st, a, ins, fr, fn)
    p = s_cstr(ip, st, a, ins, fr, fn)
    if "begin" in fn.dem.rsplit("::", 1)[-1]:
        return p
    return lift(lambda q, x: ptr(q.a[0], str_size(x)), p, v) if v.op == "ite" else ptr(p.a[0], str_size(v))


@model(STR + r"::insert\(unsigned long, (.*)\)", STR + r"::insert\(__gnu_cxx::__normal_iterator<.*>, (unsigned long, )?char\)")
def s_insert(ip, st, a, ins, fr, fn):
    v = str_get(ip, st, a[0])
    sig = fn.dem.split("::insert(", 1)[1][:-1]
    at, what = a[1], None
    if sig.startswith("__gnu"):
        # only an iterator into this very text
        ok = all(p.op == "ptr" and p.a[0].startswith("strdata#") for p in leaves(at))
        at = lift(lambda p: p.a[1], at) if ok else None
        what = chr_str(a[2]) if not sig.endswith("unsigned long, char") else fill_str(st, a[2], a[3])
    elif sig.endswith("unsigned long, char"):
        what = fill_str(st, a[2], a[3])
    elif sig.endswith("char const*"):
        what = S_to_str(string_at(ip, st, a[2], fr, ins))
    elif "basic_string" in sig and "unsigned long" not in sig.split(",", 1)[1]:
        what = str_get(ip, st, a[2])
    if at is None or what is None or not all(x.op == "int" for x in leaves(at)):
        return s_other(ip, st, a, ins, fr, fn)

    def f(x, k, w):
        if k.a[0] == 0:
            return str_cat(w, x)
        cs = str_chars(x, st.pc)
        if cs is None or k.a[0] > len(cs):
            return mk("str", ("opq", mk("strins", x, k, w)))
        return str_cat(chars_str(cs[:k.a[0]]), w, chars_str(cs[k.a[0]:]))
    r = lift(f, v, at, what)
    if r is None:
        return s_other(ip, st, a, ins, fr, fn)
    str_set(ip, st, a[0], r)
    if not sig.startswith("__gnu"):
        return a[0]
    n = ip.fresh_name("stropres")
    ip.objs.setdefault(n, dict(size=None, kind="ext", name=n))
    return ptr(n)


@model(STR + r"::pop_back\(\)")
def s_pop(ip, st, a, ins, fr, fn):
    v = str_get(ip, st, a[0])
    if any(not str_chars(x, st.pc) for c, x in cases_of(v)):
        return s_other(ip, st, a, ins, fr, fn)
    str_set(ip, st, a[0], slift(v, lambda x: chars_str(str_chars(x, st.pc)[:-1])))


@model(STR + r"::resize\(unsigned long(, char)?\)")
def s_resize(ip, st, a, ins, fr, fn):
    v = str_get(ip, st, a[0])
    c = a[2] if len(a) > 2 else I(0)
    if a[1].op != "int" or any(str_chars(x, st.pc) is None for _, x in cases_of(v)):
        return s_other(ip, st, a, ins, fr, fn)
    n = a[1].a[0]
    str_set(ip, st, a[0], slift(v, lambda x: chars_str((str_chars(x, st.pc) + [c] * n)[:n])))


@model(STR + r"::basic_string\(" + STR + r"(&&| const&)(, std::allocator<char> const&)?\)")
def s_copy(ip, st, a, ins, fr, fn):
    str_set(ip, st, a[0], str_get(ip, st, a[1]))


@model(STR + r"::operator=\(" + STR + r"(&&| const&)\)")
def s_assign(ip, st, a, ins, fr, fn):
    str_set(ip, st, a[0], str_get(ip, st, a[1]))
    return a[0]


@model(STR + r"::(operator=|assign)\(char const\*\)")
def s_assign_c(ip, st, a, ins, fr, fn):
    str_set(ip, st, a[0], S_to_str(string_at(ip, st, a[1], fr, ins)))
    return a[0]


@model(STR + r"::(operator\+=|append)\(" + STR + r"(&&| const&)\)")
def s_app(ip, st, a, ins, fr, fn):
    str_set(ip, st, a[0], str_cat(str_get(ip, st, a[0]), str_get(ip, st, a[1])))
    return a[0]


@model(STR + r"::(operator\+=|append)\(char const\*\)")
def s_app_c(ip, st, a, ins, fr, fn):
    str_set(ip, st, a[0], str_cat(str_get(ip, st, a[0]), S_to_str(string_at(ip, st, a[1], fr, ins))))
    return a[0]


@model(STR + r"::(operator\+=|push_back)\(char\)")
def s_app_ch(ip, st, a, ins, fr, fn):
    str_set(ip, st, a[0], str_cat(str_get(ip, st, a[0]), chr_str(a[1])))
    return a[0]


@model(STR + r"::(size|length)\(\) const")
def s_size(ip, st, a, ins, fr, fn):
    return str_size(str_get(ip, st, a[0]))


@model(STR + r"::(c_str|data)\(\)( const)?")
def s_cstr(ip, st, a, ins, fr, fn):
    v = str_get(ip, st, a[0])

    def f(x):
        n = "strdata#%d" % x.id
        if n not in ip.objs:
            b = str_literal(x)
            cs = str_chars(x, st.pc) if ip.charwise and b is None else None
            if cs is not None:
                content = Content(("uninit",))
                for i, ch in enumerate(cs + [I(0)]):
                    content = content.with_cell(i, 1, ch)
                ip.objs[n] = dict(size=len(cs) + 1, kind="global", name=n, const=True, content=content)
                return ptr(n)
            ip.objs[n] = dict(size=None if b is None else len(b) + 1, kind="global", name=n, const=True,
                              content=Content(("str", x)) if b is None else
                              Content(("zero",), {0: (len(b) + 1, mk("cslice", b + b"\0"))}))
        return ptr(n)
    return slift(v, f)


def digits_n(x, n):
    out = []
    for k in range(n - 1, -1, -1):
        t = mk("sdiv", x, I(10 ** k)) if k else x
        out.append(add(t if k == n - 1 else mk("srem", t, I(10)), I(48)))
    return out


def num_cases(x, pc):
    """[(condition, digits)] of a non-negative number below a million"""
    if x.op in ("float", "fsym"):
        return None
    if x.op == "int":
        return [(1, [I(ord(c)) for c in str(x.a[0])])]
    lo, hi = rng(x, pc)
    if lo is None or hi is None or lo < 0 or hi >= 10 ** 6:
        return None
    out, rest = [], 1
    for n in range(len(str(lo)), len(str(hi)) + 1):
        c = icmp("slt", x, I(10 ** n), pc).a[0] if n < len(str(hi)) else 1
        out.append((bdd.AND(rest, c), digits_n(x, n)))
        rest = bdd.AND(rest, bdd.NOT(c))
    return out


def format_cases(ip, st, fmt, args, fr, ins):
    """[(condition, characters)] of a printf format, None if it is not understood"""
    args = list(args)
    out = [(st.pc, [])]
    for m in re.finditer(r"%([-+ #0]*)(\d*)(?:\.(\d+|\*))?(?:hh|h|ll|l|z)?([a-zA-Z%])|([^%]+)", fmt):
        flags, width, prec, conv, lit = m.groups()
        if lit is not None:
            ps = [(1, [I(ord(c)) for c in lit])]
        elif conv == "%":
            ps = [(1, [I(37)])]
        elif not args or prec == "*":
            return None
        elif conv == "c":
            ps = [(1, [args.pop(0)])]
        elif conv in "diu" and prec is None and set(flags) <= set("0-"):
            ps = []
            for c, x in cases_of(args.pop(0)):
                n = num_cases(x, bdd.AND(st.pc, c))
                if n is None:
                    return None
                ps += [(bdd.AND(c, d), t) for d, t in n]
        elif conv == "s" and not flags:
            ps = []
            for c, x in cases_of(string_at(ip, st, args.pop(0), fr, ins)):
                t = str_chars(mk("str", *x.a), st.pc) if x.op == "S" else None
                if t is None:
                    return None
                ps.append((c, t[:int(prec)] if prec is not None else t))
        else:
            return None
        w = int(width or 0)
        ps = [(c, t + [I(32)] * (w - len(t)) if "-" in (flags or "") else [I(48 if "0" in (flags or "") and conv in "diu" else 32)] * (w - len(t)) + t) for c, t in ps]
        out = [(bdd.AND(c, d), t + u) for c, t in out for d, u in ps if bdd.AND(c, d)]
        if len(out) > 64:
            return None
    return out


@model(r"snprintf", r"sprintf")
def c_snprintf(ip, st, a, ins, fr, fn):
    k = 2 if fn.dem == "snprintf" else 1
    p, size = a[0], a[1] if k == 2 else None
    f = string_at(ip, st, a[k], fr, ins)
    b = str_literal(mk("str", *f.a)) if f.op == "S" else None
    cs = format_cases(ip, st, b.decode("latin1"), a[k + 1:], fr, ins) if b is not None else None
    n = I(0)
    if cs is None or not (p.op == "ptr" and p.a[1].op == "int") or (size is not None and size.op != "int"):
        for q in leaves(p):
            if q.op == "ptr" and q.a[0] != NULLOBJ:
                st.mem[q.a[0]] = Content(("sym", ip.fresh_name("printed")))
        return sym(ip.fresh_name("printed"), "i", -1, None)
    room = size.a[0] if size is not None else 1 << 30
    off, pc0 = p.a[1].a[0], st.pc
    vals = {}
    for c, t in cs:
        n = ite(c, I(len(t)), n)
        u = t[:max(0, room - 1)] + ([I(0)] if room else [])
        for i, x in enumerate(u):
            vals.setdefault(i, []).append((c, x))
    for i, l in sorted(vals.items()):
        allc = 0
        for c, x in l:
            allc = bdd.OR(allc, c)
        ip.check_access(st, fr, ins, p.a[0], I(off + i), 1, True)
        v = None
        q, ip.quiet = ip.quiet, True
        try:
            v = l[0][1] if bdd.implies(pc0, allc) else ip.load_at(st, fr, ins, p.a[0], I(off + i), 1, "i8")
        finally:
            ip.quiet = q
        for c, x in l:
            v = ite(c, x, v) if not bdd.implies(pc0, c) else x
        st.mem[p.a[0]] = ip.content(st, p.a[0]).with_cell(off + i, 1, v)
    return n


def num_digits(x, pc):
    """the decimal digits of a number whose count of digits is known"""
    if x.op in ("float", "fsym"):
        return None
    lo, hi = rng(x, pc)
    if lo is None or hi is None or lo < 0 or hi >= 10 ** 6 or len(str(lo)) != len(str(hi)):
        return None
    return digits_n(x, len(str(lo)))


def num_size(x):
    """the number of characters of a non-negative number below a million, else None"""
    lo, hi = rng(x) if x.op not in ("float", "fsym") else (None, None)
    if lo is None or hi is None or lo < 0 or hi >= 10 ** 6:
        return None
    n = I(len(str(lo)))
    for k in range(len(str(lo)), len(str(hi))):
        n = add(n, ite(icmp("sge", x, I(10 ** k)).a[0], I(1), I(0)))
    return n


def str_chars(v, st_pc=1):
    """list of character terms of a string whose length is known, else None"""
    if v.op != "str":
        return None
    out = []
    for p in v.a:
        if p[0] == "lit":
            out += [I(s if s < 128 else s - 256) for s in p[1]]
        elif p[0] == "chr":
            out.append(p[1])
        elif p[0] == "num":
            d = num_digits(p[1], st_pc)
            if d is None:
                return None
            out += d
        elif p[0] == "fill" and p[1].op == "int":
            out += [p[2]] * p[1].a[0]
        else:
            return None
    return out


def chars_str(cs):
    out = []
    for c in cs:
        if c.op == "int":
            b = bytes([c.a[0] & 255])
            if out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + b)
            else:
                out.append(("lit", b))
        else:
            out.append(("chr", c))
    return mk("str", *out)


def str_char(v, i, pc):
    """the i-th character"""
    if v.op == "ite":
        return ite(v.a[0], str_char(v.a[1], i, bdd.AND(pc, v.a[0])), str_char(v.a[2], i, bdd.AND(pc, bdd.NOT(v.a[0]))))
    if i.op == "int" and v.op == "str":
        k = i.a[0]
        for n, p in enumerate(v.a):
            if p[0] == "lit":
                if k < len(p[1]):
                    b = p[1][k]
                    return I(b if b < 128 else b - 256)
                k -= len(p[1])
            elif p[0] == "chr":
                if k == 0:
                    return p[1]
                k -= 1
            else:
                cs = str_chars(mk("str", *v.a[n:]), pc)
                if cs is not None:
                    return cs[k] if 0 <= k < len(cs) else (I(0) if k == len(cs) else mk("strch", v, i))
                break
        else:
            if k == 0:
                return I(0)
    return mk("strch", v, i)


def str_setchar(v, i, c, pc):
    if v.op == "ite":
        return ite(v.a[0], str_setchar(v.a[1], i, c, pc), str_setchar(v.a[2], i, c, pc))
    cs = str_chars(v, pc)
    if cs is not None and i.op == "int" and 0 <= i.a[0] < len(cs):
        cs[i.a[0]] = c
        return chars_str(cs)
    if cs is not None and i.op == "ite" and all(l.op == "int" and 0 <= l.a[0] < len(cs) for l in leaves(i)):
        for k in range(len(cs)):
            e = icmp("eq", i, I(k), pc).a[0]
            cs[k] = ite(e, c, cs[k])
        return chars_str(cs)
    return mk("str", ("opq", mk("strset", v, i, c)))


@model(STR + r"::(operator\[\]|at|front|back)\(.*\)( const)?")
def s_index(ip, st, a, ins, fr, fn):
    v = str_get(ip, st, a[0])
    ts = None
    if "::front" in fn.dem:
        i = I(0)
    elif "::back" in fn.dem:
        i = sub(str_size(v), I(1))
    else:
        i = a[1]
    n = str_size(v)
    if "::at(" in fn.dem:
        ts = ip.throw(st, "_ZTISt12out_of_range", bdd.NOT(bdd.AND(icmp("slt", i, n, st.pc).a[0],
                                                                  icmp("sge", i, I(0), st.pc).a[0])))
        if st.pc == 0:
            return None, ts
    else:
        lim = n if "operator[]" in fn.dem else sub(n, I(1))
        inb = bdd.AND(icmp("sle", i, lim, st.pc).a[0], icmp("sge", i, I(0), st.pc).a[0])
        if not bdd.implies(st.pc, inb):
            ip.event("oob", st, fr, ins, obj="std::string", off=i, size=1, objsize=n, write=False,
                     range=rng(i, st.pc), what="string subscript", cond=bdd.AND(st.pc, bdd.NOT(inb)))
    if a[0].op == "ptr" and a[0].a[1].op == "int":
        name = "strelem:%s+%d[%d]" % (a[0].a[0], a[0].a[1].a[0], i.id)
        ip.objs[name] = dict(size=None, kind="strelem", name=name, owner=a[0], index=i)
        return ptr(name), ts
    name = "strchar#%d" % mk("strch", v, i).id
    ip.objs.setdefault(name, dict(size=None, kind="ext", name=name))
    st.mem[name] = Content(("uninit",), {0: (1, mk("strch", v, i))})
    return ptr(name), ts


@model(r".*std::operator\+<char, std::char_traits<char>, std::allocator<char>>\(.*\)")
def s_plus(ip, st, a, ins, fr, fn):
    sig = fn.dem[fn.dem.index("std::operator+<"):]
    sig = sig[sig.index("(") + 1:-1]
    tys = _split(sig)
    vs = []
    for t, x in zip(tys, a[1:]):
        if "basic_string" in t:
            vs.append(str_get(ip, st, x))
        elif t.strip() == "char":
            vs.append(chr_str(x))
        else:
            vs.append(S_to_str(string_at(ip, st, x, fr, ins)))
    str_set(ip, st, a[0], str_cat(*vs))


def _split(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
            continue
        d += ch in "<("
        d -= ch in ">)"
        cur += ch
    out.append(cur)
    return out


@model(r"std::__cxx11::to_string\((.*)\)")
def s_tostring(ip, st, a, ins, fr, fn):
    def f(x):
        if x.op == "int":
            return mk("str", ("lit", str(x.a[0]).encode()))
        return mk("str", ("num", x))
    r = lift(f, as_int(a[1]))
    str_set(ip, st, a[0], r if r is not None else mk("str", ("num", a[1])))


@model(r"std::__cxx11::(stod|stoi|stol|stof)\(.*\)")
def s_stod(ip, st, a, ins, fr, fn):
    k = re.match(r"std::__cxx11::(\w+)", fn.dem).group(1)
    # the same primitives as a call of strtod/strtol on the characters
    v = lift(lambda x: mk("S", *x.a) if x.op == "str" else x, str_get(ip, st, a[0]))
    for k_ in ("canon_text", "canon_conv"):
        v = slift(v, getattr(ip, k_)) if getattr(ip, k_, None) else v
    what = "strtod" if k in ("stod", "stof") else "strtol"
    ip.event("conv", st, fr, ins, S=v, what=k, p=a[0])
    bad = cmp_eq0(slift(v, lambda x: num_len(what, x)))
    over = 0
    for c, x in cases_of(v):
        over = bdd.OR(over, bdd.AND(c, num_erange(what, x)))
    ip.event("maythrow", st, fr, ins, ty="_ZTISt16invalid_argument")
    t1 = ip.throw(st, "_ZTISt16invalid_argument", bad)
    t2 = ip.throw(st, "_ZTISt12out_of_range", over)
    r = slift(v, lambda x: num_val(what, x) if what == "strtod" else num_val(what, x, I(10)))
    return r, [t1, t2]


@model(r"bool std::operator(==|!=)<char, std::char_traits<char>, std::allocator<char>>\(.*\)")
def s_eq(ip, st, a, ins, fr, fn):
    sig = fn.dem[fn.dem.index(">(") + 2:-1]
    vs = []
    for t, x in zip(_split(sig), a):
        vs.append(str_get(ip, st, x) if "basic_string" in t else S_to_str(string_at(ip, st, x, fr, ins)))
    x, y = vs
    lx, ly = str_literal(x), str_literal(y)
    if lx is not None and ly is not None:
        r = TRUE if lx == ly else FALSE
    elif x is y:
        r = TRUE
    else:
        r = Bv(bdd.var(mk("eq", mk("strcmp", *(sorted((x, y))), "all"), 0)))
    return r if "operator==" in fn.dem else Bv(bdd.NOT(r.a[0]))


@model(STR + r"::(compare)\(.*\) const")
def s_compare(ip, st, a, ins, fr, fn):
    x = str_get(ip, st, a[0])
    y = str_get(ip, st, a[1]) if "basic_string" in fn.dem.split("compare")[1] else \
        S_to_str(string_at(ip, st, a[1], fr, ins))
    return mk("strcmp", x, y, "all")


@model(STR + r"::~basic_string\(\)", r"std::allocator<.*>::(~?allocator)\(.*\)",
       r"std::__new_allocator<.*>::~__new_allocator\(\)", r"std::(__new_allocator|allocator)<char>::(~?(__new_)?allocator|operator=)\(.*\)")
def s_dtor(ip, st, a, ins, fr, fn):
    return None


@model(STR + r"::(substr)\(.*\) const")
def s_substr(ip, st, a, ins, fr, fn):
    v = str_get(ip, st, a[1])
    if a[2].op == "int" and a[3].op == "int" and all(str_chars(x, st.pc) is not None and len(str_chars(x, st.pc)) >= a[2].a[0] for _, x in cases_of(v)):
        k, n = a[2].a[0], a[3].a[0] if a[3].a[0] >= 0 else 1 << 40
        str_set(ip, st, a[0], slift(v, lambda x: chars_str(str_chars(x, st.pc)[k:k + n])))
        return
    str_set(ip, st, a[0], mk("str", ("sub", mk("S", ("opq", v)), a[3], a[2])))


@model(STR + r"::(find|rfind|find_first_of|find_last_of|find_first_not_of|find_last_not_of)\(.*\) const")
def s_find(ip, st, a, ins, fr, fn):
    return sym(ip.fresh_name("strfind"), "i", -1, None)


@model(STR + r"::(empty)\(\) const")
def s_empty(ip, st, a, ins, fr, fn):
    return Bv(cmp_eq0(str_size(str_get(ip, st, a[0])), st.pc))


@model(STR + r"::(clear|reserve|resize|shrink_to_fit|pop_back|erase|insert|replace|_M_\w+|capacity|get_allocator|begin|end|swap).*")
def s_other(ip, st, a, ins, fr, fn):
    if "clear" in fn.dem:
        str_set(ip, st, a[0], mk("str"))
        return None
    if "reserve" in fn.dem:
        return None
    str_set(ip, st, a[0], mk("str", ("opq", mk("sym", ip.fresh_name("strop"), "o", None, None))))
    n = ip.fresh_name("stropres")
    ip.objs.setdefault(n, dict(size=None, kind="ext", name=n))
    return ptr(n)


# ------------------------------------------------------------------ streams
FAIL, EOF, OPEN = 0, 1, 2


def stream(ip, st, p):
    """name of the pseudo object holding the abstract stream state"""
    from .interp import Imprecise
    if p.op != "ptr":
        raise Imprecise("stream through " + show(p))
    k = lin_parts(p.a[1])[0]
    n = "stream:%s+%d" % (p.a[0], k)
    if n not in ip.objs:
        ip.objs[n] = dict(size=None, kind="global", name=n, const=False, content=Content(("stream", n)))
    return n


def sget(ip, st, n, k):
    c = ip.content(st, n)
    cell = c.cells.get(k)
    v = cell[1] if cell else ip.M.load_base(c.base, k, 1, "i1")
    if v.op != "bool":
        v = restrict_term(v, st.pc)
    return v.a[0]


def sset(ip, st, n, k, f):
    st.mem[n] = ip.content(st, n).with_cell(k, 1, Bv(f))


PEEKED = 8


def speek(ip, st, n):
    """the character a previous peek saw and nobody has consumed yet, -2 for none"""
    cell = ip.content(st, n).cells.get(PEEKED)
    return restrict_term(cell[1], st.pc) if cell else I(-2)


def sconsume(ip, st, n, L=None):
    """the next character is taken: forget the peeked one; a line read now starts with it"""
    v = speek(ip, st, n)
    if v.op == "int" and v.a[0] == -2:
        return
    if L is not None:
        st.pc = assume(st.pc, peeked_is(v, L))
    st.mem[n] = ip.content(st, n).with_cell(PEEKED, 4, I(-2))


def peeked_is(v, L):
    """the peeked character is the first one of the line (an empty line starts with its newline)"""
    f = 1
    for c, x in cases_of(v):
        if x.op == "int" and x.a[0] < 0:
            continue
        e = bdd.OR(icmp("slt", x, I(0)).a[0], icmp("sgt", x, I(127)).a[0])
        e = bdd.OR(e, bdd.OR(cmp_eq0(sub(x, I(10))), cmp_eq0(sub(x, mk("ch", L, I(0))))))
        f = bdd.AND(f, bdd.OR(bdd.NOT(c), e))
    return f


FSTREAM = r"std::basic_(i|o)?fstream<char, std::char_traits<char>>::"


@model(FSTREAM + r"(basic_(i|o)?fstream|operator=)\(std::basic_(i|o)?fstream<char, std::char_traits<char>>&&\)")
def st_move(ip, st, a, ins, fr, fn):
    """the target takes over file, position and state; the source is closed"""
    d, n = stream(ip, st, a[0]), stream(ip, st, a[-1])
    if d == n:
        return a[0]
    if "operator=" not in fn.dem:
        ip.store(st, fr, ins, a[0], 8, ip.ext_ptr("vtable:ifstream", 0))
    for k in [k for k in list(st.mem) if k == d or k.startswith(d + ".")] + [d]:
        ip.event("streammove", st, fr, ins, src=n, dst=d)
        st.mem[k] = ip.content(st, n + k[len(d):])
    sset(ip, st, n, OPEN, 0)
    sset(ip, st, n, FAIL, 1)
    return a[0]


@model(FSTREAM + r"swap\(.*\)", r"void std::swap<char, std::char_traits<char>>\(std::basic_(i|o)?fstream<.*")
def st_swap(ip, st, a, ins, fr, fn):
    d, n = stream(ip, st, a[0]), stream(ip, st, a[1])
    x, y = ip.content(st, d), ip.content(st, n)
    st.mem[d], st.mem[n] = y, x


# ------------------------------------------------------------------ a stream whose lines are given (ip.script)
POS = 16


def script_at(ip, i):
    """offset of line i in the scripted file"""
    t = getattr(ip, "script_table", None)
    if t is None or t[0] is not ip.script:
        off = [0]
        for x in ip.script:
            off.append(off[-1] + len(x) + 1)
        ip.script_table = t = (ip.script, off, {v: k for k, v in enumerate(off)})
    return t[1][i]


def script_pos(ip, st, n):
    cell = ip.content(st, n).cells.get(POS)
    return restrict_term(cell[1], st.pc) if cell else I(0)


def script_setpos(ip, st, n, v):
    st.mem[n] = ip.content(st, n).with_cell(POS, 8, v)


def script_index(ip, v):
    """number of the line offset v lies in, and the place in that line"""
    from .interp import Imprecise
    script_at(ip, 0)
    if v.op == "int" and v.a[0] >= 0:
        off = ip.script_table[1]
        i = bisect.bisect_right(off, v.a[0]) - 1
        return i, v.a[0] - off[i]
    raise Imprecise("the scripted file is read from position %s" % show(v))


def script_getline(ip, st, n, put):
    """read the next line of the scripted file; put(characters or None): what becomes of the destination"""
    good = sgood(ip, st, n)
    f0, e0 = sget(ip, st, n, FAIL), sget(ip, st, n, EOF)
    out = None
    for c, v in reversed(cases_of(script_pos(ip, st, n))):
        if bdd.AND(c, bdd.AND(st.pc, good)) == 0:
            continue
        i, k = script_index(ip, v)
        if i >= len(ip.script):
            r = (put(()), 1, 1, v)
        else:
            t = ip.script[i][k:]
            content, cut = put(t), False
            if isinstance(content, tuple):
                content, cut = content
            last = i == len(ip.script) - 1 and getattr(ip, "script_nonl", False)
            r = (content, int(cut), int(last), sym("inside line %d" % i, "i", 0, None) if cut else I(script_at(ip, i + 1)))
            if getattr(ip, "on_script", None):
                st.pc = bdd.AND(st.pc, bdd.OR(bdd.NOT(bdd.AND(c, good)), ip.on_script(i)))
        r = tuple(x[0] if isinstance(x, tuple) else x for x in r)
        out = r if out is None else (ip.M.merge_content(c, r[0], out[0]), bdd.ite(c, r[1], out[1]), bdd.ite(c, r[2], out[2]), ite(c, r[3], out[3]))
    bad = put(())
    bad = bad[0] if isinstance(bad, tuple) else bad
    if out is None:
        out = (bad, 1, e0, script_pos(ip, st, n))
    elif not bdd.implies(st.pc, good):
        out = (ip.M.merge_content(good, out[0], bad), bdd.ite(good, out[1], 1), bdd.ite(good, out[2], e0),
               ite(good, out[3], script_pos(ip, st, n)))
    sset(ip, st, n, FAIL, out[1])
    sset(ip, st, n, EOF, out[2])
    script_setpos(ip, st, n, out[3])
    return out[0]


def script_peek(ip, st, n):
    """the next character of the scripted file, -1 at its end"""
    good = sgood(ip, st, n)
    out, end = I(-1), 0
    for c, v in reversed(cases_of(script_pos(ip, st, n))):
        if bdd.AND(c, bdd.AND(st.pc, good)) == 0:
            continue
        i, k = script_index(ip, v)
        if i >= len(ip.script):
            x, e = I(-1), 1
        elif k >= len(ip.script[i]):
            x, e = (I(-1), 1) if i == len(ip.script) - 1 and getattr(ip, "script_nonl", False) else (I(10), 0)
        else:
            x, e = ip.script[i][k], 0
        out, end = ite(c, x, out), bdd.ite(c, e, end)
    sset(ip, st, n, FAIL, bdd.OR(sget(ip, st, n, FAIL), bdd.NOT(good)))
    sset(ip, st, n, EOF, bdd.OR(sget(ip, st, n, EOF), bdd.AND(good, end)))
    return restrict_term(ite(good, out, I(-1)), st.pc)


@model(r"std::basic_istream<char, std::char_traits<char>>& std::getline<.*>\(std::basic_istream<.*")
def st_stdgetline(ip, st, a, ins, fr, fn):
    from .interp import Imprecise
    if getattr(ip, "script", None) is None or "char)" in fn.dem:
        raise Imprecise("std::getline")
    n = stream(ip, st, a[0])
    ip.event("getline", st, fr, ins, dst=a[1], cap=None, stream=n)
    g0 = sgood(ip, st, n)

    def put(t):
        return Content(("zero",)).with_cell(0, 32, chars_str(list(t)))
    c = script_getline(ip, st, n, put)
    v = ip.M.load(c, 0, 32, "str")
    str_set(ip, st, a[1], ite(g0, v, str_get(ip, st, a[1])))
    return a[0]


def cases_of(t, pc=1):
    if t.op != "ite":
        return [(pc, t)]
    c = t.a[0]
    return cases_of(t.a[1], bdd.AND(pc, c)) + cases_of(t.a[2], bdd.AND(pc, bdd.NOT(c)))


def sgood(ip, st, n):
    return bdd.NOT(bdd.OR(sget(ip, st, n, FAIL), sget(ip, st, n, EOF)))


@model(r"std::basic_ifstream<.*>::basic_ifstream\(.*\)")
def st_ctor(ip, st, a, ins, fr, fn):
    n = stream(ip, st, a[0])
    ip.store(st, fr, ins, a[0], 8, ip.ext_ptr("vtable:ifstream", 0))
    o = bdd.var(sym(ip.fresh_name("is_open:" + n), "b"))
    ip.event("open", st, fr, ins, stream=n, ok=o)
    if len(a) > 1 and "char const*" in fn.dem or "basic_string" in fn.dem.split("basic_ifstream(")[-1]:
        sset(ip, st, n, OPEN, o)
        sset(ip, st, n, FAIL, bdd.NOT(o))
    else:
        sset(ip, st, n, OPEN, 0)
        sset(ip, st, n, FAIL, 0)
    sset(ip, st, n, EOF, 0)


@model(r"std::basic_ifstream<.*>::open\(.*\)")
def st_open(ip, st, a, ins, fr, fn):
    n = stream(ip, st, a[0])
    o = bdd.var(sym(ip.fresh_name("is_open:" + n), "b"))
    ip.event("open", st, fr, ins, stream=n, ok=o)
    sset(ip, st, n, OPEN, o)
    sset(ip, st, n, FAIL, bdd.NOT(o))
    sset(ip, st, n, EOF, 0)
    if getattr(ip, "script", None) is not None:
        script_setpos(ip, st, n, I(0))


@model(r"std::basic_ifstream<.*>::is_open\(\)( const)?")
def st_isopen(ip, st, a, ins, fr, fn):
    return Bv(sget(ip, st, stream(ip, st, a[0]), OPEN))


@model(r"std::basic_ifstream<.*>::close\(\)")
def st_close(ip, st, a, ins, fr, fn):
    sset(ip, st, stream(ip, st, a[0]), OPEN, 0)


@model(r"std::basic_ifstream<.*>::~basic_ifstream\(\)")
def st_dtor(ip, st, a, ins, fr, fn):
    return None


@model(r"std::basic_ios<.*>::good\(\) const")
def st_good(ip, st, a, ins, fr, fn):
    return Bv(sgood(ip, st, stream(ip, st, a[0])))


@model(r"std::basic_ios<.*>::eof\(\) const")
def st_eof(ip, st, a, ins, fr, fn):
    return Bv(sget(ip, st, stream(ip, st, a[0]), EOF))


@model(r"std::basic_ios<.*>::(fail\(\)|operator!\(\)) const")
def st_fail(ip, st, a, ins, fr, fn):
    return Bv(sget(ip, st, stream(ip, st, a[0]), FAIL))


@model(r"std::basic_ios<.*>::operator bool\(\) const")
def st_bool(ip, st, a, ins, fr, fn):
    return Bv(bdd.NOT(sget(ip, st, stream(ip, st, a[0]), FAIL)))


@model(r"std::basic_ios<.*>::clear\(.*\)")
def st_clear(ip, st, a, ins, fr, fn):
    n = stream(ip, st, a[0])
    sset(ip, st, n, FAIL, 0)
    sset(ip, st, n, EOF, 0)
    if not (a[1].op == "int" and a[1].a[0] == 0):
        sset(ip, st, n, FAIL, bdd.var(sym(ip.fresh_name("clear"), "b")))


@model(r"std::basic_ios<.*>::setstate\(.*\)")
def st_setstate(ip, st, a, ins, fr, fn):
    n = stream(ip, st, a[0])
    if a[1].op == "int":
        if a[1].a[0] & 5:
            sset(ip, st, n, FAIL, 1)
        if a[1].a[0] & 2:
            sset(ip, st, n, EOF, 1)


@model(r"std::(istream|basic_istream<char, std::char_traits<char>>)::getline\(char\*, long\)")
def st_getline(ip, st, a, ins, fr, fn):
    n = stream(ip, st, a[0])
    p, cap = a[1], a[2]
    from .interp import Imprecise, State
    if p.op != "ptr" or cap.op != "int":
        raise Imprecise("getline into %s" % show(p))
    gev = ip.event("getline", st, fr, ins, dst=p, cap=cap, stream=n)
    ip.check_access(st, fr, ins, p.a[0], p.a[1], cap.a[0], True, what="getline buffer")
    if getattr(ip, "script", None) is not None:
        if p.a[1].op != "int":
            raise Imprecise("getline at a symbolic offset")
        old = ip.content(st, p.a[0])

        def put(t):
            c, off, cut = old, p.a[1].a[0], len(t) >= cap.a[0]
            t = t[:cap.a[0] - 1]
            cells = c.with_cell(off, len(t) + 1, I(0)).cells
            del cells[off]
            for i, x in enumerate(t + (I(0),)):
                cells[off + i] = (1, x)
            return Content(c.base, cells), cut
        st.mem[p.a[0]] = script_getline(ip, st, n, put)
        return a[0]
    good = sgood(ip, st, n)
    nm = ip.fresh_name("ln(%s)" % ip.prog.loc(ins).split("/")[-1])
    L = mk("L", nm, cap.a[0] - 1)
    gev["L"] = L
    if getattr(ip, "on_line", None):
        st.pc = assume(st.pc, ip.on_line(L))
    sconsume(ip, st, n, L)
    old = ip.content(st, p.a[0])
    osz = ip.objs[p.a[0]]["size"]
    off = p.a[1]
    if off.op == "int" and off.a[0] == 0 and (osz == cap.a[0] or osz is None):
        new = Content(("line", L, cap.a[0], old))
    elif off.op == "int":
        new = old.with_cell(off.a[0], cap.a[0], mk("lslice", L, I(0)))
    else:
        raise Imprecise("getline at a symbolic offset")
    if off.op == "int":
        empty = old.with_cell(off.a[0], 1, I(0))
    f0, e0 = sget(ip, st, n, FAIL), sget(ip, st, n, EOF)
    g = bdd.AND(st.pc, good)
    if getattr(ip, "exhausted", False):
        st.mem[p.a[0]] = empty
        sset(ip, st, n, FAIL, 1)
        sset(ip, st, n, EOF, 1)
        return a[0]
    if g == 0:
        st.mem[p.a[0]] = empty
        sset(ip, st, n, FAIL, 1)
        return a[0]
    fl = bdd.var(mk("sym", "rdfail", "b", L, None))
    el = bdd.var(mk("sym", "rdeof", "b", L, None))
    if bdd.implies(st.pc, good):
        st.mem[p.a[0]] = new
        sset(ip, st, n, FAIL, fl)
        sset(ip, st, n, EOF, el)
    else:
        # a read on a stream that is no longer good leaves an empty line
        st.mem[p.a[0]] = ip.M.merge_content(good, new, empty) if getattr(ip, "eof_precise", False) else new
        sset(ip, st, n, FAIL, bdd.ite(good, fl, 1))
        sset(ip, st, n, EOF, bdd.ite(good, el, e0))
    return a[0]


@model(r"std::(istream|basic_istream<char, std::char_traits<char>>)::peek\(\)")
def st_peek(ip, st, a, ins, fr, fn):
    n = stream(ip, st, a[0])
    ip.event("peek", st, fr, ins, stream=n)
    if getattr(ip, "exhausted", False):
        sset(ip, st, n, EOF, 1)
        return I(-1)
    if getattr(ip, "script", None) is not None:
        return script_peek(ip, st, n)
    good = sgood(ip, st, n)
    old = speek(ip, st, n)
    if old.op == "int" and old.a[0] == -2:
        v = sym(ip.fresh_name("peek(%s)" % ip.prog.loc(ins).split("/")[-1]), "i", -1, 255)
        if getattr(ip, "on_peek", None):
            st.pc = assume(st.pc, ip.on_peek(v))
    else:
        w = None

        def pick(x):
            nonlocal w
            if x.op == "int" and x.a[0] == -2:
                if w is None:
                    w = sym(ip.fresh_name("peek(%s)" % ip.prog.loc(ins).split("/")[-1]), "i", -1, 255)
                return w
            return x
        v = lift(pick, old)
        if v is None:
            v = sym(ip.fresh_name("peek(%s)" % ip.prog.loc(ins).split("/")[-1]), "i", -1, 255)
    st.mem[n] = ip.content(st, n).with_cell(PEEKED, 4, v)
    e = icmp("eq", v, I(-1)).a[0]
    sset(ip, st, n, EOF, bdd.OR(sget(ip, st, n, EOF), bdd.AND(good, e)))
    return ite(bdd.restrict(good, st.pc) if not bdd.implies(st.pc, good) else 1, v, I(-1))


@model(r"std::(istream|basic_istream<char, std::char_traits<char>>)::tellg\(\)")
def st_tellg(ip, st, a, ins, fr, fn):
    n = stream(ip, st, a[0])
    ip.event("tellg", st, fr, ins, stream=n)
    f = sget(ip, st, n, FAIL)
    if getattr(ip, "exhausted", False):
        return mk("agg", I(-1), I(0))
    if getattr(ip, "script", None) is not None:
        # (a stream at its end has no position either: the sentry fails)
        f = bdd.OR(f, sget(ip, st, n, EOF))
        sset(ip, st, n, FAIL, f)
        return mk("agg", ite(f, I(-1), script_pos(ip, st, n)), I(0))
    v = sym(ip.fresh_name("pos(%s)" % ip.prog.loc(ins).split("/")[-1]), "i", 0, (1 << 63) - 1)
    ip.log[-1]["ret"] = v
    return mk("agg", ite(f, I(-1), v), I(0))


@model(r"std::(istream|basic_istream<char, std::char_traits<char>>)::seekg\(.*\)")
def st_seekg(ip, st, a, ins, fr, fn):
    n = stream(ip, st, a[0])
    ip.event("seekg", st, fr, ins, stream=n, to=a[1], args=a[1:])
    if getattr(ip, "script", None) is not None:
        to = a[1]
        if len(a) > 2 and a[2].op == "int" and a[2].a[0] != 0 and "fpos" not in fn.dem:
            raise __import__("ggsa.interp", fromlist=["Imprecise"]).Imprecise("seekg relative to something else than the beginning")
        if to.op == "agg":
            to = to.a[0]
        f = sget(ip, st, n, FAIL)
        neg = icmp("slt", to, I(0), st.pc).a[0]
        script_setpos(ip, st, n, ite(bdd.OR(f, neg), script_pos(ip, st, n), to))
        sset(ip, st, n, FAIL, bdd.OR(f, neg))
        sset(ip, st, n, EOF, 0)
        return a[0]
    sconsume(ip, st, n)
    sset(ip, st, n, EOF, 0)
    return a[0]


@model(r"std::(istream|basic_istream<char, std::char_traits<char>>)::(ignore|get|read|putback|unget)\(.*\)")
def st_read(ip, st, a, ins, fr, fn):
    n = stream(ip, st, a[0])
    ip.event("readother", st, fr, ins, stream=n)
    sconsume(ip, st, n)
    sset(ip, st, n, FAIL, bdd.var(sym(ip.fresh_name("rdf"), "b")))
    sset(ip, st, n, EOF, bdd.var(sym(ip.fresh_name("rde"), "b")))
    return a[0]


@model(r".*std::operator<<.*", r"std::(ostream|basic_ostream<char, std::char_traits<char>>)::operator<<\(.*\)",
       r"std::ios_base::Init::.*", r"printf", r"fprintf", r"puts", r"std::basic_ostream<.*>::flush\(\)",
       r".*std::endl<.*", r"std::basic_ostream<.*>::put\(char\)")
def st_out(ip, st, a, ins, fr, fn):
    if getattr(ip, "log_print", False) and len(a) > 1:
        x = a[1]
        if "basic_string" in fn.dem.split("operator<<")[-1].split("(", 1)[-1]:
            x = str_get(ip, st, x)
        elif "char const*" in fn.dem or x.op == "ptr":
            x = S_to_str(string_at(ip, st, x, fr, ins))
        ip.event("print", st, fr, ins, what=x, ch=fn.dem.endswith("char)"))
    return a[0] if a else None


# ------------------------------------------------------------------ ggdatetime
NG = r"ngpt::"


@model(NG + r"(year|month|day_of_month|hours|minutes)::\1\(int\)")
def dt_small(ip, st, a, ins, fr, fn):
    ip.store(st, fr, ins, a[0], 4, a[1])


@model(NG + r"(seconds|milliseconds|microseconds|gps_week|modified_julian_day)::\1\(long\)")
def dt_long(ip, st, a, ins, fr, fn):
    ip.store(st, fr, ins, a[0], 8, a[1])


@model(NG + r"(seconds|milliseconds|microseconds|modified_julian_day)::\1\(\)")
def dt_long0(ip, st, a, ins, fr, fn):
    ip.store(st, fr, ins, a[0], 8, I(0))


@model(NG + r"(\w+)::as_underlying_type\(\) const")
def dt_und(ip, st, a, ins, fr, fn):
    return ip.load(st, fr, ins, a[0], 8, "i64")


@model(NG + r"(\w+)::to_fractional_seconds\(\) const")
def dt_frac(ip, st, a, ins, fr, fn):
    v = ip.load(st, fr, ins, a[0], 8, "i64")
    k = {"seconds": 1, "milliseconds": 1000, "microseconds": 1000000}[re.match(r"ngpt::(\w+)", fn.dem).group(1)]
    x = mk("sitofp", v)
    return x if k == 1 else mk("fdiv", x, F(k))


def _dt_store(ip, st, fr, ins, p, D):
    ip.store(st, fr, ins, p, 8, mk("dmjd", D))
    ip.store(st, fr, ins, ip.gep(p, I(8)), 8, mk("dsec", D))


def _S(fn):
    m = re.search(r"datetime<ngpt::(\w+)>", fn.dem)
    return m.group(1) if m else "?"


@model(NG + r"datetime<[\w:]+>::datetime(?:<[\w:]+>)?\((.*)\)")
def dt_ctor(ip, st, a, ins, fr, fn):
    sig = fn.dem[fn.dem.rindex("(") + 1:-1]
    _dt_store(ip, st, fr, ins, a[0], mk("dt", "ctor<%s>(%s)" % (_S(fn), sig), *a[1:]))


@model(NG + r"datetime<.*>::(min|max)\(\)")
def dt_minmax(ip, st, a, ins, fr, fn):
    D = mk("dt", re.search(r"::(min|max)\(", fn.dem).group(1))
    if fn.d["ret"] == "void":
        _dt_store(ip, st, fr, ins, a[0], D)
        return None
    return mk("agg", mk("dmjd", D), mk("dsec", D))


def dt_of(ip, st, fr, ins, p):
    """the datetime value stored at p as one term"""
    m = ip.load(st, fr, ins, p, 8, "i64")
    s = ip.load(st, fr, ins, ip.gep(p, I(8)), 8, "i64")

    def f(x, y):
        if x.op == "dmjd" and y.op == "dsec" and x.a[0] is y.a[0]:
            return x.a[0]
        return mk("dt", "mjd+sec", x, y)
    r = lift(f, m, s)
    return r if r is not None else mk("dt", "mjd+sec", m, s)


@model(NG + r"datetime<.*>::mjd\(\) const")
def dt_mjd(ip, st, a, ins, fr, fn):
    return ip.load(st, fr, ins, a[0], 8, "i64")


@model(NG + r"datetime<.*>::sec\(\) const")
def dt_sec(ip, st, a, ins, fr, fn):
    return ip.load(st, fr, ins, ip.gep(a[0], I(8)), 8, "i64")


@model(NG + r"datetime<.*>::as_mjd\(\) const")
def dt_asmjd(ip, st, a, ins, fr, fn):
    return mk("fn", "as_mjd", dt_of(ip, st, fr, ins, a[0]))


@model(NG + r"(gps_week ngpt::)?datetime<.*>::as_gps_wsow(<.*>)?\(.*\) const")
def dt_wsow(ip, st, a, ins, fr, fn):
    D = dt_of(ip, st, fr, ins, a[0])
    ip.store(st, fr, ins, a[1], 8, mk("dsow", D))
    return mk("dweek", D)


def valid_date(y, m, d):
    """the condition that this is a date; decided for known numbers that are one"""
    k = [x.a[0] if x.op == "int" else None for x in (y, m, d)]
    if None not in k and 1 <= k[0] <= 9999 and 1 <= k[1] <= 12 and 1 <= k[2] <= calendar.monthrange(k[0], k[1])[1]:
        return 1
    return bdd.var(mk("sym", "validdate", "b", mk("agg", y, m, d), None))


def bad_date(S):
    """the condition that the text is no date; decided for known texts that are one"""
    b = S_literal(S)
    m = re.match(rb" *(\d{4})[ /-](\d\d)[ /-](\d\d)[ T]([01]\d|2[0-3]):?[ :]?([0-5]\d)[ :]([0-5]\d)", b) if b else None
    if m and valid_date(*[I(int(m.group(i))) for i in (1, 2, 3)]) == 1:
        return 0
    return bdd.var(mk("sym", "baddate", "b", S, None))


@model(NG + r"modified_julian_day::modified_julian_day\(ngpt::year, ngpt::month, ngpt::day_of_month\)")
def mjd_ymd(ip, st, a, ins, fr, fn):
    ip.event("maythrow", st, fr, ins, ty="_ZTISt16invalid_argument")
    t = ip.throw(st, "_ZTISt16invalid_argument", bdd.NOT(valid_date(*a[1:])))
    ip.store(st, fr, ins, a[0], 8, mk("mjd", *a[1:]))
    return None, t


@model(NG + r"modified_julian_day::operator([-+])\(.*\) const")
def mjd_arith(ip, st, a, ins, fr, fn):
    x = ip.load(st, fr, ins, a[0], 8, "i64")
    y = ip.load(st, fr, ins, a[1], 8, "i64")
    return sub(x, y) if "operator-" in fn.dem else add(x, y)


@model(NG + r"(modified_julian_day|seconds|milliseconds|microseconds)::operator(<|<=|>|>=|==|!=)\(.*\) const")
def sec_cmp(ip, st, a, ins, fr, fn):
    x = ip.load(st, fr, ins, a[0], 8, "i64")
    y = ip.load(st, fr, ins, a[1], 8, "i64")
    op = re.search(r"operator([<>=!]+)\(", fn.dem).group(1)
    return icmp({"<": "slt", "<=": "sle", ">": "sgt", ">=": "sge", "==": "eq", "!=": "ne"}[op], x, y, st.pc)


@model(NG + r"(seconds|milliseconds|microseconds)::operator([-+])\(.*\) const")
def sec_arith(ip, st, a, ins, fr, fn):
    x = ip.load(st, fr, ins, a[0], 8, "i64")
    y = ip.load(st, fr, ins, a[1], 8, "i64")
    return sub(x, y) if "operator-" in fn.dem else add(x, y)


@model(NG + r"day_of_month::is_valid\(.*\) const")
def dom_valid(ip, st, a, ins, fr, fn):
    d = ip.load(st, fr, ins, a[0], 4, "i32")
    return Bv(valid_date(a[1], a[2], d))


@model(r".*ngpt::cast_to<(.*)>\(.*\)")
def dt_cast(ip, st, a, ins, fr, fn):
    m = re.search(r"cast_to<ngpt::(\w+), ngpt::(\w+)>", fn.dem)
    if m and m.group(1) == m.group(2):
        return a[0]
    return mk("cast_to", a[0], m.group(0) if m else "?")


@model(r".*ngpt::datetime<ngpt::\w+>::cast_to<ngpt::\w+>\(\) const")
def dt_mcast(ip, st, a, ins, fr, fn):
    m = re.search(r"datetime<ngpt::(\w+)>::cast_to<ngpt::(\w+)>\(\) const$", fn.dem)
    k = {"seconds": 1, "milliseconds": 1000, "microseconds": 1000000}
    this = a[-1]
    day = ip.load(st, fr, ins, this, 8, "i64")
    sec = ip.load(st, fr, ins, ip.gep(this, I(8)), 8, "i64")
    x, y = k[m.group(1)], k[m.group(2)]
    if y % x == 0:
        sec = lift(lambda v: mulc(v, y // x), sec) if y != x else sec
    else:
        sec = ip.arith("sdiv", sec, I(x // y), "i64", st)
    if len(a) == 2:
        ip.store(st, fr, ins, a[0], 8, day)
        ip.store(st, fr, ins, ip.gep(a[0], I(8)), 8, sec)
        return None
    return mk("agg", day, sec)


@model(r".*ngpt::delta_sec<(.*)>\(.*\)")
def dt_delta(ip, st, a, ins, fr, fn):
    x, y = dt_of(ip, st, fr, ins, a[0]), dt_of(ip, st, fr, ins, a[1])
    return mk("ddelta", x, y)


def _dt_cmp(op, x, y):
    if op in (">", "<="):       # x <= y == !(y < x);  x > y == y < x
        at = bdd.var(mk("eq", mk("dlt", y, x), 1))
        f = at if op == ">" else bdd.NOT(at)
    elif op in ("<", ">="):
        at = bdd.var(mk("eq", mk("dlt", x, y), 1))
        f = at if op == "<" else bdd.NOT(at)
    else:
        p, q = sorted((x, y))
        at = 1 if p is q else bdd.var(mk("eq", mk("deq", p, q), 1))
        f = at if op == "==" else bdd.NOT(at)
    return Bv(f)


@model(r"bool ngpt::operator(==|!=|<=|>=|<|>) ?<.*>\(ngpt::datetime<.*")
def dt_cmp(ip, st, a, ins, fr, fn):
    op = re.search(r"operator(==|!=|<=|>=|<|>) ?<", fn.dem).group(1)
    x, y = dt_of(ip, st, fr, ins, a[0]), dt_of(ip, st, fr, ins, a[1])
    r = lift(lambda u, v: _dt_cmp(op, u, v), x, y)
    return r if r is not None else _dt_cmp(op, x, y)


@model(r".*ngpt::(strptime_\w+)<.*>\(char const\*, char\*\*\)")
def dt_strptime(ip, st, a, ins, fr, fn):
    nm = re.search(r"(strptime_\w+)<ngpt::(\w+)>", fn.dem)
    ret = fn.d["ret"] != "void"
    args = a if ret else a[1:]
    S = conv_at(ip, st, args[0], fr, ins)
    note_string(ip, st, fr, ins, S, "date parsed from a string without a certain terminator")
    ip.event("conv", st, fr, ins, S=S, what=nm.group(1), p=args[0], mem=ip.content(st, args[0].a[0]) if args[0].op == "ptr" else None)
    ip.event("maythrow", st, fr, ins, ty="_ZTISt16invalid_argument")
    t = ip.throw(st, "_ZTISt16invalid_argument", bad_date(S))
    D = mk("dt", nm.group(1), S)
    end = args[1] if len(args) > 1 else NULL
    if not (end.op == "ptr" and end.a[0] == NULLOBJ):
        ip.store(st, fr, ins, end, 8, ip.gep(args[0], mk("nconv", nm.group(1), S)))
    if not ret:
        _dt_store(ip, st, fr, ins, a[0], D)
        return None, t
    return mk("agg", mk("dmjd", D), mk("dsec", D)), t


# ------------------------------------------------------------------ maps
# A map with small constant-size keys is a term map(entry, ...) in its own 48 bytes; an entry is
# (key, object, offset of the mapped value, presence condition); entries have distinct keys and are in key order.
MAPKEY = r"(int|char|long|unsigned int|\w+(::\w+)*)"
MAPK = r"std::map<" + MAPKEY + r", .*>::"


def _mkmap(ents):
    return mk("map", *[tuple(e) for e in sorted(ents, key=lambda e: (0, e[0].a[0]) if e[0].op == "int" else (1, 0))])


def _mapnorm(t):
    """one map term out of a gated one"""
    if t.op == "map":
        return t
    if t.op != "ite":
        return None
    x, y = _mapnorm(t.a[1]), _mapnorm(t.a[2])
    if x is None or y is None:
        return None
    c = t.a[0]
    ents = {}
    for m, g in ((x, c), (y, bdd.NOT(c))):
        for k, ob, off, pr in m.a:
            if k in ents:
                if ents[k][1:3] != (ob, off):
                    return None
                ents[k] = (k, ob, off, bdd.OR(ents[k][3], bdd.AND(g, pr)))
            else:
                ents[k] = (k, ob, off, bdd.AND(g, pr))
    return _mkmap(ents.values())


def map_of(ip, st, p):
    if p.op != "ptr":
        return None
    c = ip.content(st, p.a[0])
    cell = c.cells.get(p.a[1].a[0]) if p.a[1].op == "int" else None
    if not cell or cell[0] != 48:
        return None
    m = _mapnorm(restrict_term(cell[1], st.pc))
    return m


def _map_need(ip, st, p):
    m = map_of(ip, st, p)
    if m is None:
        from .interp import Imprecise
        raise Imprecise("map contents unknown: %s" % show(p))
    return m


def _map_put(ip, st, p, m):
    st.mem[p.a[0]] = ip.content(st, p.a[0]).with_cell(p.a[1].a[0], 48, m)


def _map_end(ip, p):
    n = "%s:end@%s" % (p.a[0], p.a[1].a[0] if p.a[1].op == "int" else "?")
    ip.objs.setdefault(n, dict(size=0, kind="ext", name=n))
    return ptr(n)


def _map_key(ip, st, fr, ins, p, dem):
    m = re.match(r".*std::(map|_Rb_tree)<" + MAPKEY + ",", dem)
    k = m.group(2) if m else "int"
    n = {"char": 1, "long": 8}.get(k, 4)
    if "::" in k:
        n = ip.prog.enum_size(k)
    return ip.load(st, fr, ins, p, n, "i%d" % (8 * n))


@model(r"std::map<" + MAPKEY + r", .*>::map\(std::initializer_list<.*")
def map_il(ip, st, a, ins, fr, fn):
    """a map built from an initializer list: list of (key, element address)"""
    this, p, n = a[0], a[1], a[2]
    from .interp import Imprecise
    if n.op != "int" or p.op != "ptr" or p.a[1].op != "int":
        raise Imprecise("map initialiser")
    if re.match(r"std::map<" + MAPKEY + r", (std::vector|std::map)", fn.dem):
        raise Imprecise("map initialiser with containers")
    esz = 40 if "basic_string" in fn.dem else 16
    ob = "mapelems:" + ip.fresh_name(this.a[0])
    ip.new_obj(ob, esz * n.a[0], "heap", st)
    ents = []
    seen = set()
    for k in range(n.a[0]):
        key = ip.load(st, fr, ins, ip.gep(p, I(k * esz)), 4, "i32")
        if key in seen:
            continue                 # std::map keeps the first
        seen.add(key)
        q = ip.quiet
        ip.quiet = True
        if esz == 16:
            v = ip.load(st, fr, ins, ip.gep(p, I(k * esz + 8)), 8, "double")
            ip.store(st, fr, ins, ptr(ob, I(k * esz)), 4, key)
            ip.store(st, fr, ins, ptr(ob, I(k * esz + 8)), 8, v)
        else:
            str_set(ip, st, ptr(ob, I(k * esz + 8)), str_get(ip, st, ip.gep(p, I(k * esz + 8))))
        ip.quiet = q
        ents.append((key, ob, k * esz + 8, 1))
    _map_put(ip, st, this, _mkmap(ents))


@model(r"std::map<" + MAPKEY + r", .*>::map\(\)")
def map_default(ip, st, a, ins, fr, fn):
    _map_put(ip, st, a[0], mk("map"))


@model(r"std::map<" + MAPKEY + r", .*>::map\(std::map<.*>&&\)", r"std::map<" + MAPKEY + r", .*>::operator=\(std::map<.*>&&\)")
def map_move(ip, st, a, ins, fr, fn):
    m = _map_need(ip, st, a[1])
    _map_put(ip, st, a[0], m)
    _map_put(ip, st, a[1], mk("map"))
    return a[0]


def _entry_copy(ip, st, dst, e, vt):
    """a copy of a map's element that belongs to the map at dst"""
    from .interp import Imprecise
    k, ob, off, pr = e
    n = "mapval:%s@%s[%s]" % (dst.a[0], dst.a[1].a[0], show(k))
    while n in st.mem or n in ip.objs:
        n += "'"
    ip.objs[n] = dict(size=48, kind="heap", name=n)
    c = ip.content(st, ob)
    if off != 8:
        raise Imprecise("copy of a map built from an initialiser")
    if vt.startswith("std::vector"):
        ps = [restrict_term(ip.M.load(c, off + 8 * i, 8, "ptr"), st.pc) for i in range(3)]
        if any(w in vt for w in ("basic_string", "std::vector<std", "std::map")):
            raise Imprecise("copy of a map of nested containers")

        def moved(p):
            if p.op == "ite":
                return ite(p.a[0], moved(p.a[1]), moved(p.a[2]))
            if p.op != "ptr" or p.a[0] == NULLOBJ:
                return p
            m = n + ":" + p.a[0]
            if m not in st.mem:
                o = ip.objs.get(p.a[0], {})
                ip.objs[m] = dict(o, name=m, kind="heap")
                st.mem[m] = ip.content(st, p.a[0])
            return ptr(m, p.a[1])
        if any(p.op == "int" for p in ps):
            ps = [NULL if p.op == "int" else p for p in ps]
        for i, p in enumerate(ps):
            c = c.with_cell(off + 8 * i, 8, moved(p))
    elif vt.startswith("std::"):
        raise Imprecise("copy of a map of containers")
    st.mem[n] = c
    return (k, n, off, pr)


def _map_vt(dem):
    s = re.search(r"std::map<" + MAPKEY + r", (.*)", dem).group(3)
    d = 0
    for i, c in enumerate(s):
        if c == "," and d == 0:
            return s[:i]
        d += {"<": 1, ">": -1}.get(c, 0)
    return s


@model(r"std::map<" + MAPKEY + r", .*>::(map|operator=)\(std::map<.*> const&\)")
def map_copy(ip, st, a, ins, fr, fn):
    if a[0] is a[1]:
        return a[0]
    m = _map_need(ip, st, a[1])
    _map_put(ip, st, a[0], _mkmap([_entry_copy(ip, st, a[0], e, _map_vt(fn.dem)) for e in m.a]))
    return a[0]


@model(r"(void )?std::map<" + MAPKEY + r", .*>::(clear\(\)|swap\(.*\))")
def map_clear(ip, st, a, ins, fr, fn):
    if len(a) == 1:
        return _map_put(ip, st, a[0], mk("map"))
    x, y = _map_need(ip, st, a[0]), _map_need(ip, st, a[1])
    _map_put(ip, st, a[0], y)
    _map_put(ip, st, a[1], x)


@model(r"void std::map<" + MAPKEY + r", .*>::insert<.*>\(.*\)")
def map_insert_range(ip, st, a, ins, fr, fn):
    """a whole other map is added: what is there already stays"""
    from .interp import Imprecise
    src = [p for p in ip.__dict__.get("mapiter", {}).values() if a[2] is _map_end(ip, p)]
    m = _map_need(ip, st, src[0]) if src else None
    if m is None or restrict_term(a[1], st.pc) is not restrict_term(_map_from(ip, m, _map_end(ip, src[0]), 0), st.pc):
        raise Imprecise("insertion of a range into a map")
    ents = {e[0]: e for e in _map_need(ip, st, a[0]).a}
    for e in m.a:
        o = ents.get(e[0])
        if o is None or bdd.AND(o[3], st.pc) == 0:
            ents[e[0]] = _entry_copy(ip, st, a[0], e, _map_vt(fn.dem))
        elif not bdd.implies(bdd.AND(e[3], st.pc), o[3]):
            raise Imprecise("insertion of a range into a map with uncertain elements")
    _map_put(ip, st, a[0], _mkmap(ents.values()))


@model(r"std::map<" + MAPKEY + r", .*>::((emplace|insert|try_emplace|emplace_hint|insert_or_assign|extract|merge|lower_bound|upper_bound|equal_range|rbegin|rend)\b.*)")
def map_other(ip, st, a, ins, fr, fn):
    from .interp import Imprecise
    raise Imprecise("unmodelled map operation " + fn.dem.split("::")[-1][:40])


@model(MAPK + r"at\(.*\)( const)?")
def map_at(ip, st, a, ins, fr, fn):
    m = _map_need(ip, st, a[0])
    key = _map_key(ip, st, fr, ins, a[1], fn.dem)
    res, miss = None, 1
    for k, ob, off, pr in reversed(m.a):
        e = bdd.AND(icmp("eq", key, k, st.pc).a[0], pr)
        miss = bdd.AND(miss, bdd.NOT(e))
        v = ptr(ob, I(off))
        res = v if res is None else ite(e, v, res)
    ip.event("maythrow", st, fr, ins, ty="_ZTISt12out_of_range", cond=bdd.AND(st.pc, miss))
    t = ip.throw(st, "_ZTISt12out_of_range", miss) if miss != 0 else None
    return (restrict_term(res, st.pc) if res is not None else NULL), t


def _map_origin(ip, m, p):
    d = ip.__dict__.setdefault("mapiter", {})
    for k, ob, off, pr in m.a:
        d[(ob, off - 8)] = p


def _map_lookup(ip, st, a, ins, fr, fn):
    m = _map_need(ip, st, a[0])
    key = _map_key(ip, st, fr, ins, a[1], fn.dem)
    res, miss = _map_end(ip, a[0]), 1
    _map_origin(ip, m, a[0])
    for k, ob, off, pr in reversed(m.a):
        e = bdd.AND(icmp("eq", key, k, st.pc).a[0], pr)
        miss = bdd.AND(miss, bdd.NOT(e))
        res = ite(e, ptr(ob, I(off - 8)), res)
    return restrict_term(res, st.pc), miss


@model(MAPK + r"find\(.*\)( const)?")
def map_find(ip, st, a, ins, fr, fn):
    return _map_lookup(ip, st, a, ins, fr, fn)[0]


@model(MAPK + r"operator\[\]\(.*\)")
def map_index(ip, st, a, ins, fr, fn):
    from .interp import Imprecise
    m = _map_need(ip, st, a[0])
    key = _map_key(ip, st, fr, ins, a[1], fn.dem)
    it, miss = _map_lookup(ip, st, a, ins, fr, fn)
    ip.event("map_index", st, fr, ins, key=key, miss=bdd.AND(st.pc, miss))
    if bdd.AND(st.pc, miss) == 0:
        res = None
        for k, ob, off, pr in reversed(m.a):
            e = bdd.AND(icmp("eq", key, k, st.pc).a[0], pr)
            res = ptr(ob, I(off)) if res is None else ite(e, ptr(ob, I(off)), res)
        return restrict_term(res, st.pc)
    if key.op != "int":
        # a finite set of keys: split
        raise Imprecise("insertion of an unknown key into a map")
    mm = re.match(r"std::map<" + MAPKEY + r", (.*)", fn.dem)
    vt = mm.group(3)
    ksz = ip.prog.enum_size(mm.group(1)) if "::" in mm.group(1) else {"char": 1, "long": 8}.get(mm.group(1), 4)
    ents = list(m.a)
    old = [e for e in ents if e[0] == key]
    if old:
        k, ob, off, pr = old[0]
        if bdd.AND(st.pc, pr) != 0:
            # present on some ways only: the mapped value is default there where it is absent
            c = ip.content(st, ob)
            if not _is_fresh(c):
                st.mem[ob] = ip.M.merge_content(pr, c, _fresh(ip, vt, key, ksz))
        else:
            st.mem[ob] = _fresh(ip, vt, key, ksz)
        ents = [e if e[0] != key else (k, ob, off, bdd.OR(pr, st.pc)) for e in ents]
        _map_put(ip, st, a[0], _mkmap(ents))
        return ptr(ob, I(off))
    ob = "mapval:%s@%s[%s]" % (a[0].a[0], a[0].a[1].a[0], key.a[0])
    ip.objs[ob] = dict(size=48, kind="heap", name=ob)
    st.mem[ob] = _fresh(ip, vt, key, ksz)
    _map_put(ip, st, a[0], _mkmap(ents + [(key, ob, 8, 1)]))
    return ptr(ob, I(8))


def _fresh(ip, vt, key, ksz):
    from .interp import Imprecise
    from .mem import Content
    if vt.startswith("std::map"):
        raise Imprecise("map of maps")
    c = Content(("zero",))
    if "basic_string" in vt.split("<")[0]:
        raise Imprecise("insertion into a map of strings")
    return c.with_cell(0, ksz, key)


def _is_fresh(c):
    return c.base == ("zero",) and len(c.cells) == 1


@model(MAPK + r"c?end\(\)( const)?")
def map_end(ip, st, a, ins, fr, fn):
    return _map_end(ip, a[0])


def _map_from(ip, m, end, k):
    res = end
    for key, ob, off, pr in reversed(m.a[k:]):
        res = ite(pr, ptr(ob, I(off - 8)), res)
    return res


@model(MAPK + r"c?begin\(\)( const)?")
def map_begin(ip, st, a, ins, fr, fn):
    m = _map_need(ip, st, a[0])
    _map_origin(ip, m, a[0])
    return restrict_term(_map_from(ip, m, _map_end(ip, a[0]), 0), st.pc)


@model(MAPK + r"(size|empty)\(\)( const)?")
def map_size(ip, st, a, ins, fr, fn):
    m = _map_need(ip, st, a[0])
    if "empty" in fn.dem.rsplit("::", 1)[-1]:
        c = 1
        for e in m.a:
            c = bdd.AND(c, bdd.NOT(e[3]))
        return Bv(c)
    n = I(0)
    for e in m.a:
        n = add(n, ite(e[3], I(1), I(0)))
    return n


@model(MAPK + r"(count|contains)\(.*\)( const)?")
def map_count(ip, st, a, ins, fr, fn):
    miss = _map_lookup(ip, st, a, ins, fr, fn)[1]
    if "contains" in fn.dem:
        return Bv(bdd.NOT(miss))
    return ite(miss, I(0), I(1))


def _map_next(ip, st, it):
    from .interp import Imprecise

    def leaf(v):
        if v.op != "ptr" or v.a[1].op != "int":
            raise Imprecise("increment of an unknown map iterator")
        owner = ip.__dict__.get("mapiter", {}).get((v.a[0], v.a[1].a[0]))
        if owner is None:
            raise Imprecise("increment of a map iterator of unknown origin")
        m = _map_need(ip, st, owner)
        for n, (k, ob, off, pr) in enumerate(m.a):
            if (ob, off - 8) == (v.a[0], v.a[1].a[0]):
                return _map_from(ip, m, _map_end(ip, owner), n + 1)
        raise Imprecise("increment of a map iterator of unknown origin")

    def go(t, pc):
        t = restrict_term(t, pc)
        if t.op == "ite":
            return ite(t.a[0], go(t.a[1], bdd.AND(pc, t.a[0])), go(t.a[2], bdd.AND(pc, bdd.NOT(t.a[0]))))
        return leaf(t)
    return restrict_term(go(it, st.pc), st.pc)


@model(r"std::_Rb_tree_(const_)?iterator<std::pair<" + MAPKEY + r" const, .*>>::operator\+\+\((int)?\)")
def map_itnext(ip, st, a, ins, fr, fn):
    v = ip.load(st, fr, ins, a[0], 8, "ptr")
    ip.store(st, fr, ins, a[0], 8, _map_next(ip, st, v))
    return v if fn.dem.endswith("(int)") else a[0]


@model(MAPK + r"erase(\[abi:cxx11\])?\(std::_Rb_tree_(const_)?iterator<.*>\)")
def map_erase(ip, st, a, ins, fr, fn):
    m = _map_need(ip, st, a[0])
    v = a[1]
    if v.op == "ptr" and (v.a[0] in ip.objs) and ip.objs[v.a[0]]["kind"] == "stack":
        v = ip.load(st, fr, ins, v, 8, "ptr")
    ents = []
    for k, ob, off, pr in m.a:
        ents.append((k, ob, off, bdd.AND(pr, bdd.NOT(icmp("eq", v, ptr(ob, I(off - 8)), st.pc).a[0]))))
    nx = _map_next(ip, st, v)
    _map_put(ip, st, a[0], _mkmap(ents))
    return nx


@model(r"std::_Rb_tree_(const_)?iterator<std::pair<" + MAPKEY + r" const, .*>>::operator(->|\*)\(\) const")
def map_itderef(ip, st, a, ins, fr, fn):
    return ip.load(st, fr, ins, a[0], 8, "ptr")


@model(r"std::_Rb_tree_const_iterator<.*>::_Rb_tree_const_iterator\(std::_Rb_tree_iterator<.*> const&\)")
def map_itconv(ip, st, a, ins, fr, fn):
    ip.store(st, fr, ins, a[0], 8, ip.load(st, fr, ins, a[1], 8, "ptr"))


@model(r"std::(map|_Rb_tree)<.*>::~\w+\(\)")
def map_dtor(ip, st, a, ins, fr, fn):
    return None


@model(r"bool std::__is_permutation<.*>\(.*\)")
def m_is_permutation(ip, st, a, ins, fr, fn):
    """every element of one short range has a partner of its own in the other (== is an equivalence)"""
    ts = _split(fn.dem[fn.dem.index("<") + 1:fn.dem.index(">(") if ">(" in fn.dem else None])
    m = re.search(r"__normal_iterator<(.*?)( const)?\*,", fn.dem)
    rec = m and ip.prog.records.get(m.group(1))
    if not rec or "_Iter_equal_to_iter" not in fn.dem or len(fn.args) not in (3, 4):
        return NotImplemented
    eq = [f for f in ip.prog.funcs.values() if not f.decl and len(f.args) == 3 and f.dem.startswith(
        "bool __gnu_cxx::__ops::_Iter_equal_to_iter::operator()<") and f.dem.count(m.group(1)) >= 2]
    f1, l1, f2 = a[:3]
    if len(eq) != 1 or any(x.op != "ptr" or x.a[1].op != "int" for x in a) or f1.a[0] != l1.a[0]:
        return NotImplemented
    sz = rec["size"] if isinstance(rec, dict) else rec
    n = (l1.a[1].a[0] - f1.a[1].a[0]) // sz
    if len(fn.args) == 4 and a[3].a[1].a[0] - f2.a[1].a[0] != n * sz:
        return FALSE if a[3].a[0] == f2.a[0] else NotImplemented
    if n > 4:
        return NotImplemented
    stack = fr.stack + ((fr.fn.dem, ip.prog.loc(ins), ip._in_repo(ins)),)
    ip.objs.setdefault("pred", dict(size=None, kind="ext", name="pred"))
    cur, e = st, {}
    for i in range(n):
        for j in range(n):
            v, cur, ts = ip.call_func(eq[0], [ptr("pred"), ip.gep(f1, I(i * sz)), ip.gep(f2, I(j * sz))], cur, stack, fr.depth + 1)
            if cur is None or ts is not None or v.op not in ("bool", "int"):
                return NotImplemented
            e[i, j] = v.a[0] if v.op == "bool" else int(v.a[0] != 0)
    st.mem, st.pc = cur.mem, cur.pc
    from itertools import permutations
    r = 0
    for p in permutations(range(n)):
        x = 1
        for i, j in enumerate(p):
            x = bdd.AND(x, e[i, j])
        r = bdd.OR(r, x)
    return Bv(r)


# ------------------------------------------------------------------ one-time initialisation (P22 shows that it does not depend on the call)
@model(r"__cxa_guard_acquire")
def m_guard_acquire(ip, st, a, ins, fr, fn):
    return I(1)


@model(r"__cxa_guard_release")
def m_guard_release(ip, st, a, ins, fr, fn):
    ip.store(st, fr, ins, a[0], 1, I(1))
    return None


@model(r"__cxa_guard_abort")
def m_guard_abort(ip, st, a, ins, fr, fn):
    return None
