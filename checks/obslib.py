"""Observation files: header scenarios and the objects they lead to."""
from linelib import *

D = r".*ggsa_driver::%s\(.*"

CTOR = r"ngpt::ObservationRnx::ObservationRnx\(char const\*\)"
LABEL = dict(E="END OF HEADER", T="SYS / # / OBS TYPES", P="APPROX POSITION XYZ", F="TIME OF FIRST OBS", M="MARKER NAME",
             A="ANT # / TYPE", R="REC # / TYPE / VERS", D="ANTENNA: DELTA H/E/N", n="MARKER NUMBER", c="COMMENT", t="SYS / # / OBS TYPES")
CLK = "RCV CLOCK OFFS APPL"


def read_ok(L):
    return bdd.NOT(bdd.OR(bdd.var(mk("sym", "rdfail", "b", L, None)), bdd.var(mk("sym", "rdeof", "b", L, None))))


def chars(L, at, text):
    c = 1
    for i, x in enumerate(text):
        c = bdd.AND(c, is_val(mk("ch", L, I(at + i)), ord(x)))
    return c


def text(L, col):
    return mk("S", ("line", L, I(col), None))


def no(kind, S, fn):
    return bdd.NOT(bdd.var(mk("sym", kind, "b", S, fn)))


def number(fn, S):
    """the text starts with a representable number"""
    return bdd.AND(no("erange", S, fn), bdd.NOT(cmp_eq0(mk("nconv", fn, S))))


# ------------------------------------------------------------------ observation codes as primitives (their parser is decided by P02)
def code_syms(S):
    k = show(S)
    return sym("codetype " + k, "i", 0, 5), sym("codeband " + k, "i", -48, 79), sym("codeattr " + k, "i", -128, 127)


def code_ok(S):
    return bdd.NOT(bdd.var(mk("sym", "badcode", "b", S, None)))


def use_codes(s):
    full = s.fn(r"ngpt::ObservationCode::ObservationCode\(ngpt::OBSERVABLE_TYPE, int, ngpt::ObservationAttribute\)")

    def ctor(ip, st, a, ins, fr, fn):
        S = string_at(ip, st, a[1], fr, ins)
        if S.op != "S":
            raise Imprecise("observation code from %s" % show(S))
        ip.event("conv", st, fr, ins, S=S, what="ObservationCode", p=a[1], mem=ip.content(st, a[1].a[0]) if a[1].op == "ptr" else None)
        ip.event("maythrow", st, fr, ins, ty="_ZTISt13runtime_error")
        t = ip.throw(st, "_ZTISt13runtime_error", bdd.NOT(code_ok(S)))
        if st.pc == 0:
            return None, t
        rv, ns, ts = ip.call_func(full, [a[0]] + list(code_syms(S)), st, fr.stack, fr.depth + 1)
        st.mem = ns.mem
        return None, t
    s.ip.override(r"ngpt::ObservationCode::ObservationCode\(char const\*\)", ctor)


def use_rtrim(s):
    """trimmed texts are primitives here (names that no accessor exposes)"""
    def trim(ip, st, a, ins, fr, fn):
        from ggsa.models import str_set
        S = string_at(ip, st, a[1], fr, ins)
        ip.event("conv", st, fr, ins, S=S, what="rtrim", p=a[1], mem=ip.content(st, a[1].a[0]) if a[1].op == "ptr" else None)
        str_set(ip, st, a[0], mk("str", ("opq", mk("rtrim", S, a[3]))))
        ip.store(st, fr, ins, a[2], 8, sym(ip.fresh_name("trimmed"), "i", 0, 84))
    s.ip.override(r"std::.*string.* ngpt::(str_algorithm_details::\w+::)?rtrim(<.*>)?\(char const\*, unsigned long&, unsigned long\)", trim)


WIDTH_OBS = 14


def blank_at(F):
    return Bv(bdd.var(mk("sym", "blank", "b", F, None)))


def mk_bool(f, S):
    return ite(S.a[0], mk_bool(f, S.a[1]), mk_bool(f, S.a[2])) if S.op == "ite" else f(S)


def behind(L, k):
    """the line has a character at column k; it has none"""
    f = icmp("sgt", mk("slen", plain(L)), I(k)).a[0]
    return assume(1, f), assume(1, bdd.NOT(f))


def field(S, n=WIDTH_OBS, prefix=False):
    """S, as the n columns of a line it consists of (whether it is ended by blanks or its end does not matter to a number); S itself
    if it is not that. prefix: only the first n characters matter"""
    if S.op != "S":
        return S
    cs = []
    for q in S.a:
        if q[0] == "line":
            if q[2].op != "int":
                return S
            k = n + 1 if q[3] is None else q[3] if isinstance(q[3], int) else None
            if k is None:
                return S
            cs += [mk("ch", q[1], I(q[2].a[0] + i)) for i in range(min(k, n + 1 - len(cs)))]
        elif q[0] == "chr":
            cs.append(q[1])
        elif q[0] == "lit":
            cs += [I(b) for b in q[1]]
        elif q[0] == "field":
            return S
        elif len(cs) <= n:
            return S
        if len(cs) > n:
            break
    cs = (cs + [I(0)] * (n + 1))[:n + 1]
    first = [x for x in leaves(cs[0]) if x.op == "ch"]
    if len(first) != 1 or first[0].a[1].op != "int":
        return S
    L, col = first[0].a[0], first[0].a[1].a[0]
    end = lambda x: all(y.op == "int" and y.a[0] in (0, 32) for y in leaves(x))
    for i in range(n + 1):
        here, gone = behind(L, col + i)
        me = mk("ch", L, I(col + i))
        if i < n:
            if under(cs[i], here) is not me:
                return S
            if not (cs[i] is me or end(under(cs[i], gone))):
                return S
        elif not prefix:
            if not end(under(cs[i], behind(L, col + i - 1)[0])):
                return S
    return mk("S", ("field", L, I(col), n))


def use_blank(s):
    """whether a field is blank is a primitive here"""
    def blank(ip, st, a, ins, fr, fn):
        S = string_at(ip, st, a[0], fr, ins)
        ip.event("conv", st, fr, ins, S=S, what="string_is_empty", p=a[0], mem=ip.content(st, a[0].a[0]) if a[0].op == "ptr" else None)
        if a[1].op == "int" and a[1].a[0] == WIDTH_OBS and getattr(ip, "canon_text", None):
            return mk_bool(lambda x: blank_at(field(x, WIDTH_OBS, True)), S)
        return Bv(bdd.var(mk("sym", "blank", "b", S, a[1])))
    s.ip.override(r"ngpt::string_is_empty\(char const\*, unsigned long\)", blank)


def header(s, kinds, counts="", letters="", first=None, readable=True):
    """interpret the constructor on a header whose lines behind the first have the given labels"""
    ip = s.ip
    ip.charwise = ip.log_chars = True
    ip.UNROLL, ip.data_unroll = 160, 100
    ip.force_unroll = max([len(kinds)] + list(counts)) + 4
    lines = []
    use_codes(s)
    use_rtrim(s)
    use_blank(s)

    def on_line(L):
        if L not in lines:
            lines.append(L)
        i = lines.index(L)
        c = read_ok(L) if readable else 1
        if i == 0:
            return bdd.AND(c, first(L)) if first else c
        if i > len(kinds):
            return 0
        k = kinds[i - 1]
        c = bdd.AND(c, chars(L, 60, LABEL[k]))
        if k == "T":
            n = kinds[:i - 1].count("T")
            c = bdd.AND(c, is_val(mk("strtol", text(L, 3), I(10)), counts[n]))
            if letters:
                c = bdd.AND(c, is_val(mk("ch", L, I(0)), ord(letters[n])))
        return c
    ip.on_line = on_line
    st = State()
    o = s.out("rnx", rec="ngpt::ObservationRnx", st=st)
    name = s.cstr(st, "name", "site.rnx")
    n0 = len(ip.log)
    f = s.fn(CTOR)
    rv, ns, ts = s.run(f, [o, name], st)
    ip.on_line = None
    ip.log_chars = False
    ip.force_unroll = 0
    ip.override(r"ngpt::string_is_empty\(char const\*, unsigned long\)", None)
    return o, lines, ns, ts, ip.log[n0:], "%s:%d" % (f.file, f.line)
