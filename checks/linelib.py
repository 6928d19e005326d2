"""Text lines of fixed-column records: which line and column every stored value comes from."""
from common import *
from ggsa.interp import within_line as inside
from ggsa.mem import Content


def d2e(L, off):
    """the line L with every D or d at or behind column off turned into E"""
    return mk("L", mk("d2e", L, off), L.a[1])


def plain(L):
    while isinstance(L.a[0], Term) and L.a[0].op == "d2e":
        L = L.a[0].a[0]
    return L


def m_for2cpp(ip, st, a, ins, fr, fn):
    """transfer function of __for2cpp__ (its body is checked on its own, see for2cpp_rule)"""
    p = a[0]
    if p.op != "ptr" or p.a[1].op != "int":
        raise Imprecise("__for2cpp__ of %s" % show(p))
    c = ip.content(st, p.a[0])
    if c.base[0] != "line" or any(k + s > p.a[1].a[0] for k, (s, v) in c.cells.items()):
        raise Imprecise("__for2cpp__ of something that is not a line")
    b = c.base
    ip.event("for2cpp", st, fr, ins, L=b[1], off=p.a[1])
    st.mem[p.a[0]] = Content(("line", d2e(b[1], p.a[1]), b[2], b[3]), dict(c.cells))


def use_for2cpp(s):
    s.ip.override(r"ngpt::__for2cpp__\(char\*\)", m_for2cpp)


def behind_end_is_null(c, col):
    """the line's buffer certainly holds a null at column col when the line ends before it"""
    if c is None or c.base[0] != "line":
        return False
    from ggsa.models import content_string
    S = content_string(None, State(), c.base[3], I(col), None, None, None, dict(size=c.base[2]))
    return S_literal(S) == b""


def own_line(r, tag, log):
    """no text is taken from behind the end of the line it should come from"""
    for e in log:
        if e["kind"] == "conv":
            src = [(S.a[0][1], S.a[0][2]) for S in leaves(e["S"]) if S.op == "S" and S.a and S.a[0][0] == "line"]
            what = e["what"]
        elif e["kind"] == "char":
            src, what = [(e["L"], e["off"])], "character"
        else:
            continue
        for L, off in src:
            if off.op != "int":
                r.ob("%s: %s at %s column %s stays inside its line" % (tag, what, show(plain(L)), cut(show(off), 120)), inside(L, off, e["pc"]),
                     "the text is taken from behind the end of the line", e["loc"])
                continue
            if e["kind"] == "char" and e["mem"].overlapping(off.a[0], 1):
                continue
            r.ob("%s: %s at %s column %d stays inside its line" % (tag, what, show(plain(L)), off.a[0]),
                 behind_end_is_null(e["mem"], off.a[0]) or inside(L, off, e["pc"]),
                 "a line shorter than %d characters is completed from what an earlier line left in the buffer" % off.a[0], e["loc"])


def no_exception(r, tag, ts, log, loc):
    """neither an exception nor a call of std::terminate ends the function"""
    bad = [e for e in log if e["kind"] == "terminate"]
    r.ob(tag + ": no exception", (ts is None or ts.pc == 0) and not bad, "an exception leaves the reader" + (" (a noexcept function: the program is terminated)" if bad else ""),
         bad[0]["loc"] if bad else loc)


def for2cpp_rule(r, cfg, n=128, w=8):
    """for every text that fits a record line: D and d become E up to its end, nothing else changes"""
    s = r.session(cfg)
    s.ip.charwise = True
    s.ip.UNROLL = s.ip.data_unroll = n + 40
    f = s.fn(r"ngpt::__for2cpp__\(char\*\)")
    loc = "%s:%d" % (f.file, f.line)
    # every window of w arbitrary characters (the end of the text among them), behind and in front of fixed ones
    for a in range(0, n - 1, w):
        fixed = [I(ord("dD x"[k % 4])) for k in range(a)]
        free = [sym("c%d" % i, "i", -128, 127) for i in range(a, min(a + w, n - 1))]
        rest = [I(ord("Dd"[k % 2])) for k in range(a + len(free), n - 1)]
        cs = fixed + free + rest + [I(0)]
        st = State()
        p = s.out("text", n, st=st)
        c = st.mem["text"]
        for i, x in enumerate(cs):
            c = c.with_cell(i, 1, x)
        st.mem["text"] = c
        n0 = len(s.ip.log)
        rv, ns, ts = s.run(f, [p], st)
        t = "%s: exponent conversion, characters %d-%d" % (cfg, a, a + len(free) - 1)
        if not r.ob(t + ": returns", ns is not None and prune(bdd.NOT(ns.pc), bdd.support(ns.pc)) == 0, "the conversion does not return for every text", loc):
            continue
        alive = 1
        for i, x in enumerate(cs):
            d = bdd.AND(alive, bdd.OR(is_val(x, 68), is_val(x, 100)))
            got, o = s.load(ns, p, i, 1, "i8"), bdd.NOT(d)
            if d != 0:
                y = under(got, d)
                r.cond("%s: exponent letter %d" % (t, i), bdd.OR(is_val(y, 69), is_val(y, 101)), 1, d, "the conversion to E", loc)
            if o != 0:
                r.same("%s: character %d" % (t, i), under(got, o), under(x, o), o, "the character", loc)
            alive = bdd.AND(alive, bdd.NOT(is_val(x, 0)))
        for e in s.ip.log[n0:]:
            if e["kind"] in ("oob", "uninit"):
                r.ob("%s: exponent conversion stays inside the text" % cfg, False, "characters behind the end are touched", e["loc"])
