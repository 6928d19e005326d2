"""Antenna objects whose bytes are individual symbols."""
from common import *

D = r".*ggsa_driver::%s\(.*"


def exact(s):
    s.ip.charwise = True
    s.ip.data_unroll = 64
    return s


def text_base(s, fn, obj):
    """offset of the text an antenna object keeps (through its accessor)"""
    rv, ns, ts = s.run(D % fn, [obj], State())
    if rv is None or rv.op != "ptr" or rv.a[1].op != "int":
        raise AnchorError("%s does not return the stored text" % fn)
    return rv.a[0], rv.a[1].a[0]


def symbytes(s, st, obj, off, n, name, lo=-128, hi=127, fixed=None):
    """make bytes off..off+n-1 of obj independent symbols; returns the terms"""
    out = []
    for i in range(n):
        v = (fixed or {}).get(i)
        v = I(v) if v is not None else sym("%s[%d]" % (name, i), "i", lo, hi)
        s.ip.state = st
        st.mem[obj] = s.ip.content(st, obj).with_cell(off + i, 1, v)
        out.append(v)
    return out


def cstring(s, st, name, n, fixed=None):
    """a C string of exactly n arbitrary 7-bit characters"""
    s.ip.objs[name] = dict(size=n + 1, kind="ext", name=name)
    st.mem[name] = Content(("uninit",))
    cs = []
    for i in range(n):
        v = sym("%s[%d]" % (name, i), "i", 1, 127)
        cs.append(v)
        st.mem[name] = st.mem[name].with_cell(i, 1, v)
    st.mem[name] = st.mem[name].with_cell(n, 1, I(0))
    return ptr(name), cs
