"""Harness pieces shared by checks that interpret a component from its program-start state: the C-locale character
table, an allocator handing out fresh abstract objects, and copies of strings."""
from absint import Interp, C, TOP
def P(n, o=0): return C(('p', n, o))

def ctype_table():
    """glibc's class bits of the C locale (isdigit() and friends index this)"""
    t = {}
    for c in range(-128, 256):
        u = c & 255; b = 0; ch = chr(u)
        if c < 0 or u > 127: t[2 * c] = C(0); continue
        if 'A' <= ch <= 'Z': b |= 0x100 | 0x400
        if 'a' <= ch <= 'z': b |= 0x200 | 0x400
        if '0' <= ch <= '9': b |= 0x800
        if ch in '0123456789abcdefABCDEF': b |= 0x1000
        if ch in ' \t\n\v\f\r': b |= 0x2000
        if 32 <= u < 127: b |= 0x4000
        if 33 <= u < 127: b |= 0x8000
        if ch in ' \t': b |= 1
        if u < 32 or u == 127: b |= 2
        if 33 <= u < 127 and not ch.isalnum(): b |= 4
        if ch.isalnum(): b |= 8
        t[2 * c] = C(b if b < 32768 else b - 65536)
    return t
CTYPE = ctype_table()

def start_interp(p, stubs=None, objs=None, objp=None, **kw):
    """an interpreter for execution from program start: writable globals tracked, allocations fresh"""
    # objects are numbered along the path, so that paths doing the same work make the same objects
    def zeroed(I, a, i, m, k):
        c = m.get(('HEAP', 0), C(0)); n = max(c) + 1 if c is not TOP else None
        if n is None:
            g[0] += 1; return P('HX:%d' % g[0])
        m[('HEAP', 0)] = C(n); I.zeroed.add('H:%d' % n); return P('H:%d' % n)
    g = [0]
    same = lambda I, a, i, m, k: a[0]
    st = {'__ctype_b_loc': lambda *a: P('CTYPEP'), 'umalloc': zeroed, 'ucalloc': zeroed, 'ustrdup': same, 'free': lambda *a: C(0)}
    st.update(stubs or {})
    op = {'CTYPEP': {0: P('CTYPE')}, 'CTYPE': CTYPE}; op.update(objp or {})
    kw.setdefault('track_globals', True); kw.setdefault('part', ('*',)); kw.setdefault('maxrec', 40); kw.setdefault('maxdepth', 120)
    I = Interp(p, stubs=st, objs=objs, objp=op, **kw)
    I.zeroed = set()
    I.nomemo = '*' in kw['part']
    return I
