"""Abstract types for harnesses over cc1: named primitive types and pointers, and models of the type queries."""
from absint import C, TOP
def P(name, off=0): return C(('p', name, off))

class Ty:
    # name: (enumerator, size, signed, floating)
    PRIM = {'void': ('type_void', 1, 0, 0), 'bool': ('type__Bool', 1, 0, 0), 'char': ('type_nchar', 1, 1, 0), 'schar': ('type_schar', 1, 1, 0),
            'uchar': ('type_uchar', 1, 0, 0), 'short': ('type_short', 2, 1, 0), 'ushort': ('type_ushort', 2, 0, 0),
            'int': ('type_int', 4, 1, 0), 'uint': ('type_uint', 4, 0, 0), 'long': ('type_long', 8, 1, 0), 'ulong': ('type_ulong', 8, 0, 0),
            'llong': ('type_llong', 8, 1, 0), 'ullong': ('type_ullong', 8, 0, 0), 'float': ('type_float', 4, 1, 1),
            'double': ('type_double', 8, 1, 1), 'ldouble': ('type_ldouble', 16, 1, 1)}
    def __init__(s, p):
        s.p = p; s.en = p.enum_of('type_double')
    def t(s, n): return P('T:' + n)
    def info(s, a):
        """(enum, size, signed, floating, pointee or None) of a type atom"""
        if not (isinstance(a, tuple) and a[0] == 'p' and isinstance(a[1], str) and a[1].startswith('T:')): return None
        n = a[1][2:]
        if n.endswith('*'): return (None, 8, 1, 0, n[:-1])
        x = s.PRIM.get(n)
        return None if x is None else (s.en[x[0]],) + x[1:] + (None,)
    def q(s, fn):
        def st(I, a, i, m, k):
            if not a or a[0] is TOP: return TOP
            r = set()
            for x in a[0]:
                inf = s.info(x)
                if inf is None: return TOP
                v = fn(inf, a)
                if v is TOP: return TOP
                r |= v
            return frozenset(r)
        return st
    def stubs(s):
        en = s.en; b = lambda x: C(1 if x else 0)
        self = lambda I, a, i, m, k: a[0]
        def isprim(inf, a):
            if a[1] is TOP: return C(0, 1)
            return frozenset(1 if inf[0] == x else 0 for x in a[1])
        ptr0 = lambda inf, a: P('T:' + inf[4]) if inf[4] is not None else C(0)
        def selfif(c): return lambda I, a, i, m, k: s.q(lambda inf, aa: TOP)(I, a, i, m, k) if a[0] is TOP else frozenset(x if (s.info(x) and c(s.info(x))) else 0 for x in a[0])
        d = {'type_is_signed': s.q(lambda f, a: C(f[2])), 'type_is_floating': s.q(lambda f, a: C(f[3])),
             'type_is_integral': s.q(lambda f, a: b(not f[3] and f[4] is None and f[0] != en['type_void'])),
             'type_is_arith': s.q(lambda f, a: b(f[4] is None and f[0] != en['type_void'])),
             'type_size': s.q(lambda f, a: C(f[1])), 'type_align': s.q(lambda f, a: C(f[1])),
             'type_is_primitive': lambda I, a, i, m, k: TOP if a[0] is TOP or a[1] is TOP or any(x != 0 and s.info(x) is None for x in a[0]) else frozenset((x if x != 0 and s.info(x)[0] == pr else 0) for x in a[0] for pr in a[1]),
             'type_is_void': selfif(lambda f: f[0] == en['type_void']),
             'type_is_ptr': s.q(ptr0), 'type_is_ptr_or_block': s.q(ptr0),
             'type_primitive': s.q(lambda f, a: C(f[0]) if f[0] is not None else TOP),
             'type_get_primitive': s.q(lambda f, a: C(f[0]) if f[0] is not None else C(en['type_unknown'])),
             'type_is_array': lambda *a: C(0), 'type_is_func_or_block': lambda *a: C(0), 'type_is_s_or_u': lambda *a: C(0),
             'type_decayable': lambda *a: C(0), 'type_is_vla': lambda *a: C(0), 'type_is_decayed_array': lambda *a: C(0),
             'type_next': s.q(ptr0), 'type_unqualify': self, 'type_unattribute': self, 'type_skip_all': self, 'type_decay': self}
        kinds = s.p.enum_of('type_btype')
        def tis(I, a, i, m, k):
            if a[0] is TOP or a[1] is TOP or any(x != 0 and s.info(x) is None for x in a[0]): return TOP
            return frozenset(x if x != 0 and q == kinds['type_ptr' if s.info(x)[4] is not None else 'type_btype'] else 0 for x in a[0] for q in a[1])
        d['type_is'] = tis
        d['type_is_scalar'] = lambda I, a, i, m, k: a[0]
        d['type_is_enum'] = lambda *a: C(0)
        d['type_is_s_or_u_or_e'] = lambda *a: C(0)
        d['type_is_complete'] = s.q(lambda f, a: b(f[0] != en['type_void']))
        d['type_is_void_ptr'] = s.q(lambda f, a: b(f[4] == 'void'))
        d['type_is_fptr'] = lambda *a: C(0)
        d['type_qual'] = lambda *a: C(0)
        inv = {v[0]: k for k, v in s.PRIM.items()}
        def nav(I, a, i, m, k):
            if a[1] is TOP: return TOP
            r = set()
            for x in a[1]:
                n = next((inv[e] for e, v in en.items() if v == x and e in inv), None)
                if n is None: return TOP
                r.add(('p', 'T:' + n, 0))
            return frozenset(r)
        d['type_nav_btype'] = nav
        d['type_get_type'] = lambda I, a, i, m, k: TOP if a[0] is TOP else frozenset(('p', 'BT' + x[1][1:], 0) if s.info(x) and s.info(x)[0] is not None else 0 for x in a[0])
        def ptrto(I, a, i, m, k):
            return TOP if a[0] is TOP else frozenset(('p', x[1] + '*', 0) for x in a[0])
        d['type_ptr_to'] = ptrto
        return d
    def btypes(s, mem):
        """contents of the btype objects type_get_type hands out"""
        o = s.p.field_off('btype', 'primitive')
        for n, x in s.PRIM.items(): mem[('BT:' + n, o)] = C(s.en[x[0]])
        return mem
