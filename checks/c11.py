"""C11: sizes, alignments, signedness and limits of the arithmetic types, in every place that states them."""
import re
import prog
from absint import Interp, C, TOP, isx
from tymodel import Ty, P
from chk import Check, AnalysisBroken

# name -> (size, alignment, signed, floating)   System V AMD64 (LP64)
ABI = {n: (s, s, sg, fl) for n, (_, s, sg, fl) in Ty.PRIM.items() if n != 'void'}
UNS = {'schar': 'uchar', 'char': 'uchar', 'short': 'ushort', 'int': 'uint', 'long': 'ulong', 'llong': 'ullong'}
SGN = {'uchar': 'schar', 'ushort': 'short', 'uint': 'int', 'ulong': 'long', 'ullong': 'llong'}
MACRO_TYPE = {'__SIZE_TYPE__': (8, 0), '__PTRDIFF_TYPE__': (8, 1), '__WINT_TYPE__': (4, 0), '__WCHAR_TYPE__': (4, 1), '__INTMAX_TYPE__': (8, 1), '__UINTMAX_TYPE__': (8, 0),
              '__CHAR16_TYPE__': (2, 0), '__CHAR32_TYPE__': (4, 0), '__INTPTR_TYPE__': (8, 1), '__UINTPTR_TYPE__': (8, 0)}
MACRO_NUM = {'__ORDER_LITTLE_ENDIAN__': 1234, '__ORDER_BIG_ENDIAN__': 4321, '__ORDER_PDP_ENDIAN__': 3412, '__SCHAR_MAX__': 127, '__SHRT_MAX__': 32767, '__INT_MAX__': 2 ** 31 - 1,
             '__LONG_MAX__': 2 ** 63 - 1, '__LONG_LONG_MAX__': 2 ** 63 - 1, '__CHAR_BIT__': 8, '__SIZEOF_INT__': 4, '__SIZEOF_LONG__': 8, '__SIZEOF_SHORT__': 2, '__SIZEOF_POINTER__': 8, '__SIZEOF_LONG_LONG__': 8,
             '__LP64__': 1, '__x86_64__': 1, '__STDC__': 1}

def ctype(s):
    """(size, signed) of a C type-specifier list"""
    w = s.split(); u = 'unsigned' in w
    if not w or any(x not in ('unsigned', 'signed', 'long', 'int', 'short', 'char') for x in w): return None
    sz = 8 if 'long' in w else 2 if 'short' in w else 1 if 'char' in w else 4
    return sz, 0 if u else 1
def cnum(s):
    s = s.strip()
    while s.startswith('(') and s.endswith(')'): s = s[1:-1].strip()
    m = re.fullmatch(r'(0[xX][0-9a-fA-F]+|\d+)([uUlL]*)', s)
    if not m: return None
    return int(m[1], 16) if m[1][:2].lower() == '0x' else int(m[1], 8) if m[1][0] == '0' and len(m[1]) > 1 else int(m[1])

def check():
    ck = Check('C11')
    p = prog.load('cc1'); ty = Ty(p); en = ty.en
    KIND = p.enum_of('type_btype')
    r_p = ck.rule('primitive', 'each primitive type has its ABI size, alignment, signedness and class')
    r_c = ck.rule('composite', 'pointers are 8 bytes, arrays are length times element, typedefs, attributes and casts of a type keep its size, alignment and signedness')
    r_m = ck.rule('limits', 'the maximum of a type is all of its value bits; its signed/unsigned counterpart has the same size')
    r_d = ck.rule('data', 'an object of a type is emitted with a data directive of its size, its value reduced to that size')
    r_a = ck.rule('packing', 'an offset is rounded up to the next multiple of the alignment')
    r_x = ck.rule('predefined', 'predefined macros state the same sizes and limits')
    o = p.off; units = ck.units; units['contexts'] = 0
    plat = {'platform_32bit': lambda *a: C(0), 'platform_word_size': lambda *a: C(8), 'platform_align_max': lambda *a: C(16), 'icw': lambda *a: TOP}
    TI = tuple(f.name for f in p.defs() if f.file.endswith('type_is.c'))
    names = {n: en[x[0]] for n, x in Ty.PRIM.items() if n != 'void'}
    sc = p.field_off('cc1_fopt', 'signed_char')
    warnskip = {f.name for f in p.defs() if f.file.endswith(('warn.c', 'where.c')) and f.name not in p.noret}
    def run(fn, args, mem=None, stubs=None, **kw):
        units['contexts'] += 1
        st = dict(plat); st.update(stubs or {})
        kw['part'] = tuple(kw.get('part', ())) + TI
        I = Interp(p, stubs=st, skip=warnskip - set(st), maxrec=4, **kw)
        f = p.fn(fn); rv, mo = I.run(f, args, dict(mem or {}))
        return f, rv, mo, I
    # ---- primitives
    for n, e in names.items():
        s, al, sg, fl = ABI[n]
        f, rv, _, _ = run('type_primitive_size', [C(e)]); ck.ob(r_p, rv == C(s), f.where, 'size of %s is %s, not %d' % (n, rv, s), 'size/' + n)
        f, rv, _, _ = run('btype_size', [P('BT'), C(0)], {('BT', o('btype', 'primitive')): C(e), ('BT', o('btype', 'sue')): C(0)}); ck.ob(r_p, rv == C(s), f.where, 'sizeof %s is %s' % (n, rv), 'bsize/' + n)
        f, rv, _, _ = run('btype_align', [P('BT'), C(0)], {('BT', o('btype', 'primitive')): C(e), ('BT', o('btype', 'sue')): C(0)}); ck.ob(r_p, rv == C(al), f.where, 'alignment of %s is %s, not %d' % (n, rv, al), 'align/' + n)
        for opt in (0, 1):
            w = opt if n == 'char' else sg
            f, rv, _, _ = run('type_primitive_is_signed', [C(e), C(1)], {('g:cc1_fopt', sc): C(opt)})
            ck.ob(r_p, rv is not TOP and bool(rv) and all((x != 0) == bool(w) for x in rv), f.where, 'signedness of %s (signed_char=%d) is %s' % (n, opt, rv), 'sign/%s/%d' % (n, opt))
        f, rv, _, _ = run('type_floating', [C(e)]); ck.ob(r_p, rv is not TOP and bool(rv) and all((x != 0) == bool(fl) for x in rv), f.where, 'floating class of %s is %s' % (n, rv), 'fl/' + n)
    # signed char is the default
    ff = p.fn('fopt_default'); I = Interp(p); rv, mo = I.run(ff, [P('FO')], {})
    ck.ob(r_p, mo is not None and mo.get(('FO', sc)) == C(1), ff.where, 'plain char is not signed by default: %s' % (mo and mo.get(('FO', sc))), 'char-default')
    # ---- composites
    kt, kr = o('type', 'type'), o('type', 'ref')
    bt = o('type', 'bits.type')
    def base(n):
        m = {('T', kt): C(KIND['type_btype']), ('T', bt): P('BT'), ('BT', o('btype', 'primitive')): C(names[n]), ('BT', o('btype', 'sue')): C(0), ('T', kr): C(0), ('g:cc1_fopt', sc): C(1)}
        return m
    noattr = {'type_attr_present': lambda *a: C(0), 'attribute_present': lambda *a: C(0), 'attr_present': lambda *a: C(0)}
    for n in names:
        s, al, sg, fl = ABI[n]
        for wrapk in ('', 'type_where', 'type_attr', 'type_cast'):
            m = base(n); top = 'T'
            if wrapk: m.update({('W', kt): C(KIND[wrapk]), ('W', kr): P('T')}); top = 'W'
            if wrapk == 'type_cast':
                for fl_ in ('bits.cast.is_signed_cast', 'bits.cast.qual', 'bits.cast.additive'):
                    try: m[('W', o('type', fl_))] = C(0)
                    except Exception: pass
            f, rv, _, _ = run('type_size', [P(top), C(0)], m); ck.ob(r_c, rv == C(s), f.where, 'size of %s %s is %s' % (wrapk, n, rv), 'ts/%s/%s' % (wrapk, n))
            f, rv, _, _ = run('type_align', [P(top), C(0)], m, noattr); ck.ob(r_c, rv == C(al), f.where, 'alignment of %s %s is %s' % (wrapk, n, rv), 'ta/%s/%s' % (wrapk, n))
            f, rv, _, _ = run('type_is_signed', [P(top)], m); ck.ob(r_c, rv is not TOP and bool(rv) and all((x != 0) == bool(sg) for x in rv), f.where, 'signedness of %s %s is %s' % (wrapk, n, rv), 'tg/%s/%s' % (wrapk, n))
        m = base(n)
        for k, sz, al_ in (('type_ptr', 8, 8), ('type_block', 8, 8), ('type_func', 1, None)):
            m2 = dict(m); m2.update({('W', kt): C(KIND[k]), ('W', kr): P('T')})
            f, rv, _, _ = run('type_size', [P('W'), C(0)], m2); ck.ob(r_c, rv == C(sz), f.where, 'size of a %s is %s, not %d' % (k, rv, sz), 'ts/%s/%s' % (k, n))
            if al_:
                f, rv, _, _ = run('type_align', [P('W'), C(0)], m2, noattr); ck.ob(r_c, rv == C(al_), f.where, 'alignment of a %s is %s' % (k, rv), 'ta/%s/%s' % (k, n))
        m2 = dict(m); m2.update({('W', kt): C(KIND['type_array']), ('W', kr): P('T'), ('W', o('type', 'bits.array.size')): P('SZ'), ('W', o('type', 'bits.array.vla_kind')): C(0)})
        N = ('x', 'v', 64, 'N')
        st = dict(noattr); st['const_fold_val_i'] = lambda I, a, i, m, k: C(N) if a[0] == P('SZ') else TOP
        f, rv, _, _ = run('type_size', [P('W'), C(0)], m2, st)
        ok = rv is not TOP and len(rv) == 1 and arr_ok(next(iter(rv)), N, s)
        ck.ob(r_c, ok, f.where, 'size of an array of N %s is %s, not N * %d' % (n, rv, s), 'ts/array/' + n)
        f, rv, _, _ = run('type_align', [P('W'), C(0)], m2, st); ck.ob(r_c, rv == C(al), f.where, 'alignment of an array of %s is %s' % (n, rv), 'ta/array/' + n)
        m3 = dict(m2); m3.update({('W2', kt): C(KIND['type_array']), ('W2', kr): P('W'), ('W2', o('type', 'bits.array.size')): P('SZ2'), ('W2', o('type', 'bits.array.vla_kind')): C(0)})
        st = dict(noattr); st['const_fold_val_i'] = lambda I, a, i, m, k: C(3) if a[0] == P('SZ') else C(5) if a[0] == P('SZ2') else TOP
        f, rv, _, _ = run('type_size', [P('W2'), C(0)], m3, st); ck.ob(r_c, rv == C(15 * s), f.where, 'size of %s[5][3] is %s, not %d' % (n, rv, 15 * s), 'ts/array2/' + n)
        f, rv, _, _ = run('type_align', [P('W2'), C(0)], m3, st); ck.ob(r_c, rv == C(al), f.where, 'alignment of %s[5][3] is %s' % (n, rv), 'ta/array2/' + n)
        for wk in ('type_where', 'type_attr', 'type_cast'):
            m4 = dict(m3); m4.update({('X', kt): C(KIND[wk]), ('X', kr): P('W2')})
            f, rv, _, _ = run('type_size', [P('X'), C(0)], m4, st); ck.ob(r_c, rv == C(15 * s), f.where, 'size of %s %s[5][3] is %s' % (wk, n, rv), 'ts/array3/%s/%s' % (wk, n))
            f, rv, _, _ = run('type_align', [P('X'), C(0)], m4, st); ck.ob(r_c, rv == C(al), f.where, 'alignment of %s %s[5][3] is %s' % (wk, n, rv), 'ta/array3/%s/%s' % (wk, n))
    # ---- limits and counterparts
    st = ty.stubs()
    for n in names:
        if ABI[n][3]: continue
        s, al, sg, fl = ABI[n]
        f, rv, _, _ = run('type_max', [ty.t(n), C(0)], {}, st)
        bits = s * 8
        if sg: ok = rv is not TOP and len(rv) == 1 and (next(iter(rv)) & (2 ** 64 - 1)).bit_length() == bits - 1
        else: ok = rv is not TOP and {x & (2 ** 64 - 1) for x in rv} == {2 ** bits - 1}
        ck.ob(r_m, ok, f.where, 'maximum of %s is %s' % (n, rv), 'max/' + n)
        if n == 'bool': continue
        for mk in (0, 1):
            f, rv, _, _ = run('type_sign', [C(0), ty.t(n), C(mk)], {('g:cc1_fopt', sc): C(1)}, st)
            want = SGN.get(n, n) if mk else UNS.get(n, n)
            ck.ob(r_m, rv == ty.t(want), f.where, '%s counterpart of %s is %s, not %s' % ('signed' if mk else 'unsigned', n, rv, want), 'cp/%s/%d' % (n, mk))
    V = ('x', 'v', 64, 'V')
    # ---- data directives
    dirs = {1: 'byte', 2: ('word', 'short', 'value', '2byte'), 4: ('long', 'int', '4byte'), 8: ('quad', '8byte')}
    for n in list(names) + ['char*']:
        s = 8 if n.endswith('*') else ABI[n][0]
        if s == 16: continue
        f, rv, _, I = run('asm_type_directive', [ty.t(n)], {}, st, part=('asm_table_lookup',), ro=('asm_type_table',))
        got = I.strs(rv); ck.ob(r_d, bool(got) and all(g in dirs[s] if isinstance(dirs[s], tuple) else g == dirs[s] for g in got), f.where, 'a %s (%d bytes) is emitted with .%s' % (n, s, got), 'dir/' + n)
        f, rv, _, I = run('asm_type_size', [ty.t(n)], {}, st, part=('asm_table_lookup',), ro=('asm_type_table',))
        ck.ob(r_d, rv == C(s), f.where, 'asm size of %s is %s' % (n, rv), 'asz/' + n)
    f, rv, _, I = run('asm_type_size', [C(0)], {}, st, part=('asm_table_lookup',), ro=('asm_type_table',))
    ck.ob(r_d, rv == C(8), f.where, 'the default operand size is %s' % rv, 'asz/null')
    cw = p.field_off('cc1_fopt', 'cast_w_builtin_types')
    # integral_truncate on an opaque value
    for bw in (0, 1):
        for s in (1, 2, 4, 8):
            f, rv, mo, _ = run('integral_truncate', [C(V), C(s), P('SX')], {('g:cc1_fopt', cw): C(bw), ('SX', 0): C(0)})
            z = ('x', 'zext', 64, s * 8, ('x', 'trunc', s * 8, 64, V)) if s < 8 else V
            mask = ('x', 'and', 64, V, 2 ** (8 * s) - 1)
            ok1 = rv is not TOP and len(rv) == 1 and norm(next(iter(rv)), V) == ('z', s)
            sx = mo.get(('SX', 0)) if mo else TOP
            ok2 = sx is not TOP and len(sx) == 1 and norm(next(iter(sx)), V) in (('s', s),) if s < 8 else sx == C(V)
            ck.ob(r_d, ok1 and ok2, f.where, 'a value reduced to %d bytes is %s / %s' % (s, rv, sx), 'trunc/%d/%d' % (bw, s))
    # integral_str prints the reduced value with the right signedness
    for n in names:
        if ABI[n][3]: continue
        s, al, sg, fl = ABI[n]; ev = []
        def snp(I, a, i, m, k): ev.append((I.strs(a[2]), a[3] if len(a) > 3 else TOP)); return TOP
        def itr(I, a, i, m, k):
            if a[2] is not TOP:
                for x in a[2]:
                    if isinstance(x, tuple): m[(x[1], x[2])] = C(('x', 'v', 64, 'SEXT%s' % sorted(a[1])))
            return C(('x', 'v', 64, 'ZEXT%s' % sorted(a[1])))
        s2 = dict(st); s2.update({'snprintf': snp, 'integral_truncate': itr, 'xsnprintf': snp})
        f, rv, mo, _ = run('integral_str', [P('B'), C(32), C(V), ty.t(n)], {}, s2)
        want = ('x', 'v', 64, ('SEXT[%d]' if sg else 'ZEXT[%d]') % s)
        ck.ob(r_d, bool(ev) and all(a is not None and a <= ({'%lld', '%ld', '%lli', '%jd'} if sg else {'%llu', '%lu', '%ju'}) and v == C(want) for a, v in ev), f.where, 'a %s value is printed as %s' % (n, ev), 'istr/' + n)
    # floating data
    FV = ('x', 'v', 'x80', 'F')
    for n, d in (('float', '.long'), ('double', '.quad')):
        ev = []
        def out(I, a, i, m, k): ev.append((I.strs(a[1]), a[2] if len(a) > 2 else TOP)); return TOP
        s2 = dict(st); s2['asm_out_section'] = out
        f, rv, mo, _ = run('asm_out_fp', [P('S'), ty.t(n), C(FV)], {}, s2)
        t = ('x', 'fptrunc', 'f' if n == 'float' else 'd', FV)
        ck.ob(r_d, bool(ev) and all(a and all(x.startswith((d + ' %u', d + ' %llu', d + ' %lu')) for x in a) and v == C(t) for a, v in ev), f.where, 'a %s is emitted as %s' % (n, ev), 'fp/' + n)
    # what static_val uses
    f = p.fn('static_val')
    ev = []
    K = p.enum_of('CONST_NUM')
    def cf(I, a, i, m, k):
        x = next(iter(a[1])); m[(x[1], x[2] + o('consty', 'type'))] = C(K['CONST_NUM']); m[(x[1], x[2] + o('consty', 'bits.num.val.i'))] = C(V); m[(x[1], x[2] + o('consty', 'bits.num.suffix'))] = C(0); m[(x[1], x[2] + o('consty', 'offset'))] = C(0); return TOP
    s2 = dict(st); s2.update({'const_fold': cf, 'asm_declare_init_type': lambda I, a, i, m, k: (ev.append(('dir', a[1])), TOP)[1], 'integral_str': lambda I, a, i, m, k: (ev.append(('val', a[2], a[3])), TOP)[1], 'asm_out_section': lambda *a: TOP})
    f, rv, mo, _ = run('static_val', [P('S'), ty.t('short'), P('E')], {('E', o('expr', 'tree_type')): ty.t('long')}, s2)
    ck.ob(r_d, ev == [('dir', ty.t('short')), ('val', C(V), ty.t('short'))], f.where, 'a static value converted from long to short is emitted as %s' % ev, 'static')
    # ---- packing
    for al in (1, 2, 4, 8, 16, 32):
        for sz in list(range(0, 40)) + [1000, 4095]:
            f, rv, _, _ = run('pack_to_align', [C(sz), C(al)]); ck.ob(r_a, rv == C((sz + al - 1) // al * al), f.where, '%d aligned to %d is %s' % (sz, al, rv), 'pack/%d/%d' % (sz, al))
            f, rv, mo, _ = run('pack_next', [P('OF'), P('AF'), C(12), C(al)], {('OF', 0): C(sz), ('AF', 0): C(0)})
            u = (sz + al - 1) // al * al
            ck.ob(r_a, mo is not None and mo[('OF', 0)] == C(u + 12) and mo[('AF', 0)] == C(u), f.where, 'after offset %d a member aligned to %d: placed at %s, ends at %s' % (sz, al, mo and mo[('AF', 0)], mo and mo[('OF', 0)]), 'packn/%d/%d' % (sz, al))
    # ---- platform
    g = [x for x in p.g if re.fullmatch(r'arch(\.\d+)?', x)]; gi = [x for x in p.g if re.fullmatch(r'init(\.\d+)?', x)]
    A = p.enum_of('ARCH_x86_64')
    for fn, w in (('platform_word_size', 8), ('platform_32bit', 0), ('platform_align_max', 16)):
        f = p.fn(fn); I = Interp(p, globals_={x: C(A['ARCH_x86_64']) for x in g} | {x: C(1) for x in gi}); rv, _ = I.run(f, [], {})
        ck.ob(r_p, rv == C(w), f.where, '%s() on x86-64 is %s' % (fn, rv), 'plat/' + fn)
    # ---- predefined macros
    q = prog.load('cpp'); seen = {}
    def rec(I, a, i, m, k):
        for n in I.strs(a[0]) or (): seen.setdefault(n, set()).update(I.strs(a[1]) or {'?'})
        return TOP
    for fn in ('macro_add_limits', 'add_platform_dependant_macros'):
        f = q.fn(fn); I = Interp(q, stubs={'macro_add': rec, 'macro_add_sprintf': lambda I, a, i, m, k: (seen.setdefault(next(iter(I.strs(a[0]))), set()).add(str(next(iter(a[2]))) if a[2] is not TOP and len(a[2]) == 1 else '?'), TOP)[1],
            'platform_bigendian': lambda *a: C(0), 'platform_type': lambda *a: C(q.enum_of('ARCH_x86_64')['ARCH_x86_64']), 'platform_sys': lambda *a: C(q.enum_of('SYS_linux')['SYS_linux']), 'platform_align_max': lambda *a: C(16), 'platform_word_size': lambda *a: C(8)})
        I.run(f, [], {}); fw = f.where
    I = Interp(q)
    tabs = [n for n, gg in q.g.items() if gg.get('init') and gg['init'][0] == 'arr' and n.startswith('initial_defs')]
    for t in tabs:
        for off, v in flat(I, q.g[t]['init']):
            pass
        init = q.g[t]['init']
        for el in init[2]:
            vals = [I.const(x) if x and x[0] in ('g', 'cgep', 'null') else None for _, x in el[2]] if el[0] == 'st' else (el[2] if el[0] == 'arr' else [])
            ss = [I.strs(v) for v in vals if v is not None]
            if len(ss) >= 2 and ss[0] and ss[1]:
                n = next(iter(ss[0]))
                if n: seen.setdefault(n, set()).update(x for x in ss[1] if x is not None)
    mf = q.fn('main').where
    need = {'__SIZE_TYPE__', '__PTRDIFF_TYPE__', '__WCHAR_TYPE__', '__INT_MAX__', '__LONG_MAX__', '__SHRT_MAX__', '__SCHAR_MAX__', '__LONG_LONG_MAX__', '__LP64__', '__x86_64__'}
    for n in sorted(need): ck.ob(r_x, n in seen, mf, 'the preprocessor does not predefine %s' % n, 'def/' + n)
    for n, vs in sorted(seen.items()):
        if n in MACRO_TYPE: ck.ob(r_x, all(ctype(v) == MACRO_TYPE[n] for v in vs), mf, '%s is %s' % (n, sorted(vs)), 'mt/' + n)
        if n in MACRO_NUM: ck.ob(r_x, all(cnum(v) == MACRO_NUM[n] for v in vs), mf, '%s is %s, not %d' % (n, sorted(vs), MACRO_NUM[n]), 'mn/' + n)
        if n == '__BYTE_ORDER__': ck.ob(r_x, vs == {'__ORDER_LITTLE_ENDIAN__'}, mf, '%s is %s' % (n, vs), 'bo')
        if n == '__BIGGEST_ALIGNMENT__': ck.ob(r_x, vs == {'16'}, mf, '%s is %s' % (n, vs), 'ba')
    # the types sizeof and string literals have agree with the macros
    f = p.fn('fold_expr_sizeof'); W = p.enum_of('what_sizeof')
    st3 = dict(st); st3.update({n: (lambda *a: C(0)) for n in ('fold_check_expr', 'fold_type', 'type_is_variably_modified', 'type_is_vla') if n in p.f})
    for w in ('what_sizeof', 'what_alignof'):
        f, rv, mo, _ = run('fold_expr_sizeof', [P('E'), C(0)], {('E', o('expr', 'expr')): C(0), ('E', o('expr', 'what_of')): C(W[w]), ('E', o('expr', 'bits.size_of.of_type')): ty.t('double'), ('E', o('expr', 'tree_type')): C(0)}, st3)
        ck.ob(r_x, mo is not None and mo.get(('E', o('expr', 'tree_type'))) == ty.t('ulong'), f.where, '%s has type %s' % (w, mo and mo.get(('E', o('expr', 'tree_type')))), 'sizeof/' + w)
    ck.need(r_p, 80); ck.need(r_c, 150); ck.need(r_d, 40); ck.need(r_a, 200); ck.need(r_x, 15); ck.need(r_m, 20)
    ck.assume += ['x86-64 Linux target', 'long double is 16 bytes but its arithmetic is unsupported by the compiler', 'the signed maximum is only required to have the right number of value bits, which is all its users take from it']
    return ck.finish('Every function that states a size, alignment, signedness, limit or data directive is interpreted for every primitive type; array sizes over an opaque length; predefined macros read from the table and the registering calls.')

def flat(I, init): return ()
def arr_ok(t, N, s):
    """N * s, possibly computed in 32 bits after the multiplication is truncated, is what the code returns"""
    if isx(t) and t[1] == 'trunc': t = t[4]
    if s == 1: return t == N
    if isx(t) and t[1] == 'mul': return set(t[3:]) == {N, s}
    if isx(t) and t[1] == 'shl': return t[3] == N and isinstance(t[4], int) and 1 << t[4] == s
    return False
def norm(t, V):
    """('z', n) / ('s', n): zero- / sign-extension of the low n bytes of V"""
    if t == V: return ('z', 8)
    if isx(t) and t[1] == 'and' and V in t[3:]:
        m = [x for x in t[3:] if x != V][0]
        return next((('z', s) for s in (1, 2, 4) if m == 2 ** (8 * s) - 1), None)
    if isx(t) and t[1] in ('zext', 'sext') and isx(t[4]) and t[4][1] == 'trunc' and t[4][4] == V: return ('z' if t[1] == 'zext' else 's', t[3] // 8)
    if isx(t) and t[1] == 'ashr' and isx(t[3]) and t[3][1] == 'shl' and t[3][3] == V and t[3][4] == t[4] and isinstance(t[4], int): return ('s', (64 - t[4]) // 8)
    if isx(t) and t[1] == 'lshr' and isx(t[3]) and t[3][1] == 'shl' and t[3][3] == V and t[3][4] == t[4] and isinstance(t[4], int): return ('z', (64 - t[4]) // 8)
    return None
