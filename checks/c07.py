"""C07: constant folding. The folders are interpreted over a Herbrand (term) domain: operand values are opaque
terms L and R, so the value computed for every input is read off as a term and compared with the C definition."""
import prog
from absint import Interp, C, TOP, X, isx, wrap
from tymodel import Ty, P
from chk import Check, AnalysisBroken, pmap

L, R = ('x', 'v', 64, 'L'), ('x', 'v', 64, 'R')
FL, FR = ('x', 'v', 'x80', 'L'), ('x', 'v', 'x80', 'R')

def canon(t):
    """equal-by-algebra forms of a 64-bit term made identical: masks, shifts pairs and casts become zext/sext of a truncation"""
    if not isx(t): return t
    t = t[:3] + tuple(canon(a) if isx(a) else a for a in t[3:])
    op = t[1]
    if op == 'and':
        for p, q in ((t[3], t[4]), (t[4], t[3])):
            if isinstance(p, int) and not isinstance(p, bool):
                m = p & ((1 << t[2]) - 1)
                if m and (m & (m + 1)) == 0 and isx(q): return ztr(t[2], m.bit_length(), q)
    if op == 'urem' and isinstance(t[4], int):
        k = t[4] & ((1 << t[2]) - 1)
        if k and k & (k - 1) == 0: return ztr(t[2], k.bit_length() - 1, t[3])
    if op == 'ashr' and isinstance(t[4], int) and isx(t[3]) and t[3][1] == 'shl' and t[3][4] == t[4]: return xtr('s', t[2], t[2] - t[4], t[3][3])
    if op == 'lshr' and isinstance(t[4], int) and isx(t[3]) and t[3][1] == 'shl' and t[3][4] == t[4]: return ztr(t[2], t[2] - t[4], t[3][3])
    if op in ('zext', 'sext') and isx(t[4]) and t[4][1] == 'sext' and op == 'zext' and isx(t[4][4]) and t[4][4][1] == 'trunc' and t[4][4][3] == t[2]:
        return xtr('z', t[2], t[3], xtr('s', t[2], t[4][3], t[4][4][4]))
    if op in ('zext', 'sext') and isx(t[4]) and t[4][1] == 'trunc' and t[4][3] == t[2]: return xtr(op[0], t[2], t[3], t[4][4])
    return t
def ztr(w, n, x): return xtr('z', w, n, x)
def xtr(k, w, n, x):
    if n == w: return x
    if isx(x) and x[0] == 'x' and x[1] in ('Z', 'S') and x[3] >= n: x = x[4]
    return ('x', k.upper(), w, n, x)
def sx(n, x): return xtr('s', 64, n, x)
def zx(n, x): return xtr('z', 64, n, x)
def cs(v): return TOP if v is TOP else frozenset(canon(a) for a in v)
def op2(o, a, b, w=64):
    from absint import mkx
    return mkx(o, w, a, b)
def cmpv(pred, a, b, w=64):
    from absint import mkicmp
    t = mkicmp(pred, 64, a, b)
    return ('x', 'zext', w, 1, t) if isx(t) else (1 if t else 0)

ARITH = {'op_multiply': 'mul', 'op_plus': 'add', 'op_minus': 'sub', 'op_xor': 'xor', 'op_or': 'or', 'op_and': 'and', 'op_shiftl': 'shl'}
CMP = {'op_eq': 'eq', 'op_ne': 'ne', 'op_lt': 'lt', 'op_le': 'le', 'op_gt': 'gt', 'op_ge': 'ge'}
FCMP = {'op_eq': 'oeq', 'op_ne': 'une', 'op_lt': 'olt', 'op_le': 'ole', 'op_gt': 'ogt', 'op_ge': 'oge'}
FAR = {'op_multiply': 'fmul', 'op_plus': 'fadd', 'op_minus': 'fsub', 'op_divide': 'fdiv'}

def expected(op, signed):
    if op in ARITH: return op2(ARITH[op], L, R)
    if op == 'op_shiftr': return op2('ashr' if signed else 'lshr', L, R)
    if op == 'op_divide': return op2('sdiv' if signed else 'udiv', L, R)
    if op == 'op_modulus': return op2('srem' if signed else 'urem', L, R)
    if op in CMP:
        q = CMP[op]
        return cmpv(q if q in ('eq', 'ne') else ('s' if signed else 'u') + q, L, R)

def sval(v): return '?' if v is TOP else ' | '.join(sorted(pp(x) for x in v)) or 'nothing'
def pp(t):
    if not isx(t): return str(t)
    if t[1] == 'v': return t[3]
    if t[1] == 'icmp': return '(%s %s %s)' % (pp(t[5]), t[3], pp(t[6]))
    return '%s(%s)' % (t[1], ', '.join(pp(a) if isx(a) else str(a) for a in t[3:]))

def check():
    ck = Check('C07')
    p = prog.load('cc1'); ty = Ty(p)
    OP = p.enum_of('op_multiply'); CONST = p.enum_of('CONST_NUM'); VAL = p.enum_of('VAL_UNSIGNED')
    e_op, e_l, e_r, e_tt = p.off('expr', 'bits.op.op'), p.off('expr', 'lhs'), p.off('expr', 'rhs'), p.off('expr', 'tree_type')
    e_e = p.off('expr', 'expr')
    k_t, k_off, k_v, k_s, k_ns = p.off('consty', 'type'), p.off('consty', 'offset'), p.off('consty', 'bits.num.val'), p.off('consty', 'bits.num.suffix'), p.off('consty', 'nonstandard_const')
    k_nc = p.off('consty', 'nonconst'); k_lt = p.off('consty', 'bits.addr.lbl_type'); k_ma = p.off('consty', 'bits.addr.bits')
    r_b = ck.rule('binary', 'folding a binary operator on integer constants yields op(lhs, rhs) in the operand type, reduced to the type when unsigned')
    r_u = ck.rule('unary', 'folding a unary operator yields its value')
    r_d = ck.rule('division', 'division or remainder by zero is diagnosed and never carried out, also not MIN / -1')
    r_f = ck.rule('floating', 'folding floating operators yields op(lhs, rhs) / a 0-1 truth value')
    r_l = ck.rule('logical', '&& and || fold to the truth of their operands')
    r_c = ck.rule('conversion', 'a constant conversion keeps the value modulo the target type, sign- or zero-extended as the types say')
    r_i = ck.rule('conditional', 'a constant ?: yields the operand the condition selects')
    r_n = ck.rule('redundant', 'code generation drops or rewrites an operation with a constant only when the result is the same for every operand')
    r_o = ck.rule('codegen-fold', 'constants folded during code generation have the value of the operator')
    r_p = ck.rule('pointer', 'constant pointer arithmetic is scaled by the pointee size')
    units = ck.units; units['contexts'] = 0

    def interp(stubs, sinks=(), **kw):
        units['contexts'] += 1
        st = ty.stubs()
        st.update({'op_to_str': lambda *a: TOP, 'type_to_str': lambda *a: TOP, 'type_to_str_r': lambda *a: TOP, 'fopt_on': lambda *a: TOP})
        st.update(stubs)
        skip = {f.name for f in p.defs() if f.file.endswith(('warn.c', 'where.c')) and f.name not in p.noret}
        st = {k: v for k, v in st.items() if v is not None}
        kw.setdefault('fields', {('cc1_fopt', 'rounding_math'): C(0), ('cc1_fopt', 'const_fold'): C(1)})
        kw.setdefault('stable', ('E', 'EX', 'EL', 'ER', 'EC'))
        return Interp(p, sinks=sinks, stubs=st, skip=skip, **kw)
    def konst(mem, obj, kind, val, suffix):
        mem.update({(obj, k_t): C(CONST['CONST_NUM']), (obj, k_off): C(0), (obj, k_v): C(val), (obj, k_s): C(suffix), (obj, k_ns): C(0), (obj, k_nc): C(0)})
    def cfold(vals):
        """const_fold(e, k) stub: vals maps expression object -> (kind, value, suffix)"""
        def st(I, a, i, m, k):
            if a[0] is TOP or a[1] is TOP or len(a[0]) != 1 or len(a[1]) != 1: return TOP
            eo = next(iter(a[0])); ko = next(iter(a[1]))
            if eo == 0 or eo[1] not in vals: raise AnalysisBroken('C07: const_fold of an unexpected expression %s' % (eo,))
            kind, v, sf = vals[eo[1]][:3]
            o, b = ko[1], ko[2]
            for kk in [kk for kk in m if kk[0] == o and kk[1] is not None and b <= kk[1] < b + 64]: del m[kk]
            m[(o, b + k_t)] = C(CONST[kind]); m[(o, b + k_off)] = C(0); m[(o, b + k_ns)] = C(0); m[(o, b + k_nc)] = C(0)
            if kind == 'CONST_NUM': m[(o, b + k_v)] = C(v); m[(o, b + k_s)] = C(sf)
            else: m[(o, b + k_lt)] = C(sf); m[(o, b + k_ma)] = C(v)
            return TOP
        return st
    def get(mo, obj='K'):
        if mo is None: return None, None, None
        return mo.get((obj, k_t), TOP), mo.get((obj, k_v), TOP), mo.get((obj, k_s), TOP)
    f_op = p.fn('fold_const_expr_op')
    where = f_op.where
    def assume(l=None, r=None, fl=None, fr=None):
        a = {}
        if l is not None: a[('eq', L, 0)] = not l; a[('eq', L, -1)] = False; a[('ult', L, 0)] = False
        if r is not None: a[('eq', R, 0)] = not r
        if r: a[('eq', R, -1)] = False
        return a
    def fold_op(op, tl, tr, te, vl=L, vr=R, unary=False, suffix=0, asm=None, fl=0):
        mem = ty.btypes({('E', e_op): C(OP[op]), ('E', e_l): P('EL'), ('E', e_r): C(0) if unary else P('ER'), ('E', e_tt): ty.t(te), ('EL', e_tt): ty.t(tl), ('ER', e_tt): ty.t(tr)})
        I = interp({'const_fold': cfold({'EL': ('CONST_NUM', vl, suffix), 'ER': ('CONST_NUM', vr, suffix)})}, assume=asm, globals_={})
        # -frounding-math off: the flag object is zero
        rv, mo = I.run(f_op, [P('E'), P('K')], dict(mem))
        return I, mo

    def is_num(kt): return kt is not TOP and kt == C(CONST['CONST_NUM'])
    INTS = [('int', 32, 1), ('uint', 32, 0), ('long', 64, 1), ('ulong', 64, 0), ('ullong', 64, 0), ('llong', 64, 1)]
    # ---------------- A/B: integer operators end to end
    for op in list(ARITH) + ['op_shiftr', 'op_divide', 'op_modulus'] + list(CMP):
        for t, bits, sg in INTS:
            te = 'int' if op in CMP else t
            asm = assume(r=True) if op in ('op_divide', 'op_modulus') else None
            I, mo = fold_op(op, t, t, te, asm=asm)
            kt, v, sf = get(mo)
            v = cs(v); want = canon(expected(op, sg)); ok_ = {want}
            if not sg and bits < 64:
                ok_ = {canon(zx(bits, want))}
                if op in CMP or op in ('op_xor', 'op_or', 'op_and', 'op_divide', 'op_modulus', 'op_shiftr'): ok_.add(want)
            ck.ob(r_b, is_num(kt) and v is not TOP and v and v <= ok_, where, '%s on %s constants folds to %s, not %s' % (op, t, sval(v), '/'.join(pp(x) for x in ok_)), 'bin/%s/%s' % (op, t),
                  sample='%s %s: %s' % (op, t, sval(v)))
    for op in ('op_divide', 'op_modulus'):
        for t, bits, sg in INTS:
            I, mo = fold_op(op, t, t, t, vr=0)
            kt, v, sf = get(mo)
            ck.ob(r_d, kt == C(CONST['CONST_NO']), where, '%s by constant zero on %s still yields a constant' % (op, t), 'div0/%s/%s' % (op, t))
            if sg:
                I, mo = fold_op(op, t, t, t, vr=-1)
                kt, v, sf = get(mo); bad = v is TOP or any(isx(x) and x[1] in ('sdiv', 'srem') for x in v)
                want = {op2('sub', 0, L)} if op == 'op_divide' else {0}
                ck.ob(r_d, is_num(kt) and not bad and v <= want, where, '%s by -1 on %s: %s (overflows for the most negative value)' % (op, t, sval(v)), 'divm1/%s/%s' % (op, t))
    # unary
    UN = {'op_plus': L, 'op_minus': op2('sub', 0, L), 'op_bnot': op2('xor', L, -1), 'op_not': cmpv('eq', L, 0)}
    for op, want in UN.items():
        for t, bits, sg in INTS:
            I, mo = fold_op(op, t, t, 'int' if op == 'op_not' else t, unary=True)
            kt, v, sf = get(mo); v = cs(v); ok_ = {canon(want)}
            if not sg and bits < 64 and op != 'op_not': ok_ = {canon(zx(bits, want))} | ({L} if op == 'op_plus' else set())
            ck.ob(r_u, is_num(kt) and v is not TOP and v and v <= ok_, where, 'unary %s on %s folds to %s' % (op, t, sval(v)), 'un/%s/%s' % (op, t))
    # logical
    for op in ('op_andsc', 'op_orsc'):
        for l in (0, 1):
            for r in (0, 1):
                I, mo = fold_op(op, 'int', 'int', 'int', asm=assume(l=bool(l), r=bool(r)))
                kt, v, sf = get(mo); want = (l and r) if op == 'op_andsc' else (l or r)
                ck.ob(r_l, is_num(kt) and v == C(want), where, '%s with %s, %s operands folds to %s' % (op, 'nonzero' if l else 'zero', 'nonzero' if r else 'zero', sval(v)), 'log/%s/%d%d' % (op, l, r))
    # logical with a non-constant rhs: constant only when decided by the lhs
    for op in ('op_andsc', 'op_orsc'):
        for l in (0, 1):
            mem = ty.btypes({('E', e_op): C(OP[op]), ('E', e_l): P('EL'), ('E', e_r): P('ER'), ('E', e_tt): ty.t('int'), ('EL', e_tt): ty.t('int'), ('ER', e_tt): ty.t('int')})
            for side in ('ER', 'EL'):
                other = 'EL' if side == 'ER' else 'ER'
                I = interp({'const_fold': cfold({other: ('CONST_NUM', L, 0), side: ('CONST_NO', 0, 0)})}, assume=assume(l=bool(l)))
                rv, mo = I.run(f_op, [P('E'), P('K')], dict(mem)); kt, v, sf = get(mo)
                dec = side == 'ER' and ((op == 'op_andsc' and not l) or (op == 'op_orsc' and l))
                if dec: okk = is_num(kt) and v == C(l)
                else: okk = kt == C(CONST['CONST_NO'])
                ck.ob(r_l, okk, where, '%s with constant %s %s and a non-constant %s: kind %s value %s' % (op, 'true' if l else 'false', other, side, kt, sval(v)), 'lognc/%s/%d/%s' % (op, l, side))
    # floating
    for fty, sfx in (('double', 'VAL_DOUBLE'), ('float', 'VAL_FLOAT')):
        for op in list(FAR) + list(FCMP):
            te = 'int' if op in FCMP else fty
            I, mo = fold_op(op, fty, fty, te, vl=FL, vr=FR, suffix=VAL[sfx])
            kt, v, sf = get(mo)
            if op in FAR: ok_ = {op2(FAR[op], FL, FR, 'x80')}
            else: ok_ = {('x', 'fcmp', 1, FCMP[op], FL, FR)}
            vv = set() if v is TOP else {x for x in v}
            if op == 'op_divide': vv = {x for x in vv if not (isinstance(x, tuple) and x[0] == 'fp' and 'nan' in str(x[1]).lower())}
            if op in FCMP: vv = {unround(x) for x in vv}
            ck.ob(r_f, vv == ok_ and is_num(kt), where, '%s on %s constants folds to %s' % (op, fty, sval(v)), 'fp/%s/%s' % (op, fty))
        for op in ('op_minus', 'op_plus', 'op_not'):
            I, mo = fold_op(op, fty, fty, 'int' if op == 'op_not' else fty, vl=FL, unary=True, suffix=VAL[sfx])
            kt, v, sf = get(mo)
            vv = set() if v is TOP else {unround(x) for x in v}
            ok_ = {'op_minus': {('x', 'fneg', 'x80', FL)}, 'op_plus': {FL}, 'op_not': {('x', 'fcmp', 1, 'oeq', FL, ('fp', ZERO(p)))}}[op]
            ck.ob(r_f, len(vv) > 0 and {nofp(x) for x in vv} <= {nofp(x) for x in ok_}, where, 'unary %s on a %s constant folds to %s' % (op, fty, sval(v)), 'fpun/%s/%s' % (op, fty))
        for op in ('op_andsc', 'op_orsc'):
            I, mo = fold_op(op, fty, fty, 'int', vl=FL, vr=FR, suffix=VAL[sfx])
            kt, v, sf = get(mo)
            ck.ob(r_f, kt is not None and kt is not TOP and len(kt) > 0, where, '%s on floating constants does not complete' % op, 'fplog/%s/%s' % (op, fty))
    # 0/0 is the only division replaced by NaN
    z = ('fp', ZERO(p))
    for asm, lab in (({('une', FL, z): True, ('oeq', FL, z): False}, 'nonzero / x'), ({('une', FR, z): True, ('oeq', FR, z): False}, 'x / nonzero')):
        I, mo = fold_op('op_divide', 'double', 'double', 'double', vl=FL, vr=FR, suffix=VAL['VAL_DOUBLE'], asm=asm)
        kt, v, sf = get(mo)
        ck.ob(r_f, v == C(op2('fdiv', FL, FR, 'x80')), where, '%s folds to %s' % (lab, sval(v)), 'fpnan/' + lab)
    # ---------------- pointers
    for op, side in (('op_plus', 0), ('op_plus', 1), ('op_minus', 0)):
        for pt, sz in (('int', 4), ('char', 1), ('long', 8), ('short', 2)):
            tl, tr = (pt + '*', 'long') if side == 0 else ('long', pt + '*')
            I, mo = fold_op(op, tl, tr, pt + '*')
            kt, v, sf = get(mo)
            a, b = (L, R) if side == 0 else (R, L)
            want = op2('add' if op == 'op_plus' else 'sub', a, op2('mul', b, sz))
            ck.ob(r_p, v is not TOP and v == C(want), where, '%s on a constant %s yields %s' % (op, pt + '*', sval(v)), 'ptr/%s/%d/%s' % (op, side, pt))
    # ---------------- conversions
    f_c = p.fn('fold_const_expr_cast')
    IT = [('bool', 8, 0), ('char', 8, 1), ('schar', 8, 1), ('uchar', 8, 0), ('short', 16, 1), ('ushort', 16, 0), ('int', 32, 1), ('uint', 32, 0), ('long', 64, 1), ('ulong', 64, 0), ('llong', 64, 1), ('ullong', 64, 0)]
    def cast(src, dst, v, suffix, asm=None):
        mem = ty.btypes({('E', e_e): P('EX'), ('E', e_tt): ty.t(dst), ('EX', e_tt): ty.t(src), ('E', p.off('expr', 'bits')): ty.t(dst)})
        for x in range(p.off('expr', 'bits'), p.off('expr', 'in_parens'), 4): mem.setdefault(('E', x), C(0))
        mem[('E', p.off('expr', 'bits'))] = ty.t(dst)
        I = interp({'const_fold': cfold({'EX': ('CONST_NUM', v, suffix)}), 'expr_cast_is_lval2rval': lambda *a: C(0)}, assume=asm)
        rv, mo = I.run(f_c, [P('E'), P('K')], mem)
        return get(mo)
    for s_, sb, ss in IT:
        for d_, db, ds in IT:
            kt, v, sf = cast(s_, d_, L, 0)
            v = cs(v)
            val = L if sb == 64 else (sx(sb, L) if ss else zx(sb, L))   # the operand's value, were it not normalised
            if d_ == 'bool':
                ok_ = {cmpv('ne', L, 0)}
            elif ds: ok_ = {canon(sx(db, L))} if db <= sb else {canon(sx(db, L)), L, canon(val)}
            else:
                ok_ = {canon(zx(db, L))} if db <= sb else ({canon(zx(db, L)), canon(zx(db, val)), L if not ss else None} if not ss else {canon(zx(db, L)), canon(zx(db, sx(sb, L)))})
                if db == 64 and ss: ok_ |= {L, canon(sx(sb, L))}
            ck.ob(r_c, is_num(kt) and v is not TOP and v and v <= ok_, f_c.where, 'constant conversion %s -> %s yields %s' % (s_, d_, sval(v)), 'cast/%s/%s' % (s_, d_))
    for s_, sb, ss in IT:
        for d_ in ('float', 'double'):
            for sfx in (0, VAL['VAL_UNSIGNED']):
                kt, v, sf = cast(s_, d_, L, sfx)
                want = 'sitofp' if ss else 'uitofp'
                vv = set() if v is TOP else {strip_fp(x) for x in v}
                trunc_ok = v is not TOP and all(rounds_to(x, d_) for x in v)
                small = sb < 64   # the value of a narrower type is the same either way
                ck.ob(r_c, bool(vv) and all(isx(x) and x[1] in ((want, 'sitofp', 'uitofp') if small and not ss else (want,)) and x[3] == L for x in vv), f_c.where, 'constant conversion %s -> %s yields %s' % (s_, d_, sval(v)), 'castf/%s/%s/%d' % (s_, d_, sfx))
                ck.ob(r_c, trunc_ok, f_c.where, 'constant conversion %s -> %s is not rounded to %s: %s' % (s_, d_, d_, sval(v)), 'castr/%s/%s' % (s_, d_))
                ck.ob(r_c, sf == C(VAL['VAL_FLOAT' if d_ == 'float' else 'VAL_DOUBLE']), f_c.where, 'constant conversion %s -> %s is not marked as %s' % (s_, d_, d_), 'casts/%s/%s' % (s_, d_))
    for s_ in ('float', 'double'):
        for d_, db, ds in IT:
            kt, v, sf = cast(s_, d_, FL, VAL['VAL_FLOAT' if s_ == 'float' else 'VAL_DOUBLE'])
            v = cs(v); ok_ = v is not TOP and bool(v)
            if ok_ and d_ == 'bool': ok_ = all('fcmp' in str(x) and ('une' in str(x)) for x in v)
            elif ok_: ok_ = all(any(q in str(x) for q in ('fptoui', 'fptosi')) for x in v) and all(isx(y) and y[3] == FL for y in map(strip_int, v))
            ck.ob(r_c, ok_ and is_num(kt) and sf == C(0), f_c.where, 'constant conversion %s -> %s yields %s' % (s_, d_, sval(v)), 'castfi/%s/%s' % (s_, d_))
        for d_ in ('float', 'double'):
            kt, v, sf = cast(s_, d_, FL, VAL['VAL_FLOAT' if s_ == 'float' else 'VAL_DOUBLE'])
            ck.ob(r_c, v is not TOP and v and all(strip_fp(x) == FL and rounds_to(x, d_) for x in v) and sf == C(VAL['VAL_FLOAT' if d_ == 'float' else 'VAL_DOUBLE']), f_c.where, 'constant conversion %s -> %s yields %s' % (s_, d_, sval(v)), 'castff/%s/%s' % (s_, d_))
    # truncation helper
    f_t = p.fn('integral_truncate_bits')
    for n in (1, 3, 7, 8, 13, 16, 24, 31, 32, 33, 63, 64):
        I = interp({})
        rv, mo = I.run(f_t, [C(L), C(n), P('S')], {})
        ck.ob(r_c, cs(rv) == C(canon(zx(n, L))), f_t.where, 'truncation to %d bits yields %s' % (n, sval(cs(rv))), 'trunc/%d' % n)
        sv = cs(mo.get(('S', 0), TOP)) if mo else TOP
        ck.ob(r_c, sv == C(canon(sx(n, L))), f_t.where, 'sign extension from %d bits yields %s' % (n, sval(sv)), 'strunc/%d' % n)
    # ---------------- ?:
    f_if = p.fn('fold_const_expr_if')
    LBL = p.enum_of('CONST_LBL_TRUE')
    M = ('x', 'v', 64, 'M')
    def cond(kind, v, sf, asm):
        mem = {('E', e_e): P('EC'), ('E', e_l): P('EL'), ('E', e_r): P('ER')}
        A, B = ('x', 'v', 64, 'A'), ('x', 'v', 64, 'B')
        I = interp({'const_fold': cfold({'EC': (kind, v, sf), 'EL': ('CONST_NUM', A, 0), 'ER': ('CONST_NUM', B, 0)})}, assume=asm)
        rv, mo = I.run(f_if, [P('E'), P('K')], mem)
        kt, v, s2 = get(mo)
        return set() if v is TOP else {x[3] if isx(x) else x for x in v}
    for nz in (0, 1):
        want = {'A'} if nz else {'B'}
        got = cond('CONST_NUM', L, 0, {('eq', L, 0): not nz})
        ck.ob(r_i, got == want, f_if.where, 'a %szero integer condition selects %s' % ('non' if nz else '', got), 'if/int/%d' % nz)
        got = cond('CONST_ADDR', L, LBL['CONST_LBL_MEMADDR'], {('eq', L, 0): not nz})
        ck.ob(r_i, got == want, f_if.where, 'a %snull pointer condition selects %s' % ('non-' if nz else '', got), 'if/ptr/%d' % nz)
        z = ('fp', ZERO(p))
        got = cond('CONST_NUM', FL, VAL['VAL_DOUBLE'], {('une', FL, z): bool(nz), ('oeq', FL, z): not nz})
        ck.ob(r_i, got == want, f_if.where, 'a %szero floating condition selects %s' % ('non' if nz else '', got), 'if/fp/%d' % nz)
    got = cond('CONST_ADDR', L, LBL['CONST_LBL_TRUE'], None)
    ck.ob(r_i, got == {'A'}, f_if.where, 'the address of an object as condition selects %s' % got, 'if/lbl')
    # zero tests used to drop dead code
    f_z = p.fn('const_expr_and_zero'); f_nz = p.fn('const_expr_and_non_zero')
    for nz in (0, 1):
        for f, wz in ((f_z, 1), (f_nz, 0)):
            for lab, v, sf, asm in (('int', L, 0, {('eq', L, 0): not nz}), ('fp', FL, VAL['VAL_DOUBLE'], {('une', FL, ('fp', ZERO(p))): bool(nz), ('oeq', FL, ('fp', ZERO(p))): not nz})):
                I = interp({'const_fold': cfold({'EC': ('CONST_NUM', v, sf)})}, assume=asm)
                rv, mo = I.run(f, [P('EC')], {})
                ck.ob(r_i, rv is not TOP and len(rv) == 1 and bool(next(iter(rv))) == bool((not nz) if wz else nz), f.where, '%s(%s %s constant) = %s' % (f.name, 'nonzero' if nz else 'zero', lab, sval(rv)), 'zero/%s/%s/%d' % (f.name, lab, nz))
    codegen(ck, p, ty, OP, interp, r_n, r_o)
    ck.need(r_b, 90); ck.need(r_c, 150); ck.need(r_n, 60); ck.need(r_f, 20); ck.need(r_l, 12); ck.need(r_i, 12)
    ck.assume += ['clang-18 -O0 IR is a faithful reading of the source', 'operands arrive converted to the common type, sign- or zero-extended to 64 bits (decided for the conversion folder here)']
    return ck.finish('The constant folders (fold_const_expr_op/cast/if, const_op_exec*, out_op and its helpers) are abstractly interpreted with opaque operand values; the term each returns, for every operator x type x operand partition, is compared with the C definition.')

_Z = {}
def ZERO(p):
    """spelling of the x87 zero constant in the IR dump"""
    if 'z' not in _Z:
        z = set()
        for n in ('const_op_exec_fp', 'const_expr_zero', 'fold_const_expr_if', 'fold_cast_num'):
            f = p.f.get(n)
            for i in (f.insts() if f else ()):
                if i.op == 'fcmp':
                    for a in i.a:
                        if isinstance(a, list) and a[0] == 'fp': z.add(a[1])
        z = [x for x in z if float_is_zero(x)]
        _Z['z'] = z[0] if z else '0'
    return _Z['z']
def float_is_zero(x):
    x = str(x)
    try: return float(x) == 0
    except ValueError: return set(x.replace('0x', '').replace('K', '')) <= set('0')
def unround(x):
    """strip int<->fp conversions of a 0/1 truth value"""
    while isx(x) and x[1] in ('fptoui', 'fptosi', 'sitofp', 'uitofp', 'zext', 'sext') : x = x[4] if x[1] in ('zext', 'sext') else x[3]
    if isx(x) and x[1] == 'xor' and -1 in x[3:]:
        y = [z for z in x[3:] if z != -1][0]
        if isx(y) and y[1] == 'fcmp' and y[3] in ('une', 'oeq'): x = y[:3] + ({'une': 'oeq', 'oeq': 'une'}[y[3]],) + y[4:]
    return x
def nofp(x): return tuple('Z' if isinstance(a, tuple) and a[0] == 'fp' and float_is_zero(a[1]) else a for a in x) if isx(x) else x
def strip_fp(x):
    while isx(x) and x[1] in ('fpext', 'fptrunc'): x = x[3]
    return x
def strip_int(x):
    while isx(x) and x[1] in ('Z', 'S', 'zext', 'sext', 'trunc'): x = x[4]
    return x
def rounds_to(x, d):
    t = 'float' if d == 'float' else 'double'; n = 0
    while isx(x) and x[1] in ('fpext', 'fptrunc'):
        if x[1] == 'fptrunc' and x[2] in (t, {'float': 'f32', 'double': 'f64'}[t], {'float': 'f', 'double': 'd'}[t]): return True
        x = x[3]
    return False

def codegen(ck, p, ty, OP, interp, r_n, r_o):
    vt = p.enum_of('V_REG'); o_ty, o_t = p.off('out_val', 'type'), p.off('out_val', 't')
    o_v = p.off('out_val', 'bits'); o_ro = p.off('out_val', 'bits.regoff.offset'); o_lo = p.off('out_val', 'bits.lbl.offset')
    f = p.fn('out_op')
    LG = lambda k: ('x', 'log2', 64, k)
    def stubs(pow2=None):
        d = {'out_comment': lambda *a: TOP, 'out_dbg_flush': lambda *a: TOP, 'v_decay_flags_except': lambda *a: TOP, 'v_dup_or_reuse': lambda I, a, i, m, k: a[1], 'v_mutable_copy': lambda I, a, i, m, k: a[1],
             'out_val_consume': lambda *a: TOP, 'out_sanitize_enabled': lambda *a: C(0), 'vla_size': lambda *a: P('VLA')}
        def newl(I, a, i, m, k):
            m[('K', o_ty)] = C(vt['V_CONST_I']); m[('K', o_t)] = a[1]; m[('K', o_v)] = a[2]
            return P('K')
        d['out_new_l'] = newl
        d['ispow2'] = lambda I, a, i, m, k: TOP if a[0] is TOP else frozenset(1 if (isinstance(x, int) and x & ((1 << 64) - 1) and (x & ((1 << 64) - 1)) & ((x & ((1 << 64) - 1)) - 1) == 0) else 0 for x in a[0])
        d['log2ll'] = lambda I, a, i, m, k: TOP if a[0] is TOP else frozenset((x & ((1 << 64) - 1)).bit_length() - 1 for x in a[0])
        return d
    def run(op, lt, rt, lk, lv, rk, rv, asm=None):
        mem = {('VL', o_ty): C(vt[lk]), ('VR', o_ty): C(vt[rk]), ('VL', o_t): ty.t(lt), ('VR', o_t): ty.t(rt)}
        for o, k, v in (('VL', lk, lv), ('VR', rk, rv)):
            if k == 'V_CONST_I': mem[(o, o_v)] = C(v)
            elif k == 'V_REG': mem[(o, o_ro)] = C(v)
            elif k == 'V_LBL': mem[(o, o_lo)] = C(v)
        st = stubs()
        def impl(I, a, i, m, k):
            I.event('call', 'impl_op', a, i, k, dict(m))
            return P('IMPL')
        st['impl_op'] = impl
        I = interp(st, assume=asm)
        r, mo = I.run(f, [P('O'), C(OP[op]), P('VL'), P('VR')], mem)
        ev = [e for e in I.events if e.kind == 'call' and e.name == 'impl_op']
        return r, mo, ev
    BIN = list(ARITH) + ['op_shiftr', 'op_divide', 'op_modulus'] + list(CMP)
    # constants on both sides
    for op in BIN:
        for t, bits, sg in (('int', 32, 1), ('uint', 32, 0), ('long', 64, 1), ('ulong', 64, 0)):
            asm = {('eq', R, 0): False, ('eq', R, -1): False}
            r, mo, ev = run(op, t, t, 'V_CONST_I', L, 'V_CONST_I', R, asm)
            want = canon(expected(op, sg)); ok_ = {want}
            if not sg and bits < 64: ok_ |= {canon(zx(bits, want))}
            ok = r is not TOP and bool(r)
            for x in (r if ok else ()):
                if x == ('p', 'K', 0):
                    v = cs(mo.get(('K', o_v), TOP))
                    if v is TOP or not v <= ok_: ok = False
            for e in ev:
                if e.args[1] != C(OP[op]) or e.args[2] != P('VL') or e.args[3] != P('VR'): ok = False
            v = cs(mo.get(('K', o_v), frozenset())) if mo else TOP
            ck.ob(r_o, ok, f.where, 'out_op(%s) on two %s constants yields %s' % (op, t, sval(v)), 'cg/%s/%s' % (op, t))
    # one constant, the other operand unknown: the result must be the operand, a rewritten operation, or the operation
    consts = sorted({0, 1, -1, 2, 3, 4, 6, 8, 255, 1 << 16, (1 << 31) - 1} | {wrap(a[1], 64) for fn in ('const_is_noop', 'try_shift_conv', 'try_trunc_conv') for i in (p.f[fn].insts() if fn in p.f else ()) for a in i.a if isinstance(a, list) and a[0] == 'c'})
    def one(x):
        op, side, (t, bits, sg), reg, cc = x
        for c in (cc,):
            if side == 0: r, mo, ev = run(op, t, t, 'V_CONST_I', c, reg, 0)
            else: r, mo, ev = run(op, t, t, reg, 0, 'V_CONST_I', c)
            xo, co = ('VR', 'VL') if side == 0 else ('VL', 'VR')
            if r is TOP or mo is None: return 'constant %d: unknown result' % c
            for e in ev:
                b = same_op(e, op, c, side, sg, bits, OP, xo, co, o_v)
                if b: return 'constant %d: %s' % (c, b)
            for x in r:
                if x == ('p', xo, 0):
                    # operand returned, possibly with a displaced register
                    off = mo.get((xo, o_ro), C(0)) if reg == 'V_REG' else C(0)
                    if off == C(0):
                        if not identity(op, c, side, bits): return 'constant %d: the operation is dropped' % c
                    elif op == 'op_plus' and off == C(wrap(c, 64)) or op == 'op_minus' and side == 1 and off == C(wrap(-c, 64)): pass
                    else: return 'constant %d: register displaced by %s' % (c, sval(off))
                elif x == ('p', co, 0): return 'constant %d: the constant is returned' % c
                elif x == ('p', 'K', 0): return 'constant %d: replaced by a constant' % c
        return None
    items = [(op, side, t, reg) for op in BIN for side in (0, 1) for t in (('int', 32, 1), ('uint', 32, 0), ('ulong', 64, 0), ('long', 64, 1)) for reg in ('V_REGOFF', 'V_REG')]
    split = [x + (c,) for x in items for c in consts]
    res = dict(zip(split, pmap(one, split)))
    for op, side, (t, bits, sg), reg in items:
        ck.units['contexts'] += len(consts); bad = next((res[(op, side, (t, bits, sg), reg, c)] for c in consts if res[(op, side, (t, bits, sg), reg, c)]), None)
        ck.ob(r_n, bad is None, f.where, 'out_op(%s, %s) with a constant on the %s: %s' % (op, t, 'left' if side == 0 else 'right', bad), 'noop/%s/%d/%s/%s' % (op, side, t, reg))
    # pointer +/- constant held in a register
    for op in ('op_plus', 'op_minus'):
        for pt, sz in (('int', 4), ('long', 8), ('char', 1)):
            for kind, oo in (('V_REG', o_ro), ('V_LBL', o_lo)):
                r, mo, ev = run(op, pt + '*', 'long', kind, ('x', 'v', 64, 'D'), 'V_CONST_I', R)
                D = ('x', 'v', 64, 'D'); m = op2('mul', R, sz)
                want = op2('add', D, m if op == 'op_plus' else op2('sub', 0, m))
                alt = {want, op2('sub', D, m) if op == 'op_minus' else want, op2('add', D, op2('mul', op2('sub', 0, R), sz)) if op == 'op_minus' else want}
                off = mo.get(('VL', oo), TOP) if mo else TOP
                ok = r is not TOP and r <= P('VL') | (P('IMPL') if ev else frozenset()) and off is not TOP and off <= frozenset(alt | ({D} if ev else set()))    # D: left to the back end
                ck.ob(r_n, ok, f.where, 'pointer %s constant: displacement %s' % (op, sval(off)), 'ptrdisp/%s/%s/%s' % (op, pt, kind))
    # unary
    fu = p.fn('out_op_unary')
    for op, want in (('op_not', cmpv('eq', L, 0)), ('op_minus', op2('sub', 0, L)), ('op_bnot', op2('xor', L, -1)), ('op_plus', L)):
        mem = {('V', o_ty): C(vt['V_CONST_I']), ('V', o_t): ty.t('long'), ('V', o_v): C(L)}
        I = interp(stubs(), sinks=('impl_op_unary',))
        r, mo = I.run(fu, [P('O'), C(OP[op]), P('V')], mem)
        v = mo.get(('V', o_v), TOP) if mo else TOP
        ev = [e for e in I.events if e.name == 'impl_op_unary']
        ok = r is not TOP and v is not TOP and v <= frozenset({want, L} if ev else {want})
        ck.ob(r_o, ok, fu.where, 'out_op_unary(%s) on a constant yields %s' % (op, sval(v)), 'cgun/%s' % op)

def identity(op, c, side, bits):
    """op(c, x) == x (side 0) / op(x, c) == x (side 1) for every x"""
    ones = c == -1 or c == (1 << bits) - 1
    if op in ('op_plus', 'op_or', 'op_xor'): return c == 0
    if op == 'op_multiply': return c == 1
    if op == 'op_and': return ones
    if side == 1 and op in ('op_minus', 'op_shiftl', 'op_shiftr'): return c == 0
    if side == 1 and op == 'op_divide': return c == 1
    return False

def same_op(e, op, c, side, sg, bits, OP, xo, co, o_v):
    """the operation handed to the back end must compute op of the two operands; returns a description otherwise"""
    o2 = e.args[1]; a, b = e.args[2], e.args[3]
    if o2 is TOP or len(o2) != 1: return 'unknown operation'
    n = next(k for k, v in OP.items() if v in o2)
    kv = e.mem.get((co, o_v), TOP)
    if kv is TOP or len(kv) != 1: return 'unknown constant'
    k = next(iter(kv))
    orig = (P(co), P(xo)) if side == 0 else (P(xo), P(co))
    if n == op and k == c:
        if (a, b) == orig: return None
        if (b, a) == orig and op in ('op_plus', 'op_multiply', 'op_and', 'op_or', 'op_xor', 'op_eq', 'op_ne'): return None
        return 'operands exchanged'
    if (a, b) == (P(xo), P(co)):
        u = c & ((1 << bits) - 1)
        if op == 'op_multiply' and n == 'op_shiftl' and isinstance(k, int) and 0 <= k < bits and u == 1 << k: return None
        if op == 'op_divide' and side == 1 and not sg and n == 'op_shiftr' and isinstance(k, int) and 0 <= k < bits and u == 1 << k: return None
        if op == 'op_modulus' and side == 1 and not sg and n == 'op_and' and u and u & (u - 1) == 0 and k == wrap(u - 1, 64): return None
    return '%s %d rewritten to %s %s' % (op, c, n, k)
