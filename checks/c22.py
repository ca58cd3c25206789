"""C22: integer promotions, usual arithmetic conversions, literal types. The type-resolution functions are interpreted
for every pair of arithmetic types (operands opaque); the types chosen are compared with the C tables."""
import prog
from absint import Interp, C, TOP, isx
from tymodel import Ty, P
from chk import Check, AnalysisBroken, pmap

RANK = {'bool': 0, 'char': 1, 'schar': 1, 'uchar': 1, 'short': 2, 'ushort': 2, 'int': 3, 'uint': 3, 'long': 4, 'ulong': 4, 'llong': 5, 'ullong': 5}
FR = {'float': 1, 'double': 2, 'ldouble': 3}
UN = {'int': 'uint', 'long': 'ulong', 'llong': 'ullong'}
def size(t): return Ty.PRIM[t][1]
def signed(t): return bool(Ty.PRIM[t][2])
def promote(t): return t if t in FR else ('int' if RANK[t] < 3 else t)
def common(a, b):
    if a in FR or b in FR:
        if a in FR and b in FR: return a if FR[a] >= FR[b] else b
        return a if a in FR else b
    a, b = promote(a), promote(b)
    if a == b: return a
    if signed(a) == signed(b): return a if RANK[a] > RANK[b] else b
    u, s = (a, b) if not signed(a) else (b, a)
    if RANK[u] >= RANK[s]: return u
    if size(s) > size(u): return s
    return UN[s]

ARITH = ['op_multiply', 'op_divide', 'op_plus', 'op_minus', 'op_unknown']
INTO = ['op_modulus', 'op_xor', 'op_or', 'op_and']
SHIFT = ['op_shiftl', 'op_shiftr']
CMP = ['op_eq', 'op_ne', 'op_le', 'op_lt', 'op_ge', 'op_gt']
LOG = ['op_orsc', 'op_andsc']
COMPOUND = ['op_multiply', 'op_divide', 'op_plus', 'op_minus', 'op_modulus', 'op_xor', 'op_or', 'op_and', 'op_shiftl', 'op_shiftr']

def names(v):
    if v is None or v is TOP: return None
    return {x[1][2:] if isinstance(x, tuple) and x[0] == 'p' and x[1].startswith('T:') else x for x in v}

def check():
    ck = Check('C22')
    p = prog.load('cc1'); ty = Ty(p)
    OP = p.enum_of('op_multiply'); VAL = p.enum_of('VAL_UNSIGNED'); STD = p.enum_of('STD_C89'); EQ = p.enum_of('TYPE_EQUAL')['TYPE_EQUAL']
    r_p = ck.rule('promotion', 'a type narrower than int promotes to int and nothing else does; float promotes to double as a default argument')
    r_u = ck.rule('usual-conversions', 'a binary operator converts both operands to their C common type; comparisons and logical operators have type int, shifts the type of the left operand')
    r_a = ck.rule('operands-promoted', 'operands of binary, unary and conditional operators and of switch are integer-promoted before their common type is chosen, and converted to it')
    r_c = ck.rule('compound', 'a compound assignment computes in the common type of both operands and converts back to the left one')
    r_l = ck.rule('literal-type', 'an integer literal has the first type of the C list for its suffix and base that holds it')
    r_f = ck.rule('argument-promotion', 'every argument without a parameter type undergoes the default promotions')
    o = p.off; e_tt = o('expr', 'tree_type'); units = ck.units; units['contexts'] = 0
    warnskip = {f.name for f in p.defs() if f.file.endswith(('warn.c', 'where.c')) and f.name not in p.noret}
    def interp(stubs=None, **kw):
        units['contexts'] += 1
        st = ty.stubs(); st.update({'type_cmp': lambda *a: C(EQ), 'op_to_str': lambda *a: TOP, 'type_to_str': lambda *a: TOP, 'type_to_str_r': lambda *a: TOP, 'type_loc': lambda *a: TOP, 'fold_type_chk_warn': lambda *a: C(0), 'platform_32bit': lambda *a: C(0), 'platform_word_size': lambda *a: C(8)})
        st.update(stubs or {})
        kw.setdefault('stable', ('L', 'R', 'E', 'EL', 'ER', 'EE'))
        return Interp(p, stubs=st, skip=warnskip - set(stubs or {}), **kw)
    # ---- promotion predicate
    f = p.fn('type_is_promotable')
    for t in list(RANK) + list(FR):
        I = interp(); rv, mo = I.run(f, [ty.t(t), P('PTO')], {('PTO', 0): C(0)})
        want = 'double' if t == 'float' else ('int' if t in RANK and RANK[t] < 3 else None)
        got = names(mo.get(('PTO', 0), TOP)) if mo else None
        ck.ob(r_p, rv is not TOP and (rv == C(0) if want is None else 0 not in rv and got == {want}), f.where, '%s promotes to %s (returns %s)' % (t, got, rv), 'prom/' + t)
    for fn, fl in (('expr_promote_int_if_smaller', 0), ('expr_promote_default', 1)):
        f = p.fn(fn)
        for t in list(RANK) + list(FR):
            ev = []
            def nc(I, a, i, m, k): ev.append((a[0], names(a[1]))); return P('CAST')
            I = interp({'expr_new_cast': nc, 'fold_expr_cast_descend': lambda *a: TOP})
            rv, mo = I.run(f, [P('PE'), C(0)], {('PE', 0): P('E'), ('E', e_tt): ty.t(t)})
            want = ('double' if fl else None) if t == 'float' else ('int' if t in RANK and RANK[t] < 3 else None)
            res = mo.get(('PE', 0), TOP) if mo else TOP
            ok = (res == P('E') and not ev) if want is None else (res == P('CAST') and bool(ev) and all(a == P('E') and n == {want} for a, n in ev))
            ck.ob(r_p, ok, f.where, '%s on %s: %s' % (fn, t, ev), 'prome/%s/%s' % (fn, t))
    # ---- usual arithmetic conversions
    f = p.fn('op_required_promotion')
    PR = ['int', 'uint', 'long', 'ulong', 'llong', 'ullong'] ; ALL = PR + list(FR)
    def req(op, lt, rt):
        I = interp()
        rv, mo = I.run(f, [C(OP[op]), P('L'), P('R'), P('W'), C(0), P('PL'), P('PR')], {('L', e_tt): ty.t(lt), ('R', e_tt): ty.t(rt), ('PL', 0): C(0), ('PR', 0): C(0)})
        g = lambda k, t: names(mo.get((k, 0), TOP)) if mo else None
        sub = lambda s, t: None if s is None else {t if x == 0 else x for x in s}
        return names(rv), sub(g('PL', lt), lt), sub(g('PR', rt), rt)
    def judge(x):
        op, lt, rt, comp = x
        if (op in INTO or op in SHIFT) and (lt in FR or rt in FR): return None
        res, l, r = req(op, lt, rt)
        if op in LOG:
            # the operands are tested for truth: what matters is the result
            return res == {'int'}, res, l, r
        if op in SHIFT: return res == {promote(lt)} and l == {promote(lt)}, res, l, r
        c = common(lt, rt)
        want = 'int' if op in CMP else c
        return res == {want} and l == {c} and r == {c}, res, l, r
    items = [(op, a, b, 0) for op in ARITH + INTO + SHIFT + CMP + LOG for a in ALL for b in ALL]
    items += [(op, a, b, 1) for op in COMPOUND for a in ('bool', 'char', 'schar', 'uchar', 'short', 'ushort') for b in ALL]
    for (op, a, b, comp), r in zip(items, pmap(judge, items)):
        if r is None: continue
        units['contexts'] += 1
        ck.ob(r_u, r[0], f.where, '%s on %s and %s: result %s, operands converted to %s and %s (common type %s)' % (op, a, b, r[1], r[2], r[3], common(a, b)), 'uac/%s/%s/%s' % (op, a, b), sample='%s %s,%s -> %s' % (op, a, b, r[1]))
    for pt in ('int*', 'char*'):
        res, l, r = req('op_minus', pt, pt)
        ck.ob(r_u, res == {'long'}, f.where, 'pointer difference has type %s' % res, 'ptrdiff/' + pt)
        for it in PR:
            for op in ('op_plus', 'op_minus'):
                res, l, r = req(op, pt, it)
                ck.ob(r_u, res == {pt} and l == {pt} and r is not None and all(size(x) == 8 for x in r), f.where, '%s on %s and %s: %s %s %s' % (op, pt, it, res, l, r), 'uacp/%s/%s/%s' % (op, pt, it))
            res, l, r = req('op_plus', it, pt)
            ck.ob(r_u, res == {pt} and r == {pt} and l is not None and all(size(x) == 8 for x in l), f.where, 'op_plus on %s and %s: %s %s %s' % (it, pt, res, l, r), 'uacp2/%s/%s' % (pt, it))
    # ---- op_promote_types converts what op_required_promotion asks for
    f = p.fn('op_promote_types')
    for lt, rt in (('int', 'uint'), ('uint', 'int'), ('long', 'double'), ('float', 'int'), ('int', 'int'), ('ulong', 'llong'), ('long', 'uint')):
        c = common(lt, rt); ev = []
        def ic(I, a, i, m, k): ev.append((tuple(a[1]) if a[1] is not TOP else None, names(a[0]))); return TOP
        I = interp({'fold_insert_casts': ic})
        rv, mo = I.run(f, [C(OP['op_plus']), P('PE', 0), P('PE', 8), C(0), P('W'), C(0)], {('PE', 0): P('L'), ('PE', 8): P('R'), ('L', e_tt): ty.t(lt), ('R', e_tt): ty.t(rt)})
        want = set()
        if lt != c: want.add((('p', 'PE', 0), c))
        if rt != c: want.add((('p', 'PE', 8), c))
        got = {(a[0], next(iter(n))) for a, n in ev if a and n and len(n) == 1 and len(a) == 1}
        ck.ob(r_a, got == want and names(rv) == {c} and len(got) == len({x for x in map(str, ev)}), f.where, 'op_promote_types(%s, %s) converts %s, result %s' % (lt, rt, got, names(rv)), 'opt/%s/%s' % (lt, rt))
    f = p.fn('fold_insert_casts')
    ev = []
    def nc(I, a, i, m, k): ev.append((a[0], names(a[1]))); return P('CAST')
    I = interp({'expr_new_cast': nc, 'fold_expr_cast_descend': lambda *a: TOP, 'expr_set_where': lambda I, a, i, m, k: a[0]})
    rv, mo = I.run(f, [ty.t('uint'), P('PE'), C(0)], {('PE', 0): P('E'), ('E', e_tt): ty.t('int')})
    ck.ob(r_a, mo is not None and mo.get(('PE', 0)) == P('CAST') and ev == [(P('E'), {'uint'})], f.where, 'fold_insert_casts does not wrap the operand: %s' % ev, 'fic')
    # ---- the folders promote before they convert
    e_l, e_r, e_e, e_op = o('expr', 'lhs'), o('expr', 'rhs'), o('expr', 'expr'), o('expr', 'bits.op.op')
    chk = ('op_check_precedence', 'op_unsigned_cmp_check', 'op_shift_check', 'str_cmp_check', 'op_sizeof_div_check', 'array_subscript_tycheck', 'op_int_promotion_check', 'tautological_pointer_check', 'fold_check_bounds', 'expr_check_sign', 'op_float_check', 'fold_check_expr', 'fold_expr_no_decay', 'fold_expr_cast_descend', 'const_fold')
    base = {n: (lambda *a: C(0)) for n in chk if n in p.f}
    base['fold_expr_nonstructdecay'] = lambda I, a, i, m, k: a[0]
    base['fold_expr_nodecay'] = base['fold_expr_lval2rval'] = lambda I, a, i, m, k: a[0]
    def newcast(I, a, i, m, k):
        """a cast expression: a fresh object named after its operand and type"""
        if a[0] is TOP or a[1] is TOP or len(a[0]) != 1 or len(a[1]) != 1: raise AnalysisBroken('C22: cast of an unknown expression')
        n = 'CAST(%s,%s)' % (next(iter(a[0]))[1], next(iter(a[1]))[1][2:])
        m[(n, e_tt)] = a[1]
        return P(n)
    base['expr_new_cast'] = newcast; base['expr_set_where'] = lambda I, a, i, m, k: a[0]
    def conv(v, base_t):
        """chain of types an operand goes through"""
        if v is None or v is TOP or len(v) != 1: return None
        s = next(iter(v))[1]; ch = []
        while s.startswith('CAST('): s, t = s[5:-1].rsplit(',', 1); ch.append(t)
        return s, ch[::-1]
    def final(v, t): c = conv(v, t); return None if c is None else (c[0], ([t] + c[1])[-1], c[1])
    T2 = ['bool', 'char', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'llong', 'ullong', 'float', 'double']
    fo, fi = p.fn('fold_expr_op'), p.fn('fold_expr_if')
    def widen_ok(ch, t):
        """each conversion step but the last keeps the value: unsigned must not be sign-extended etc."""
        seq = [t] + ch
        for a, b in zip(seq[:-2], seq[1:-1]):
            if a in FR or b in FR: return a in FR and b in FR and FR[b] >= FR[a]
            if size(b) < size(a) or (size(b) == size(a) and signed(a) != signed(b)) or (signed(a) and not signed(b)): return False
        return True
    def strip(ch): return [x for x in ch if x not in FR]
    def fj(x):
        kind, op, lt, rt = x
        if kind == 'op':
            I = interp(base)
            rv, mo = I.run(fo, [P('E'), C(0)], {('E', e_op): C(OP[op]), ('E', e_l): P('EL'), ('E', e_r): P('ER'), ('EL', e_tt): ty.t(lt), ('ER', e_tt): ty.t(rt), ('E', e_tt): C(0)})
            ws = (e_l, e_r)
        else:
            I = interp(base)
            rv, mo = I.run(fi, [P('E'), C(0)], {('E', e_e): P('EE'), ('EE', e_tt): ty.t('int'), ('E', e_l): P('EL') if kind == 'if' else C(0), ('E', e_r): P('ER'), ('EL', e_tt): ty.t(lt), ('ER', e_tt): ty.t(rt), ('E', e_tt): C(0)} | ({('EE', e_tt): ty.t(lt)} if kind == 'elvis' else {}))
            ws = (e_l if kind == 'if' else e_e, e_r)
        if mo is None: return False, None, None, None
        t = names(mo.get(('E', e_tt))); l = final(mo.get(('E', ws[0])), lt); r = final(mo.get(('E', ws[1])), rt)
        if l is None or r is None: return False, t, l, r
        c = common(lt, rt)
        if op in LOG: return t == {'int'} and widen_ok(strip(l[2]) + [0], lt) and widen_ok(strip(r[2]) + [0], rt), t, l, r   # int -> floating keeps the truth value
        if op in SHIFT: return t == {promote(lt)} and l[1] == promote(lt) and widen_ok(l[2], lt) and widen_ok(r[2] + [0], rt), t, l, r
        want = {'int'} if op in CMP else {c}
        ok = t == want and l[0] == ('EE' if kind == 'elvis' else 'EL') and r[0] == 'ER' and l[1] == c and r[1] == c and widen_ok(l[2], lt) and widen_ok(r[2], rt)
        return ok, t, l, r
    items = [('op', op, a, b) for op in ('op_plus', 'op_divide', 'op_and', 'op_lt', 'op_eq', 'op_shiftr', 'op_andsc') for a in T2 for b in T2 if not ((a in FR or b in FR) and op in ('op_and', 'op_shiftr'))]
    items += [(k, 'op_unknown', a, b) for k in ('if', 'elvis') for a in T2 for b in T2]
    for (k, op, a, b), (ok, t, l, r) in zip(items, pmap(fj, items)):
        units['contexts'] += 1
        ck.ob(r_a, ok, (fo if k == 'op' else fi).where, '%s on %s and %s: type %s, operands %s and %s' % (op if k == 'op' else '?:', a, b, t, l, r), 'fold/%s/%s/%s/%s' % (k, op, a, b))
    for op in ('op_plus', 'op_minus', 'op_bnot', 'op_not'):
        for a in T2:
            if a in FR and op == 'op_bnot': continue
            I = interp(base)
            rv, mo = I.run(fo, [P('E'), C(0)], {('E', e_op): C(OP[op]), ('E', e_l): P('EL'), ('E', e_r): C(0), ('EL', e_tt): ty.t(a), ('E', e_tt): C(0)})
            t = names(mo.get(('E', e_tt))) if mo else None; l = final(mo.get(('E', e_l)), a) if mo else None
            ck.ob(r_a, t == {'int' if op == 'op_not' else promote(a)} and l is not None and (op == 'op_not' or l[1] == promote(a)) and widen_ok(l[2] + [0], a), fo.where, 'unary %s on %s: type %s, operand %s' % (op, a, t, l), 'foldu/%s/%s' % (op, a))
    # switch
    fs = p.fn('fold_stmt_switch'); s_e = o('stmt', 'expr')
    st = dict(base); st.update({n: (lambda *a: C(0)) for n in ('fold_stmt', 'fold_switch_dups', 'fold_switch_scopechecks', 'fold_switch_enum')})
    for a in [t for t in T2 if t not in FR]:
        I = interp(st, stable=('E', 'EL', 'ER', 'EE', 'S'))
        rv, mo = I.run(fs, [P('S')], {('S', s_e): P('EL'), ('EL', e_tt): ty.t(a)})
        l = final(mo.get(('S', s_e)), a) if mo else None
        ck.ob(r_a, l is not None and l[1] == promote(a) and widen_ok(l[2] + [0], a), fs.where, 'switch on %s: controlling expression %s' % (a, l), 'switch/' + a)
    fcs = p.f.get('fold_case') or p.f.get('fold_stmt_and_add_to_curswitch')
    # ---- compound assignment
    fc = p.fn('fold_expr_assign_compound'); c_op, c_up = o('expr', 'bits.compoundop.op'), o('expr', 'bits.compoundop.upcast_ty')
    st = dict(base)
    st.update({n: (lambda *a: C(1)) for n in ('expr_must_lvalue', 'op_can_compound')}); st.update({n: (lambda *a: C(0)) for n in ('expr_assign_const_check', 'fold_check_restrict', 'fold_inc_writes_if_sym')})
    def cj(x):
        op, lt, rt = x
        I = interp(st)
        rv, mo = I.run(fc, [P('E'), C(0)], {('E', c_op): C(OP[op]), ('E', c_up): C(0), ('E', e_l): P('EA'), ('E', e_r): P('ER'), ('EA', e_tt): ty.t(lt), ('EA', e_l): P('EL'), ('EL', e_tt): ty.t(lt), ('ER', e_tt): ty.t(rt), ('E', e_tt): C(0)})
        if mo is None: return False, None, None, None
        t = names(mo.get(('E', e_tt))); up = names(mo.get(('E', c_up))); r = final(mo.get(('E', e_r)), rt)
        if not t or not up or r is None or len(up) != 1: return False, t, up, r
        u = next(iter(up)); at = lt if u == 0 else u
        ok = t == {lt} and (at == promote(lt) if op in SHIFT else at == common(lt, rt) and r[1] == at) and widen_ok(r[2] + ([0] if op in SHIFT else []), rt)
        return ok, t, up, r
    items = [(op, a, b) for op in COMPOUND for a in T2 for b in T2 if not ((a in FR or b in FR) and op in INTO + SHIFT)]
    for (op, a, b), (ok, t, up, r) in zip(items, pmap(cj, items)):
        units['contexts'] += 1
        ck.ob(r_c, ok, fc.where, 'compound %s on %s and %s: type %s, computed in %s, right operand %s' % (op, a, b, t, up, r), 'comp/%s/%s/%s' % (op, a, b))
    compound_gen(ck, p, ty, OP, interp, r_c)
    # ---- default argument promotions
    f = p.fn('default_promote_args')
    for decl in range(0, 5):
        seen = set()
        def pd(I, a, i, m, k): seen.update(a[0] if a[0] is not TOP else ['?']); return TOP
        I = interp({'expr_promote_default': pd}, objp={'ARGS': {8 * k: P('A%d' % k) for k in range(4)} | {32: C(0)}}, part=('default_promote_args',))
        I.run(f, [P('ARGS'), C(decl), C(0)], {})
        ck.ob(r_f, seen == {('p', 'ARGS', 8 * k) for k in range(decl, 4)}, f.where, 'with %d declared of 4 arguments, %s are promoted' % (decl, sorted(map(str, seen))), 'dpa/%d' % decl)
    # every argument of a call is folded, then converted to its parameter's type or promoted
    f = p.fn('fold_expr_funcall'); ad = o('funcargs', 'arglist')
    for nd, na, void, var in ((0, 2, 0, 0), (1, 1, 0, 0), (1, 3, 0, 1), (2, 3, 0, 1), (3, 3, 0, 0), (2, 2, 0, 1)):
        ev = []
        def at(x): return '?' if x is TOP or len(x) != 1 else next(iter(x))[1:]
        def ptr(I, v, m, inst, ff=f):
            return TOP if v is TOP else I.load(v, 'p', m, inst, ff)
        def prom(I, a, i, m, k): ev.append(('promote', at(a[0]))); return TOP
        def cst(I, a, i, m, k): ev.append(('cast', at(a[1]), at(a[0]))); return TOP
        def fnc(I, a, i, m, k): m[('al:fa', 0)] = TOP; (a[1] is not TOP and len(a[1]) == 1) and m.__setitem__(next(iter(a[1]))[1:], P('FA')); return P('T:int')
        def cnt(I, a, i, m, k): return TOP if a[0] is TOP else frozenset({'DL': nd, 'ARGS': na}.get(x[1] if x else None, 0) for x in a[0])
        st = dict(base); st.update({n: (lambda *a: C(0)) for n in ('check_implicit_funcall', 'check_arg_counts', 'static_array_check', 'format_check_call', 'sentinel_check', 'func_or_builtin_attr_present', 'check_standard_funcs', 'fold_check_expr', 'expr_is_null_ptr') if n in p.f})
        st.update({'expr_promote_default': prom, 'fold_type_chk_and_cast_ty': cst, 'type_func_call': fnc, 'dynarray_nochk_count': cnt, 'type_is_callable': lambda *a: P('T:FN')})
        I = interp(st, part=('default_promote_args', 'check_arg_types', 'check_arg_voidness_and_nonnulls', 'fold_expr_funcall'), stable=('E', 'FA', 'ARGS', 'DL') + tuple('D%d' % k for k in range(3)),
            objp={'ARGS': {8 * k: P('A%d' % k) for k in range(na)} | {8 * na: C(0)}, 'DL': {8 * k: P('D%d' % k) for k in range(nd)} | {8 * nd: C(0)}})
        I.run(f, [P('E'), C(0)], {('E', o('expr', 'expr')): P('FE'), ('FE', e_tt): P('T:FN'), ('E', o('expr', 'funcargs')): P('ARGS'), ('FA', ad): P('DL') if nd else C(0), ('FA', o('funcargs', 'args_void')): C(void), ('FA', o('funcargs', 'variadic')): C(var), ('FA', o('funcargs', 'args_old_proto')): C(0)} | {('D%d' % k, o('decl', 'ref')): P('T:P%d' % k) for k in range(nd)})
        want = {('cast', ('ARGS', 8 * k), ('T:P%d' % k, 0)) for k in range(nd)} | {('promote', ('ARGS', 8 * k)) for k in range(nd, na)}
        ck.ob(r_f, set(ev) == want, f.where, 'a call with %d arguments to a function of %d parameters: %s' % (na, nd, sorted(map(str, ev))), 'call/%d/%d' % (nd, na))
    # ---- literals
    f = p.fn('fold_expr_val'); n_v, n_s = o('expr', 'bits.num.val'), o('expr', 'bits.num.suffix')
    V = ('x', 'v', 64, 'V')
    SUF = [('', 0), ('U', VAL['VAL_UNSIGNED']), ('L', VAL['VAL_LONG']), ('UL', VAL['VAL_UNSIGNED'] | VAL['VAL_LONG']), ('LL', VAL['VAL_LLONG']), ('ULL', VAL['VAL_UNSIGNED'] | VAL['VAL_LLONG'])]
    BASES = [('decimal', 0), ('octal', VAL['VAL_OCTAL']), ('hex', VAL['VAL_HEX']), ('binary', VAL['VAL_BIN'])]
    STDS = sorted(STD.items(), key=lambda x: x[1])
    def lj(x):
        (sn, sv), (bn, bv), (stn, stv), hb = x
        I = interp({'integral_high_bit': lambda *a: C(hb)}, assume={('eq', V, 0): hb == -1}, globals_={'cc1_std': C(stv)})
        rv, mo = I.run(f, [P('E'), C(0)], {('E', n_v): C(V if hb >= 0 else 0), ('E', n_s): C(sv | bv), ('E', e_tt): C(0)})
        return names(mo.get(('E', e_tt), TOP)) if mo else None
    items = [(s, b, d, h) for s in SUF for b in BASES for d in STDS for h in range(-1, 64)]
    for ((sn, sv), (bn, bv), (stn, stv), hb), got in zip(items, pmap(lj, items)):
        units['contexts'] += 1
        want = literal(sn, bn != 'decimal', stn == 'STD_C89', hb)
        ck.ob(r_l, got == {want}, f.where, '%s literal with suffix "%s" and highest bit %d (%s) has type %s, not %s' % (bn, sn, hb, stn, got, want), 'lit/%s/%s/%s/%d' % (sn, bn, stn, hb))
    f = p.fn('integral_high_bit')
    for b in range(-1, 64):
        # V stands for every value whose highest set bit is b
        asm = {('eq', V if k == 0 else ('x', 'lshr', 64, V, k), 0): k > b for k in range(64)}
        asm[('slt', V, 0)] = b == 63
        I = interp(assume=asm, part=('integral_high_bit',)); rv, mo = I.run(f, [C(0) if b < 0 else C(V), ty.t('ullong')], {})
        ck.ob(r_l, rv == C(b), f.where, 'a value with highest set bit %d is said to have %s' % (b, rv), 'hb/%d' % b)
    for sf, t in (('VAL_FLOAT', 'float'), ('VAL_DOUBLE', 'double'), ('VAL_LDOUBLE', 'ldouble')):
        f = p.fn('fold_expr_val')
        I = interp({'integral_high_bit': lambda *a: TOP}); rv, mo = I.run(f, [P('E'), C(0)], {('E', n_v): TOP, ('E', n_s): C(VAL[sf]), ('E', e_tt): C(0)})
        ck.ob(r_l, mo is not None and names(mo.get(('E', e_tt), TOP)) == {t}, f.where, '%s literal has type %s' % (t, mo and names(mo.get(('E', e_tt), TOP))), 'litf/' + t)
    ck.need(r_u, 500); ck.need(r_a, 500); ck.need(r_c, 300); ck.need(r_l, 500); ck.need(r_p, 20)
    ck.assume += ['the type queries (type_size, type_is_signed, ...) answer as modelled; their values are decided by C11', 'enumerations, bit-fields, complex and pointer-typed operands other than pointer +/- integer are outside the harness']
    return ck.finish('op_required_promotion, fold_expr_op, fold_expr_if, fold_expr_assign_compound, fold_expr_val, type_is_promotable and their helpers are interpreted for every pair of arithmetic types; literals for every suffix x base x standard x highest set bit.')

def literal(s, nondec, c89, hb):
    need = hb + 1
    lst = ['int', 'uint', 'long', 'ulong', 'llong', 'ullong']
    if 'U' in s: lst = [x for x in lst if x[0] == 'u']
    elif not nondec: lst = [x for x in lst if x[0] != 'u']
    if s.endswith('LL'): lst = [x for x in lst if 'llong' in x]
    elif s.endswith('L'): lst = [x for x in lst if x not in ('int', 'uint')]
    for t in lst:
        if need <= size(t) * 8 - (1 if signed(t) else 0): return t
    # too large for any listed type: unsigned long in C89, else unsigned long long (extension)
    return 'ulong' if c89 and not s.endswith('LL') else 'ullong'

def compound_gen(ck, p, ty, OP, interp, r_c):
    """generated code: load, convert, operate, convert back, store; post forms yield the old value"""
    o = p.off; f = p.fn('gen_expr_assign_compound')
    e_l, e_r, e_tt = o('expr', 'lhs'), o('expr', 'rhs'), o('expr', 'tree_type')
    for post in (0, 1):
        for up in (0, 1):
            log = []
            def gen(I, a, i, m, k): return P('V(%s)' % next(iter(a[0]))[1])
            def deref(I, a, i, m, k): return P('load(%s)' % next(iter(a[1]))[1])
            def cast(I, a, i, m, k): return P('cast(%s,%s)' % (next(iter(a[1]))[1], next(iter(a[2]))[1]))
            def op(I, a, i, m, k): return P('op%s(%s,%s)' % (next(iter(a[1])), next(iter(a[2]))[1], next(iter(a[3]))[1]))
            def store(I, a, i, m, k): log.append((next(iter(a[1]))[1], next(iter(a[2]))[1])); return TOP
            same = lambda I, a, i, m, k: a[1]
            I = interp({'gen_expr': gen, 'out_deref': deref, 'out_cast': cast, 'out_op': op, 'out_store': store, 'out_val_retain': same, 'gen_op_trapv': lambda *a: TOP, 'out_val_release': lambda *a: TOP, 'out_val_consume': lambda *a: TOP})
            try:
                rv, mo = I.run(f, [P('E'), P('O')], {('E', e_l): P('A'), ('E', e_r): P('B'), ('E', e_tt): ty.t('short'), ('E', o('expr', 'assign_is_post')): C(post), ('E', o('expr', 'bits.compoundop.op')): C(OP['op_minus']), ('E', o('expr', 'bits.compoundop.upcast_ty')): ty.t('int') if up else C(0)})
            except TypeError: rv, log = None, ['unknown value']
            l = 'load(V(A))'; l2 = 'cast(%s,T:int)' % l if up else l
            r = 'op%d(%s,V(B))' % (OP['op_minus'], l2)
            if up: r = 'cast(%s,T:short)' % r
            ck.ob(r_c, set(map(str, log)) == {str(('V(A)', r))} and rv == P(l if post else r), f.where, 'compound assignment (post=%d, converted=%d) stores %s and yields %s' % (post, up, log, rv), 'gen/%d/%d' % (post, up))
