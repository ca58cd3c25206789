"""C09: instruction selection. Abstract interpretation of the exported back-end entry points, one context per
(operator x operand class x size x operand kind); the emitted instruction texts and created condition flags are
compared with the x86-64 meaning of the C operator."""
import prog
from absint import C, TOP
from cg import CG, P
from chk import Check, AnalysisBroken

ENTER = ('op_is_comparison', 'op_is_commutative', 'op_to_flag', 'v_commute_cmp', 'v_not_cmp', 'op_to_str',
         'asm_table_lookup', 'asm_type_size', 'impl_op', 'impl_op_unary', 'out_op_unary', 'out_cast', 'asm_type_directive')
MOVES = ('mov', 'lea', 'movabs', 'xorp', '/*', 'set', 'pxor')
SUF = {1: 'b', 2: 'w', 4: 'l', 8: 'q'}
COMMUTE = {'eq': 'eq', 'ne': 'ne', 'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}
NEG = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt', 'overflow': 'no_overflow',
       'no_overflow': 'overflow', 'signbit': 'no_signbit', 'no_signbit': 'signbit'}
CC = {'eq': ({'e', 'z'}, {'e', 'z'}), 'ne': ({'ne', 'nz'}, {'ne', 'nz'}), 'le': ({'le', 'ng'}, {'be', 'na'}), 'lt': ({'l', 'nge'}, {'b', 'nae', 'c'}),
      'ge': ({'ge', 'nl'}, {'ae', 'nb', 'nc'}), 'gt': ({'g', 'nle'}, {'a', 'nbe'}), 'overflow': ({'o'}, {'o'}),
      'no_overflow': ({'no'}, {'no'}), 'signbit': ({'s'}, {'s'}), 'no_signbit': ({'ns'}, {'ns'})}

def split(t):
    t = t.strip().split(' ## ')[0].split('#DBG')[0].strip()
    m, _, rest = t.partition(' ')
    return m, [x.strip() for x in rest.split(',')] if rest.strip() else []

def bytype(tab, default=None):
    def f(I, a, i, m, k):
        if a[0] is TOP: return C(0, 1) if default is None else default
        r = frozenset()
        for x in a[0]:
            n = x[1] if isinstance(x, tuple) and x[0] == 'p' else None
            v = tab.get(n, default)
            if v is None: return C(0, 1)
            r |= v
        return r
    return f

def check():
    ck = Check('C09')
    p = prog.load('cc1'); cg = CG(p)
    FLAG = p.enum_of('flag_eq'); fname = {v: k[5:] for k, v in FLAG.items()}
    MOD = p.enum_of('flag_mod_signed')
    SIGNED, FLOATM = MOD['flag_mod_signed'], MOD['flag_mod_float']
    STABLE = ('L', 'R', 'TL', 'TR', 'octx', 'BT', 'BF')
    prims = p.enum_of('type_double')
    BITS = cg.off['bits']
    r_op = ck.rule('binary-op', 'impl_op(op, class, size): emitted arithmetic mnemonic, width suffix and operand order implement the operator')
    r_cmp = ck.rule('compare-flag', 'impl_op(comparison): (cmp operands, flag, signedness) together denote "lhs op rhs"')
    r_cc = ck.rule('condition-code', 'setcc/jcc emitted for (flag, signed|unsigned|float) is the x86 condition with that meaning')
    r_tab = ck.rule('flag-algebra', 'negated / commuted / operator-derived conditions are the mathematical ones')
    r_un = ck.rule('unary-op', 'impl_op_unary/out_op_unary implement - ~ ! +')
    r_conv = ck.rule('conversion', 'widening uses the source signedness; int<->float conversions use the right cvt form and width')
    r_br = ck.rule('branch', 'a branch on a condition goes to the true block exactly when the condition holds')
    r_reg = ck.rule('register-name', 'register index x width maps to the x86-64 register name of that width')

    def types(szL, szR=None, sl=0, sr=None, fp=0, fr=None):
        szR = szL if szR is None else szR; sr = sl if sr is None else sr; fr = fp if fr is None else fr
        return {'type_is_signed': bytype({'TL': C(sl), 'TR': C(sr)}),
                'type_is_floating': bytype({'TL': C(fp), 'TR': C(fr)}, C(0)),
                'type_is_integral': bytype({'TL': C(1 - fp), 'TR': C(1 - fr)}),
                'type_size': bytype({'TL': C(szL), 'TR': C(szR)}, C(8)),
                'type_primitive': bytype({'TL': C(prims['type_float' if szL == 4 else 'type_double']), 'TR': C(prims['type_float' if szR == 4 else 'type_double'])} if fp or fr else {}),
                'v_get_type': lambda I, a, i, m, k: TOP if a[0] is TOP else frozenset(('p', 'T' + x[1], 0) for x in a[0] if isinstance(x, tuple)),
                'type_is_primitive': lambda I, a, i, m, k: C(0),
                'type_cmp': lambda I, a, i, m, k: TOP}

    def run(entry, args, mem, st, sinks=('out_asm', 'out_asm2', 'v_new_flag'), fields=None, enter=ENTER, **kw):
        stubs = cg.stubs(extra=st)
        for x in sinks: stubs.pop(x, None)
        for x in kw.pop('nostub', ()): stubs.pop(x, None)
        I = cg.interp(stubs, set(sinks), enter=enter, stable=STABLE, fields=fields, **kw)
        r, m = I.run(entry, args, mem)
        ck.units['contexts'] = ck.units.get('contexts', 0) + 1
        ck.units['functions_entered'] = sorted(set(ck.units.get('functions_entered', [])) | I.visited)
        return I, r

    # ---------------- A. binary operators
    INT = {'op_multiply': 'imul', 'op_plus': 'add', 'op_minus': 'sub', 'op_xor': 'xor', 'op_or': 'or', 'op_and': 'and'}
    FP = {'op_multiply': 'mul', 'op_plus': 'add', 'op_minus': 'sub', 'op_divide': 'div'}
    COMM = {'op_multiply', 'op_plus', 'op_xor', 'op_or', 'op_and'}
    CMP = ['eq', 'ne', 'le', 'lt', 'ge', 'gt']
    kinds = ['V_REG', 'V_SPILT', 'V_LBL', 'V_REGOFF', 'V_CONST_I']

    def arith(I):
        r = []
        for t, e in cg.insns(I):
            m, ops = split(t)
            if m.startswith(MOVES) or not m: continue
            r.append((m, ops, e))
        return r

    def binary(op, cls, size, lk, rk):
        fp = cls == 'f'; sg = cls == 's'
        mem = {}
        L = cg.val(mem, 'L', [lk]); R = cg.val(mem, 'R', [rk])
        st = types(size, sl=int(sg or fp), fp=int(fp))
        if op in ('op_shiftl', 'op_shiftr'): st = types(size, szR=1 if rk == 'V_CONST_I' else 4, sl=int(sg), sr=int(not sg))
        I, r = run('impl_op', [P('octx'), C(p.ev(op)), L, R], mem, st)
        nm = '%s/%s%d %s,%s' % (op, {'s': 'signed ', 'u': 'unsigned ', 'f': 'float '}[cls], size * 8, lk, rk)
        got = arith(I)
        key = 'impl_op/%s/%s' % (op, cls)
        where = p.fn('impl_op').where
        for m, ops, e in got: where = e.inst.where
        suf = SUF[size] if not fp else {4: 'ss', 8: 'sd'}[size]
        seen = ['%s %s' % (m, ', '.join(o)) for m, o, e in got]
        if op in ('op_shiftl', 'op_shiftr'):
            want = {('shl' if op == 'op_shiftl' else 'sar' if sg else 'shr')}
            if op == 'op_shiftl': want |= {'sal'}
            ok = got and all(m in {w + suf for w in want} and o == ['<R>', '<L>'] for m, o, e in got)
            ck.ob(r_op, ok, where, '%s emits %s, expected %s%s count, value' % (nm, seen, sorted(want), suf), key, '%s -> %s' % (nm, seen)); return
        if op in ('op_divide', 'op_modulus') and not fp:
            div = ('idiv' if sg else 'div') + suf
            ext = {4: 'cltd', 8: 'cqto'}[size]
            ms = [m for m, o, e in got]
            ok = div in ms and all(m in (div,) + ((ext,) if sg else ()) for m in ms) and (not sg or ext in ms)
            ok = ok and all(o == ['<R>'] for m, o, e in got if m == div)
            if not sg:
                # the upper half of the dividend is zeroed: a zero value is moved into rdx
                ok = ok and any(e.name == 'out_new_zero' for e in I.events) 
            ck.ob(r_op, ok, where, '%s emits %s, expected %s%s <rhs>' % (nm, seen, ext + '; ' if sg else 'zero rdx; ', div), key, '%s -> %s' % (nm, seen)); return
        base = (FP if fp else INT)[op]
        want = {base + suf}
        if op == 'op_plus' and not fp: want |= {'inc' + suf}
        if op == 'op_minus' and not fp: want |= {'dec' + suf}
        # constants may be promoted to the word size
        ok = bool(got)
        has = False
        for m, o, e in got:
            if m not in want: ok = False; continue
            if m.startswith(('inc', 'dec')) and not fp:
                continue
            has = True
            if len(o) != 2: ok = False; continue
            if op in COMM:
                if set(o) - {'<L>', '<R>', '<L|R>'} or (o[0] == o[1] and o[0] != '<L|R>'): ok = False
            elif o != ['<R>', '<L>']: ok = False
        ck.ob(r_op, ok and has, where, '%s emits %s, expected %s src=rhs, dst=lhs' % (nm, seen, sorted(want)), key, '%s -> %s' % (nm, seen))
        # inc/dec only for the constant 1
    sinks0 = ('out_asm', 'out_asm2', 'v_new_flag')
    _run = run
    def run(entry, args, mem, st, sinks=sinks0, **kw): return _run(entry, args, mem, st, sinks=sinks, **kw)

    thorough = ck.tier == 'thorough'
    kinds_i = [('V_REG', 'V_REG'), ('V_REG', 'V_CONST_I'), ('V_SPILT', 'V_REG'), ('V_REG', 'V_SPILT'), ('V_LBL', 'V_CONST_I'), ('V_CONST_I', 'V_REG')]
    if thorough: kinds_i = [(a, b) for a in kinds for b in kinds if (a, b) != ('V_CONST_I', 'V_CONST_I')]
    for op in list(INT) + ['op_divide', 'op_modulus', 'op_shiftl', 'op_shiftr']:
        for cls in 'su':
            for size in (4, 8):
                for lk, rk in kinds_i: binary(op, cls, size, lk, rk)
    for op in FP:
        for size in (4, 8):
            for lk, rk in (('V_REG', 'V_REG'), ('V_SPILT', 'V_REG'), ('V_REG', 'V_SPILT'), ('V_SPILT', 'V_SPILT')): binary(op, 'f', size, lk, rk)
    # inc/dec guard: a right operand constant other than 1 must not become inc/dec
    for op in ('op_plus', 'op_minus'):
        for c in (1, 0, 2, -1, 5):
            mem = {}; L = cg.val(mem, 'L', ['V_REG']); R = cg.val(mem, 'R', ['V_CONST_I']); mem[('R', BITS)] = C(c)
            mem[('L', BITS + 8)] = C(0)
            I, r = run('impl_op', [P('octx'), C(p.ev(op)), L, R], mem, types(4, sl=1))
            ms = {m[:3] for m, o, e in arith(I)}
            bad = {'inc', 'dec'} if c != 1 else {'dec' if op == 'op_plus' else 'inc'}
            bad |= {'sub' if op == 'op_plus' else 'add'} if True else set()
            ck.ob(r_op, not (ms & bad) and ms, p.fn('impl_op').where, '%s reg, $%d emits %s' % (op, c, sorted(ms)), 'impl_op/%s/incdec' % op)
    # result register of division / remainder
    for op, reg in (('op_divide', 'X86_64_REG_RAX'), ('op_modulus', 'X86_64_REG_RDX')):
        mem = {}; L = cg.val(mem, 'L', ['V_REG']); R = cg.val(mem, 'R', ['V_REG'])
        I, r = run('impl_op', [P('octx'), C(p.ev(op)), L, R], mem, types(4, sl=1), sinks=sinks0 + ('v_new_reg',))
        ev = [e for e in I.events if e.name == 'v_new_reg']
        last = ev[-1] if ev else None
        got = None
        if last is not None and last.args[3] is not TOP:
            got = set()
            for x in last.args[3]:
                v = last.mem.get((x[1], x[2]), TOP) if isinstance(x, tuple) and x[0] == 'p' else TOP
                got |= set(v) if v is not TOP else {'?'}
        ck.ob(r_op, got == {reg_index(p, reg)}, last.inst.where if last else p.fn('impl_op').where,
              '%s result taken from register index %s, expected %s' % (op, got, reg), 'impl_op/%s/result-reg' % op)
    # ---------------- comparisons
    for c in CMP:
        for cls in 'suf':
            for size in (4, 8):
                for lk, rk in (('V_REG', 'V_REG'), ('V_CONST_I', 'V_REG'), ('V_REG', 'V_CONST_I'), ('V_SPILT', 'V_REG'), ('V_REG', 'V_SPILT')):
                    if cls == 'f' and 'V_CONST_I' in (lk, rk): continue
                    for cv in ((0, 7) if 'V_CONST_I' in (lk, rk) else (None,)):
                        mem = {}
                        L = cg.val(mem, 'L', [lk]); R = cg.val(mem, 'R', [rk])
                        if lk == 'V_CONST_I': mem[('L', BITS)] = C(cv)
                        if rk == 'V_CONST_I': mem[('R', BITS)] = C(cv)
                        st = types(size, sl=int(cls != 'u'), fp=int(cls == 'f'))
                        # integer constants wide enough for movabs are first put in a register
                        st['integral_high_bit'] = lambda I, a, i, m, k: C(3)
                        I, r = run('impl_op', [P('octx'), C(p.ev('op_' + c)), L, R], mem, st)
                        nm = 'op_%s %s%d %s%s,%s' % (c, cls, size * 8, lk, '' if cv is None else '=%d' % cv, rk)
                        fl = [e for e in I.events if e.name == 'v_new_flag']
                        ins = [(m, o, e) for m, o, e in arith(I)]
                        flags = {fname.get(x) for e in fl if e.args[2] is not TOP for x in e.args[2]}
                        mods = {x for e in fl if e.args[3] is not TOP for x in e.args[3]}
                        where = ins[-1][2].inst.where if ins else p.fn('impl_op').where
                        suf = {4: 'ss', 8: 'sd'}[size] if cls == 'f' else SUF[size]
                        ok = len(fl) >= 1 and len(flags) == 1 and len(mods) == 1 and bool(ins)
                        why = ''
                        if ok:
                            f = next(iter(flags)); md = next(iter(mods))
                            exp_md = {'s': SIGNED, 'u': 0, 'f': FLOATM}[cls]
                            ok = md == exp_md or (c in ('eq', 'ne') and cls != 'f' and not md & FLOATM)
                            for m, o, e in ins:
                                if m == ('ucomi' + suf if cls == 'f' else 'cmp' + suf) or (cls == 'f' and m == 'comi' + suf):
                                    if o == ['<R>', '<L>']: eff = f
                                    elif o == ['<L>', '<R>']: eff = COMMUTE.get(f)
                                    else: eff = None
                                    if eff != c: ok = False; why = 'denotes %s' % eff
                                elif m == 'test' + suf and cv == 0 and cls != 'f' and c in ('eq', 'ne') and len(o) == 2 and o[0] == o[1] == ('<R>' if lk == 'V_CONST_I' else '<L>'):
                                    if f != c: ok = False; why = 'test with flag %s' % f
                                else: ok = False; why = 'unexpected instruction'
                        ck.ob(r_cmp, ok, where, '%s: %s flag=%s mods=%s %s' % (nm, ['%s %s' % (m, ', '.join(o)) for m, o, e in ins], sorted(map(str, flags)), sorted(mods), why),
                              'impl_op/cmp/%s/%s' % (c, cls), '%s -> %s, flag_%s, mods %s' % (nm, ['%s %s' % (m, ', '.join(o)) for m, o, e in ins], '/'.join(map(str, flags)), sorted(mods)))
    # ---------------- flag algebra
    for n in FLAG:
        b = n[5:]
        r = run('v_not_cmp', [C(FLAG[n])], {}, {})[1]
        ck.ob(r_tab, r == C(FLAG['flag_' + NEG[b]]), p.fn('v_not_cmp').where, 'negation of %s is %s, expected flag_%s' % (n, {fname.get(x) for x in r or ()}, NEG[b]), 'v_not_cmp/' + b)
        if b in COMMUTE:
            r = run('v_commute_cmp', [C(FLAG[n])], {}, {})[1]
            ck.ob(r_tab, r == C(FLAG['flag_' + COMMUTE[b]]), p.fn('v_commute_cmp').where, 'operand-swapped %s is %s, expected flag_%s' % (n, {fname.get(x) for x in r or ()}, COMMUTE[b]), 'v_commute_cmp/' + b)
    for c in CMP + ['signbit', 'no_signbit']:
        r = run('op_to_flag', [C(p.ev('op_' + c))], {}, {})[1]
        ck.ob(r_tab, r == C(FLAG['flag_' + c]), p.fn('op_to_flag').where, 'condition for op_%s is %s' % (c, {fname.get(x) for x in r or ()}), 'op_to_flag/' + c)
    ct = p.enum_of('op_plus')
    for o, v in ct.items():
        r = run('op_is_comparison', [C(v)], {}, {})[1]
        exp = 1 if o[3:] in CMP else 0
        if o[3:] in ('signbit', 'no_signbit', 'unknown'): continue
        ck.ob(r_tab, r is not TOP and len(r) == 1 and (next(iter(r)) != 0) == bool(exp), p.fn('op_is_comparison').where, 'op_is_comparison(%s) = %s' % (o, r), 'op_is_comparison/' + o)
        r = run('op_is_commutative', [C(v)], {}, {})[1]
        if o in ('op_divide', 'op_modulus', 'op_minus', 'op_shiftl', 'op_shiftr', 'op_lt', 'op_le', 'op_gt', 'op_ge'):
            ck.ob(r_tab, r == C(0), p.fn('op_is_commutative').where, 'op_is_commutative(%s) = %s' % (o, r), 'op_is_commutative/' + o)
    # ---------------- condition codes: set and jump
    FB = BITS + p.field_off('flag_opts', 'cmp'); FM = BITS + p.field_off('flag_opts', 'mods')
    fopt_struct = 'cc1_fopt' if 'cc1_fopt' in p.structs else None
    for finite in (0, 1):
        fields = {('cc1_fopt', 'finite_math_only'): C(finite)}
        for n in FLAG:
            b = n[5:]
            for mod in (0, SIGNED, FLOATM):
                if mod == FLOATM and b not in CMP: continue
                uns = mod != SIGNED
                want = CC[b][1 if uns else 0]
                def mk():
                    mem = {}; L = cg.val(mem, 'L', ['V_FLAG']); mem[('L', FB)] = C(FLAG[n]); mem[('L', FM)] = C(mod); return mem, L
                nm = '%s %s%s' % (n, {0: 'unsigned', SIGNED: 'signed', FLOATM: 'float'}[mod], ' finite' if finite else '')
                key = '%s/%s' % (n, {0: 'u', SIGNED: 's', FLOATM: 'f'}[mod])
                # set
                mem, L = mk()
                st = types(1, sl=0)
                I, r = run('impl_load', [P('octx'), L, P('REG')], mem, st, fields=fields)
                ins = [split(t) + (e,) for t, e in cg.insns(I)]
                sets = [m[3:] for m, o, e in ins if m.startswith('set') and m not in ('setp', 'setnp')]
                par = [m for m, o, e in ins if m in ('setp', 'setnp')]
                comb = [m for m, o, e in ins if m.startswith(('and', 'or')) and not (o and o[0].startswith('$'))]
                ok = len(set(sets)) == 1 and sets[0] in want
                # ZF=PF=CF=1 when unordered: e, be, b are then true; a, ae, ne(z) are false
                if mod == FLOATM and not finite:
                    true_unordered = b in ('eq', 'le', 'lt')
                    if b == 'ne': ok = ok and (par == ['setp'] and set(comb) == {'orb'})
                    elif true_unordered: ok = ok and (par == ['setnp'] and set(comb) == {'andb'})
                    else: ok = ok and (not par or (par == ['setnp'] and set(comb) == {'andb'}))
                else: ok = ok and (not par)
                wh = ins[-1][2].inst.where if ins else p.fn('impl_load').where
                ck.ob(r_cc, ok, wh, 'set for %s: %s %s %s, expected set%s' % (nm, sets, par, comb, sorted(want)), 'impl_load/' + key, 'set %s -> %s' % (nm, [m for m, o, e in ins]))
                # jump
                mem, L = mk()
                mem[('BT', p.field_off('out_blk', 'lbl'))] = C(('t', 'LT')); mem[('BF', p.field_off('out_blk', 'lbl'))] = C(('t', 'LF'))
                I, r = run('impl_branch', [P('octx'), L, P('BT'), P('BF'), C(0)], mem, types(1), sinks=sinks0 + ('blk_terminate_condjmp', 'out_ctrl_transfer'), fields=fields)
                ev = [e for e in I.events if e.name == 'blk_terminate_condjmp']
                ok = bool(ev); txts = set()
                for e in ev:
                    for t in cg.text(I, e.args[1], e.mem):
                        txts.add(t)
                        if not jump_ok(t, cg.objname(e.args[2]), cg.objname(e.args[3]), want, b, mod == FLOATM and not finite): ok = False
                ck.ob(r_cc, ok, ev[0].inst.where if ev else p.fn('impl_branch').where, 'jump for %s: %s, expected j%s to the true block' % (nm, sorted(txts), sorted(want)), 'impl_branch/' + key, 'jump %s -> %s' % (nm, sorted(txts)))
    # ---------------- branches on registers and constants
    mem = {}; L = cg.val(mem, 'L', ['V_REG'])
    mem[('BT', p.field_off('out_blk', 'lbl'))] = C(('t', 'LT')); mem[('BF', p.field_off('out_blk', 'lbl'))] = C(('t', 'LF'))
    I, r = run('impl_branch', [P('octx'), L, P('BT'), P('BF'), C(0)], dict(mem), types(4, sl=1), sinks=sinks0 + ('blk_terminate_condjmp', 'out_ctrl_transfer'))
    ev = [e for e in I.events if e.name == 'blk_terminate_condjmp']
    ok = bool(ev)
    tests = [split(t) for t, e in cg.insns(I)]
    ok = ok and any(m.startswith('test') and len(o) == 2 and o[0] == o[1] == '<L>' for m, o in tests)
    for e in ev:
        for t in cg.text(I, e.args[1], e.mem):
            x, y = cg.objname(e.args[2]), cg.objname(e.args[3])
            w = t.split()
            if not ((w[:2] in (['jz', 'LF'], ['je', 'LF']) and (x, y) == ('BF', 'BT')) or (w[:2] in (['jnz', 'LT'], ['jne', 'LT']) and (x, y) == ('BT', 'BF'))): ok = False
    ck.ob(r_br, ok, p.fn('impl_branch').where, 'branch on a register value: %s' % [cg.text(I, e.args[1], e.mem) for e in ev], 'impl_branch/reg')
    for c in (0, 1, 5, -1, 1 << 40):
        m2 = dict(mem); m2[('L', cg.off['type'])] = C(cg.vt['V_CONST_I']); m2[('L', BITS)] = C(c)
        I, r = run('impl_branch', [P('octx'), L, P('BT'), P('BF'), C(0)], m2, types(4, sl=1), sinks=sinks0 + ('blk_terminate_condjmp', 'out_ctrl_transfer'))
        ev = [e for e in I.events if e.name == 'out_ctrl_transfer']
        got = {cg.objname(e.args[1]) for e in ev}
        ck.ob(r_br, got == {'BT' if c else 'BF'} and not [e for e in I.events if e.name == 'blk_terminate_condjmp'], p.fn('impl_branch').where,
              'branch on constant %d goes to %s' % (c, sorted(got)), 'impl_branch/const')
    # ---------------- unary
    for op, m in (('op_minus', 'neg'), ('op_bnot', 'not')):
        for size in (4, 8):
            for k in ('V_REG', 'V_SPILT', 'V_LBL'):
                mem = {}; L = cg.val(mem, 'L', [k])
                I, r = run('out_op_unary', [P('octx'), C(p.ev(op)), L], mem, types(size, sl=1), sinks=sinks0 + ('out_op',))
                a = arith(I)
                ck.ob(r_un, a and all(x == m + SUF[size] and o == ['<L>'] for x, o, e in a), p.fn('impl_op_unary').where, '%s emits %s' % (op, [(x, o) for x, o, e in a]), 'unary/' + op, '%s -> %s' % (op, [x for x, o, e in a]))
    # ! : compare equal with zero; on a condition: its negation (never for an ordered float relation, which is false on NaN)
    mem = {}; L = cg.val(mem, 'L', ['V_REG'])
    I, r = run('out_op_unary', [P('octx'), C(p.ev('op_not')), L], mem, types(4, sl=1), sinks=('out_asm', 'out_op'), nostub=(), )
    ev = [e for e in I.events if e.name == 'out_op']
    ck.ob(r_un, len(ev) >= 1 and all(e.args[1] == C(p.ev('op_eq')) for e in ev), p.fn('out_op_unary').where, '! on a value: %s' % [e.args[1] for e in ev], 'unary/op_not/value')
    for n in FLAG:
        b = n[5:]
        for mod in (0, SIGNED, FLOATM):
            if mod == FLOATM and b not in CMP: continue
            mem = {}; L = cg.val(mem, 'L', ['V_FLAG']); mem[('L', FB)] = C(FLAG[n]); mem[('L', FM)] = C(mod)
            I = cg.interp(cg.stubs(extra=types(4, sl=1)), {'out_op', 'out_asm'}, enter=ENTER, stable=STABLE, fields={('cc1_fopt', 'finite_math_only'): C(0)}, files=('x86_64.c', 'out/op.c', 'op.c'), record_stores=True)
            try: r, m = I.run('out_op_unary', [P('octx'), C(p.ev('op_not')), L], mem)
            except AnalysisBroken: raise
            evs = [e for e in I.events if e.kind == 'call' and e.name == 'out_op']
            newf = m.get(('L', FB), TOP) if m is not None else TOP
            flipped = newf is not TOP and newf != C(FLAG[n])
            nm = '!(%s %s)' % (n, {0: 'unsigned', SIGNED: 'signed', FLOATM: 'float'}[mod])
            if evs and not flipped: ok = all(e.args[1] == C(p.ev('op_eq')) for e in evs)
            else:
                ok = newf == C(FLAG['flag_' + NEG[b]]) and not evs
                if mod == FLOATM and b in ('lt', 'le', 'gt', 'ge'): ok = False
            ck.ob(r_un, ok, p.fn('out_op_unary').where, '%s becomes flag %s%s' % (nm, sorted(map(str, newf)) if newf is not TOP else '?', ' (wrong when unordered)' if mod == FLOATM and flipped else ''), 'unary/op_not/%s/%s' % (b, {0: 'u', SIGNED: 's', FLOATM: 'f'}[mod]), nm)
    # ---------------- conversions
    for a, b in ((1, 2), (1, 4), (1, 8), (2, 4), (2, 8), (4, 8)):
        for sg in (0, 1):
            mem = {}; L = cg.val(mem, 'L', ['V_REG'])
            # the destination's signedness is the opposite: it must not matter
            I, r = run('out_cast', [P('octx'), L, P('TR'), C(0)], mem, types(a, szR=b, sl=sg, sr=1 - sg), nostub=('out_cast',))
            ins = [split(t) for t, e in cg.insns(I)]
            ms = {m for m, o in ins if m.startswith('mov')}
            want = {'mov%s%s%s' % ('s' if sg else 'z', SUF[a], SUF[b])}
            if not sg and (a, b) == (4, 8): want = {'movl'}
            if a == 4 and sg: want |= {'movslq'}
            ck.ob(r_conv, ms == want or (ms and ms <= want), p.fn('out_cast').where, 'widening %s int%d to int%d emits %s, expected %s' % ('signed' if sg else 'unsigned', a * 8, b * 8, sorted(ms), sorted(want)), 'out_cast/widen/%d-%d/%d' % (a, b, sg), 'int%d%s->int%d: %s' % (a * 8, 's' if sg else 'u', b * 8, sorted(ms)))
    for isz in (4, 8):
        for fsz in (4, 8):
            fs = {4: 'ss', 8: 'sd'}[fsz]; q = {4: 'l', 8: 'q'}[isz]
            for d in ('i2f', 'f2i'):
                if d == 'i2f': st = types(isz, szR=fsz, sl=1, fp=0, fr=1); a = ['TL', 'TR']
                else: st = types(fsz, szR=isz, sl=1, sr=1, fp=1, fr=0); a = ['TL', 'TR']
                st['type_primitive'] = lambda I, av, i, m, k, z=fsz: C(prims['type_float' if z == 4 else 'type_double'])
                st['type_primitive_size'] = lambda I, av, i, m, k: TOP if av[0] is TOP else frozenset(4 if x == prims['type_int'] else 8 for x in av[0])
                mem = {}; L = cg.val(mem, 'L', ['V_REG'])
                I, r = run('impl_' + d, [P('octx'), L, P('TL'), P('TR')], mem, st)
                ms = {split(t)[0] for t, e in cg.insns(I)}
                want = 'cvtsi2%s%s' % (fs, q) if d == 'i2f' else 'cvtt%s2si%s' % (fs, q)
                ck.ob(r_conv, ms == {want}, p.fn('impl_' + d).where, '%s int%d/fp%d emits %s, expected %s' % (d, isz * 8, fsz * 8, sorted(ms), want), 'impl_%s/%d/%d' % (d, isz, fsz), want)
    for a, b, w in ((4, 8, 'cvtss2sd'), (8, 4, 'cvtsd2ss')):
        mem = {}; L = cg.val(mem, 'L', ['V_REG'])
        I, r = run('impl_f2f', [P('octx'), L, P('TL'), P('TR')], mem, types(a, szR=b, fp=1))
        ms = {split(t)[0] for t, e in cg.insns(I)}
        ck.ob(r_conv, ms == {w}, p.fn('impl_f2f').where, 'float%d to float%d emits %s' % (a * 8, b * 8, sorted(ms)), 'impl_f2f/%d' % a, w)
    # ---------------- register names
    names = {'RAX': ('al', 'ax', 'eax', 'rax'), 'RBX': ('bl', 'bx', 'ebx', 'rbx'), 'RCX': ('cl', 'cx', 'ecx', 'rcx'), 'RDX': ('dl', 'dx', 'edx', 'rdx'),
             'RDI': ('dil', 'di', 'edi', 'rdi'), 'RSI': ('sil', 'si', 'esi', 'rsi'), 'RBP': ('bpl', 'bp', 'ebp', 'rbp'), 'RSP': ('spl', 'sp', 'esp', 'rsp')}
    for k in range(8, 16): names['R%d' % k] = ('r%db' % k, 'r%dw' % k, 'r%dd' % k, 'r%d' % k)
    RI = BITS
    for rn, ns in names.items():
        for sz, nm in zip((1, 2, 4, 8), ns):
            mem = {}; L = cg.val(mem, 'L', ['V_REG']); mem[('L', RI)] = C(reg_index(p, 'X86_64_REG_' + rn)); mem[('L', RI + 2)] = C(0)
            mem[('L', BITS + 8)] = C(0)
            st = types(sz); st['type_is'] = lambda I, a, i, m, k: C(0)
            I = cg.interp({**cg.stubs(extra=st, idents=False)}, set(), enter=ENTER, stable=STABLE)
            m0 = dict(mem)
            r, m = I.run('impl_val_str_r', [P('BUF'), L, C(0)], m0)
            got = cg.text(I, P('BUF'), m) if m is not None else set()
            ck.ob(r_reg, got == {'%' + nm}, p.fn('impl_val_str_r').where, 'register %s at %d bytes is printed %s' % (rn, sz, sorted(got)), 'reg/%s/%d' % (rn, sz), '%s:%d -> %s' % (rn, sz, sorted(got)))
    for k in range(8):
        mem = {}; L = cg.val(mem, 'L', ['V_REG']); mem[('L', RI)] = C(k); mem[('L', RI + 2)] = C(1); mem[('L', BITS + 8)] = C(0)
        st = types(8, fp=1)
        I = cg.interp({**cg.stubs(extra=st, idents=False)}, set(), enter=ENTER, stable=STABLE)
        r, m = I.run('impl_val_str_r', [P('BUF'), L, C(0)], dict(mem))
        got = cg.text(I, P('BUF'), m) if m is not None else set()
        ck.ob(r_reg, got == {'%%xmm%d' % k}, p.fn('impl_val_str_r').where, 'float register %d is printed %s' % (k, sorted(got)), 'reg/xmm%d' % k)
    ck.need(r_op, 200); ck.need(r_cmp, 100); ck.need(r_cc, 80)
    ck.assume += ['helpers that move a value between register, memory and constant form (v_to*, v_new_reg, out_cast of operands ...) preserve the value',
                  'type predicates are the context key, fixed per run']
    return ck.finish('Abstract interpretation (finite powerset of constants, context-sensitive) of the exported code-generator entry points impl_op, impl_op_unary, out_op_unary, '
                     'out_cast, impl_load, impl_branch, impl_i2f/f2i/f2f, impl_val_str_r from /repo/src/cc1 as compiled to SSA; every (operator, class, size, operand-kind) context is a separate obligation '
                     'on the set of instruction texts and condition flags that can be produced.')

def jump_ok(t, x, y, want, b, unordered):
    """t jumps to the true block LT exactly when the condition holds; (x, y) = (branch target block, fallthrough block)"""
    lines = [l.strip().split() for l in t.split('\n') if l.strip()]
    if (x, y) != ('BT', 'BF'): return False
    if not lines or lines[-1][0][1:] not in want or lines[-1][1] != 'LT' or not lines[-1][0].startswith('j'): return False
    pre = lines[:-1]
    if unordered:
        if b == 'ne': return pre == [['jp', 'LT']]
        if b in ('eq', 'le', 'lt'): return pre == [['jp', 'LF']]
        return not pre or pre == [['jp', 'LF']]
    return not pre

def reg_index(p, n):
    # enumerators or macros: the table order in impl_val_str is verified against these
    for m in p.enums.values():
        if n in m: return m[n]
    order = ['RAX', 'RBX', 'RCX', 'RDX', 'RDI', 'RSI', 'R8', 'R9', 'R10', 'R11', 'R12', 'R13', 'R14', 'R15', 'RBP', 'RSP']
    return order.index(n[len('X86_64_REG_'):])
