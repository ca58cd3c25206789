"""C21: control flow. Statement and expression shapes with opaque operands go, as tokens, through the interpreted statement
parser, folder, code generator, control-transfer layer and block emitter; the labels and jumps that come out are compared
with the C meaning of the shape by a walk over the product of the two flow graphs, for every value of every operand."""
import itertools
import prog
from absint import C, TOP
from start import start_interp, P
from tymodel import Ty
from chk import Check, AnalysisBroken, pmap

O = 'o'
# ------------------------------------------------------------------ shapes -> tokens
class Emit:
    """tokens of a shape; leaves become their token index, so both sides name operands alike"""
    def __init__(s): s.t = []; s.case = {}; s.const = {}
    def w(s, *x):
        for y in x: s.t.append(y)
    def leaf(s):
        s.t.append('identifier'); return ('o', len(s.t) - 1)
    def E(s, e):
        if e == O: return s.leaf()
        if isinstance(e, int):
            r = s.leaf(); s.case[r[1]] = e; return r
        k = e[0]
        if k == 'K':                                   # a constant
            r = s.leaf(); s.case[r[1]] = e[1]; s.const[r[1]] = e[1]; return ('c', e[1])
        if k in ('&&', '||', '+', '=='):
            s.w('open_paren'); a = s.E(e[1]); s.w({'&&': 'andsc', '||': 'orsc', '+': 'plus', '==': 'eq'}[k]); b = s.E(e[2]); s.w('close_paren'); return (k, a, b)
        if k == '!':
            s.w('not'); return ('!', s.E(e[1]))
        if k == ',':
            s.w('open_paren'); a = s.E(e[1]); s.w('comma'); b = s.E(e[2]); s.w('close_paren'); return (',', a, b)
        if k == '?':
            s.w('open_paren'); c = s.E(e[1]); s.w('question'); a = s.E(e[2]) if e[2] is not None else None; s.w('colon'); b = s.E(e[3]); s.w('close_paren'); return ('?', c, a, b)
        raise ValueError(e)
    def S(s, x):
        k = x[0]
        if k == 'noop': s.w('semicolon'); return x
        if k == 'expr': r = s.E(x[1]); s.w('semicolon'); return (k, r)
        if k in ('break', 'continue'): s.w(k, 'semicolon'); return x
        if k == 'ret':
            s.w('return'); r = s.E(x[1]) if x[1] is not None else None; s.w('semicolon'); return (k, r)
        if k == 'goto': s.w('goto', ('identifier', x[1]), 'semicolon'); return x
        if k == 'label': s.w(('identifier', x[1]), 'colon'); return (k, x[1], s.S(x[2]))
        if k == 'block':
            s.w('open_block'); r = [s.S(y) for y in x[1]]; s.w('close_block'); return (k, r)
        if k == 'if':
            s.w('if', 'open_paren'); c = s.E(x[1]); s.w('close_paren'); a = s.S(x[2]); b = None
            if len(x) > 3: s.w('else'); b = s.S(x[3])
            return (k, c, a, b)
        if k in ('while', 'switch'):
            s.w(k, 'open_paren'); c = s.E(x[1]); s.w('close_paren'); return (k, c, s.S(x[2]))
        if k == 'do':
            s.w('do'); b = s.S(x[1]); s.w('while', 'open_paren'); c = s.E(x[2]); s.w('close_paren', 'semicolon'); return (k, b, c)
        if k == 'for':
            s.w('for', 'open_paren'); i = s.E(x[1]) if x[1] else None; s.w('semicolon'); c = s.E(x[2]) if x[2] else None; s.w('semicolon')
            n = s.E(x[3]) if x[3] else None; s.w('close_paren'); return (k, i, c, n, s.S(x[4]))
        if k == 'case':
            s.w('case'); lo = s.E(x[1]); hi = None
            if x[2] is not None: s.w('elipsis'); hi = s.E(x[2])
            s.w('colon'); return (k, lo, hi, s.S(x[3]))
        if k == 'default': s.w('default', 'colon'); return (k, s.S(x[1]))
        raise ValueError(x)

# ------------------------------------------------------------------ the C meaning, as linear code
class Ref:
    def __init__(s, case): s.c = []; s.l = {}; s.n = 0; s.brk = []; s.cont = []; s.sw = []; s.case = case
    def new(s): s.n += 1; return 'r%d' % s.n
    def lab(s, l): s.l[l] = len(s.c)
    def emit(s, *x): s.c.append(x)
    def E(s, e):
        """evaluates e; returns the value expression"""
        k = e[0]
        if k == 'c': return e
        if k == 'o':
            t = s.new(); s.emit('eval', e[1], t); return ('s', t)
        if k in ('&&', '||'):
            a = s.E(e[1]); t = s.new(); lr, le, ld = s.new(), s.new(), s.new()
            s.emit('br', a, *((lr, le) if k == '&&' else (le, lr)))
            s.lab(lr); b = s.E(e[2]); s.emit('mov', t, ('n', b)); s.emit('jmp', ld)
            s.lab(le); s.emit('mov', t, ('c', 0 if k == '&&' else 1)); s.lab(ld); return ('s', t)
        if k == '!': return ('!', s.E(e[1]))
        if k in ('+', '=='): a = s.E(e[1]); b = s.E(e[2]); return (k, a, b)
        if k == ',': s.E(e[1]); return s.E(e[2])
        if k == '?':
            c = s.E(e[1]); t = s.new(); la, lb, ld = s.new(), s.new(), s.new(); s.emit('br', c, la, lb)
            s.lab(la); s.emit('mov', t, s.E(e[2]) if e[2] is not None else c); s.emit('jmp', ld)
            s.lab(lb); s.emit('mov', t, s.E(e[3])); s.lab(ld); return ('s', t)
    def S(s, x):
        k = x[0]
        if k == 'noop': return
        if k == 'expr': s.E(x[1])
        elif k == 'break': s.emit('jmp', s.brk[-1])
        elif k == 'continue': s.emit('jmp', s.cont[-1])
        elif k == 'ret': s.emit('ret', s.E(x[1]) if x[1] is not None else None)
        elif k == 'goto': s.emit('jmp', 'u' + x[1])
        elif k == 'label': s.lab('u' + x[1]); s.S(x[2])
        elif k == 'block':
            for y in x[1]: s.S(y)
        elif k == 'if':
            c = s.E(x[1]); lt, lf, le = s.new(), s.new(), s.new(); s.emit('br', c, lt, lf); s.lab(lt); s.S(x[2]); s.emit('jmp', le)
            s.lab(lf)
            if x[3]: s.S(x[3])
            s.lab(le)
        elif k == 'while':
            lt, lb, le = s.new(), s.new(), s.new(); s.lab(lt); c = s.E(x[1]); s.emit('br', c, lb, le); s.lab(lb)
            s.brk.append(le); s.cont.append(lt); s.S(x[2]); s.brk.pop(); s.cont.pop(); s.emit('jmp', lt); s.lab(le)
        elif k == 'do':
            lb, lc, le = s.new(), s.new(), s.new(); s.lab(lb)
            s.brk.append(le); s.cont.append(lc); s.S(x[1]); s.brk.pop(); s.cont.pop()
            s.lab(lc); c = s.E(x[2]); s.emit('br', c, lb, le); s.lab(le)
        elif k == 'for':
            if x[1]: s.E(x[1])
            lt, lb, li, le = s.new(), s.new(), s.new(), s.new(); s.lab(lt)
            if x[2]: c = s.E(x[2]); s.emit('br', c, lb, le)
            s.lab(lb); s.brk.append(le); s.cont.append(li); s.S(x[4]); s.brk.pop(); s.cont.pop(); s.lab(li)
            if x[3]: s.E(x[3])
            s.emit('jmp', lt); s.lab(le)
        elif k == 'switch':
            v = s.E(x[1]); le = s.new(); cases = []; at = len(s.c); t = s.new(); s.emit('mov', t, v); s.emit('switch', ('s', t), cases, le)
            s.brk.append(le); s.sw.append((cases, at)); s.S(x[2]); s.sw.pop(); s.brk.pop(); s.lab(le)
        elif k in ('case', 'default'):
            l = s.new(); s.lab(l)
            if k == 'case': lo = s.case[x[1][1]]; hi = s.case[x[2][1]] if x[2] else lo; s.sw[-1][0].append((lo, hi, l)); s.S(x[3])
            else: s.sw[-1][0].append((None, None, l)); s.S(x[1])
        else: raise ValueError(x)
    def done(s):
        s.emit('ret', None)
        out = []
        for i in s.c:
            if i[0] == 'switch':
                d = i[3]
                for lo, hi, l in i[2]:
                    if lo is None: d = l
                i = ('switch', i[1], tuple((lo, hi, l) for lo, hi, l in i[2] if lo is not None), d)
            out.append(i)
        return out, s.l

def val(e, env):
    k = e[0]
    if k == 's': return env[e[1]]
    if k == 'c': return e[1]
    if k == 'n': return int(val(e[1], env) != 0)
    if k == '!': return int(val(e[1], env) == 0)
    a, b = val(e[1], env), val(e[2], env)
    if k == '+': return a + b
    return int({'==': a == b, '<': a < b, '>': a > b, '!=': a != b, '<=': a <= b, '>=': a >= b}[k])

class Bad(Exception): pass
class Null(Exception): pass
def step(code, labels, pc, env):
    """run to the next event"""
    for n in range(400):
        if pc >= len(code): raise Bad('control runs past the end')
        i = code[pc]; k = i[0]
        if k == 'eval': return ('eval', i[1]), pc, env
        if k == 'ret': return ('ret', None if i[1] is None else val(i[1], env)), pc, env
        if k == 'mov': env = dict(env); env[i[1]] = val(i[2], env); pc += 1
        elif k == 'setret': env = dict(env); env['$ret'] = val(i[1], env); pc += 1
        elif k == 'jmp': pc = labels[i[1]]
        elif k == 'br': pc = labels[i[2] if val(i[1], env) else i[3]]
        elif k == 'jz': pc = labels[i[2]] if val(i[1], env) == 0 else pc + 1
        elif k == 'switch':
            v = val(i[1], env); d = i[3]
            for lo, hi, l in i[2]:
                if lo <= v <= hi: d = l
            pc = labels[d]
        elif k == 'end': return ('ret', env.get('$ret')), pc, env
        elif k == 'nop': pc += 1
        else: raise Bad('instruction %s' % (i,))
    return ('loops for ever',), pc, env

def compare(ref, imp, domain):
    """None when the two codes have the same events for all operand values, else a description"""
    (rc, rl), (ic, il) = ref, imp
    todo = [(0, {}, 0, {}, ())]; seen = set()
    while todo:
        rp, re_, ip, ie, path = todo.pop()
        re0, rp, re_ = step(rc, rl, rp, re_)
        try: ie0, ip, ie = step(ic, il, ip, ie)
        except (Bad, KeyError) as e: return 'after %s: generated code is broken (%s), C: %s' % (list(path), e, re0)
        if re0 != ie0: return 'after %s: generated code does %s, C: %s' % (list(path), ie0, re0)
        if re0[0] != 'eval': continue
        key = (rp, tuple(sorted(re_.items())), ip, tuple(sorted(ie.items())))
        if key in seen: continue
        seen.add(key)
        if len(seen) > 60000: raise AnalysisBroken('C21: product too large')
        for v in domain(re0[1]):
            a = dict(re_); a[rc[rp][2]] = v; b = dict(ie); b[ic[ip][2]] = v
            todo.append((rp + 1, a, ip + 1, b, path + ((re0[1], v),)))
    return None

# ------------------------------------------------------------------ the generated code
class Gen:
    def __init__(s):
        s.p = p = prog.load('cc1'); s.ty = Ty(p)
        s.T = p.enum_of('token_plus'); s.ST = p.enum_of('V_CONST_I'); s.OPN = {v: k for k, v in reversed(list(p.enum_of('op_plus').items()))}
        s.quiet = {f.name for f in p.defs() if f.file in ('warn.c', 'where.c') and f.name not in p.noret}
        s.BT = p.enum_of('BLK_TERMINAL')
    def gen(s, toks, case, const={}, opts=()):
        """(code, labels) generated for a statement, or a string"""
        p, T = s.p, s.T; o = p.off
        seq = [(T['token_' + (t[0] if isinstance(t, tuple) else t)], t[1] if isinstance(t, tuple) else None) for t in toks] + [(T['token_eof'], None)]
        o_op, o_lhs, o_rhs, o_expr, o_tt, o_ff, o_fg = (o('expr', x) for x in ('bits.op.op', 'lhs', 'rhs', 'expr', 'tree_type', 'f_fold', 'f_gen'))
        v_type, v_t, v_ret, v_i = (o('out_val', x) for x in ('type', 't', 'retains', 'bits.val_i'))
        o_cur, o_ins, o_lbl = o('out_ctx', 'current_blk'), o('out_blk', 'insns'), o('out_blk', 'lbl')
        wfields = [p.off('where', x) for x in ('fname', 'line_str', 'line', 'chr', 'len')] + [p.off('where', 'is_sysh')]
        def one(v, what='value'):
            if v is not TOP and not v: raise Null()      # read through a null pointer
            if v is TOP or len(v) != 1: raise AnalysisBroken('C21: unknown %s' % what)
            return next(iter(v))
        def pos(m): return one(m[('ST', 0)], 'token position')
        def num(m):
            n = one(m.get(('ST', 16), C(0))); m[('ST', 16)] = C(n + 1); return n
        def adv(m):
            c = pos(m); m[('ST', 0)] = C(c + 1); m[('g:curtok', 0)] = C(seq[min(c + 1, len(seq) - 1)][0]); return c
        def nt(I, a, i, m, k): adv(m); return TOP
        def ident(I, a, i, m, k):
            if m[('g:curtok', 0)] != C(T['token_identifier']): return NotImplemented
            c = adv(m); n = 'ID%d' % c
            m[(n, p.off('expr', 'f_const_fold'))] = C(('f', 'OPND_CF'))
            m[(n, o_ff)] = C(('f', 'OPERAND')); m[(n, o_op)] = C(c); m[(n, o_fg)] = C(('f', 'GEN_OPND')); m[(n, o_tt)] = s.ty.t('int'); I.zeroed.add(n)
            return P(n)
        def wherenow(I, a, i, m, k):
            if a[0] == C(0): return P('WHERE')
            x = one(a[0])
            for f in wfields: m[(x[1], x[2] + f)] = C(0)
            return a[0]
        def atlabel(I, a, i, m, k):
            c = pos(m); return C(1 if seq[c][0] == T['token_identifier'] and c + 1 < len(seq) and seq[c + 1][0] == T['token_colon'] else 0)
        def eatid(I, a, i, m, k):
            c = adv(m); return P('NAME:%s' % seq[c][1])
        def accid(I, a, i, m, k):
            if m[('g:curtok', 0)] != C(T['token_identifier']): return C(0)
            c = adv(m); m[next(iter(a[0]))[1:]] = P('NAME:%s' % seq[c][1]); return C(1)
        def settype(m, v, d=0):
            if v is TOP or d > 30: return
            for x in v:
                if not (isinstance(x, tuple) and x[0] == 'p'): continue
                m[(x[1], x[2] + o_tt)] = s.ty.t('int')
                for f in (o_lhs, o_rhs, o_expr):
                    c = m.get((x[1], x[2] + f), C(0))
                    if c != C(0): settype(m, c, d + 1)
        def fold(I, a, i, m, k): settype(m, a[0]); return a[0]
        def foldn(I, a, i, m, k): settype(m, a[0]); return TOP
        def cval(a, m):
            x = one(a[0]); return case.get(one(m.get((x[1], o_op), C(0))))
        def setnum(m, dst, v):
            d = one(dst); m[d[1:]] = C(v); m[(d[1], d[2] + 8)] = C(0)
        def cfi(I, a, i, m, k): setnum(m, a[1], cval(a, m)); return C(1)
        def opcf(I, a, i, m, k):
            c = one(m[(one(a[0])[1], o_op)]); b = one(a[1]); m[(b[1], b[2] + p.off('consty', 'type'))] = C(p.enum_of('CONST_NO')['CONST_NO'])
            if c in const:
                m[(b[1], b[2] + p.off('consty', 'type'))] = C(p.enum_of('CONST_NO')['CONST_NUM']); m[(b[1], b[2] + p.off('consty', 'bits.num.val.i'))] = C(const[c])
            return TOP
        def cfv(I, a, i, m, k): return C(cval(a, m))
        def dyn(I, a, i, m, k):
            cell = one(a[0])[1:]; cur = m.get(cell, C(0))
            if cur == C(0): cur = P('DA:%s+%s' % cell); m[cell] = cur
            b = one(cur); n = 0
            while m.get((b[1], b[2] + 8 * n), C(0)) != C(0): n += 1
            m[(b[1], b[2] + 8 * n)] = a[1]; m[(b[1], b[2] + 8 * n + 8)] = C(0)
            return TOP
        def dcount(I, a, i, m, k):
            if a[0] == C(0): return C(0)
            b = one(a[0]); n = 0
            while m.get((b[1], b[2] + 8 * n), C(0)) != C(0): n += 1
            return C(n)
        # ---- values: objects named after the expression they hold
        def mkv(m, e, t='V_REG'):
            n = 'V:' + repr(e); I.zeroed.add(n); m[(n, v_type)] = C(s.ST[t]); m[(n, v_t)] = s.ty.t('int'); m[(n, v_ret)] = C(1)
            if 'likely' in opts: m[(n, o('out_val', 'flags'))] = C(p.enum_of('VAL_FLAG_LIKELY')['VAL_FLAG_LIKELY'])
            return P(n)
        def ev(v):
            x = one(v)
            if not (isinstance(x, tuple) and x[1].startswith('V:')): raise AnalysisBroken('C21: not a value: %s' % (x,))
            return eval(x[1][2:])
        def ins(m, e):
            cur = m.get(('OCTX', o_cur), C(0))
            if cur == C(0): return
            b = one(cur); dyn(None, [C(('p', b[1], b[2] + o_ins)), P('I:' + repr(e))], None, m, None)
        def gopnd(I, a, i, m, k):
            x = one(a[0]); c = one(m[(x[1], o_op)])
            if c in const:
                r = mkv(m, ('c', const[c]), 'V_CONST_I'); m[(one(r)[1], v_i)] = C(const[c]); return r
            n = num(m); ins(m, ('eval', c, 'e%d' % n)); return mkv(m, ('s', 'e%d' % n))
        def vop(I, a, i, m, k):
            op = s.OPN.get(one(a[1])); sy = {'op_plus': '+', 'op_eq': '==', 'op_lt': '<', 'op_gt': '>', 'op_ne': '!=', 'op_le': '<=', 'op_ge': '>='}.get(op)
            if sy is None: raise AnalysisBroken('C21: operator %s' % op)
            return mkv(m, (sy, ev(a[2]), ev(a[3])))
        def vun(I, a, i, m, k):
            if s.OPN.get(one(a[1])) != 'op_not': raise AnalysisBroken('C21: unary operator')
            return mkv(m, ('!', ev(a[2])))
        def vnum(I, a, i, m, k):
            d = one(a[2]); return mkv(m, ('c', one(m.get(d[1:], TOP))))
        def vl(I, a, i, m, k): return mkv(m, ('c', one(a[2])))
        second = lambda I, a, i, m, k: a[1]
        def toreg(I, a, i, m, k):
            n = num(m); ins(m, ('mov', 'm%d' % n, ev(a[1])))
            if len(a) > 2 and a[2] != C(0): m[one(a[2])[1:]] = C(n)
            r = mkv(m, ('s', 'm%d' % n)); x = one(r); m[(x[1], o('out_val', 'bits.regoff.reg'))] = C(n); return r
        def given(I, a, i, m, k):
            n = one(m[one(a[2])[1:]]); ins(m, ('mov', 'm%d' % n, ev(a[1]))); return mkv(m, ('s', 'm%d' % n))
        def newreg(I, a, i, m, k): return mkv(m, ('s', 'm%d' % one(m[one(a[3])[1:]])))
        def spell(I, a, i, m, k): return P('SPELL:' + one(a[0])[1])
        def asmins(I, a, i, m, k):
            f = I.cstr(one(a[1]))
            if f == 'int3': ins(m, ('trap',)); return TOP
            if f is None or not f.startswith('test'): raise AnalysisBroken('C21: unexpected instruction %r' % f)
            if a[2] != a[3]: raise AnalysisBroken('C21: test of two values')
            ins(m, ('test', ev(C(('p', one(a[2])[1][6:], 0))))); return TOP
        def sprintf(I, a, i, m, k):
            f = I.cstr(one(a[0]))
            return P('TXT:' + repr((f,) + tuple(one(x) for x in a[1:] if x is not TOP)))
        def lbl(I, a, i, m, k): return P('LBL:%d' % num(m))
        out = []
        def section(I, a, i, m, k):
            # the emission order is kept in memory: it belongs to the path
            f = I.cstr(one(a[1])); n = one(m.get(('ST', 24), C(0))); m[('ST', 24)] = C(n + 1)
            m[('OUT', n)] = P('LINE:' + repr((f,) + tuple(one(x) if x is not TOP else '?' for x in a[2:]))); return TOP
        def jmp(I, a, i, m, k):
            n = one(m.get(('ST', 24), C(0))); m[('ST', 24)] = C(n + 1); m[('OUT', n)] = P('LINE:' + repr(('jmp', one(a[0])))); return TOP
        def findlabel(I, a, i, m, k):
            n = 'LABEL:' + one(a[1])[1]; I.zeroed.add(n); return P(n)
        def getblk(I, a, i, m, k):
            key = ('GB', one(a[0])[1]); cur = m.get(key, C(0))
            if cur == C(0):
                n = 'UBLK:' + key[1]; I.zeroed.add(n); m[(n, o_lbl)] = P('LBL:' + n); cur = P(n); m[key] = cur
            return cur
        def qsort(I, a, i, m, k): return TOP
        nop = lambda *a: TOP; zero = lambda *a: C(0)
        stubs = dict(s.ty.stubs())
        stubs.update({'nexttoken': nt, 'parse_expr_identifier': ident, 'tok_at_label': atlabel, 'token_eat_identifier': eatid, 'token_accept_identifier': accid,
            'where_cc1_current': wherenow, 'builtin_parse': zero, 'parse_type': zero, 'parse_at_decl': zero, 'parse_decl_group': zero, 'parse_add_attr': nop,
            'parse_add_attr_out': lambda I, a, i, m, k: (m.__setitem__(one(a[2])[1:], C(0)), TOP)[1], 'attribute_array_release': nop, 'parse_static_assert': zero,
            'fold_expr_lval2rval': fold, 'fold_expr_nodecay': foldn, 'fold_expr_nonstructdecay': fold, 'fold_check_expr': zero, 'expr_promote_default': nop, 'fold_insert_casts': nop,
            'const_fold': lambda I, a, i, m, k: (m.__setitem__(one(a[1])[1:], C(p.enum_of('CONST_NO')['CONST_NO'])), TOP)[1], 'const_fold_integral': cfi, 'const_fold_integral_try': cfi, 'const_fold_val_i': cfv,
            'const_expr_and_non_zero': zero, 'const_expr_and_zero': zero, 'const_expr_value': zero,
            'fold_stmt_return': nop, 'fold_stmt_expr': nop, 'fold_passable': lambda *a: C(1), 'symtab_fold_sues': nop, 'symtab_func': lambda *a: C(0) if 'nofn' in opts else P('FN'), 'symtab_root': lambda *a: P('SCOPE'),
            'fold_shadow_dup_check_block_decls': nop, 'fold_check_scope_entry': nop, 'qsort': qsort, 'fold_switch_dups': nop, 'symtab_label_find_or_new': findlabel, 'label_getblk': getblk,
            'symtab_decls': zero, 'dynarray_nochk_add': dyn, 'dynarray_nochk_count': dcount, 'dynarray_count': dcount, 'gen_scope_leave': nop, 'gen_scope_leave_parent': nop, 'stmt_kills_below_code': zero, 'fold_stmt_and_add': nop,
            'GEN_OPND': gopnd, 'out_op': vop, 'out_op_unary': vun, 'out_new_num': vnum, 'out_new_l': vl, 'out_new_zero': lambda I, a, i, m, k: mkv(m, ('c', 0)),
            'out_normalise': lambda I, a, i, m, k: mkv(m, ('n', ev(a[1]))), 'out_cast': second, 'out_change_type': second, 'out_val_retain': second, 'out_val_release': second, 'out_val_consume': second,
            'v_dup_or_reuse': second, 'v_mutable_copy': second, 'out_val_unphi': second, 'v_decay_flags_except1': nop, 'v_decay_flags': nop, 'v_save_regs': nop, 'v_reg_apply_offset': second, 'v_to_reg_out': toreg, 'v_to_reg': lambda I, a, i, m, k: toreg(I, a[:2], i, m, k),
            'v_to_reg_given': given, 'v_new_reg': newreg, 'out_flush_volatile': second, 'out_comment': nop, 'out_dbg_where': nop, 'out_dbg_flush': nop, 'sanitize_boundscheck': nop, 'sanitize_shift': nop, 'sanitize_divide': nop, 'gen_op_trapv': nop,
            'impl_val_str': spell, 'out_asm': asmins, 'ustrprintf': sprintf, 'out_label_bblock': lbl, 'asm_out_section': section, 'impl_jmp': jmp, 'out_dbg_labels_emit_release_v': nop, 'asm_out_align': nop,
            'impl_to_retreg': lambda I, a, i, m, k: (ins(m, ('setret', ev(a[1]))), TOP)[1], 'cc1_out_ctx': lambda *a: P('UCTX'), 'out_user_ctx': lambda *a: P('UCTX'), 'type_is_ptr_or_block': zero, 'sanitize_returns_nonnull': nop})
        stubs['OPND_CF'] = opcf
        if 'fold' in opts: del stubs['const_fold']
        for q in s.quiet: stubs.setdefault(q, nop)
        I = start_interp(p, stubs=stubs, budget=3000000)
        I.zeroed |= {'g:' + g for g in p.g if not I.readonly(g)} | {'OCTX', 'SCOPE', 'ENTRY', 'EPI', 'CTX', 'UCTX', 'FN', 'PARENT', 'WHERE'}
        mem = {('ST', 0): C(0), ('ST', 16): C(0), ('g:curtok', 0): C(seq[0][0]), ('g:curtok_save', 0): C(T['token_unknown']),
               ('CTX', p.field_off('stmt_ctx', 'scope')): P('SCOPE'), ('SCOPE', p.field_off('symtable', 'parent')): P('PARENT'), ('SCOPE', p.off('symtable', 'in_func')): P('FN'),
               ('OCTX', o_cur): P('ENTRY'), ('OCTX', o('out_ctx', 'entry_blk')): P('ENTRY'), ('OCTX', o('out_ctx', 'last_used_blk')): P('ENTRY'), ('OCTX', o('out_ctx', 'epilogue_blk')): P('EPI'),
               ('ENTRY', o_lbl): P('LBL:entry'), ('EPI', o_lbl): P('LBL:epi'), ('g:cc1_type_nav', 0): P('NAV')}
        if 'thread' in opts: mem[('g:cc1_fopt', p.off('cc1_fopt', 'thread_jumps'))] = C(1)
        if 'fold' in opts: mem[('g:cc1_fopt', p.off('cc1_fopt', 'const_fold'))] = C(1)
        if 'c99' in opts: mem[('g:cc1_std', 0)] = C(p.enum_of('STD_C99')['STD_C99'])
        else: mem[('g:cc1_std', 0)] = C(p.enum_of('STD_C99')['STD_C90'])
        rv, mem = I.run('parse_stmt', [P('CTX')], mem)
        if mem is None: return 'the statement is rejected by the parser'
        if pos(mem) != len(seq) - 1: return 'the parser stops at token %d of %d' % (pos(mem), len(seq) - 1)
        if mem.get(('g:parse_had_error', 0), C(0)) != C(0): return 'the parser reports an error'
        st = rv
        rv, mem = I.run('fold_stmt', [st], mem)
        if mem is None: return 'the statement is rejected'
        if mem.get(('g:fold_had_error', 0), C(0)) != C(0): return 'an error is reported'
        rv, mem = I.run('gen_stmt', [st, P('OCTX')], mem)
        if mem is None: return 'code generation stops'
        rv, mem = I.run('out_ctrl_transfer', [P('OCTX'), P('EPI'), C(0), C(0), C(0)], mem)
        if mem is None: return 'the end of the function is not reached'
        mem[('EPI', o('out_blk', 'type'))] = C(s.BT['BLK_TERMINAL'])
        dyn(None, [P('EPI', o_ins), P("I:('end',)")], None, mem, None)
        rv, mem = I.run('blk_flushall', [P('OCTX'), P('ENTRY'), C(0), P('SEC')], mem)
        if mem is None: return 'emission of the blocks stops'
        return s.listing(mem)
    def listing(s, mem):
        code = []; labels = {}; n = next(iter(mem.get(('ST', 24), C(0)))); test = None
        def lab(x):
            if not (isinstance(x, tuple) and x[0] == 'p' and x[1].startswith('LBL:')): raise AnalysisBroken('C21: not a label: %s' % (x,))
            return x[1]
        for j in range(n):
            v = mem[('OUT', j)]
            if v is TOP or len(v) != 1: raise AnalysisBroken('C21: output line unknown')
            l = eval(next(iter(v))[1][5:]); f = l[0]
            if f == 'jmp': code.append(('jmp', lab(l[1]))); continue
            if f is None: raise AnalysisBroken('C21: output of unknown format')
            if f.startswith('%s:'):
                if lab(l[1]) in labels: return 'label emitted twice'
                labels[lab(l[1])] = len(code); continue
            x = l[1] if len(l) > 1 else None
            if isinstance(x, tuple) and x[0] == 'p' and x[1].startswith('I:'):
                e = eval(x[1][2:])
                if e[0] == 'test': test = e[1]; code.append(('nop',))
                else: code.append(e)
            elif isinstance(x, tuple) and x[0] == 'p' and x[1].startswith('TXT:'):
                t = eval(x[1][4:])
                if t[0] != 'jz %s' or test is None: raise AnalysisBroken('C21: conditional jump %r' % (t,))
                code.append(('jz', test, lab(t[1]))); test = None
            elif f.lstrip().startswith('#'): pass
            else: raise AnalysisBroken('C21: output %r' % (l,))
        return code, labels

# ------------------------------------------------------------------ shapes
def dangling(x):
    """ends in an if that an else would attach to"""
    k = x[0]
    if k == 'if': return len(x) == 3 or dangling(x[3])
    if k in ('while', 'switch', 'label'): return dangling(x[2])
    if k == 'for': return dangling(x[4])
    if k == 'case': return dangling(x[3])
    if k == 'default': return dangling(x[1])
    return False
def ok(x):
    """no else that would bind elsewhere"""
    if not isinstance(x, tuple): return True
    if x and x[0] == 'if' and len(x) == 4 and dangling(x[2]): return False
    return all(ok(y) if isinstance(y, tuple) else all(ok(z) for z in y) if isinstance(y, list) else True for y in x)

X = ('expr', O); NOOP = ('noop',); BR = ('break',); CO = ('continue',); R = ('ret', O); RV = ('ret', None)
def loops(b):
    yield ('while', O, b); yield ('do', b, O)
    for m in range(8): yield ('for', O if m & 1 else None, O if m & 2 else None, O if m & 4 else None, b)
def loops1(b): return [('while', O, b), ('do', b, O), ('for', O, O, O, b)]
def sw(*b): return ('switch', O, ('block', list(b)))
def case(v, s, hi=None): return ('case', v, hi, s)
def exprs():
    b = [O, ('K', 0), ('K', 3)]
    l1 = [('&&', O, O), ('||', O, O), ('!', O), ('?', O, O, O), ('?', O, None, O), (',', O, O), ('+', O, O)]
    l1 += [(k, a, c) for k in ('&&', '||') for a in b for c in b if ('K', 0) in (a, c) or ('K', 3) in (a, c)]
    l1 += [('?', ('K', v), O, O) for v in (0, 3)] + [('?', O, ('K', 3), O), ('?', O, O, ('K', 0))]
    l2 = []
    base = l1[:7]
    for a in base:
        l2 += [('&&', a, O), ('&&', O, a), ('||', a, O), ('||', O, a), ('!', a), ('?', a, O, O), ('?', O, a, O), ('?', O, O, a), ('?', a, None, O), ('?', O, None, a), (',', a, O), (',', O, a), ('+', a, O), ('+', O, a)]
    l3 = [('&&', a, c) for a in base for c in base] + [('||', a, c) for a in base for c in base]
    l3 += [('?', a, c, d) for a in base[:4] for c in base[:4] for d in base[:4]]
    return b, l1, l2, l3

def shapes():
    """(rule, shape)"""
    b, l1, l2, l3 = exprs()
    for e in b + l1 + l2 + l3:
        yield 'operators', ('ret', e)
    for e in b[1:] + l1 + l2:
        yield 'operators', ('if', e, X, X)
    for e in b[1:] + l1:
        yield 'operators', ('expr', e)
        yield 'operators', ('if', e, X); yield 'operators', ('while', e, X); yield 'operators', ('do', X, e); yield 'operators', ('for', e, e, e, X)
        yield 'operators', ('switch', e, ('block', [case(0, X), case(1, X)]))
    leaf = [X, NOOP, R]
    # one level
    for a in leaf:
        yield 'selection', ('if', O, a)
        for c in leaf: yield 'selection', ('if', O, a, c)
    for a in leaf + [BR, CO, ('if', O, BR), ('if', O, CO), ('if', O, BR, CO), ('if', O, X, BR), ('if', O, CO, X), ('block', [X, ('if', O, BR), X]), ('block', [X, ('if', O, CO), X]), ('block', [('if', O, CO), ('if', O, BR), ('if', O, R)]), ('block', [BR, X]), ('block', [CO, X]), ('block', [])]:
        for l in loops(a): yield 'loops', ('block', [l, X])
    # two loops
    inner = [BR, CO, X, ('if', O, BR), ('if', O, CO, BR), ('block', [('if', O, CO), X, ('if', O, BR)])]
    for a in inner:
        for l in loops(a):
            for l2 in loops1(l): yield 'loops', ('block', [l2, X])
            for l2 in loops1(('block', [l, X, ('if', O, BR), ('if', O, CO), X])): yield 'loops', ('block', [l2, X])
    for l in loops1(('if', O, BR)):
        for m in loops1(('block', [l, BR])):
            for n in loops1(('block', [m, ('if', O, CO), X])): yield 'loops', ('block', [n, X])
    # if nesting
    lv = [X, BR, R, ('if', O, X), ('if', O, X, X), ('if', O, CO, BR), ('block', [('if', O, X)])]
    for a in lv:
        for c in lv + [None]:
            s = ('if', O, a) if c is None else ('if', O, a, c)
            if ok(s): yield 'selection', ('block', [('while', O, s), X])
            t = ('if', O, s, X)
            if ok(t): yield 'selection', ('block', [('do', t, O), X])
            t = ('if', O, X, s)
            yield 'selection', ('block', [('for', O, O, O, t), X])
            t = ('if', O, s)
            yield 'selection', ('block', [('while', O, t), X])
    # switches
    bodies = [sw(case(1, X), case(2, X)), sw(case(1, X), case(2, X), ('default', X)), sw(('default', X), case(5, X), case(2, X)), sw(case(3, X), ('default', X), case(1, X)),
        sw(case(1, X), BR, case(2, X), BR, ('default', X), BR), sw(case(1, case(2, case(3, X))), BR, X), sw(case(4, X, 6), BR, case(1, X, 3), BR, case(9, X)), sw(case(4, X, 6), ('default', X), case(0, X, 2)),
        sw(X, case(1, X), X, ('default', X)), sw(), sw(X), sw(('default', X)), ('switch', O, case(1, X)), ('switch', O, ('default', X)), ('switch', O, X), ('switch', O, case(1, ('default', X))), ('switch', O, NOOP),
        sw(case(1, R), case(2, X), ('default', RV)), sw(case(1, ('if', O, BR)), case(2, X), ('default', X)), sw(case(-1, X), case(0, X), ('default', X)), sw(case(-3, X, -1), BR, case(0, X, 1)),
        ('switch', O, ('if', O, case(1, X), ('default', X))), ('switch', O, ('while', O, ('block', [case(1, X), ('if', O, BR), case(2, X)]))), ('switch', O, ('block', [('do', ('block', [case(0, X), case(1, X)]), O), BR, ('default', X)])),
        sw(case(1, ('block', [X, BR])), case(2, ('block', [X])), X), sw(case(1, sw(case(1, X), BR, ('default', BR))), X, case(2, X)), sw(case(1, sw(case(7, X), BR, case(8, X))), BR, ('default', X)),
        sw(case(1, ('while', O, ('block', [('if', O, BR), X]))), case(2, X)), sw(case(1, ('for', O, O, O, ('if', O, CO))), BR, case(2, X)), sw(case(1, X), ('default', BR), case(2, X)), sw(('default', case(1, X)), case(2, X)), sw(case(1, ('default', X)), BR, case(2, X))]
    for s in bodies: yield 'switch', ('block', [s, X])
    inl = [sw(case(1, CO), case(2, BR), ('default', X)), sw(case(1, ('if', O, CO)), X, case(2, BR), X), sw(case(1, sw(case(1, CO), ('default', BR)))), sw(case(1, X), case(2, ('block', [X, CO])), ('default', ('if', O, BR, CO)))]
    for s in inl:
        for l in loops1(('block', [s, X])): yield 'switch', ('block', [l, X])
        for l in loops(s): yield 'switch', ('block', [l, X])
    # goto
    G = lambda n: ('goto', n); L = lambda n, s: ('label', n, s)
    for g in [[L('a', X), ('if', O, G('a')), X], [('if', O, G('a')), X, L('a', X)], [G('a'), X, L('a', X)], [L('a', X), L('b', X), ('if', O, G('a')), ('if', O, G('b')), X],
              [G('b'), L('a', ('block', [X, G('c')])), L('b', ('block', [X, G('a')])), L('c', X)], [('if', O, G('in')), ('while', O, ('block', [X, L('in', X)])), X],
              [('while', O, ('for', O, O, O, ('block', [X, ('if', O, G('out'))]))), L('out', X)], [('do', ('block', [('if', O, G('n')), X, L('n', NOOP)]), O), X],
              [sw(case(1, G('x')), case(2, X), L('x', X), ('default', X)), X], [('if', O, L('a', X), ('block', [X, G('a')])), X], [L('a', L('b', X)), ('if', O, G('b')), ('if', O, G('a'))],
              [('for', O, O, O, ('block', [L('a', X), ('if', O, G('a')), ('if', O, CO), X])), X], [L('a', ('if', O, G('a'))), X], [L('a', ('while', O, ('if', O, G('a')))), X], [('ret', None), L('a', X), ('if', O, G('a'))]]:
        yield 'goto', ('block', g)
    # constant conditions
    for v in (0, 3):
        K = ('K', v)
        for a in (X, ('if', O, BR), ('if', O, CO, BR), R):
            yield 'constants', ('block', [('do', a, K), X])
            yield 'constants', ('block', [('while', K, a), X]); yield 'constants', ('block', [('for', O, K, O, a), X])
            if a[0] == 'expr' or a[0] == 'ret': yield 'constants', ('block', [('if', K, a, X), X]); yield 'constants', ('block', [('if', K, X, a), X])
        yield 'constants', ('block', [('switch', K, ('block', [case(0, X), case(3, X), BR, ('default', X)])), X])
        yield 'constants', ('block', [('while', K, ('block', [X, ('if', O, G('o')), L('i', X)])), ('if', O, G('i')), L('o', X)])

def switch_operands(a, out, case):
    """operand -> values worth trying, for operands that control a switch"""
    if not isinstance(a, (tuple, list)): return
    if isinstance(a, tuple) and a and a[0] == 'switch':
        vs = sorted(set(case.values())); dom = sorted({x + d for x in vs for d in (-1, 0, 1)} | {(vs[k] + vs[k + 1]) // 2 for k in range(len(vs) - 1)} | {0, 100, -100})
        def leaves(e):
            if isinstance(e, tuple):
                if e[0] == 'o': out[e[1]] = dom
                else:
                    for y in e[1:]: leaves(y)
        leaves(a[1])
    for y in a: switch_operands(y, out, case)

def check():
    ck = Check('C21'); g = Gen(); p = g.p; units = ck.units
    ck.rule('operators', '&&, ||, !, ?:, the comma operator and conditions of statements evaluate the operands C says, once, in order, and give the C value')
    ck.rule('selection', 'if and else reach the branch the condition selects; else binds to the nearest if')
    ck.rule('loops', 'while, do and for (with every subset of clauses) test, advance, break and continue as C says, at every nesting')
    ck.rule('switch', 'a switch enters at the case holding the value, at default, or after it; falls through; break and continue leave the right construct')
    ck.rule('goto', 'goto reaches its label, forwards, backwards, into and out of other statements')
    ck.rule('constants', 'a constant condition selects its branch and code after it stays reachable by other ways')
    ck.rule('threading', 'jump threading does not change where a jump ends up')
    ck.rule('likely', 'a branch marked as likely goes the same way')
    ck.rule('folding', 'with constant folding an operand whose value does not matter is still evaluated, and one C does not evaluate is not')
    items = []
    seen = set()
    for r, s in shapes():
        if repr(s) in seen or not ok(s): continue
        seen.add(repr(s)); items.append((r, s, ('c99',)))
    for n, (r, s, o_) in enumerate(list(items)):
        if r in ('goto', 'switch', 'loops') and (n % 3 == 0 or r == 'goto'): items.append(('threading', s, ('thread',)))
        if n % 4 == 1: items.append(('likely', s, ('c99', 'likely')))
    hasK = lambda x: isinstance(x, (tuple, list)) and (isinstance(x, tuple) and x[:1] == ('K',) or any(map(hasK, x)))
    bb, l1, l2, l3 = exprs(); Ks = [('K', 0), ('K', 3)]
    fe = [e for e in l1 if hasK(e)] + [(k, a, c) for k in ('&&', '||', ',', '+') for a in l1 if hasK(a) for c in (O, ('K', 0), ('K', 3))] + [(k, c, a) for k in ('&&', '||', ',', '+') for a in l1 if hasK(a) for c in (O, ('K', 0), ('K', 3))]
    fe += [(',', a, c) for a in [O] + Ks for c in [O] + Ks] + [('+', a, c) for a in [O] + Ks for c in [O] + Ks] + [('?', a, c, d) for a in [O] + Ks for c in [O] + Ks for d in [O] + Ks] + [('?', a, None, d) for a in [O] + Ks for d in [O] + Ks]
    fe += [('!', e) for e in list(fe)] + [('?', e, O, O) for e in list(fe)] + [('?', O, e, O) for e in list(fe)] + [('&&', ('!', ('K', v)), O) for v in (0, 3)]
    for e in fe:
        if repr(e) not in seen: seen.add(repr(e)); items.append(('folding', ('ret', e), ('c99', 'fold')))
    for r, s, o_ in list(items):
        if r == 'constants': items.append(('folding', s, ('c99', 'fold')))
    def one(x):
        r, s, opts = x
        em = Emit(); a = em.S(s); ref = Ref(em.case); ref.S(a); dom = {}
        switch_operands(a, dom, em.case)
        try: imp = g.gen(em.t, em.case, em.const, opts)
        except Null: imp = 'the compiler follows a null pointer'
        if isinstance(imp, str): return imp, 0
        return compare(ref.done(), imp, lambda k: dom.get(k, (0, 1))), len(imp[0])
    units['shapes'] = len(items); units['instructions'] = 0
    wh = {'operators': 'gen_expr_op', 'selection': 'gen_stmt_if', 'loops': 'gen_stmt_for', 'switch': 'gen_stmt_switch', 'goto': 'gen_stmt_goto', 'constants': 'out_ctrl_branch', 'threading': 'blk_flushall', 'folding': 'const_fold', 'likely': 'out_ctrl_branch'}
    for (r, s, o_), (bad, n) in zip(items, pmap(one, items)):
        units['instructions'] += n
        ck.ob(r, bad is None, p.fn(wh[r]).where, '%s: %s' % (show(s), bad), '%s/%s/%s' % (r, show(s), ','.join(o_)), sample=show(s) if units['instructions'] % 97 == 0 else None)
    ck.need('operators', 300); ck.need('loops', 300); ck.need('switch', 40); ck.need('selection', 100)
    ck.assume += ['operands are opaque int values; conversions and comparison instructions are C22 and C09', 'declarations, VLAs, cleanup attributes and statement expressions inside control statements are outside',
                  'tools: code of one operator is an instruction sequence without internal branches (sanitizers off)']
    return ck.finish('Statement and expression shapes (operands opaque) are taken through the interpreted parser, folder, code generator, control-transfer layer and block emitter; the resulting labels and jumps are compared with the C meaning on the product of both flow graphs.')

def show(x):
    k = x[0] if isinstance(x, tuple) else x
    def e(y):
        if y is None: return ''
        if y == O: return 'o'
        if isinstance(y, int): return str(y)
        if y[0] == 'K': return str(y[1])
        if y[0] == '!': return '!' + e(y[1])
        if y[0] == '?': return '(%s ? %s : %s)' % tuple(map(e, y[1:]))
        return '(%s %s %s)' % (e(y[1]), y[0], e(y[2]))
    if k == 'expr': return e(x[1]) + ';'
    if k == 'noop': return ';'
    if k in ('break', 'continue'): return k + ';'
    if k == 'ret': return ('return ' + e(x[1])).rstrip() + ';'
    if k == 'goto': return 'goto %s;' % x[1]
    if k == 'label': return '%s: %s' % (x[1], show(x[2]))
    if k == 'block': return '{ ' + ' '.join(map(show, x[1])) + ' }'
    if k == 'if': return 'if(%s) %s%s' % (e(x[1]), show(x[2]), ' else ' + show(x[3]) if len(x) > 3 else '')
    if k in ('while', 'switch'): return '%s(%s) %s' % (k, e(x[1]), show(x[2]))
    if k == 'do': return 'do %s while(%s);' % (show(x[1]), e(x[2]))
    if k == 'for': return 'for(%s; %s; %s) %s' % (e(x[1]), e(x[2]), e(x[3]), show(x[4]))
    if k == 'case': return 'case %s%s: %s' % (e(x[1]), '...' + e(x[2]) if x[2] is not None else '', show(x[3]))
    if k == 'default': return 'default: ' + show(x[1])
