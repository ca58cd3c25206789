"""C08: #if expressions. The tokeniser, parser and evaluator of controlling expressions are interpreted on expression
texts whose operands are opaque terms; the value, for every outcome of every decision, is compared with the C meaning."""
import itertools
import prog
from absint import C, TOP, isx, mkx, mkicmp, wrap
from start import start_interp, P
from chk import Check, AnalysisBroken, pmap

LV = [['*', '/', '%'], ['+', '-'], ['<<', '>>'], ['<', '>', '<=', '>='], ['==', '!='], ['&'], ['^'], ['|'], ['&&'], ['||']]
PREC = {o: len(LV) - i for i, l in enumerate(LV) for o in l}
OPS = [o for l in LV for o in l]
AR = {'*': 'mul', '+': 'add', '-': 'sub', '&': 'and', '|': 'or', '^': 'xor', '<<': 'shl', '>>': 'ashr', '/': 'sdiv', '%': 'srem'}
CM = {'<': 'slt', '>': 'sgt', '<=': 'sle', '>=': 'sge', '==': 'eq', '!=': 'ne'}
def V(k): return ('x', 'v', 64, 'n%d' % k)

# ------------------------------------------------------------------ texts -> C meaning
class Parse:
    """reference parser over a token list (ISO C grammar of conditional-expression)"""
    def __init__(s, toks): s.t = toks; s.i = 0
    def cur(s): return s.t[s.i] if s.i < len(s.t) else None
    def eat(s, x):
        if s.cur() != x: raise SyntaxError
        s.i += 1
    def cond(s):
        c = s.bin(1)
        if s.cur() == '?':
            s.i += 1; a = s.cond(); s.eat(':'); return ('?', c, a, s.cond())
        return c
    def bin(s, lv):
        l = s.un()
        while s.cur() in PREC and PREC[s.cur()] >= lv:
            o = s.cur(); s.i += 1; l = (o, l, s.bin(PREC[o] + 1))
        return l
    def un(s):
        t = s.cur()
        if t in ('+', '-', '!', '~'): s.i += 1; return ('u' + t, s.un())
        if t == '(':
            s.i += 1; e = s.cond(); s.eat(')'); return e
        if isinstance(t, tuple): s.i += 1; return t
        raise SyntaxError
def tree(toks):
    q = Parse(toks); e = q.cond()
    if q.i != len(toks): raise SyntaxError
    return e

class Die(Exception): pass
class Need(Exception):
    def __init__(s, k): s.k = k
def truth(t, asm):
    """is the term non-zero, under the assumptions"""
    if isinstance(t, int): return t != 0
    c = mkicmp('ne', 64, t, 0)
    return ask(c, asm)
def ask(c, asm):
    if isinstance(c, int): return c != 0
    if c[3] == 'ne': return not ask(mkicmp('eq', c[4], c[5], c[6]), asm)
    if c[3] == 'sle' and not isinstance(c[6], int): pass
    k = (c[3], c[5], c[6])
    if k not in asm:
        n = xn(c)
        if n in asm: return not asm[n]
        raise Need(k)
    return asm[k]
def xn(c):
    from absint import xnot
    u = xnot(c); return (u[3], u[5], u[6])
def ev(e, asm):
    k = e[0]
    if k == 'leaf': return e[1]
    if k == 'u+': return ev(e[1], asm)
    if k == 'u-': return neg(ev(e[1], asm))
    if k == 'u~': v = ev(e[1], asm); return ~v if isinstance(v, int) else mkx('xor', 64, v, -1)
    if k == 'u!': v = ev(e[1], asm); return int(not truth(v, asm))
    if k == '&&': return int(truth(ev(e[1], asm), asm) and truth(ev(e[2], asm), asm))
    if k == '||': return int(truth(ev(e[1], asm), asm) or truth(ev(e[2], asm), asm))
    if k == '?': return ev(e[2] if truth(ev(e[1], asm), asm) else e[3], asm)
    a, b = ev(e[1], asm), ev(e[2], asm)
    if k in '/%':
        if not truth(b, asm): raise Die()
        m = b == -1 if isinstance(b, int) else ask(mkicmp('eq', 64, b, -1), asm)
        if m: return neg(a) if k == '/' else 0
        if isinstance(a, int) and isinstance(b, int): q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1); return q if k == '/' else a - q * b
    if isinstance(a, int) and isinstance(b, int):
        r = {'*': a * b, '+': a + b, '-': a - b, '&': a & b, '|': a | b, '^': a ^ b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}.get(k)
        if k == '<<': r = a << b if 0 <= b < 64 else None
        if k == '>>': r = a >> b if 0 <= b < 64 else None
        return wrap(int(r), 64)
    if k in CM: return int(ask(mkicmp(CM[k], 64, a, b), asm))
    return mkx(AR[k], 64, a, b)
def neg(v): return wrap(-v, 64) if isinstance(v, int) else mkx('sub', 64, 0, v)
def paths(e, asm=None):
    """(assumptions, value or 'die') for every outcome of the decisions C makes"""
    asm = asm or {}
    try: yield asm, ev(e, asm)
    except Die: yield asm, 'die'
    except Need as n:
        for b in (True, False):
            a = dict(asm); a[n.k] = b
            if consistent(a): yield from paths(e, a)
def consistent(a):
    """a term is not two different constants"""
    return not any(v and a.get((k[0], k[1], o)) for k, v in a.items() if k[0] == 'eq' and isinstance(k[2], int) for o in (0, -1, 1) if o != k[2])

# ------------------------------------------------------------------ the implementation
class Harness:
    def __init__(s):
        s.p = p = prog.load('cpp')
        s.quiet = {f.name for f in p.defs() if f.file in ('warn.c', 'where.c') and f.name not in p.noret} | {'debug_push_line', 'debug_pop_line', 'cpp_warn_at', 'warn_at'}
    def run(s, text, asm=None):
        """value set of the expression, 'die' or 'unknown'"""
        p = s.p; nop = lambda *a: TOP
        I = None
        def strtol(I, a, i, m, k):
            x = next(iter(a[0])); t = I.cstr(x)
            if a[2] != C(0): base = next(iter(a[2])) if a[2] is not TOP else None
            else: base = 16 if t[:2].lower() == '0x' and t[2:3] and t[2] in HEX else 8 if t[:1] == '0' else 10
            if base is None: return TOP
            j = 2 if base == 16 and t[:2].lower() == '0x' else 0
            n = j
            while n < len(t) and t[n].isalnum() and t[n].isascii() and int(t[n], 36) < base: n += 1
            if a[1] is not TOP and a[1] != C(0): m[next(iter(a[1]))[1:]] = P(x[1], x[2] + n)
            if t[:n].isdigit() and 1000 <= int(t[:n]) < 1100 and base == 10: return C(V(int(t[:n]) - 1000))
            v = int(t[j:n] or '0', base)
            hi = {'strtoul': 64, 'strtoull': 64}.get(i.callee, 63)
            return C(wrap(min(v, (1 << hi) - 1), 64))
        def escape(I, a, i, m, k):
            m[next(iter(a[2]))[1:]] = a[1]
            for q in a[4:]: m[next(iter(q))[1:]] = C(0)
            return C(('x', 'v', 32, 'chr'))
        stubs = {q: nop for q in s.quiet}
        stubs.update({'strtol': strtol, 'strtoll': strtol, 'strtoul': strtol, 'strtoull': strtol, 'escape_char': escape, 'free': nop})
        I = start_interp(p, stubs=stubs, objs={'BUF': text.encode('latin1') + b'\0'}, assume=asm or {})
        mem = I.init_mem(['expr_parse', 'expr_eval'])
        I.zeroed |= {'HI'}
        for g in p.g:
            if not I.readonly(g) and not p.g[g].get('init'): I.zeroed.add('g:' + g)
        e, mem = I.run('expr_parse', [P('BUF')], mem)
        if mem is None: return 'die', 0
        v, mem = I.run('expr_eval', [e, P('HI'), C(0)], mem)
        if mem is None: return 'die', 0
        if v is TOP: return 'unknown', 0
        return v, mem.get(('HI', 0), C(0))
HEX = '0123456789abcdefABCDEF'

# ------------------------------------------------------------------ texts
def texts():
    """(rule, tokens, text)"""
    def leaf(k): return ('leaf', V(k), str(1000 + k))
    ID = ('leaf', 0, 'foo_1')
    def spell(t): return t[2] if isinstance(t, tuple) else t
    def out(r, *t):
        t = [leaf(x) if isinstance(x, int) else x for x in t]
        yield r, t, ' '.join(map(spell, t)); yield r, t, ''.join(spell(x) if not (n and spell(x) in '+-&|=<>!' and spell(t[n - 1])[-1] == spell(x)[0]) else ' ' + spell(x) for n, x in enumerate(t))
    yield from out('operators', 0); yield from out('operators', ID)
    for o in OPS:
        yield from out('operators', 0, o, 1)
        yield from out('operators', ID, o, 1); yield from out('operators', 0, o, ID); yield from out('operators', '(', 0, o, 1, ')')
        for u in '+-!~':
            yield from out('unary', u, 0, o, 1); yield from out('unary', 0, o, u, 1); yield from out('unary', u, '(', 0, o, 1, ')')
            yield from out('unary', u, ID, o, u, 1)
    for u in '+-!~':
        yield from out('unary', u, 0)
        for w in '+-!~': yield from out('unary', u, w, 0)
    for a in OPS:
        for b in OPS:
            yield from out('precedence', 0, a, 1, b, 2)
            yield from out('parentheses', '(', 0, a, 1, ')', b, 2); yield from out('parentheses', 0, a, '(', 1, b, 2, ')')
    reps = [l[0] for l in LV]
    for a, b, c in itertools.product(range(len(LV)), repeat=3):
        yield from list(out('precedence', 0, reps[a], 1, LV[b][-1], 2, reps[c], 3))[:1]
    for a, b, c, d in itertools.product((0, 1, 3, 4, 8), repeat=4):
        yield from list(out('precedence', 0, LV[a][0], 1, LV[b][0], 2, LV[c][0], 3, LV[d][0], 4))[:1]
    for o in OPS:
        yield from out('conditional', 0, '?', 1, ':', 2, o, 3); yield from out('conditional', 0, '?', 1, o, 2, ':', 3); yield from out('conditional', 0, o, 1, '?', 2, ':', 3)
        yield from out('conditional', '(', 0, '?', 1, ':', 2, ')', o, 3); yield from out('conditional', 0, o, '(', 1, '?', 2, ':', 3, ')')
    yield from out('conditional', 0, '?', 1, ':', 2, '?', 3, ':', 4); yield from out('conditional', 0, '?', 1, '?', 2, ':', 3, ':', 4); yield from out('conditional', '(', 0, '?', 1, ':', 2, ')', '?', 3, ':', 4)
    # nothing is evaluated, in particular no division by zero, in operands C does not evaluate
    D = lambda *pre: [(1, '/', ID), (1, '%', ID), ('(', 2, '+', 1, '/', ID, ')'), ('(', 2, '?', 1, '/', ID, ':', 3, ')'), ('(', 2, '&&', 1, '%', ID, ')'), ('(', 2, '||', 1, '/', ID, ')'), ('-', '(', 1, '/', ID, ')'), ('(', '(', 4, '/', ID, ')', '?', 2, ':', 3, ')'), ('(', 1, '/', 2, ')'), ('(', '(', 1, '/', ID, ')', '&&', 2, ')')]
    for d in D():
        yield from out('unevaluated', 0, '&&', *d); yield from out('unevaluated', 0, '||', *d); yield from out('unevaluated', 0, '?', *d, ':', 3); yield from out('unevaluated', 0, '?', 3, ':', *d)
        yield from out('unevaluated', ID, '&&', *d); yield from out('unevaluated', '!', ID, '||', *d); yield from out('unevaluated', ID, '?', *d, ':', 3); yield from out('unevaluated', '!', ID, '?', 3, ':', *d)
        yield from out('unevaluated', ID, '&&', '(', 5, '||', '(', *d, ')', ')'); yield from out('unevaluated', '(', ID, '?', *d, ':', 3, ')', '+', 4)
    # literals
    for n, v in (('0', 0), ('7', 7), ('10', 10), ('017', 15), ('0x1f', 31), ('0XfF', 255), ('9223372036854775807', (1 << 63) - 1), ('0x7fffffffffffffff', (1 << 63) - 1), ('00', 0), ('2147483648', 1 << 31)):
        for sfx in ('', 'L', 'l', 'LL', 'll') + (() if v >= 1 << 63 else ('u', 'U', 'uL', 'UL', 'ul', 'ull', 'ULL', 'LU', 'llu', 'LLU', 'uLL', 'lU')):
            t = ('leaf', v, n + sfx)
            yield 'literals', [t], n + sfx
            if sfx in ('', 'UL', 'll'): yield 'literals', [t, '+', leaf(0)], n + sfx + '+1000'; yield 'literals', [leaf(0), '-', t], '1000-' + n + sfx; yield 'literals', ['(', t, ')'], '( ' + n + sfx + ')'
    for n in ('a', '_', '_x9', 'Zz', 'L', 'u', 'L2', 'int', 'true1'):
        yield 'literals', [('leaf', 0, n), '+', leaf(0)], n + '+1000'; yield 'literals', [leaf(0), '*', ('leaf', 0, n)], '1000 * ' + n + ' '
    ch = ('leaf', ('x', 'sext', 64, 32, ('x', 'v', 32, 'chr')), "'x'")
    for sp in ("'x'", "L'x'", "'\\n'", "'\\''"):
        yield 'literals', [ch], sp; yield 'literals', [ch, '==', leaf(0)], sp + '==1000'; yield 'literals', [leaf(0), '<', ch], '1000<' + sp
    for w in ('\t', '  ', ' \t '):
        yield 'literals', [leaf(0), '+', leaf(1)], w + '1000' + w + '+' + w + '1001' + w
    # malformed
    for b in ('', ' ', '1000 1001', '1000 +', '+', '( 1000', '1000 )', '(', ')', '()', '1000 ? 1001', '1000 ? : 1001', '1000 : 1001', '1000 ? 1001 :', '* 1000', '1000 * * 1001', '1000 + / 1001', '&& 1000', '1000 &&', '1000 ! 1001', '1000 ~ 1001', 'foo bar', 'foo(1000)', '1000 = 1001', '1000 , 1001', '1000 @', '1000 $', '"abc"',
              '1000 # 1001', '1000 <<< 1001', '1000 &&& 1001', '1000 !== 1001', '! ', '~', '(1000 + 1001', '((1000)', '1000 ? (1001 : 1002)', '1000[0]', '1000; ', '1000 <= = 1001', '1x', '08', '0x', '1.0', '1000 => 1001', '1000 =! 1001', '{1000}', '1000 . 1001', "'x", '1000 \xff 1001', '\xff', '1000 \xfd 1001', '1000 \xf8 1001'):
        yield 'malformed', None, b

def check():
    ck = Check('C08'); h = Harness(); p = h.p
    ck.rule('operators', 'every binary operator has its C meaning, whatever the operand values; identifiers are 0; division by zero is an error; no division traps')
    ck.rule('unary', 'unary + - ! ~ have their C meaning and bind tighter than any binary operator')
    ck.rule('precedence', 'every pair, and every chain of precedence levels, groups as in C, left to right within a level')
    ck.rule('parentheses', 'parentheses override precedence'); ck.rule('conditional', '?: binds looser than every binary operator and groups to the right')
    ck.rule('unevaluated', 'the unselected operand of && || ?: is not evaluated at any depth: a division by zero in it is no error')
    ck.rule('literals', 'integer literals of any base and suffix, character literals, identifiers and white space are recognised'); ck.rule('malformed', 'anything else is rejected')
    ck.rule('unsigned', 'operands with an unsigned type are compared and divided as unsigned')
    items = []; seen = set()
    for r, t, x in texts():
        if x in seen: continue
        seen.add(x); items.append((r, t, x))
    def one(q):
        r, t, x = q; n = 0
        if t is None:
            v, _ = h.run(x)
            return (None if v == 'die' else 'accepted with value %s' % sv(v)), 1
        e = tree(t)
        ident = any(isinstance(y, tuple) and y[2][:1].isalpha() or isinstance(y, tuple) and y[2][:1] == '_' for y in t)
        for asm, want in paths(e):
            n += 1
            v, hi = h.run(x, asm)
            if v == 'unknown': return 'value unknown', n
            w = want if want == 'die' else C(want)
            if v != w: return ('when %s: ' % show(asm) if asm else '') + 'yields %s, C: %s' % (sv(v), sv(w)), n
        return None, n
    ck.units['expressions'] = len(items); ck.units['paths'] = 0
    wh = p.fn('expr_eval').where; wp = p.fn('expr_parse').where
    for (r, t, x), (bad, n) in zip(items, pmap(one, items)):
        ck.units['paths'] += n
        ck.ob(r, bad is None, wp if r in ('precedence', 'parentheses', 'malformed') else wh, '#if %s: %s' % (x, bad), '%s/%s' % (r, x), sample=x if ck.units['paths'] % 211 == 0 else None)
    for x, want in (('-1 < 0u', 0), ('-1 / 2u > 5', 1), ('0xffffffffffffffff == 0u - 1', 1), ('18446744073709551615 > 1', 1), ('1 ? -1 : 0u', -1), ('(2 - 3 > 0u)', 1), ('-1 >> 63 == 1 - 0u * 2', 0)):
        v, _ = h.run(x)
        ck.ob('unsigned', v == C(want), wh, '#if %s yields %s, C: %d' % (x, sv(v), want), 'unsigned/' + x)
    ck.need('precedence', 1500); ck.need('operators', 100); ck.need('unevaluated', 100); ck.need('literals', 200)
    ck.assume += ['strtol reads the digits of the base C says; escape_char is C15', 'results of signed overflow and of out-of-range shifts are not constrained']
    return ck.finish('Expression texts with opaque operands are taken through the interpreted tokeniser, parser and evaluator of controlling expressions; the resulting term is compared with the C meaning for every outcome of every decision.')

def sv(v):
    from c07 import sval
    return v if isinstance(v, str) else sval(v)
def show(asm):
    from c07 import pp
    return ', '.join('%s%s %s %s' % ('' if b else 'not ', pp(k[1]), k[0], pp(k[2])) for k, b in asm.items())
