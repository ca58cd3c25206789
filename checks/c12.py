"""C12: tokens, keywords, operators and their grammar. The tokeniser and the expression parser are interpreted from
their public entry points over abstract input (one punctuator or word followed by every possible next character; token
sequences whose operands are opaque) and compared with the C grammar."""
import string
import prog
from absint import C, TOP
from start import start_interp, P
from chk import Check, AnalysisBroken, pmap

PUNCT = {'(': 'open_paren', ')': 'close_paren', '[': 'open_square', ']': 'close_square', '{': 'open_block', '}': 'close_block',
    '.': 'dot', '->': 'ptr', '++': 'increment', '--': 'decrement', '&': 'and', '*': 'multiply', '+': 'plus', '-': 'minus', '~': 'bnot', '!': 'not',
    '/': 'divide', '%': 'modulus', '<<': 'shiftl', '>>': 'shiftr', '<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge', '==': 'eq', '!=': 'ne',
    '^': 'xor', '|': 'or', '&&': 'andsc', '||': 'orsc', '?': 'question', ':': 'colon', ';': 'semicolon', '...': 'elipsis', '=': 'assign',
    '*=': 'multiply_assign', '/=': 'divide_assign', '%=': 'modulus_assign', '+=': 'plus_assign', '-=': 'minus_assign',
    '<<=': 'shiftl_assign', '>>=': 'shiftr_assign', '&=': 'and_assign', '^=': 'xor_assign', '|=': 'or_assign', ',': 'comma'}
ALWAYS, C99, EXT = 1, 2, 4
KW = {k: (k, ALWAYS) for k in 'auto break case char const continue default do double else enum extern float for goto if int long register return short signed sizeof static struct switch typedef union unsigned void volatile while _Bool _Noreturn _Alignof _Alignas _Generic _Static_assert'.split()}
KW.update({'inline': ('inline', C99 | EXT), 'restrict': ('restrict', C99), 'asm': ('asm', EXT), 'typeof': ('typeof', EXT)})
for k in ('asm', 'inline', 'const', 'volatile', 'restrict', 'signed', 'typeof'):
    KW['__' + k] = KW['__' + k + '__'] = (k, ALWAYS)
for k in ('__alignof', '__alignof__'): KW[k] = ('__alignof', ALWAYS)
for k in ('__attribute', '__attribute__'): KW[k] = ('attribute', ALWAYS)
for k in ('__builtin_va_list', '__auto_type', '__extension__', '__label__'): KW[k] = (k, ALWAYS)
# binary operators: precedence level (higher binds tighter)
PREC = {}
for lv, ops in enumerate((['orsc'], ['andsc'], ['or'], ['xor'], ['and'], ['eq', 'ne'], ['lt', 'gt', 'le', 'ge'], ['shiftl', 'shiftr'], ['plus', 'minus'], ['multiply', 'divide', 'modulus'])):
    for x in ops: PREC[x] = lv
COMP = ['multiply', 'divide', 'modulus', 'plus', 'minus', 'shiftl', 'shiftr', 'and', 'xor', 'or']
UNARY = {'plus': 'op_plus', 'minus': 'op_minus', 'bnot': 'op_bnot', 'not': 'op_not'}

class Harness:
    def __init__(s):
        s.p = p = prog.load('cc1'); s.T = p.enum_of('token_plus'); s.inv = {}
        for k, v in s.T.items(): s.inv.setdefault(v, k)
        s.OP = {}
        for k, v in p.enum_of('op_plus').items(): s.OP.setdefault(v, k)
        s.quiet = {f.name for f in p.defs() if f.file in ('warn.c', 'where.c') and f.name not in p.noret}
        s.steps = 0
    # ------------------------------------------------ tokeniser
    def lex(s, text, mode=None, count=1):
        """(tokens, characters consumed by the last) for the first tokens of a line"""
        def line(I, a, i, m, k):
            c = m.get(('ST', 0), C(0)); m[('ST', 0)] = C(1)
            return P('BUF') if c == C(0) else C(0)
        I = start_interp(s.p, stubs={'LINEF': line, 'parse_line_directive': lambda *a: C(0)}, objs={'BUF': text.encode('latin1') + b'\n\0'}, skip=s.quiet)
        mem = I.init_mem(['tokenise_set_input', 'tokenise_set_mode']); mem[('ST', 0)] = C(0)
        if mode is not None:
            rv, mem = I.run('tokenise_set_mode', [C(mode)], mem)
            if mem is None: return None
        r = []
        rv, mem = I.run('tokenise_set_input', [C(('f', 'LINEF')), P('g:X')], mem)
        for k in range(count):
            if k and mem is not None: rv, mem = I.run('nexttoken', [], mem)
            if mem is None: return r + ['rejected']
            t = mem.get(('g:curtok', 0), TOP)
            r.append('unknown' if t is TOP or len(t) != 1 else s.inv.get(next(iter(t)), '?')[6:])
        sp = mem.get(('g:bufferpos', 0), TOP)
        r.append(None if sp is TOP or len(sp) != 1 or not isinstance(next(iter(sp)), tuple) else next(iter(sp))[2])
        return r
    # ------------------------------------------------ expression parser
    def parse(s, toks, types=False):
        p, T = s.p, s.T; o = p.off
        seq = [T['token_' + t] for t in toks] + [T['token_eof']]
        TYPES = {T['token_int']}
        def adv(m):
            c = next(iter(m[('ST', 0)])); m[('ST', 0)] = C(c + 1); m[('g:curtok', 0)] = C(seq[min(c, len(seq) - 1)]); return c - 1
        def nt(I, a, i, m, k): adv(m); return TOP
        def ident(I, a, i, m, k):
            if m[('g:curtok', 0)] != C(T['token_identifier']): return NotImplemented
            c = adv(m); n = 'ID%d' % c
            m[(n, o('expr', 'f_fold'))] = C(('f', 'OPERAND')); m[(n, o('expr', 'bits.op.op'))] = C(c)
            return P(n)
        def ptype(I, a, i, m, k):
            c = m[('g:curtok', 0)]
            if c is not TOP and len(c) == 1 and next(iter(c)) in TYPES: adv(m); return P('TY')
            return C(0)
        I = start_interp(p, stubs={'nexttoken': nt, 'parse_type': ptype, 'parse_expr_identifier': ident, 'where_cc1_current': lambda *a: TOP, 'builtin_parse': lambda *a: C(0)},
            skip=s.quiet, budget=4000000)
        I.zeroed |= {'g:' + g for g in p.g}
        mem = {('ST', 0): C(1), ('g:curtok', 0): C(seq[0]), ('g:curtok_save', 0): C(T['token_unknown'])}
        rv, mo = I.run('parse_expr_exp', [P('SCOPE'), C(0)], mem)
        if mo is None: return 'rejected', None, None
        used = mo.get(('ST', 0)); err = mo.get(('g:parse_had_error', 0), C(0))
        return s.node(mo, rv), (next(iter(used)) - 1 if used is not TOP and len(used) == 1 else None), err
    def node(s, m, v, depth=0):
        o = s.p.off
        if v is TOP or len(v) != 1 or depth > 30: return '?'
        a = next(iter(v))
        if a == 0: return None
        if not (isinstance(a, tuple) and a[0] == 'p'): return '?'
        def g(path):
            x = m.get((a[1], a[2] + o('expr', path)), C(0))
            return '?' if x is TOP or len(x) != 1 else next(iter(x))
        k = g('f_fold')
        if not isinstance(k, tuple): return '?'
        k = k[1].replace('fold_expr_', '')
        if k == 'OPERAND': return g('bits.op.op')
        r = [k]
        if k == 'op': r.append(s.OP.get(g('bits.op.op')))
        if k == 'assign_compound': r += [s.OP.get(g('bits.compoundop.op')), 'post' if g('assign_is_post') not in (0, '?') else 'pre']
        if k == 'struct': r.append('->' if g('expr_is_st_dot') == 0 else '.') if False else None
        for f in ('lhs', 'rhs', 'expr'):
            x = m.get((a[1], a[2] + o('expr', f)), C(0))
            if x != C(0): r += [f, s.node(m, x, depth + 1)]
        return tuple(x for x in r if x is not None)

def opn(k): return 'op_' + k
def binop(o, l, r): return ('op', opn(o), 'lhs', l, 'rhs', r)
def comp(o, l, r): return ('assign_compound', opn(o), 'pre', 'lhs', l, 'rhs', r)
def assign(l, r): return ('assign', 'lhs', l, 'rhs', r)
def cond(c, l, r): return ('if', 'lhs', l, 'rhs', r, 'expr', c)
def comma(l, r): return ('comma', 'lhs', l, 'rhs', r)
ONE = ('val',)

def lex_oracle(text, words=True):
    """longest match over the C punctuators; None when the first token is not a punctuator"""
    for n in (3, 2, 1):
        if text[:n] in PUNCT and len(text[:n]) == n: return PUNCT[text[:n]], n
    return None

def check():
    ck = Check('C12'); h = Harness(); p = h.p; units = ck.units; units['inputs'] = 0
    ck.rule('punctuators', 'a punctuator is recognised by longest match whatever character follows it')
    ck.rule('keywords', 'a word is a keyword exactly when it is spelt like one that the language mode has')
    ck.rule('binary-precedence', 'a op1 b op2 c groups by C precedence, left to right at one level')
    ck.rule('unary', 'prefix and postfix operators bind tighter than binary ones and build their own operation')
    ck.rule('assignment', 'assignment, compound assignment, ?: and comma have their C precedence and associativity; compound assignment and ++/-- apply the matching operator')
    ck.rule('token-maps', 'tokens map to the type, qualifier, storage class and operator of their name')
    ck.rule('operator-tables', 'each operator is classified (commutative, comparison, short-circuit, integer-only, boolean) as C defines')
    lexf = p.fn('nexttoken'); parf = p.fn('parse_expr_exp')
    # ---- punctuators
    nexts = [chr(c) for c in range(32, 127)] + ['\t', '\n']
    items = []
    for t in PUNCT:
        for c in nexts:
            s = t + c
            if t == '.' and c.isdigit(): continue                 # a number
            if s.startswith('//') or s.startswith('/*'): continue  # comments
            if s == '..' : continue
            items.append(s)
    # `~=`, `!==`, `..` and the like are not valid C in any context
    items = [s for s in items if not s.startswith('~=')]
    def dolex(s):
        r = h.lex(s + ' x')
        if s == '... ': pass
        w = lex_oracle(s + ' x')
        return r[0] == w[0] and r[-1] == w[1], r, w
    for s, (ok, r, w) in zip(items, pmap(dolex, items)):
        units['inputs'] += 1
        ck.ob('punctuators', ok, lexf.where, '%r is read as %s (%s characters), C says %s (%d)' % (s, r[0], r[-1], w[0], w[1]), 'punct/' + s, sample='%r -> %s' % (s, r[0]) if s in ('<<=', '->x') else None)
    # the token after another one does not depend on the first
    firsts = sorted(PUNCT) + ['int', 'foo']
    items = [(a, b) for a in firsts for b in ('+', '<<=', '->', '--', '...', '!', 'while', 'bar', '>=', '&&', '%=')]
    def two(x):
        a, b = x
        r = h.lex(a + ' ' + b + ' x', count=2)
        if a == 'int': wa = 'int'
        elif a == 'foo': wa = 'identifier'
        else: wa = PUNCT[a]
        wb = 'while' if b == 'while' else 'identifier' if b == 'bar' else PUNCT[b]
        return r[:2] == [wa, wb], r, (wa, wb)
    for x, (ok, r, w) in zip(items, pmap(two, items)):
        units['inputs'] += 1
        ck.ob('punctuators', ok, lexf.where, '%r is read as %s, C says %s' % (' '.join(x), r, w), 'pair/%s %s' % x)
    # ---- keywords
    MODES = p.enum_of('KW_C99'); 
    modes = [MODES['KW_ALL'], MODES['KW_ALL'] | MODES['KW_C99'], MODES['KW_ALL'] | MODES['KW_EXT'], MODES['KW_ALL'] | MODES['KW_C99'] | MODES['KW_EXT']]
    mask = {MODES['KW_ALL']: ALWAYS, MODES['KW_C99']: C99, MODES['KW_EXT']: EXT}
    words = set(KW)
    for k in list(KW): words |= {k[:-1], k + 'x', k + '_', k + '1', k.upper(), k.capitalize(), '_' + k, k[1:], 'x' + k}
    words |= {'a$b', '$', '_', 'a1b_2', 'x$int', 'int$'}
    words = sorted(w for w in words if w and not w[0].isdigit() and w not in ('L', '_Pragma'))
    def word(x):
        w, m = x
        en = sum(v for k, v in mask.items() if m & k) | ALWAYS
        want = KW[w][0] if w in KW and KW[w][1] & en else 'identifier'
        rs = [h.lex(w + e, m) for e in ((' x', '(', ';') if w in KW else (' x',))]
        return all(r[0] == want and r[-1] == len(w) for r in rs), rs, want
    items = [(w, m) for w in words for m in (modes if w in KW else modes[-1:])]
    for x, (ok, r, w) in zip(items, pmap(word, items)):
        units['inputs'] += 1
        ck.ob('keywords', ok, lexf.where, 'word %s in mode %d is %s, should be %s' % (x[0], x[1], [q[0] for q in r], w), 'kw/%s/%d' % x)
    # ---- binary operators
    I = 'identifier'
    bins = sorted(PREC)
    items = [(a, b) for a in bins for b in bins]
    def pb(x):
        a, b = x
        got = h.parse([I, a, I, b, I])
        want = binop(b, binop(a, 0, 2), 4) if PREC[a] >= PREC[b] else binop(a, 0, binop(b, 2, 4))
        return got == (want, 5, C(0)), got, want
    for x, (ok, got, want) in zip(items, pmap(pb, items)):
        units['inputs'] += 1
        ck.ob('binary-precedence', ok, parf.where, 'a %s b %s c parses as %s, C says %s' % (x[0], x[1], got, want), 'prec/%s/%s' % x, sample='a %s b %s c' % x if x == ('plus', 'shiftl') else None)
    # ---- assignment, ?: and comma against everything
    asg = ['assign'] + [c + '_assign' for c in COMP]
    def mk(t, l, r): return assign(l, r) if t == 'assign' else comp(t[:-7], l, r)
    items = []
    for a in asg:
        items.append(([I, a, I], mk(a, 0, 2)))
        for b in asg: items.append(([I, a, I, b, I], mk(a, 0, mk(b, 2, 4))))
        for b in bins: items.append(([I, a, I, b, I], mk(a, 0, binop(b, 2, 4))))
        items.append(([I, a, I, 'comma', I], comma(mk(a, 0, 2), 4)))
        items.append(([I, 'comma', I, a, I], comma(0, mk(a, 2, 4))))
        items.append(([I, a, I, 'question', I, 'colon', I], mk(a, 0, cond(2, 4, 6))))
        items.append(([I, 'question', I, a, I, 'colon', I], cond(0, mk(a, 2, 4), 6)))
    for b in bins:
        items.append(([I, b, I, 'question', I, 'colon', I], cond(binop(b, 0, 2), 4, 6)))
        items.append(([I, 'question', I, b, I, 'colon', I], cond(0, binop(b, 2, 4), 6)))
        items.append(([I, 'question', I, 'colon', I, b, I], cond(0, 2, binop(b, 4, 6))))
        items.append(([I, b, I, 'comma', I], comma(binop(b, 0, 2), 4)))
        items.append(([I, 'comma', I, b, I], comma(0, binop(b, 2, 4))))
        items.append(([I, b, 'open_paren', I, 'comma', I, 'close_paren'], binop(b, 0, comma(3, 5))))
    items += [([I, 'question', I, 'colon', I, 'question', I, 'colon', I], cond(0, 2, cond(4, 6, 8))),
              ([I, 'question', I, 'question', I, 'colon', I, 'colon', I], cond(0, cond(2, 4, 6), 8)),
              ([I, 'question', I, 'comma', I, 'colon', I], cond(0, comma(2, 4), 6)),
              ([I, 'question', I, 'colon', I, 'comma', I], comma(cond(0, 2, 4), 6)),
              ([I, 'comma', I, 'question', I, 'colon', I], comma(0, cond(2, 4, 6))),
              ([I, 'question', 'colon', I], ('if', 'rhs', 3, 'expr', 0))]
    for a in asg:
        items.append(([I, 'question', I, 'colon', I, a, I], mk(a, cond(0, 2, 4), 6)))    # not C: must not become an assignment in the branch
        for b in bins: items.append(([I, b, I, a, I], mk(a, binop(b, 0, 2), 4)))
    # ---- unary and postfix
    un = []
    for t, o_ in UNARY.items(): un.append((t, lambda x, o_=o_: ('op', o_, 'lhs', x)))
    un.append(('multiply', lambda x: ('deref', 'expr', x)))
    un.append(('increment', lambda x: ('assign_compound', 'op_plus', 'pre', 'lhs', x, 'rhs', ONE)))
    un.append(('decrement', lambda x: ('assign_compound', 'op_minus', 'pre', 'lhs', x, 'rhs', ONE)))
    un.append(('and', lambda x: ('addr', 'lhs', x)))
    post = [(['increment'], lambda x, n: ('assign_compound', 'op_plus', 'post', 'lhs', x, 'rhs', ONE)),
            (['decrement'], lambda x, n: ('assign_compound', 'op_minus', 'post', 'lhs', x, 'rhs', ONE)),
            (['open_square', I, 'close_square'], lambda x, n: ('deref', 'expr', ('op', 'op_plus', 'lhs', x, 'rhs', n + 1))),
            (['open_paren', 'close_paren'], lambda x, n: ('funcall', 'expr', x))]
    uitems = []
    for t, f in un:
        uitems.append(([t, I], f(1)))
        for b in bins:
            uitems.append(([t, I, b, I], binop(b, f(1), 3)))
            uitems.append(([I, b, t, I], binop(b, 0, f(3))))
        uitems.append(([t, I, 'assign', I], assign(f(1), 3)))
        for t2, f2 in un:
            if t == t2 == 'and': continue
            uitems.append(([t, t2, I], f(f2(2))))
        for ps, pf in post: uitems.append(([t, I] + ps, f(pf(1, 2))))
        uitems.append((['open_paren', 'int', 'close_paren', t, I], ('cast', 'expr', f(4))))
        uitems.append(([t, 'open_paren', 'int', 'close_paren', I], f(('cast', 'expr', 4))))
    for ps, pf in post:
        for b in bins:
            uitems.append(([I] + ps + [b, I], binop(b, pf(0, 1), len(ps) + 2)))
            uitems.append(([I, b, I] + ps, binop(b, 0, pf(2, 3))))
        for ps2, pf2 in post: uitems.append(([I] + ps + ps2, pf2(pf(0, 1), 1 + len(ps))))
        uitems.append((['open_paren', 'int', 'close_paren', I] + ps, ('cast', 'expr', pf(3, 4))))
    for b in bins: uitems.append((['open_paren', 'int', 'close_paren', I, b, I], binop(b, ('cast', 'expr', 3), 5)))
    for b in bins: uitems.append((['open_paren', I, b, I, 'close_paren', 'multiply', I], binop('multiply', binop(b, 1, 3), 6)))
    def pe(x):
        got = h.parse(x[0]); return got == (x[1], len(x[0]), C(0)), got
    both = [('assignment', x) for x in items] + [('unary', x) for x in uitems]
    for (rule, x), (ok, got) in zip(both, pmap(lambda y: pe(y[1]), both)):
        units['inputs'] += 1
        ck.ob(rule, ok, parf.where, '`%s` parses as %s, C says %s' % (' '.join(x[0]), got, x[1]), 'expr/' + ' '.join(x[0]))
    # ---- maps
    maps = {'curtok_to_op': ({t: 'op_' + t for t in list(PREC) + ['not', 'bnot']}, 'op_unknown', p.enum_of('op_plus')),
            'curtok_to_compound_op': ({t + '_assign': 'op_' + t for t in COMP}, 'op_unknown', p.enum_of('op_plus')),
            'curtok_to_type_primitive': ({'void': 'type_void', '_Bool': 'type__Bool', 'char': 'type_nchar', 'short': 'type_short', 'int': 'type_int', 'long': 'type_long', 'float': 'type_float', 'double': 'type_double'}, 'type_unknown', p.enum_of('type_double')),
            'curtok_to_type_qualifier': ({'const': 'qual_const', 'volatile': 'qual_volatile', 'restrict': 'qual_restrict'}, 'qual_none', p.enum_of('qual_const')),
            'curtok_to_decl_storage': ({'auto': 'store_auto', 'extern': 'store_extern', 'static': 'store_static', 'typedef': 'store_typedef', 'register': 'store_register'}, None, p.enum_of('store_auto'))}
    for fn, (mp, dflt, en) in maps.items():
        f = p.fn(fn)
        for t, v in h.T.items():
            t = t[6:]
            if t in ('eof', 'unknown', 'not_assign', 'bnot_assign'): continue
            I_ = start_interp(p, skip=h.quiet)
            rv, mo = I_.run(f, [], {('g:curtok', 0): C(v)})
            want = en[mp[t]] if t in mp else (en[dflt] if dflt else -1)
            units['inputs'] += 1
            ck.ob('token-maps', rv == C(want), f.where, '%s for %s gives %s, not %s' % (fn, t, rv, mp.get(t, dflt)), 'map/%s/%s' % (fn, t))
    # ---- operator classification
    OPN = p.enum_of('op_plus')
    cls = {'op_is_commutative': lambda o: o in ('multiply', 'plus', 'xor', 'or', 'and', 'eq', 'ne'), 'op_is_comparison': lambda o: o in ('eq', 'ne', 'le', 'lt', 'ge', 'gt'),
           'op_is_shortcircuit': lambda o: o in ('andsc', 'orsc'), 'op_returns_bool': lambda o: o in ('eq', 'ne', 'le', 'lt', 'ge', 'gt', 'andsc', 'orsc', 'not'),
           'op_can_float': lambda o: o not in ('modulus', 'xor', 'or', 'and', 'shiftl', 'shiftr', 'bnot')}
    for fn, pred in cls.items():
        f = p.fn(fn)
        for o_ in list(PREC) + ['not', 'bnot']:
            I_ = start_interp(p)
            rv, mo = I_.run(f, [C(OPN['op_' + o_])], {})
            units['inputs'] += 1
            ok = rv is not TOP and len(rv) == 1 and (next(iter(rv)) != 0) == bool(pred(o_))
            if fn == 'op_is_commutative' and rv == C(0): ok = True    # claiming less is safe
            ck.ob('operator-tables', ok, f.where, '%s(%s) is %s' % (fn, o_, rv), 'cls/%s/%s' % (fn, o_))
    ck.need('punctuators', 4000); ck.need('binary-precedence', 300)
    ck.assume += ['expression statements, declarations and initialisers are outside; comments and numbers are lexed elsewhere (C22)', 'the C locale character classes']
    return ck.finish('The tokeniser and expression parser are interpreted from their entry points: every punctuator and word with every following character, every pair of operators around opaque operands, every token map.')
