"""C20: conditional groups. The preprocessor's line loop is interpreted on every small shape of conditional; what it does and
prints is compared with the groups ISO C selects."""
import re, itertools
from cpprun import CppRun
from chk import Check, AnalysisBroken, pmap

# ------------------------------------------------------------------ meaning of an input
class Fatal(Exception): pass
TRUE = {'1': 1, '0': 0, 'defined YES': 1, 'defined(NO)': 0, '!defined YES': 0, '2 > 1': 1, '(0)': 0, '-1': 1, 'defined NO || defined YES': 1}
def meaning(files, main):
    """('return' | 'exit', effects in order)"""
    ev = []; defs = {'YES'}; stack = []      # stack: [live outside, some group taken, in else, live]
    def live(): return all(x[3] for x in stack)
    def cond(t):
        if t in TRUE: return TRUE[t]
        raise Fatal()
    def go(name):
        for l in files[name]:
            l = l.strip()
            if not l.startswith('#'):
                if live() and l: ev.append(('text', l))
                continue
            d = re.match(r'#\s*(\w*)\s*(.*)$', l); k, a = d.group(1), d.group(2).strip()
            if k in ('if', 'ifdef', 'ifndef'):
                if not live(): stack.append([False, True, False, False]); continue
                if k == 'if': c = cond(a)
                else:
                    if not re.fullmatch(r'[A-Za-z_]\w*', a): raise Fatal()
                    c = (a in defs) == (k == 'ifdef')
                stack.append([True, bool(c), False, bool(c)])
            elif k in ('elif', 'else', 'endif'):
                if not stack: raise Fatal()
                s = stack[-1]
                if k == 'endif': stack.pop(); continue
                if s[2]: raise Fatal()
                if k == 'else': s[2] = True; s[3] = s[0] and not s[1]; s[1] = True
                elif s[1]: s[3] = False
                else: c = cond(a); s[3] = bool(c); s[1] = bool(c)
            elif not live(): continue
            elif k == 'define':
                n = re.match(r'\w+', a).group(0); ev.append(('macro_add_func' if a[len(n):len(n) + 1] == '(' else 'macro_add', n)); defs.add(n)
            elif k == 'undef': ev.append(('macro_remove', a)); defs.discard(a)
            elif k == 'include': ev.append(('include', a.strip('<>"'))); go(a.strip('<>"'))
            elif k == 'pragma': ev.append(('text', '#pragma ' + a))
            elif k == 'warning': pass
            elif k == 'line': pass
            elif k == '' and (not a or a.isdigit()): pass
            else: raise Fatal()
    try: go(main)
    except Fatal: return 'exit', ev
    if stack: return 'exit', ev
    return 'return', ev

def effects(log):
    """comparable effects of a log, each with where it comes from"""
    r = []; buf = ''; bw = ''
    for e in log:
        w = e[-1]
        if e[0] == 'out':
            buf += e[1]; bw = w
            while '\n' in buf:
                l, buf = buf.split('\n', 1); t = re.sub(r'\s+', ' ', l).strip()
                if t and not re.match(r'# \d+ "', t): r.append((('text', t), w))
        elif e[0] in ('macro_add', 'macro_add_func', 'macro_remove', 'include'): r.append(((e[0], e[1]), w))
    if buf.strip(): r.append((('text', buf.strip()), bw))
    return r

# ------------------------------------------------------------------ inputs
class Num:
    def __init__(s): s.n = 0
    def __call__(s): s.n += 1; return s.n
def probe(n):
    k = n(); return ['t%d' % k, '#define M%d' % k]
def chain(n, opener, elifs, els, inner=lambda g: []):
    """a conditional whose group g holds probes and inner(g)"""
    r = [opener]; g = 0
    r += probe(n) + inner(g)
    for e in elifs: g += 1; r += ['#elif ' + e] + probe(n) + inner(g)
    if els: g += 1; r += ['#else'] + probe(n) + inner(g)
    return r + ['#endif'] + probe(n)
OPEN = ['#if 0', '#if 1', '#ifdef YES', '#ifdef NO', '#ifndef YES', '#ifndef NO']
ELIFS = [[], ['0'], ['1'], ['0', '0'], ['0', '1'], ['1', '0'], ['1', '1']]
# lines a skipped group may contain: none may have an effect
SKIPPED = ['text "unterminated', "it's", '#define', '#define 3', '#define f(', '#define f(a', '#define F(x) x', '#undef YES', '#undef', '#undef a b', '#include "i.h"', '#include <sys.h>', '#include "nofile"', '#include', '#include "', '#include MAC',
           '#error no', '#error "no', '#warning "w', '#pragma once', '#pragma', '#line 44', '#line 44 "f', '#line', '#line x', '# 12 "q"', '#nonsense', '#nonsense "x', '#!/bin/sh', '#', '# 3 4 5', '#"', '#(', '##', '#ident "x"', '#include_next <x>', '#assert x',
           '#iff 1', '#ifdefx', '#endifx', '#elsewhere', '#elifdef YES', '#if_', '@', '\\x', '#line -1', '#define YES(', '# define q 1', '  # undef YES']
# conditionals inside a skipped group: only their nesting counts
INNER = [['#if', '#endif'], ['#if )(', '#endif'], ['#if 1 /', '#endif'], ['#if 1', 'x', '#endif'], ['#if "', '#endif'], ['#ifdef', '#endif'], ['#ifdef 3 4', '#endif'], ['#ifndef', 'x', '#else', 'y', '#endif'], ['#ifndef NO', 'x', '#endif'],
         ['#if 0', '#elif )(', 'x', '#elif', 'y', '#else', 'z', '#endif'], ['#if 0', '#else', 'x', '#endif'], ['#if 0', '#elif 1', 'x', '#endif'], ['#if 1', '#elif 1', 'x', '#else', 'y', '#endif'], ['#if 1 == ', '#if 1', 'x', '#endif', '#else', 'y', '#endif'],
         ['#ifdef YES', '#ifdef YES', 'x', '#endif', 'y', '#else', 'w', '#endif'], ['#if 0', '#if 0', '#else', 'x', '#endif', 'y', '#endif', 'v'], ['# if 1', 'x', '#  endif']]
def deads():
    """(name, lines before, lines after): contexts that are skipped"""
    yield 'a false #if', ['#if 0'], ['#endif']
    yield 'a false #ifdef', ['#ifdef NO'], ['#endif']
    yield 'a false #ifndef', ['#ifndef YES'], ['#endif']
    yield 'the #else of a true #if', ['#if 1', '#else'], ['#endif']
    yield 'a false #elif', ['#if 0', '#elif 0'], ['#else', 'L', '#endif']
    yield 'a true #elif after a true #if', ['#if 1', '#elif 1'], ['#endif']
    yield 'the #else of a true #elif', ['#if 0', '#elif 1', 'L', '#else'], ['#endif']
    yield 'an #if in a skipped group', ['#if 0', '#if 1'], ['#endif', '#endif']
    yield 'an #else in a skipped group', ['#ifdef NO', '#if 0', '#else'], ['#endif', '#endif']
    yield 'an #elif in a skipped group', ['#if 0', '#ifdef YES', '#elif 1'], ['#else', '#endif', '#endif']
    yield 'a false #if in a live group', ['#if 1', '#if 0'], ['#endif', 'L', '#endif']
    yield 'before a live #elif', ['#if 0'], ['#elif 1', 'L', '#endif']
def inputs():
    """(rule, what, files, options)"""
    for o, e, s in itertools.product(OPEN, ELIFS, (0, 1)):
        n = Num(); yield 'the group selected is the first whose condition holds', ' '.join([o] + ['#elif ' + x for x in e] + ['#else'] * s), chain(n, o, e, s), {}
    for t in TRUE: yield 'the group selected is the first whose condition holds', 'condition ' + t, chain(Num(), '#if ' + t, ['0'], 1), {}
    for o in ('#if 1', '#ifdef YES', '#ifndef NO'):
        for g in (')(', '', '"x', "'x", '1 +', '1 / 0', '@', 'f('):
            yield 'a condition after the selected group is not evaluated', '%s #elif %s' % (o, g), ['A', o, 'x', '#elif ' + g, 'y', '#elif 1', 'z', '#else', 'w', '#endif', 'Z'], {}
            yield 'a condition after the selected group is not evaluated', '#if 0 #elif 1 #elif %s' % g, ['A', '#if 0', 'x', '#elif 1', 'y', '#elif ' + g, 'z', '#endif', 'Z'], {}
    R = 'nested conditionals'
    red = [(o, e, s) for o in ('#if 0', '#if 1') for e in ([], ['0'], ['1'], ['0', '1']) for s in (0, 1)]
    for (o, e, s), (o2, e2, s2) in itertools.product(red, red):
        n = Num(); yield R, '%s %s %s around %s %s %s' % (o, e, s, o2, e2, s2), chain(n, o, e, s, lambda g: chain(n, o2, e2, s2)), {}
    tiny = [('#if 0', [], 1), ('#if 1', [], 1), ('#ifdef NO', ['1'], 1), ('#ifdef YES', ['1'], 1), ('#if 0', ['0'], 1)]
    for a, b, c in itertools.product(tiny, repeat=3):
        n = Num(); yield R, '%s around %s around %s' % (a, b, c), chain(n, *a, inner=lambda g: chain(n, *b, inner=lambda h: chain(n, *c))), {}
    for name, b, a in deads():
        for l in SKIPPED: yield 'a line of a skipped group has no effect', '%r in %s' % (l, name), ['A'] + b + [l] + a + ['Z', '#define END'], {}
        for i in INNER: yield 'conditionals of a skipped group only nest', '%r in %s' % (' '.join(i), name), ['A'] + b + i + a + ['Z', '#define END'], {}
        for l in ('text', '#define Q "x" /* y', '#define Q', '#include "i.h"'):
            if '/*' in l: ls = [l, '#endif', '*/']
            else: ls = ['/* c */ x // y', l, '/* a', '#endif', '#else', '#define NO', 'b */ x']
            for o in (1, 2): yield 'a skipped group prints nothing when comments are kept', '%r in %s' % (l, name), ['A'] + b + ls + a + ['Z'], {'strip_comments': o}
            yield 'comments hide directives', '%r in %s' % (l, name), ['A'] + b + ls + a + ['Z'], {}
    R = 'misplaced conditional directives are errors'
    for b in [['#endif'], ['#else'], ['#elif 1'], ['#elif 0'], ['#if 1', '#endif', '#endif'], ['#if 0', '#endif', '#else'], ['#if 0', '#endif', '#elif 1'], ['#if 1'], ['#if 0'], ['#if 0', '#else'], ['#if 1', '#else'], ['#if 0', '#elif 1'],
              ['#ifdef YES', '#ifdef YES', '#endif'], ['#ifdef NO', '#ifdef NO', '#endif'], ['#if 1', '#else', '#else', '#endif'], ['#if 0', '#else', '#else', '#endif'], ['#if 0', '#else', '#elif 1', '#endif'], ['#if 1', '#else', '#elif 1', '#endif'],
              ['#if 0', '#elif 1', '#else', '#else', '#endif'], ['#if 0', '#elif 1', '#else', '#elif 0', '#endif'], ['#if 1', '#if 1', '#endif', '#else', '#else', '#endif'], ['#if 1', '#if', '#endif', '#endif'], ['#if 0', '#elif', '#endif'], ['#if )('], ['#ifdef', '#endif'],
              ['#ifdef 3', '#endif'], ['#nonsense'], ['#if 1', '#nonsense', '#endif'], ['#if 0', '#else', '#nonsense', '#endif'], ['#error'], ['#if 1', '#error x', '#endif'], ['#if 0', '#elif 1', '#error x', '#endif'], ['#if 0', '#if 1', '#endif']]:
        yield R, ' '.join(b), ['A'] + b + ['Z'], {}
    R = 'directives are recognised in every spelling'
    for o in ('#if 0', '# if 0', '  #if 0', '\t#\tif\t0', '#if 0 /* c */', '/* c */ #if 0', '#if /* c */ 0', '#if 0 // c', '#ifdef NO', '#ifdef /**/ NO', '#ifndef YES /* x */'):
        for e in ('#else', '# else', ' #  else ', '#else // x', '#else /* x */'):
            for z in ('#endif', '#endif // x', '  # endif /* x */'): yield R, ' '.join((o, e, z)), [o, 'x', '#define X', e, 'y', '#define Y', z, 'Z'], {}
    R = 'conditionals nest at least 60 deep'
    for d in (15, 60, 62):
        for o in ('#if 1', '#if 0', '#ifdef YES'): yield R, '%d x %s' % (d, o), ['A'] + [o] * d + ['x'] + ['#endif'] * d + ['Z'], {}
    R = 'header guards'
    yield R, 'a guarded header included twice', {'m.c': ['#include "g.h"', 'a', '#include "g.h"', 'b'], 'g.h': ['#ifndef G', '#define G', 'body', '#else', 'again', '#endif']}, {}
    yield R, 'a guarded header including itself', {'m.c': ['#include "g.h"', 'b'], 'g.h': ['#ifndef G', '#define G', '#include "g.h"', 'body', '#endif']}, {}
    yield R, 'conditionals around #include', {'m.c': ['#if 0', '#include "g.h"', '#elif 1', '#include "h.h"', '#else', '#include "g.h"', '#endif', 'b'], 'g.h': ['g'], 'h.h': ['#ifdef NO', 'n', '#else', 'h', '#endif']}, {}
    yield R, 'macros seen by later conditionals', ['#ifdef A', 'x', '#endif', '#define A', '#ifdef A', 'y', '#undef A', '#endif', '#ifdef A', 'z', '#endif', '#if 0', '#define B', '#endif', '#ifdef B', 'w', '#endif'], {}

RUN = None
def strip(files):
    """the input with its comments replaced as C does, for the meaning"""
    r = {}
    for n, ls in files.items():
        t = '\n'.join(ls); o = ''; k = 0
        while k < len(t):
            if t.startswith('/*', k):
                e = t.find('*/', k + 2); e = len(t) if e < 0 else e + 2
                o += ' ' + '\n' * t.count('\n', k, e); k = e
            elif t.startswith('//', k):
                e = t.find('\n', k); k = len(t) if e < 0 else e
            elif t[k] in '"\'':
                e = k + 1
                while e < len(t) and t[e] not in (t[k], '\n'): e += 2 if t[e] == '\\' else 1
                o += t[k:e + 1]; k = e + 1
            else: o += t[k]; k += 1
        r[n] = o.split('\n')
    return r
def one(job):
    rule, what, files, opts = job
    if isinstance(files, list): files = {'m.c': files}
    files = dict(files); files.setdefault('i.h', ['inc']); files.setdefault('sys.h', ['sys'])
    global RUN
    if RUN is None: RUN = CppRun()
    try: res = RUN.run(files, opts=opts, maxopen=8)
    except AnalysisBroken as e: raise AnalysisBroken('%s: %s' % (what, e))
    status, want = meaning(strip(files), 'm.c')
    want = [(k, re.sub(r'\s+', ' ', t)) for k, t in want]
    if not res: return rule, what, 'the preprocessor crashes (every path ends in undefined behaviour)', 'preprocess (preproc.c)'
    if len(res) != 1: raise AnalysisBroken('C20: %d outcomes for %s: %s' % (len(res), what, RUN.forks[:2]))
    st, log = next(iter(res))
    got = effects(log)
    if opts.get('strip_comments'):      # comments are printed with the text of live groups: compare the text without them
        got2 = []
        full = '\n'.join(e[0][1] for e in got if e[0][0] == 'text')
        got = [e for e in got if e[0][0] != 'text'] + [(('text', x), 'strip_comment') for x in full.split('\n') if x.strip()]
        want = [e for e in want if e[0] != 'text'] + [e for e in want if e[0] == 'text']
    ok = [g[0] for g in got] == want
    if ok and status == 'return' and st == 'return': return rule, what, None, None
    if ok and status == 'exit' and st.startswith('exit') and st != 'exit 0': return rule, what, None, None
    last = next((e[-1] for e in reversed(log) if e[0].startswith('die')), 'end of preprocess')
    for k in range(max(len(got), len(want))):
        g = got[k] if k < len(got) else None; w = want[k] if k < len(want) else None
        if g is None:
            if st != status and st != 'return': return rule, what, 'stops in %s, but %s %r should follow' % (last, w[0], w[1]), last
            return rule, what, '%s %r should take effect and does not' % w, 'parse_directive/filter_macros (directive.c, preproc.c)'
        if w is None or g[0] != w: return rule, what, '%s %r takes effect%s' % (g[0][0], g[0][1], '' if w is None else ' where %s %r should' % w), g[1]
    return rule, what, 'ends with %s, should %s' % (st, 'be accepted' if status == 'return' else 'be an error'), last

def check():
    c = Check('C20'); n = 0; global RUN
    RUN = CppRun()
    for rule, what, bad, at in pmap(one, list(inputs())):
        c.rule(rule, rule); n += 1
        c.ob(rule, bad is None, at or '', '%s: %s' % (what, bad), key='%s/%s' % (rule, what), sample=what if n % 150 == 0 else None)
    c.need('nested conditionals', 250); c.need('a line of a skipped group has no effect', 400); c.need('misplaced conditional directives are errors', 30)
    c.units = {'inputs interpreted': n, 'undecided branches': 0, 'functions': sorted(f.name for f in RUN.p.defs() if f.file in ('preproc.c', 'directive.c'))}
    c.assume = ['eval_expand_macros is the identity (macro expansion is C12)', 'the macro table, file opening and output are modelled']
    return c.finish('preprocess() was interpreted abstractly from program start on each input: every shape of conditional with up to two #elif, nested to depth three, with every kind of line in every kind of skipped group. All branches were decided; the macro-table changes, inclusions and printed text, in order, and the kind of ending were compared with the groups ISO C 6.10.1 selects.')
