"""C28: line numbers. The preprocessor's line loop and the compiler's tokeniser are interpreted on source files; where each
piece of text is said to come from is compared with where it is."""
import re, itertools
import prog
from absint import C, TOP
from start import start_interp, P
from cpprun import CppRun, LIBC, strtol, cstr, fmt
from chk import Check, AnalysisBroken, pmap

# ------------------------------------------------------------------ source pieces; @ is a probe, ! a probe with __LINE__ __FILE__
PIECES = {
 'text': ['int @;'], 'text using __LINE__': ['!'], 'an empty line': [''], 'a definition': ['#define AN 1'], 'an #undef': ['#undef AN'], 'a null directive': ['#'], 'an indented directive': ['  #  define AN 2'],
 'a definition over three lines': ['#define AN 1 \\', ' 2 \\', ' 3'], 'text over two lines': ['@ \\', 'tail'], 'text over four lines': ['@ \\', 'a \\', 'b \\', 'c'],
 'a comment': ['@ /* c */ @ // d'], 'a comment over lines': ['@ /* c', 'd', '*/ @'], 'a comment starting /*/': ['@ /*/ c', 'd */ @'], 'comment lines': ['/*', '# define x', '#if 0', '*/'], 'a comment hiding a directive': ['/* a', '#include "i.h"', '*/ !'], 'two comments over lines': ['@ /* c', '*/ @ /* d', 'e */ @', '/* f', '*/'],
 'a comment before a directive over lines': ['/* a', 'b */ #define AN 3'], 'a comment after a directive over lines': ['#define AN /* a', 'b */', '!'], 'a directive continued by a comment': ['#define AN /* a', 'b */ 3 /* c', '*/', '!'], 'a directive continued twice': ['#if 1 /* a \\', 'b', '*/ /* c', 'd */', '!', '#endif /*', '*/'], 'a comment with spliced lines': ['/* a \\', 'b */ @ \\', 'c'],
 'a line comment over two lines': ['@ // x \\', 'more', '!'], 'a string': ['@ "a /* b // \\" c" @'], 
 'a skipped group': ['#if 0', 'x @', '#include "i.h"', '#line 7 "no"', '# 8 "no"', '#pragma x', '', '#endif'], 'a skipped group with spliced lines': ['#ifdef NO', 'x \\', 'y \\', '#endif', '/* ', '#endif', '*/', '#define a \\', 'b', '#endif'],
 'chosen groups': ['#if 0', '#elif 1', '!', '#include "i.h"', '!', '#else', '#include "i.h"', '#endif'], 'nested conditionals': ['#ifdef NO', '#if 1', '#else', '#endif', '#elif 1', '#ifndef NO', '!', '#endif', '#endif'],
 'an #include': ['#include "i.h"'], 'an #include of an empty file': ['#include "e.h"'], 'a nested #include': ['#include "n.h"'], 'a system header': ['#include <sys.h>'], 'two #includes': ['#include "i.h"', '#include "n.h"'], 'an #include of a file with #line': ['#include "l.h"'], 'an #include of a file without a final newline': ['#include "o.h"'],
 'an #include over two lines': ['#include \\', '"i.h"'], 'an #include followed by a comment': ['#include "i.h" /* a', 'b */'],
 '#line': ['#line 100'], '#line with a name': ['#line 200 "re.c"'], '#line with the same number': ['#line 3'], '#line backwards': ['#line 1 "m.c"'], 'a line marker': ['# 300 "mk.c"'], 'a line marker without name': ['# 77'], 'an octal-looking #line': ['#line 010'], 'a spliced #line': ['#line \\', '40'], 'an indented #line': [' # line  50  "in.c"'],
 'a pragma': ['#pragma foo bar'], 'a warning': ['#warning here'],
}
FILES = {'i.h': ['@', '#define AN 9', '!', '#warning i'], 'e.h': [], 'n.h': ['@', '#include "i.h"', '!', '#if 0', '#endif', '', '#include "e.h"', '@', '#include "i.h"', '!'], 'sys.h': ['!', '#include "i.h"', '@'], 'l.h': ['!', '#line 500', '!', '#line 600 "other.h"', '!', '#include "i.h"', '!'], 'o.h': ['@', ('!', 0)]}

def expand(files):
    """probes get their own names; returns files, and for each probe its file and physical line"""
    n = 0; out = {}
    for f in files:
        ls = []
        for l in files[f]:
            nl = 1
            if isinstance(l, tuple): l, nl = l
            while '@' in l or '!' in l:
                l = re.sub('[@!]', lambda m: ('p%d_' % n) + (' __LINE__ __FILE__ ,' if m.group(0) == '!' else ''), l, count=1); n += 1
            ls.append((l, nl) if nl == 0 else l)
        out[f] = ls
    return out
def logical(lines):
    """[(physical line of each character), text] of the logical lines, comments replaced"""
    t = []; 
    for k, l in enumerate(lines, 1):
        l = l[0] if isinstance(l, tuple) else l
        if l.rstrip().endswith('\\') : t += [(c, k) for c in l.rstrip()[:-1]]
        else: t += [(c, k) for c in l] + [('\n', k)]
    o = []; k = 0; s = ''.join(c for c, _ in t)
    while k < len(s):
        if s.startswith('/*', k):
            e = s.find('*/', k + 2) + 2; o.append((' ', t[k][1])); k = e
        elif s.startswith('//', k): k = s.find('\n', k)
        elif s[k] == '"':
            e = k + 1
            while s[e] not in '"\n': e += 2 if s[e] == '\\' else 1
            o += t[k:e + 1]; k = e + 1
        else: o.append(t[k]); k += 1
    return o
def firstlines(lines):
    """physical line -> first physical line of the spliced line it belongs to"""
    r = {}; f = None
    for k, l in enumerate(lines, 1):
        l = l[0] if isinstance(l, tuple) else l
        if f is None: f = k
        r[k] = f
        if not l.rstrip().endswith('\\'): f = None
    return r

def meaning(files):
    """what is where: list of (probe, file, line, includer chain) in output order, warnings, and the inclusion markers"""
    out = []; warns = []; defs = set(); incs = []
    def go(fn, chain):
        toks = logical(files[fn]); fl = firstlines(files[fn]); name = fn; delta = 0; cond = []; k = 0
        while k < len(toks):
            e = k
            while e < len(toks) and toks[e][0] != '\n': e += 1
            text = ''.join(c for c, _ in toks[k:e]); live = all(c[0] for c in cond); phys = toks[k][1]; end = toks[e][1] if e < len(toks) else phys
            ph = lambda x: fl[x] + delta
            d = re.match(r'\s*#\s*(\w*)\s*(.*)$', text)
            if d:
                w, a = d.group(1), d.group(2).strip()
                if w in ('if', 'ifdef', 'ifndef'): v = {'if': a == '1', 'ifdef': False, 'ifndef': True}[w]; cond.append([v, v])
                elif w == 'elif': v = not cond[-1][1] and a == '1'; cond[-1][0] = v; cond[-1][1] |= v
                elif w == 'else': cond[-1][0] = not cond[-1][1]; cond[-1][1] = True
                elif w == 'endif': cond.pop()
                elif not live: pass
                elif w == 'include':
                    n = a.strip('<>"'); incs.append((n, end + 1 + delta, name)); go(n, chain + [(name, end + delta)])
                elif w == 'line' or w.isdigit():
                    m = re.match(r'(\d+)(?:\s+"(.*)")?', a if w == 'line' else w + ' ' + a)
                    delta = int(m.group(1)) - (end + 1); name = m.group(2) or name
                elif w == 'warning': warns.append((name, end + delta, tuple(chain)))
            elif live:
                for m in re.finditer(r'(p\d+_)( __LINE__ __FILE__)?', text):
                    l = toks[k + m.start()][1]
                    out.append((m.group(1), name, ph(l), l + delta if m.group(2) else None))
            k = e + 1
    go('m.c', [])
    return out, warns, incs

RUN = None
def one(job):
    what, pieces, opts = job
    lines = ['@']
    for q in pieces: lines += PIECES[q] + ['!']
    lines += ['#warning end', '@', '!']
    files = expand(dict(FILES, **{'m.c': lines}))
    global RUN
    if RUN is None: RUN = CppRun()
    try: res = RUN.run(files, opts=opts, expand=('__LINE__', '__FILE__'), bt=True)
    except AnalysisBroken as e: raise AnalysisBroken('%s: %s' % (what, e))
    if not res: return what, 'the preprocessor crashes', 'preprocess (preproc.c)'
    if len(res) != 1: raise AnalysisBroken('C28: %d outcomes for %s: %s' % (len(res), what, RUN.forks[:2]))
    st, log = next(iter(res))
    if st != 'return': return what, 'preprocessing fails in %s' % log[-1][-1], log[-1][-1]
    want, warns, incs = meaning(files)
    markers = opts.get('option_line_info', 1)
    # where the output says things are
    buf = ''; at = []
    for e in log:
        if e[0] == 'out': buf += e[1]; at += [e[-1]] * len(e[1])
    name, line, got, pos, flags = None, None, [], 0, []
    for l in buf.split('\n'):
        w = at[pos] if pos < len(at) else ''
        m = re.match(r'#\s*(\d+) "([^"]*)"((?: \d)*)$', l)
        if m: name, line = m.group(2), int(m.group(1)); flags.append((line, name, tuple(m.group(3).split()), w))
        elif l.startswith('#'): pass
        else:
            for q in re.finditer(r'(p\d+_)(?: (\d+) "([^"]*)" ,)?', l): got.append((q.group(1), name, line, q.group(2) and int(q.group(2)), q.group(3), w))
            if line is not None: line += 1
        pos += len(l) + 1
    gp = {g[0]: g for g in got}
    for p, f, l, pl in want:
        if p not in gp: return what, 'text of %s:%d is not in the output' % (f, l), 'preprocess (preproc.c)'
        g = gp[p]
        if markers and (g[1], g[2]) != (f, l): return what, 'text of %s:%d is said to be at %s:%s' % (f, l, g[1], g[2]), g[-1]
        if pl is not None and (g[3], g[4]) != (pl, f): return what, '__LINE__ __FILE__ of %s:%d are %s %s' % (f, pl, g[3], g[4]), g[-1]
    if set(gp) - {p for p, *_ in want}: return what, 'skipped text is in the output', 'preprocess (preproc.c)'
    if markers:
        fs = [x for x in flags if '1' in x[2] or '2' in x[2]]
        exp = [(1, 'm.c', '1')]; stack = []
        k = 0
        starts = [x for x in fs if '1' in x[2]]; rets = [x for x in fs if '2' in x[2]]
        if [(x[0], x[1]) for x in starts] != [(1, 'm.c')] + [(1, n) for n, _, _ in incs]: return what, 'start-of-file markers are %s' % [(x[0], x[1]) for x in starts], fs[-1][3]
        if sorted((x[0], x[1]) for x in rets) != sorted((l, n) for _, l, n in incs): return what, 'return-to-file markers are %s, expected %s' % ([(x[0], x[1]) for x in rets], [(l, n) for _, l, n in incs]), fs[-1][3]
        depth = 0
        for x in fs:
            depth += 1 if '1' in x[2] else -1
            if depth < 1: return what, 'more returns than inclusions', x[3]
        if depth != 1: return what, 'inclusions without a return', fs[-1][3]
        for x in flags:
            if ('3' in x[2]) != (x[1].startswith('sys')) and ('1' in x[2] or '2' in x[2]): return what, 'system-header flag of the marker for %s is wrong' % x[1], x[3]
    gw = [(e[1], tuple(e[3])) for e in log if e[0] == 'warn_at' and e[2].startswith('#warning')]
    if len(gw) != len(warns): return what, '%d of %d #warnings reported' % (len(gw), len(warns)), 'handle_error_warning (directive.c)'
    for (g, bt), (f, l, chain) in zip(gw, warns):
        if g != (f, l): return what, '#warning of %s:%d is reported at %s' % (f, l, g and '%s:%s' % g), 'handle_error_warning (directive.c)'
        if [(a, b) for a, b in bt] != list(chain): return what, '#warning of %s:%d: the inclusion trace is %s, expected %s' % (f, l, list(bt), list(chain)), 'include_bt (preproc.c)'
    return what, None, None
def jobs():
    for a in PIECES: yield a, [a], {}
    for a, b in itertools.product(PIECES, PIECES):
        yield '%s, then %s' % (a, b), [a, b], {}
    for o in (1, 2):
        for a in PIECES:
            if 'comment' not in a: yield '%s (-C, mode %d)' % (a, o), [a, 'text'], {'strip_comments': o}
    for a in PIECES: yield '%s (-P)' % a, [a, 'text'], {'option_line_info': 0}

# ------------------------------------------------------------------ the compiler's side
def cc1_inputs():
    """(what, lines, [(token spelling, file, line, column)] )"""
    def tl(n): return ['a%d' % n, 'b%d c%d' % (n, n), '  d%d' % n]
    base = ['# 1 "m.c" 1', 'x0', 'y0']
    M = {'nothing': [], 'an include': ['# 1 "i.h" 1', 'i1', 'i2', '# 4 "m.c" 2'], 'a system include': ['# 1 "s.h" 1 3', 'i1', '# 4 "m.c" 2'], 'nested includes': ['# 1 "i.h" 1', 'i1', '# 1 "j.h" 1', 'j1', '# 3 "i.h" 2', 'i3', '# 4 "m.c" 2'],
         'an empty include': ['# 1 "i.h" 1', '# 4 "m.c" 2'], '#line': ['# 40 "m.c"'], '#line with a name': ['# 50 "o.c"'], 'a marker without a name': ['# 60'], 'the word line': ['#line 70 "p.c"'], '#line and back': ['# 50 "o.c"', 'o1', '# 6 "m.c"'], 'a marker with a leading zero': ['# 010 "m.c"'],
         'blank lines': ['', '', ''], 'an include of itself': ['# 1 "m.c" 1', 'q1', '# 4 "m.c" 2'], 'a renamed file including': ['# 8 "r.c"', 'r1', '# 1 "i.h" 1', 'i1', '# 10 "r.c" 2', 'r2'], 'a name with spaces': ['# 3 "a b.h" 1', 's1', '# 5 "m.c" 2'],
         'a comment': ['z1 /* c', 'd */ z2'], 'a marker-like line in a comment': ['z1 /*', '# 90 "no.c"', '*/ z2'], 'a line comment': ['z1 // c', 'z2'], 'a pragma': ['#pragma STDC', 'z1'], 'deep inclusion': sum((['# 1 "d%d.h" 1' % k, 'k%d' % k] for k in range(8)), []) + sum((['# 3 "d%d.h" 2' % (k - 1), 'l%d' % k] for k in range(7, 0, -1)), []) + ['# 4 "m.c" 2']}
    for a in M:
        for b in M: yield '%s, then %s' % (a, b), base + M[a] + tl(1) + M[b] + tl(2)
def cc1_meaning(lines):
    out = []; name, line, com = 'nm', 0, False; fs = []; plain = not any(l.startswith('#') and not l.endswith((' 1', ' 2', ' 3')) for l in lines)
    sysh = False; stack = []
    for l in lines:
        if not com and l.startswith('#'):
            m = re.match(r'#(?:\s*line)?\s+(\d+)(?:\s+"([^"]*)"((?: \d)*))?', l)
            if m:
                prev = line; line = int(m.group(1)) - 1; fl = (m.group(3) or '').split()
                if '1' in fl: fs.append([name, line]); 
                if '2' in fl and fs: fs.pop()
                if m.group(2):
                    if '1' in fl and len(fs) > 1: fs[-1][1] = prev
                    name = m.group(2); sysh = '3' in fl
            continue
        line += 1; k = 0
        while k < len(l):
            if com:
                e = l.find('*/', k)
                if e < 0: break
                com = False; k = e + 2; continue
            if l.startswith('/*', k): com = True; k += 2; continue
            if l.startswith('//', k): break
            m = re.match(r'\w+', l[k:])
            if m: out.append((m.group(0), name, line, k, sysh, tuple(map(tuple, fs[1:])) if plain else None)); k += m.end(); continue
            k += 1
    return out
CC = None
def cc1_one(job):
    what, lines = job
    global CC
    if CC is None: CC = prog.load('cc1')
    p = CC; want = cc1_meaning(lines)
    nop = lambda *a: C(0); ws = set()
    def src(I, a, i, m, k):
        n = next(iter(m.get(('RD', 0), C(0))))
        if n >= len(lines): return C(0)
        m[('RD', 0)] = C(n + 1); b = lines[n].encode() + b'\0'; o = 'B%d' % n
        I.objs[o] = b; ws.add(o)
        for x in range(len(b)): m[(o, x)] = C(b[x])
        return P(o)
    bt = []
    def fpr(I, a, i, m, k): bt.append(fmt(I, cstr(I, m, next(iter(a[1]))) or '', a[2:], '')); return C(0)
    st = dict(LIBC); st.update({'the_input': src, 'strtol': strtol, 'free': nop, 'pragma_handle': nop, 'fprintf': fpr, 'cc1_warn_at_w': nop})
    for f in p.defs():
        if f.file in ('warn.c',) and f.name not in p.noret: st.setdefault(f.name, nop)
    def wr(fn):
        def g(I, a, i, m, k): I.curmem = m; return fn(I, a, i, m, k)
        return g
    st = {k: wr(v) for k, v in st.items()}
    fn = {f.name for f in p.defs()}
    # any function of the reader's type stands for it: the stub is what decides what it returns
    rd = sorted(f for f in p.addr_taken if f in fn and p.f[f].file == 'main.c' and not p.f[f].d.get('params')) or None
    I = start_interp(p, stubs=st, objs={'NM': b'nm\0'})
    I.stubs['RD!'] = st['the_input']; I.wstr = ws; I.forks = []
    mem = I.init_mem(['tokenise_set_input', 'nexttoken'])
    for g in p.g:
        if not I.readonly(g) and not p.g[g].get('init'): I.zeroed.add('g:' + g)
    mem[('g:cc1_first_fname', 0)] = P('NM')
    try:
        r, mem = I.run('tokenise_set_input', [C(('f', 'RD!', 0)), P('NM')], mem)
        for w in want:
            if mem is None: return what, 'the tokeniser stops before %s' % w[0], 'nexttoken (tokenise.c)'
            r, mem = I.run('where_cc1_current', [P('W')], mem)
            g = lambda n: mem.get(('W', p.field_off('where', n)), TOP)
            def o1(v): return next(iter(v)) if v is not TOP and len(v) == 1 else None
            f, l, ch, sy = o1(g('fname')), o1(g('line')), o1(g('chr')), o1(g('is_sysh'))
            sp = cstr(I, mem, o1(mem.get(('g:currentspelling', 0), TOP))) if 'currentspelling' in p.g else w[0]
            f = cstr(I, mem, f)
            if None in (f, l, ch, sp): raise AnalysisBroken('C28: %s: position of %s unknown: %s %s' % (what, w[0], (f, l, ch, sp), I.forks[:3]))
            if sp != w[0]: return what, 'token %s is read as %s' % (w[0], sp), 'nexttoken (tokenise.c)'
            if (f, l) != w[1:3]: return what, 'token %s of %s:%d is reported at %s:%d' % (w[0], w[1], w[2], f, l), 'tokenise_read_line/handle_line_file_directive (tokenise.c)'
            if isinstance(ch, int) and ch != w[3]: return what, 'token %s of column %d is reported at column %d' % (w[0], w[3], ch), 'nexttoken (tokenise.c)'
            if bool(sy) != w[4]: return what, 'token %s: whether in a system header is wrong' % w[0], 'tokenise.c'
            if w[5] is not None:
                bt.clear(); I.run('include_bt', [P('stderr')], dict(mem))
                got = tuple((x.group(1), int(x.group(2))) for x in re.finditer(r'([^\n]*):(-?\d+): ', ''.join(bt)))
                if got != w[5]: return what, 'the inclusion trace of token %s is %s, expected %s' % (w[0], list(got), list(w[5])), 'include_bt (tokenise.c)'
            r, mem = I.run('nexttoken', [], mem)
    except AnalysisBroken as e: raise AnalysisBroken('%s: %s' % (what, e))
    return what, None, None

def check():
    c = Check('C28'); global RUN, CC
    RUN = CppRun(); CC = prog.load('cc1')
    r1 = c.rule('preprocessor', 'each piece of text, each __LINE__ and __FILE__, each #warning and its inclusion trace names the file and line it is on, and #includes and their ends are marked')
    r2 = c.rule('compiler', 'each token read by the compiler has the file, line and column that the line markers and the lines between them give it')
    js = list(jobs())
    for k, (what, bad, at) in enumerate(pmap(one, js)): c.ob(r1, bad is None, at or '', '%s: %s' % (what, bad), key='cpp/' + what, sample=what if k % 300 == 0 else None)
    cs = list(cc1_inputs())
    for what, bad, at in pmap(cc1_one, cs): c.ob(r2, bad is None, at or '', '%s: %s' % (what, bad), key='cc1/' + what)
    c.need(r1, 1500); c.need(r2, 300)
    c.units = {'preprocessor inputs': len(js), 'compiler inputs': len(cs), 'source pieces': len(PIECES)}
    c.assume = ['a token of a spliced line is on the first of its lines; __LINE__ on a spliced line is not judged']
    return c.finish('preprocess(), with macro expansion, and the compiler\'s nexttoken() were interpreted abstractly from program start on source texts made of every pair of the line-affecting pieces; every position they report was compared with the position in the text.')
