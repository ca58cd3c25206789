"""The preprocessor's line loop interpreted on given source files: what it does and prints, in order, on its one path."""
import prog
from absint import C, TOP, wrap
from start import start_interp, P
from chk import AnalysisBroken

def _one(v): return next(iter(v)) if v is not TOP and len(v) == 1 else None
def byte(I, m, o, k):
    v = m.get((o, k))
    if v is not None: v = _one(v); return v & 255 if isinstance(v, int) else None
    if (o, None) in m: return None
    if o in I.objs: b = I.objs[o]; return b[k] if 0 <= k < len(b) else None
    if o in I.zeroed: return 0
    if isinstance(o, str) and o.startswith('g:') and I.readonly(o[2:]):
        i = I.p.g[o[2:]].get('init')
        if i and i[0] == 'str': b = bytes.fromhex(i[1]); return b[k] if 0 <= k < len(b) else None
        if i and i[0] == 'zero': return 0
    return None
def rawbytes(I, m, a, n=None, limit=4096):
    """bytes at a pointer: n of them, or up to the terminator"""
    if not (isinstance(a, tuple) and a[0] == 'p') or a[2] is None: return None
    r = bytearray(); k = a[2]
    while n is None or len(r) < n:
        c = byte(I, m, a[1], k)
        if c is None or len(r) > limit: return None
        if n is None and c == 0: break
        r.append(c); k += 1
    return bytes(r)
def cstr(I, m, a):
    b = rawbytes(I, m, a); return None if b is None else b.decode('latin1')
def put(m, a, b):
    for x, c in enumerate(b): m[(a[1], a[2] + x)] = C(c if c < 128 else c - 256)
class Unknown(Exception): pass
def libc():
    """the string functions, on abstract memory"""
    def S(I, m, v):
        r = cstr(I, m, _one(v))
        if r is None: raise Unknown()
        return r
    def N(v):
        v = _one(v)
        if not isinstance(v, int): raise Unknown()
        return v
    def ptr(v, k): v = _one(v); return P(v[1], v[2] + k)
    def sign(x, y): return C((x > y) - (x < y))
    def strlen(I, a, i, m, k): return C(len(S(I, m, a[0])))
    def strcmp(I, a, i, m, k): return sign(S(I, m, a[0]), S(I, m, a[1]))
    def pre(I, m, v, n):
        a = _one(v); r = ''
        if not (isinstance(a, tuple) and a[0] == 'p'): raise Unknown()
        for x in range(n):
            c = byte(I, m, a[1], a[2] + x)
            if c is None: raise Unknown()
            if c == 0: break
            r += chr(c)
        return r
    def strncmp(I, a, i, m, k): n = N(a[2]); return sign(pre(I, m, a[0], n), pre(I, m, a[1], n))
    def memcmp(I, a, i, m, k):
        n = N(a[2]); x, y = rawbytes(I, m, _one(a[0]), n), rawbytes(I, m, _one(a[1]), n)
        if x is None or y is None: raise Unknown()
        return sign(x, y)
    def strchr(I, a, i, m, k):
        s = S(I, m, a[0]); c = chr(N(a[1]) & 255)
        if c == '\0': return ptr(a[0], len(s))
        x = s.find(c) if i.callee == 'strchr' else s.rfind(c)
        return ptr(a[0], x) if x >= 0 else C(0)
    def strstr(I, a, i, m, k): x = S(I, m, a[0]).find(S(I, m, a[1])); return ptr(a[0], x) if x >= 0 else C(0)
    def strpbrk(I, a, i, m, k):
        s, t = S(I, m, a[0]), S(I, m, a[1])
        for x, c in enumerate(s):
            if c in t: return ptr(a[0], x)
        return C(0)
    def span(I, a, i, m, k):
        s, t = S(I, m, a[0]), S(I, m, a[1]); n = 0
        while n < len(s) and (s[n] in t) == (i.callee == 'strspn'): n += 1
        return C(n)
    def strcpy(I, a, i, m, k): put(m, _one(a[0]), S(I, m, a[1]).encode('latin1') + b'\0'); return a[0]
    def stpcpy(I, a, i, m, k): s = S(I, m, a[1]); put(m, _one(a[0]), s.encode('latin1') + b'\0'); return ptr(a[0], len(s))
    def strcat(I, a, i, m, k): put(m, ptr1(a[0], len(S(I, m, a[0]))), S(I, m, a[1]).encode('latin1') + b'\0'); return a[0]
    def ptr1(v, k): v = _one(v); return ('p', v[1], v[2] + k)
    def strncpy(I, a, i, m, k): n = N(a[2]); put(m, _one(a[0]), pre(I, m, a[1], n).encode('latin1').ljust(n, b'\0')); return a[0]
    def memcpy(I, a, i, m, k):
        n = N(a[2]); d, s = _one(a[0]), _one(a[1])
        if not isinstance(d, tuple) or not isinstance(s, tuple): raise Unknown()
        b = rawbytes(I, m, s, n)
        if b is not None and I_bytes(I, m, s, n): put(m, d, b); return a[0]
        raise Unknown()
    def I_bytes(I, m, s, n): return all(isinstance(_one(v), int) and -128 <= _one(v) < 256 for x in range(n) for v in [m.get((s[1], s[2] + x))] if v is not None)
    def dup(I, a, i, m, k):
        s = S(I, m, a[0])
        if i.callee in ('ustrdup2',): e = _one(a[1]); s = s[:e[2] - _one(a[0])[2]]
        if i.callee in ('strndup',): s = s[:N(a[1])]
        c = m.get(('HEAP', 0), C(0)); n = _one(c) + 1; m[('HEAP', 0)] = C(n); I.zeroed.add('H:%d' % n)
        put(m, ('p', 'H:%d' % n, 0), s.encode('latin1') + b'\0'); return P('H:%d' % n)
    def realloc(I, a, i, m, k):
        if a[0] is not TOP and len(a[0]) == 1 and _one(a[0]) != 0: return a[0]
        c = m.get(('HEAP', 0), C(0)); n = _one(c) + 1; m[('HEAP', 0)] = C(n); I.zeroed.add('H:%d' % n); return P('H:%d' % n)
    def guard(fn):
        def g(I, a, i, m, k):
            try: return fn(I, a, i, m, k)
            except Unknown:
                if i.callee in ('strcmp', 'strncmp', 'strlen', 'strchr', 'strrchr', 'strstr', 'memcmp', 'strpbrk', 'strspn', 'strcspn'): return TOP
                raise AnalysisBroken('%s of unknown text at %s' % (i.callee, i.where))
        return g
    r = {'urealloc': realloc, 'urealloc1': realloc, 'realloc': realloc, 'strlen': strlen, 'strcmp': strcmp, 'strncmp': strncmp, 'memcmp': memcmp, 'strchr': strchr, 'strrchr': strchr, 'strstr': strstr, 'strpbrk': strpbrk, 'strspn': span, 'strcspn': span,
         'strcpy': strcpy, 'stpcpy': stpcpy, 'strcat': strcat, 'strncpy': strncpy, 'ustrdup': dup, 'ustrdup2': dup, 'strdup': dup, 'strndup': dup}
    return {k: guard(v) for k, v in r.items()}
LIBC = libc()

def fmt(I, f, args, where):
    """printf's rendering of known arguments (None: unknown)"""
    out = ''; k = 0; args = list(args)
    while k < len(f):
        c = f[k]
        if c != '%': out += c; k += 1; continue
        k += 1
        w = ''
        while k < len(f) and f[k] in '0123456789.-+ #*lhzjt': w += f[k]; k += 1
        c = f[k]; k += 1
        if c == '%': out += '%'; continue
        prec = None
        if '*' in w:
            for _ in range(w.count('*')): prec = _one(args.pop(0)) if args else None
            if not w.endswith('*') or '.' not in w: prec = None
        elif '.' in w:
            d = w.split('.')[1].rstrip('lhzjt'); prec = int(d) if d.isdigit() else 0
        v = args.pop(0) if args else TOP
        v = next(iter(v)) if v is not TOP and len(v) == 1 else None
        if c in 'di': out += str(v) if isinstance(v, int) else '\0'
        elif c in 'uxX': out += (str(v & 0xffffffff) if c == 'u' else '%x' % (v & 0xffffffff)) if isinstance(v, int) else '\0'
        elif c == 'c': out += chr(v & 255) if isinstance(v, int) else '\0'
        elif c == 's':
            s = cstr(I, I.curmem, v) if isinstance(v, tuple) else None
            if isinstance(v, tuple) and s is None and isinstance(prec, int):
                b = rawbytes(I, I.curmem, v, prec); s = b.decode('latin1') if b is not None else None
            out += (s[:prec] if isinstance(prec, int) else s) if s is not None else '\0'
        else: out += '\0'
    return out

class CppRun:
    def __init__(s):
        s.p = p = prog.load('cpp')
        s.helpers = [g for g in p.g if not p.g[g].get('init')]
    def run(s, files, main='m.c', opts=None, defined=('YES',), incs=None, expand=False, budget=None, maxopen=None, bt=False, ends=None):
        """files: {name: [line or (line, has newline)]}. Returns the set of (status, log, inputs read) over all paths."""
        p = s.p; I = None; tab = []; num = {}; fin = []
        def iid(x):
            if x not in num: num[x] = len(tab); tab.append(x)
            return num[x]
        def log(m):
            v = m.get(('LOG', 0), C(('p', 'EV', iid(()))))
            if v is TOP or len(v) != 1: return None
            return tab[next(iter(v))[2]]
        def ev(m, *e):
            l = log(m)
            if l is None: raise AnalysisBroken('cpp: paths of one input joined: %s' % s.forks[:3])
            m[('LOG', 0)] = C(('p', 'EV', iid(l + (e + (at[0],),))))
        one = _one
        cur = [None]; at = ['']
        def st(v):
            v = one(v); return cstr(I, cur[0], v) if isinstance(v, tuple) else None
        def text(m, fp, t):
            f = one(fp) if fp is not None else None
            if f is not None and isinstance(f, tuple) and 'stderr' in str(f[1]): ev(m, 'err', t)
            else: ev(m, 'out', t)
        OUT = None
        def puts(I, a, i, m, k): text(m, OUT, (st(a[0]) if st(a[0]) is not None else '\0') + '\n'); return C(1)
        def putchar(I, a, i, m, k): v = one(a[0]); text(m, OUT, chr(v & 255) if isinstance(v, int) else '\0'); return C(1)
        def fputc(I, a, i, m, k): v = one(a[0]); text(m, a[1], chr(v & 255) if isinstance(v, int) else '\0'); return C(1)
        def fputs(I, a, i, m, k): text(m, a[1], st(a[0]) if st(a[0]) is not None else '\0'); return C(1)
        def fwrite(I, a, i, m, k):
            t = st(a[0]); n, c = one(a[1]), one(a[2])
            text(m, a[3], t[:n * c] if t is not None and isinstance(n, int) and isinstance(c, int) else '\0'); return C(1)
        def printf(I, a, i, m, k): text(m, OUT, fmt(I, st(a[0]) or '\0', a[1:], i.where)); return C(1)
        def fprintf(I, a, i, m, k): text(m, a[0], fmt(I, st(a[1]) or '\0', a[2:], i.where)); return C(1)
        def lines(f): return files.get(f.split('#')[0], [])
        def fline(I, a, i, m, k):
            f = one(a[0])
            if not isinstance(f, tuple): raise AnalysisBroken('cpp: reads from an unknown file')
            f = f[1]
            if m.get(('CL:' + f, 0)) == C(1): ev(m, 'read-closed', f)
            n = m.get(('RD:' + f, 0), C(0)); n = next(iter(n)); L = lines(f[2:])
            if n >= len(L): return C(0)
            l = L[n]; nl = 1
            if isinstance(l, tuple): l, nl = l
            m[('RD:' + f, 0)] = C(n + 1)
            if len(a) > 1 and a[1] is not TOP and a[1] != C(0): m[one(a[1])[1:]] = C(nl)
            b = l.encode('latin1') + b'\0'; o = 'B:%s:%d' % (f, n)
            I.objs[o] = b; I.wstr.add(o)
            for x in range(len(b)): m[(o, x)] = C(b[x] if b[x] < 128 else b[x] - 256)
            return P(o)
        def fclose(I, a, i, m, k):
            f = one(a[0]); f = f[1] if isinstance(f, tuple) else '?'
            ev(m, 'close', f[2:] if m.get(('CL:' + f, 0)) != C(1) else f[2:] + ' twice'); m[('CL:' + f, 0)] = C(1); return C(0)
        def macfind(I, a, i, m, k):
            n = st(a[0])
            if n is None: return TOP
            v = m.get(('DEF:' + n, 0)); 
            return P('MAC:' + n) if (v == C(1) or (v is None and n in defined)) else C(0)
        def macadd(I, a, i, m, k):
            ev(m, i.callee, *[st(x) for x in a[:2]]); m[('DEF:%s' % st(a[0]), 0)] = C(1); return P('MAC:%s' % st(a[0]))
        def macrm(I, a, i, m, k):
            n = st(a[0]); v = m.get(('DEF:%s' % n, 0)); was = v == C(1) or (v is None and n in defined)
            ev(m, 'macro_remove', n); m[('DEF:%s' % n, 0)] = C(0); return C(int(was))
        def incopen(I, a, i, m, k):
            n = st(a[1]); ev(m, 'include', n, one(a[2]))
            if n not in files: return C(0)
            c = m.get(('OPENS', 0), C(0)); c = next(iter(c)); m[('OPENS', 0)] = C(c + 1)
            if maxopen and c >= maxopen: ev(m, 'die', 'endless inclusion'); fin.append(('exit', log(m), None)); return NotImplemented
            fn = 'F:%s#%d' % (n, c)
            I.objs['N:' + n] = n.encode() + b'\0'; I.wstr.add('N:' + n)
            m[one(a[3])[1:]] = P('N:' + n); 
            if len(a) > 4: m[one(a[4])[1:]] = C(int(n.startswith('sys')))
            return P(fn)
        def die(I, a, i, m, k):
            ev(m, 'die', one(m.get(('g:current_line', 0), TOP))); fin.append(('exit', log(m), None)); ends is not None and ends.append(dict(m)); return NotImplemented
        def quit(I, a, i, m, k):
            fin.append(('exit %s' % one(a[0]), log(m), None)); return NotImplemented
        def where(a):
            w = one(a)
            if not isinstance(w, tuple): return None
            return w
        def dieat(I, a, i, m, k):
            ev(m, 'die_at', loc(I, a[0], m), fmt(I, st(a[1]) or '\0', a[2:], '')); fin.append(('exit', log(m), None)); return NotImplemented
        def warnat(I, a, i, m, k):
            tr = ()
            if bt:
                tr = trace(I, m)
            ev(m, 'warn_at', loc(I, a[0], m), fmt(I, st(a[1]) or '\0', a[2:], ''), tr); return C(0)
        def trace(I, m):
            m1 = dict(m); m1.pop(('LOG', 0), None)
            _, m2 = I.run('include_bt', [P('stderr')], m1)
            cur[0] = I.curmem = m
            l = log(m2) if m2 is not None else ()
            import re
            return tuple((x.group(1), int(x.group(2))) for x in re.finditer(r'from: ([^\n]*):(-?\d+)', ''.join(e[1] for e in l if e[0] == 'err')))
        def loc(I, w, m):
            w = one(w)
            if not isinstance(w, tuple): return None
            o = s.p.off.get('where') if isinstance(getattr(s.p, 'off', None), dict) else None
            fl = s.p.field_off('where', 'line'); ff = s.p.field_off('where', 'fname')
            l = m.get((w[1], w[2] + fl), TOP); f = m.get((w[1], w[2] + ff), TOP)
            return (st(f), one(l))
        nop = lambda *a: C(0)
        stubs = {'puts': puts, 'putchar': putchar, 'putc': fputc, 'fputc': fputc, 'fputs': fputs, 'fwrite': fwrite, 'printf': printf, 'fprintf': fprintf, '_IO_putc': fputc, 'putchar_unlocked': putchar, 'putc_unlocked': fputc,
                 'fline': fline, 'fclose': fclose, 'macro_find': macfind, 'macro_add': macadd, 'macro_add_func': macadd, 'macro_remove': macrm, 'include_fopen': incopen, 'ferror': nop, 'free': nop,
                 'deps_add': lambda I, a, i, m, k: (ev(m, 'deps', st(a[0])), C(0))[1], 'die': die, 'die_at': dieat, 'exit': quit, '_exit': quit, 'ice': die, '__assert_fail': die, 'abort': die,
                 'canonicalise_path': lambda I, a, i, m, k: a[0], 'udirname': lambda *a: P('DIR'), 'dirname_push': nop, 'dirname_pop': lambda *a: P('DIR'), 'warn_at': warnat, 'warn_colour': nop,
                 'debug_push_line': nop, 'debug_pop_line': nop, 'strtol': strtol, 'strtoll': strtol, 'strtoul': strtol, 'strtoull': strtol, 'atoi': lambda I, a, i, m, k: C(atoi(st(a[0]))), 'atol': lambda I, a, i, m, k: C(atoi(st(a[0])))}
        if expand:
            for q in ('macro_find', 'macro_add', 'macro_add_func', 'macro_remove'): del stubs[q]
        else: stubs['eval_expand_macros'] = lambda I, a, i, m, k: a[0]
        stubs.update(LIBC)
        def newstr(m, t):
            c = m.get(('HEAP', 0), C(0)); n = _one(c) + 1; m[('HEAP', 0)] = C(n); I.zeroed.add('H:%d' % n)
            put(m, ('p', 'H:%d' % n, 0), t.encode('latin1') + b'\0'); return P('H:%d' % n)
        stubs['ustrprintf'] = lambda I, a, i, m, k: newstr(m, fmt(I, st(a[0]) or '', a[1:], ''))
        def snpr(I, a, i, m, k):
            n = one(a[1]); t = fmt(I, st(a[2]) or '', a[3:], '')
            if isinstance(n, int) and n > 0: put(m, one(a[0]), t[:n - 1].encode('latin1') + b'\0')
            return C(len(t))
        stubs['snprintf'] = stubs['xsnprintf'] = stubs['usnprintf'] = snpr
        def spr(I, a, i, m, k): t = fmt(I, st(a[1]) or '', a[2:], ''); put(m, one(a[0]), t.encode('latin1') + b'\0'); return C(len(t))
        stubs['sprintf'] = spr
        def wrapstub(fn):
            def g(I, a, i, m, k): cur[0] = I.curmem = m; at[0] = '%s (%s)' % (k[-1].name if k else '?', i.where); return fn(I, a, i, m, k)
            return g
        stubs = {k: wrapstub(v) for k, v in stubs.items()}
        I = start_interp(p, stubs=stubs, objs={'FN': main.encode() + b'\0', 'DIR': b'.\0'}, objp={'CDS': {0: P('DIR'), 8: C(0)}}, **({'budget': budget} if budget else {}))
        I.wstr = {'FN', 'DIR'}; s.forks = I.forks = []
        mem = I.init_mem(['preprocess'])
        for g in p.g:
            if not I.readonly(g) and not p.g[g].get('init'): I.zeroed.add('g:' + g)
        mem[('g:stdin', 0)] = P('F:' + main); mem[('g:stdout', 0)] = P('stdout'); mem[('g:stderr', 0)] = P('stderr')
        mem[('g:current_fname', 0)] = P('FN'); mem[('g:cd_stack', 0)] = P('CDS')
        for k, v in (opts or {}).items():
            if k not in p.g: raise AnalysisBroken('cpp: no option variable %s' % k)
            mem[('g:' + k, 0)] = C(v)
        for n in expand or ():
            I.objs['SP:' + n] = n.encode() + b'\0'
            _, mem = I.run('macro_add', [P('SP:' + n), C(0), C(0)], mem)
        r, m = I.run('preprocess', [], mem)
        if m is not None: fin.append(('return', log(m), m)); ends is not None and ends.append(m)
        s.I = I
        res = {(a, b) for a, b, _ in fin}
        if any(b is None for _, b in res): raise AnalysisBroken('cpp: paths of one input joined: %s' % s.forks[:3])
        return res

def atoi(t):
    t = (t or '').lstrip(' \t'); n = 1 if t[:1] in ('-', '+') else 0
    while n < len(t) and t[n].isdigit(): n += 1
    try: return wrap(int(t[:n]), 32)
    except ValueError: return 0
def strtol(I, a, i, m, k):
    x = next(iter(a[0])); t0 = cstr(I, m, x)
    if t0 is None: return TOP
    t = t0.lstrip(' \t\n\v\f\r'); sk = len(t0) - len(t); sg = 1
    if t[:1] in ('+', '-'): sg = -1 if t[0] == '-' else 1; t = t[1:]; sk += 1
    b = next(iter(a[2])) if a[2] is not TOP else None
    if b == 0: b = 16 if t[:2].lower() == '0x' and t[2:3] in tuple('0123456789abcdefABCDEF') else 8 if t[:1] == '0' else 10
    if b is None: return TOP
    j = 2 if b == 16 and t[:2].lower() == '0x' else 0; n = j
    while n < len(t) and t[n].isascii() and t[n].isalnum() and int(t[n], 36) < b: n += 1
    end = sk + n if n > j or j else 0
    if n == j: end = 0
    if a[1] is not TOP and a[1] != C(0): m[next(iter(a[1]))[1:]] = P(x[1], x[2] + end)
    return C(wrap(min(sg * int(t[j:n] or '0', b), (1 << 63) - 1), 64))
