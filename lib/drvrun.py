"""The compiler driver's main() interpreted on one given command line: the commands it runs, in order, each with its
argument vector, the files it copies, and its exit status. Nothing is executed: fork, exec, wait and the file system are modelled."""
import re
import prog
from absint import C, TOP, wrap
from start import start_interp, P
from cpprun import LIBC, cstr, put, fmt, _one, atoi, strtol
from chk import AnalysisBroken

class Run:
    """status: int or None (did not return); cmds: [[argv...]]; acts: everything done, in order, with where in the code"""
    def __init__(s, how, status, acts, err, out): s.how = how; s.status = status; s.acts = acts; s.err = err; s.out = out
    @property
    def cmds(s): return [a[1] for a in s.acts if a[0] == 'run']
    def __repr__(s): return '%s %s %s' % (s.how, s.status, s.acts)

class DrvRun:
    def __init__(s): s.p = prog.load('ucc')
    def run(s, argv, env=None, exist=(), sys=('Linux', 'x86_64'), links=None, budget=6000000, argv0='/ucc/bin/ucc'):
        p = s.p; tab = []; num = {}; fin = []; execs = {}
        env = env or {}; at = ['']; I = None
        def iid(x):
            if x not in num: num[x] = len(tab); tab.append(x)
            return num[x]
        def log(m):
            v = m.get(('LOG', 0), C(('p', 'EV', iid(()))))
            if v is TOP or len(v) != 1: raise AnalysisBroken('driver: paths of one command line joined: %s' % s.forks[:3])
            return tab[next(iter(v))[2]]
        def ev(m, *e): m[('LOG', 0)] = C(('p', 'EV', iid(log(m) + (e + (at[0],),))))
        cur = [None]
        def st(v):
            v = _one(v); return cstr(I, cur[0], v) if isinstance(v, tuple) else None
        def vec(m, v):
            v = _one(v); r = []
            if not isinstance(v, tuple): raise AnalysisBroken('driver: unknown argument vector at %s' % at[0])
            for k in range(400):
                e = m.get((v[1], v[2] + 8 * k))
                e = _one(e) if e is not None else (0 if v[1] in I.zeroed else None)
                if e == 0: return tuple(r)
                t = cstr(I, m, e) if isinstance(e, tuple) else None
                if t is None: raise AnalysisBroken('driver: unknown argument %d at %s' % (k, at[0]))
                r.append(t)
            raise AnalysisBroken('driver: endless argument vector')
        def newstr(m, t):
            c = m.get(('HEAP', 0), C(0)); n = _one(c) + 1; m[('HEAP', 0)] = C(n); I.zeroed.add('H:%d' % n)
            put(m, ('p', 'H:%d' % n, 0), t.encode('latin1') + b'\0'); return P('H:%d' % n)
        def text(m, fp, t):
            f = _one(fp) if fp is not None else None
            ev(m, 'err' if isinstance(f, tuple) and 'stderr' in str(f[1]) else 'out', t)
        def fork(I, a, i, m, k): ev(m, 'fork'); return C(0, 77)
        def nf(m): return sum(1 for e in log(m) if e[0] == 'fork')
        def exe(fn): return lambda I, a, i, m, k: exe1(fn, a, m)
        def exe1(fn, a, m):
            execs.setdefault(nf(m), set()).add((fn, st(a[0]), vec(m, a[1]), _one(m.get(('UMASK', 0), TOP)), at[0])); return NotImplemented
        def wait(I, a, i, m, k):
            ev(m, 'wait')
            j = 1 if i.callee in ('waitpid', 'wait4') else 0
            x = _one(a[j])
            if isinstance(x, tuple): m[x[1:]] = C(0)
            return C(77)
        def end(I, a, i, m, k): fin.append(('exit', _one(a[0]), log(m))); return NotImplemented
        def abort(I, a, i, m, k): fin.append(('abort', None, log(m))); return NotImplemented
        def getenv(I, a, i, m, k):
            n = st(a[0])
            if n not in env: return C(0)
            I.objs['ENV:' + n] = env[n].encode() + b'\0'; return P('ENV:' + n)
        def mkstemp(I, a, i, m, k):
            c = m.get(('TMPS', 0), C(0)); n = _one(c) + 1; m[('TMPS', 0)] = C(n)
            t = st(a[0]); put(m, _one(a[0]), (t[:-6] + '%06d' % n).encode()); ev(m, 'tmp', t[:-6] + '%06d' % n); return C(10 + n)
        def sscanf(I, a, i, m, k):
            t, f = st(a[0]), st(a[1]); n = 0; x = y = 0
            if t is None or f is None: raise AnalysisBroken('driver: sscanf of unknown text at %s' % at[0])
            while y < len(f):
                if f[y] != '%':
                    if x < len(t) and t[x] == f[y]: x += 1; y += 1; continue
                    return C(n if n or x < len(t) else -1)
                c = f[y + 1]; y += 2
                if x >= len(t): return C(n if n else -1)
                if c == 'c': m[_one(a[2 + n])[1:]] = C(ord(t[x])); x += 1; n += 1
                elif c == 'd':
                    q = re.match(r'\s*[-+]?\d+', t[x:])
                    if not q: return C(n)
                    m[_one(a[2 + n])[1:]] = C(int(q.group(0))); x += q.end(); n += 1
                else: raise AnalysisBroken('driver: sscanf format at %s' % at[0])
            return C(n)
        def strtok(I, a, i, m, k):
            x = _one(a[0]); x = x if isinstance(x, tuple) else _one(m.get(('STRTOK', 0), C(0)))
            if not isinstance(x, tuple): return C(0)
            t = cstr(I, m, x); seps = st(a[1]); b = 0
            while b < len(t) and t[b] in seps: b += 1
            if b == len(t): m[('STRTOK', 0)] = C(0); return C(0)
            e = b
            while e < len(t) and t[e] not in seps: e += 1
            if e < len(t): m[(x[1], x[2] + e)] = C(0); m[('STRTOK', 0)] = P(x[1], x[2] + e + 1)
            else: m[('STRTOK', 0)] = C(0)
            return P(x[1], x[2] + b)
        def uname(I, a, i, m, k):
            b = _one(a[0])
            for o, t in ((0, sys[0]), (65, 'host'), (130, '1'), (195, '1'), (260, sys[1])): put(m, ('p', b[1], b[2] + o), t.encode() + b'\0')
            return C(0)
        def access(I, a, i, m, k): return C(0 if st(a[0]) in exist else -1)
        def readlink(I, a, i, m, k):
            t = (links or {}).get(st(a[0]))
            if t is None: return C(-1)
            n = _one(a[2]); put(m, _one(a[1]), t.encode()[:n]); return C(min(len(t), n))
        def fopen(I, a, i, m, k):
            ev(m, 'fopen', st(a[0]), st(a[1])); n = 'FILE:%s' % st(a[0]); return P(n)
        def fname(v):
            v = _one(v); return v[1].replace('FILE:', '') if isinstance(v, tuple) else None
        def cat(I, a, i, m, k): ev(m, 'cat', fname(a[0]), fname(a[1])); return C(0)
        def act(name): return lambda I, a, i, m, k: (ev(m, name, st(a[0])), C(0))[1]
        def pr(I, a, i, m, k): text(m, None, fmt(I, st(a[0]) or '\0', a[1:], i.where)); return C(1)
        def fpr(I, a, i, m, k): text(m, a[0], fmt(I, st(a[1]) or '\0', a[2:], i.where)); return C(1)
        def vfpr(I, a, i, m, k): text(m, a[0], st(a[1]) or '\0'); return C(1)
        def fpc(I, a, i, m, k): v = _one(a[0]); text(m, a[1], chr(v & 255) if isinstance(v, int) else '\0'); return C(1)
        def fps(I, a, i, m, k): text(m, a[1], st(a[0]) or '\0'); return C(1)
        def puts(I, a, i, m, k): text(m, None, (st(a[0]) or '\0') + '\n'); return C(1)
        def snpr(I, a, i, m, k):
            n = _one(a[1]); t = fmt(I, st(a[2]) or '', a[3:], '')
            if isinstance(n, int) and n > 0: put(m, _one(a[0]), t[:n - 1].encode('latin1') + b'\0')
            if i.callee == 'xsnprintf' and isinstance(n, int) and len(t) >= n: fin.append(('abort', None, log(m))); return NotImplemented
            return C(len(t))
        def spr(I, a, i, m, k): t = fmt(I, st(a[1]) or '', a[2:], ''); put(m, _one(a[0]), t.encode('latin1') + b'\0'); return C(len(t))
        def umask(I, a, i, m, k): o = m.get(('UMASK', 0), C(0o22)); m[('UMASK', 0)] = a[0]; return o
        nop = lambda *a: C(0)
        def low(I, a, i, m, k): v = _one(a[0]); return C(ord(chr(v).lower() if i.callee == 'tolower' else chr(v).upper())) if isinstance(v, int) and 0 <= v < 128 else TOP
        stubs = dict(LIBC)
        stubs.update({'fork': fork, 'vfork': fork, 'execv': exe('execv'), 'execvp': exe('execvp'), 'wait': wait, 'waitpid': wait, 'wait4': wait, 'exit': end, '_exit': end, '_Exit': end,
            'abort': abort, '__assert_fail': abort, 'getenv': getenv, 'mkstemp': mkstemp, 'sscanf': sscanf, '__isoc99_sscanf': sscanf, '__isoc23_sscanf': sscanf, 'strtok': strtok, 'uname': uname,
            'access': access, 'readlink': readlink, 'fopen': fopen, 'cat': cat, 'remove': act('remove'), 'unlink': act('remove'), 'rename': lambda I, a, i, m, k: (ev(m, 'rename', st(a[0]), st(a[1])), C(0))[1],
            'printf': pr, 'fprintf': fpr, 'vfprintf': vfpr, 'fputc': fpc, 'putc': fpc, '_IO_putc': fpc, 'fputs': fps, 'puts': puts, 'perror': nop, 'fclose': nop, 'fflush': nop, 'close': nop,
            'lstat': lambda *a: C(-1), 'stat': lambda *a: C(-1), 'gettimeofday': nop, 'atexit': nop, 'strerror': lambda *a: P('ERR'), '__errno_location': lambda *a: P('ERRNO'), 'umask': umask,
            'ustrprintf': lambda I, a, i, m, k: newstr(m, fmt(I, st(a[0]) or '', a[1:], '')), 'snprintf': snpr, 'xsnprintf': snpr, 'sprintf': spr, 'dlopen': nop, 'dlsym': nop, 'strtol': strtol, 'tolower': low, 'toupper': low,
            'atoi': lambda I, a, i, m, k: C(atoi(st(a[0])))})
        def wrapstub(fn):
            def g(I, a, i, m, k): cur[0] = I.curmem = m; at[0] = '%s (%s)' % (k[-1].name if k else '?', i.where); return fn(I, a, i, m, k)
            return g
        stubs = {k: wrapstub(v) for k, v in stubs.items()}
        args = [argv0] + list(argv)
        objs = {'ERR': b'error\0'}; pp = {}
        for n, a in enumerate(args): objs['A:%d' % n] = a.encode('latin1') + b'\0'; pp[8 * n] = P('A:%d' % n)
        pp[8 * len(args)] = C(0)
        I = start_interp(p, stubs=stubs, objs=objs, objp={'ARGV': pp}, budget=budget)
        I.wstr = set(objs); s.forks = I.forks = []; I.enter_noret = True
        mem = I.init_mem(['main'])
        for g in p.g:
            if not I.readonly(g) and not p.g[g].get('init'): I.zeroed.add('g:' + g)
        mem[('g:stdout', 0)] = P('stdout'); mem[('g:stderr', 0)] = P('stderr'); mem[('g:stdin', 0)] = P('stdin')
        r, m = I.run('main', [C(len(args)), P('ARGV')], mem)
        s.I = I
        if m is not None: fin.append(('return', _one(r) if r is not TOP else None, log(m)))
        fs = {(a, b, c) for a, b, c in fin if ('fork' not in [e[0] for e in c]) or True}
        if len(fs) != 1: raise AnalysisBroken('driver: %d outcomes of one command line: %s %s' % (len(fs), [(a, b) for a, b, _ in fs], s.forks[:4]))
        how, status, l = next(iter(fs))
        acts = []; err = out = ''; n = 0
        for e in l:
            if e[0] == 'fork':
                n += 1; x = execs.get(n, set())
                if len(x) != 1: raise AnalysisBroken('driver: command %d has %d forms' % (n, len(x)))
                fn, path, av, um, w = next(iter(x)); acts.append(('run', av, fn, path, um, w))
            elif e[0] == 'err': err += e[1]
            elif e[0] == 'out': out += e[1]
            elif e[0] != 'wait': acts.append(e)
        return Run(how, status, acts, err, out)
