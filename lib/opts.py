"""Option-processing harness: the compiler proper's main() interpreted from program start on a given argument vector, up
to the point where the first token is read (or it gives up); yields the global state the options produced."""
import prog
from absint import C, TOP, isx
from start import start_interp, P
from prog import AnalysisBroken

class Opts:
    def __init__(s):
        s.p = p = prog.load('cc1')
        s.W = {m[1]: m[0] for m in p.structs['cc1_warning']}; s.F = {m[1]: m[0] for m in p.structs['cc1_fopt']}
    def state(s, argv):
        """global variables and option flags after the options, by name; None when the command line is rejected"""
        r = s.run(argv)
        if r[0] != 'ok': return None
        st = {}
        for (g, off), v in r[1].items():
            if not str(g).startswith('g:'): continue
            n = g[2:]
            if n == 'cc1_warning': k = 'cc1_warning.' + s.W[off] if off in s.W else None
            elif n == 'cc1_fopt': k = 'cc1_fopt.' + s.F[off] if off in s.F else None
            elif n.startswith('.str') or s.p.g[n].get('init', [''])[0] in ('arr',): continue
            else: k = n + ('+%d' % off if off else '')
            if k is None or v is TOP or len(v) != 1: continue
            x = next(iter(v))
            if isinstance(x, tuple):
                if x[0] != 'p' or x[1] not in r[3].objs: continue
                x = r[3].cstr(x)
            if k == 'cc1_sanitize': x = s.san(x)
            st[k] = x
        st['@mode'] = next(iter(r[2])) if r[2] is not TOP and len(r[2]) == 1 else None
        st['@unknown'] = None
        u = r[1].get(('UNK', 0))
        if u is not None and u is not TOP: st['@unknown'] = r[3].cstr(next(iter(u)))
        return st
    def san(s, x):
        E = s.p.enum_of('SAN_SHIFT_EXPONENT'); x &= (1 << 64) - 1
        return ' '.join(sorted(k for k, v in E.items() if v & x)) or 0
    def run(s, argv, extra=None):
        """('ok', memory, [tokeniser mode], I) | ('exit', status, unknown options); with extra stubs main is run to
        its end: (set of statuses, I)"""
        p = s.p; nop = lambda *a: TOP
        got = []; rets = []
        def stop(I, a, i, m, k):
            got.append((dict(m), a[0])); return NotImplemented
        def die(I, a, i, m, k): rets.append(a[0]); s.last = (i.where, [getattr(x, 'name', x) for x in k]); return NotImplemented
        def dynset(I, a, i, m, k):
            m[('UNK', 0)] = a[1]; return C(0)
        def dynkey(I, a, i, m, k):
            return m.get(('UNK', 0), C(0)) if a[1] == C(0) else C(0)
        def strtol(I, a, i, m, k):
            x = next(iter(a[0])); t = I.cstr(x)
            n = 0
            while n < len(t) and t[n].isdigit() and t[n].isascii(): n += 1
            if a[1] is not TOP and a[1] != C(0): m[next(iter(a[1]))[1:]] = P(x[1], x[2] + n)
            return C(int(t[:n] or '0'))
        def sscanf(I, a, i, m, k):
            t = I.cstr(next(iter(a[0]))); f = I.cstr(next(iter(a[1])))
            if f != '%d': raise AnalysisBroken('sscanf format %r' % f)
            n = 1 if t[:1] in '+-' and t[:1] else 0
            while n < len(t) and t[n].isdigit(): n += 1
            if not t[:n].lstrip('+-'): return C(0 if t else -1)
            m[next(iter(a[2]))[1:]] = C(int(t[:n])); return C(1)
        def powf(I, a, i, m, k): return TOP
        def triple(I, a, i, m, k):
            t = next(iter(a[0]))
            for q, e in (('arch', 'ARCH_x86_64'), ('vendor', 'VENDOR_pc'), ('sys', 'SYS_linux'), ('abi', 'ABI_gnu')): m[(t[1], t[2] + p.field_off('triple', q))] = C(p.enum_of(e)[e])
            return C(1)
        st = {f.name: nop for f in p.defs() if f.file in ('warn.c', 'where.c') and f.name not in p.noret and f.file == 'where.c'}
        st.update({'tokenise_set_mode': stop, 'exit': die, 'dynmap_nochk_new': lambda *a: P('DM'), 'dynmap_nochk_set': dynset, 'dynmap_nochk_key': dynkey, 'dynmap_free': nop, 'strtol': strtol, 'sscanf': sscanf, '__isoc99_sscanf': sscanf,
                   'fprintf': nop, 'vfprintf': nop, 'fputc': nop, 'perror': nop, 'fopen': lambda *a: C(0), 'output_init': nop, 'type_nav_init': lambda *a: P('NAV'),
                   'triple_default': triple, 'platform_init': nop, 'platform_word_size': lambda *a: C(8), 'cc1_warn_at_w': lambda *a: C(1), 'dump_options': nop, 'warn_dump': nop})
        st.update(extra or {})
        objs = {'A%d' % n: a.encode() + b'\0' for n, a in enumerate(['cc1'] + argv)}
        objp = {'ARGV': dict([(8 * n, P('A%d' % n)) for n in range(len(argv) + 1)] + [(8 * len(argv) + 8, C(0))])}
        I = start_interp(p, stubs=st, objs=objs, objp=objp)
        I.wstr = set(objs); I.enter_noret = True
        mem = I.init_mem(['main'])
        for g in p.g:
            if not I.readonly(g) and not p.g[g].get('init'): I.zeroed.add('g:' + g)
        r, m = I.run('main', [C(len(argv) + 1), P('ARGV')], mem)
        if extra is not None: return (r if m is not None else frozenset()), rets, I
        if got and (rets or m is not None): raise AnalysisBroken('option processing of %r both succeeds and fails (%s %s)' % (argv, rets, getattr(s, 'last', None)))
        if len(got) > 1: raise AnalysisBroken('option processing of %r depends on something unknown' % argv)
        if got: return 'ok', got[0][0], got[0][1], I
        return 'exit', r if m is not None else (rets[0] if rets else None), None, I
class CppOpts:
    """the preprocessor's option processing, up to the point it starts preprocessing"""
    def __init__(s): s.p = prog.load('cpp')
    def run(s, argv):
        """('ok', memory, None, I) | ('exit', ...)"""
        p = s.p; got = []; nop = lambda *a: TOP; ev = []
        def stop(I, a, i, m, k): got.append(dict(m)); return NotImplemented
        def rec(I, a, i, m, k):
            ev.append((i.callee, tuple(I.cstr(next(iter(x))) if x is not TOP and len(x) == 1 and isinstance(next(iter(x)), tuple) else None if x is TOP or len(x) != 1 else next(iter(x)) for x in a))); return TOP
        st = {f.name: nop for f in p.defs() if f.file not in ('main.c', 'std.c')}
        st.update({'preprocess': stop, 'fprintf': nop, 'perror': nop, 'fputs': nop, 'fputc': nop, 'freopen': lambda *a: P('FILE'), 'triple_default': lambda *a: C(1), 'triple_parse': lambda *a: C(1), 'exit': lambda *a: NotImplemented,
                   'time': nop, 'localtime': lambda *a: P('TM'), 'strftime': lambda *a: C(1), 'umask': nop, 'udirname': lambda *a: P('A0'), 'str_quote': lambda *a: P('A0'), 'ustrprintf': lambda *a: P('A0')})
        for n in ('include_add_dir', 'macro_remove', 'macro_add', 'parse_internal_directive', 'colour_enable'): st[n] = rec
        objs = {'A%d' % n: a.encode() + b'\0' for n, a in enumerate(['cpp'] + argv)}
        objp = {'ARGV': dict([(8 * n, P('A%d' % n)) for n in range(len(argv) + 1)] + [(8 * len(argv) + 8, C(0))])}
        st['calctime'] = st['add_platform_dependant_macros'] = st['init_target'] = st['target_defaults'] = lambda *a: C(1)
        I = start_interp(p, stubs=st, objs=objs, objp=objp)
        I.wstr = set(objs)
        mem = I.init_mem(['main'])
        for g in p.g:
            if not I.readonly(g) and not p.g[g].get('init'): I.zeroed.add('g:' + g)
        r, m = I.run('main', [C(len(argv) + 1), P('ARGV')], mem)
        if got and m is not None: raise AnalysisBroken('cpp: option processing of %r both succeeds and fails' % argv)
        if len(got) > 1: raise AnalysisBroken('cpp: option processing of %r depends on something unknown' % argv)
        s.events = ev
        return ('ok', got[0], None, I) if got else ('exit', r, None, I)
def diff(a, b):
    return None if a is None or b is None else {k: b.get(k, 0) for k in {**a, **b} if a.get(k, 0) != b.get(k, 0)}
class Spec:
    """spec/options.json matched to the current program: state names that disappeared are matched to new ones with the
    same effect in every option (a renamed variable); those that cannot be matched are left out of comparisons"""
    def __init__(s, o):
        import json, os
        from ir import VERIF
        s.d = json.load(open(os.path.join(VERIF, 'spec', 'options.json')))
        s.o = o; p = o.p
        s.cur = {'cc1_warning.' + x for x in o.W.values()} | {'cc1_fopt.' + x for x in o.F.values()} | set(p.g)
        s.map = {}; s.lost = set()
    def has(s, k): return k.startswith('@') or k.split('+')[0] in s.cur
    def rename(s, pairs):
        """pairs: [(spec effect, current effect)] of the same option in the same base"""
        keys = {k for a, _ in pairs for k in a or {}}
        new = {k for _, b in pairs for k in b or {}}
        for k in sorted(keys):
            if s.has(k): s.map[k] = k; continue
            sig = [(a or {}).get(k) for a, _ in pairs]
            c = [n for n in new if n not in keys and [(b or {}).get(n) for _, b in pairs] == sig]
            if len(c) == 1: s.map[k] = c[0]
            else: s.lost.add(k)
        s.keys = set(s.map.values())
    def want(s, e): return {s.map[k]: v for k, v in e.items() if k in s.map}
    def got(s, e): return {k: v for k, v in e.items() if k in s.keys}
if __name__ == '__main__':
    import sys, time
    o = Opts(); t = time.time()
    r = o.run(sys.argv[1:]); print(r[0], r[1] if r[0] == 'exit' else '', r[2], time.time() - t)
    if r[0] == 'ok':
        base = o.run([])
        d = {k: v for k, v in r[1].items() if str(k[0]).startswith('g:') and base[1].get(k) != v}
        print({k: v for k, v in list(d.items())[:40]})
