"""C03: output write failures are reported. Each program's main() is interpreted under the assumption that the stdio
error indicator of an output stream is set / its final flush fails; success must then be unreachable once the stream
is in use."""
import prog, flow
from absint import Interp, C, TOP
from chk import Check, AnalysisBroken

W, SO, R = ('p', 'W', 0), ('p', 'STDOUT', 0), ('p', 'R', 0)
STREAM = ('fclose', 'fflush', 'ferror', 'exit', '_exit', 'fopen', 'freopen', 'fdopen', 'fwrite', 'clearerr')

def interp(p, targets, mode, through=None):
    """streams `targets` fail: mode 'ferror' (an earlier write failed; flush/close succeed) or 'close'"""
    fin = finalisers(p)
    need = {f.name for f in p.defs() if p_reach1(p, f.name) & fin}
    outside = {f.name for f in p.defs()} - need - p.noret
    def only(v): return v is not TOP and bool(v) and v <= targets
    def fopen(I, a, i, m, k):
        mo = I.strs(a[1])
        w = mo is None or any(x and (x[0] in 'wa' or '+' in x) for x in mo)
        I.event('call', 'open', [C(1 if w else 0)], i, k, None)
        return C(W) if w else C(R, 0)
    def fre(I, a, i, m, k): return a[2]
    def fclose(I, a, i, m, k):
        if mode == 'close' and only(a[0]): return C(-1)
        if only(a[0]): return C(0)
        return C(0, -1)
    def ferror(I, a, i, m, k):
        if only(a[0]): return C(1) if mode == 'ferror' else C(0)
        return C(0, 1)
    st = {'fopen': fopen, 'freopen': fre, 'fdopen': fopen, 'fclose': fclose, 'fflush': fclose, 'ferror': ferror, 'fork': lambda I, a, i, m, k: C(1234)}
    def ex(I, a, i, m, k):
        I.event('call', 'exit', [a[0]], i, k, None); return NotImplemented
    st['exit'] = ex; st['_exit'] = ex
    for n in ('fwrite', 'fprintf', 'printf', 'fputc', 'fputs', 'puts', 'vfprintf', 'free', 'perror', 'umask', 'putchar', 'wait'): st.setdefault(n, lambda I, a, i, m, k: TOP)
    I = Interp(p, stubs=st, skip=outside, globals_={'stdout': C(SO), 'stdin': C(R), 'stderr': C(('p', 'ERR', 0))}, budget=6000000,
               track_globals=True, enter_noret=True, watch=need, through=through)
    r, mo = I.run('main', [TOP, TOP], {})
    return I, r

def may_be_output(p, f, o, seen):
    """may stream operand o be stdout or a file opened for writing? (flow-insensitive over slots and globals)"""
    if isinstance(o, list):
        if o[0] == 'a':
            return any(may_be_output(p, c.f, c.a[o[1]], seen) for c in p.callers_all().get(f.name, []) if o[1] < len(c.a)) if mark(seen, (f.name, str(o))) else False
        return o[0] not in ('null', 'undef')
    if not mark(seen, (f.name, o)): return False
    i = f.inst[o]
    if i.op == 'phi': return any(may_be_output(p, f, x[0], seen) for x in i.a)
    if i.op == 'select': return any(may_be_output(p, f, x, seen) for x in i.a[1:])
    if i.op == 'call':
        if i.callee in ('fopen', 'fdopen', 'freopen'):
            m = p.strof(i.a[1]); return m is None or m[:1] != 'r' or '+' in m
        g = p.f.get(i.callee)
        if g is not None and not g.decl:
            return any(may_be_output(p, g, r.a[0], seen) for r in g.insts() if r.op == 'ret' and r.a)
        return True
    if i.op == 'load':
        g = i.a[0]
        if isinstance(g, list) and g[0] == 'g':
            if g[1] in ('stdin', 'stderr'): return False
            if g[1] == 'stdout': return True
        k = p.slot_of(f, g)
        if k is None:
            return True
        p.slots
        return any(may_be_output(p, e[1], e[2], seen) for e in p.slots.get(k, []) if e[0] == 'val')
    return True

def mark(seen, k):
    if k in seen: return False
    seen.add(k); return True

def finalisers(p):
    """functions that open, close, flush or test a stream that may be an output"""
    if not hasattr(p, '_fin'):
        r = set()
        for f in p.defs():
            for i in f.calls():
                if i.callee in ('fclose', 'fflush', 'ferror') and may_be_output(p, f, i.a[0], set()): r.add(f.name)
                if i.callee in ('fopen', 'freopen', 'fdopen') and may_be_output(p, f, i.id, set()): r.add(f.name)
                if p.name == 'ucc' and i.callee == 'fwrite' and may_be_output(p, f, i.a[3], set()): r.add(f.name)
        p._fin = r
    return p._fin

def p_reach1(p, n):
    if not hasattr(p, '_r1'): p._r1 = {}
    if n not in p._r1: p._r1[n] = p.reach([n])
    return p._r1[n]

WHAT = {'ferror': 'an earlier write', 'close': 'the final flush/close'}
def on_stderr(x):
    if isinstance(x, str) or not x.callee: return False
    for o in x.a:
        i = x.f.op(o)
        if i is not None and i.op == 'load' and i.a[0] == ['g', 'stderr']: return True
    return False

def check():
    ck = Check('C03')
    r1 = ck.rule('failure-reported', 'with the output stream failing, main cannot return 0 and no exit(0) happens once the stream is in use')
    r2 = ck.rule('error-sticky', 'nothing clears or bypasses the stdio error state of an output (clearerr, rewind, raw write)')
    r3 = ck.rule('direct-writers', 'functions whose write result is the only failure signal test it')
    for pn in ('cc1', 'cpp', 'ucc'):
        p = prog.load(pn); main = p.fn('main')
        fin = finalisers(p)
        ck.units['%s: functions finishing an output' % pn] = sorted(fin)
        if pn != 'ucc':
            for mode in ('ferror', 'close'):
                I, r = interp(p, C(W, SO), mode)
                ok = r is not TOP and 0 not in r
                ck.ob(r1, ok, main.where, '%s: %s fails and main can still return 0' % (pn, WHAT[mode]), '%s/main/%s' % (pn, mode), '%s: %s fails -> main returns %s' % (pn, WHAT[mode], sorted(r) if r is not TOP else '?'))
                for e in I.events:
                    if e.name == 'exit' and e.stack[-2:-1] != () and (e.args[0] is TOP or any(x & 255 == 0 for x in e.args[0] if isinstance(x, int))):
                        ck.ob(r1, False, e.inst.where, '%s: %s fails and exit(0) is reachable' % (pn, WHAT[mode]), '%s/exit0/%s' % (pn, e.inst.f.name))
        # streams opened and finished within one function: restricted to the executions that open them
        nop = 0
        for fn in sorted(fin):
            f = p.f[fn]
            sites = [(i, C(W)) for i in f.calls(('fopen', 'fdopen')) if not (p.strof(i.a[1]) or 'w').startswith('r')]
            if pn == 'ucc': sites += [(i, C(SO)) for i in f.insts() if i.op == 'load' and isinstance(i.a[0], list) and i.a[0] == ['g', 'stdout']]
            for i, t in sites:
                nop += 1
                # finished by this function or by a caller: a function whose executions all end must not be left normally by main
                for mode in (('ferror', 'close') if pn != 'ucc' else ('close',)):
                    I, r = interp(p, t, mode, {fn: i.b})
                    bad = [e for e in I.events if e.kind == 'ret' and e.name == fn]
                    if bad and not any(c.op == 'call' and c.callee in ('fclose', 'fflush') for c in f.insts()):
                        # handed to the rest of the program: main must then finish it
                        bad = [] if (r is not TOP and 0 not in r and pn != 'ucc') or pn == 'cc1' else bad
                    ck.ob(r1, not bad, i.where, '%s: %s of the stream used by %s() fails and %s() returns normally' % (pn, WHAT[mode], fn, fn), '%s/%s/%s' % (pn, fn, mode), '%s: %s() does not return when %s fails' % (pn, fn, WHAT[mode]))
        if nop == 0: raise AnalysisBroken('C03: no output opened in ' + pn)
        for n in ('clearerr', 'rewind', 'clearerr_unlocked', 'write', 'pwrite', 'writev', 'dprintf', 'fdopen', 'fcloseall', 'setvbuf', 'setbuf'):
            rf = [x for x in flow.refs_fn(p, n) if not on_stderr(x)]
            ck.ob(r2, not rf, getattr(rf[0], 'where', rf[0]) if rf else pn, '%s: %s used on an output stream' % (pn, n), '%s/%s' % (pn, n))
    # direct writers in the driver: every fwrite result compared, failing edge does not return 0
    p = prog.load('ucc')
    n = 0
    for f in p.defs():
        for i in f.calls('fwrite'):
            if isinstance(i.a[3], list) and i.a[3][0] == 'g': continue
            n += 1
            def fw(I, a, ii, m, k):
                if a[2] == C(0): return C(0)
                m[('ghost', 0)] = C(1)
                return TOP if a[2] is TOP else frozenset(x - 1 if isinstance(x, int) and x > 0 else 0 for x in a[2])
            def fr(I, a, ii, m, k): return C(0) if m.get(('ghost', 0)) == C(1) else C(7)
            def fe(I, a, ii, m, k): return C(1) if a[0] == C(('p', 'out', 0)) and m.get(('ghost', 0)) == C(1) else C(0)
            st = {'fwrite': fw, 'fread': fr, 'ferror': fe, 'feof': fe}
            I = Interp(p, stubs=st, start={f.name: i.b}, preset={(f.name, c.id): C(7) for c in f.calls('fread')})
            r2_, mo2 = I.run(f, [C(('p', 'in', 0)), C(('p', 'out', 0))][:f.nargs] + [TOP] * max(0, f.nargs - 2), {('ghost', 0): C(0)})
            ok = mo2 is None or (r2_ is not TOP and 0 not in r2_)
            ck.ob(r3, ok, i.where, '%s() reports success after a short fwrite' % f.name, 'fwrite/' + f.name)
            for c in p.callers().get(f.name, []):
                us = [u for u in c.f.uses[c.id] if u.op == 'icmp']
                ok = False
                for u in us:
                    for b, t, e in flow.bool_branches(c.f, u.id, u.d['p'] == 'ne'):
                        reach, cut = flow.live_reach(p, c.f, t)
                        if not any(x not in cut and c.f.blocks[x][-1].op == 'ret' for x in reach): ok = True
                ck.ob(r3, ok, c.where, '%s() ignores the result of %s()' % (c.f.name, f.name), 'ignored/%s/%s' % (c.f.name, f.name))
    ck.need(r1, 8); ck.need(r2, 20); ck.need(r3, 2)
    ck.assume.append('stdio keeps the error indicator of a stream set after a failed write (ISO C); command line and inputs unknown')
    return ck.finish('main() of each program interpreted with unknown inputs while ferror()/fclose()/fflush() of one output stream are modelled as failing; a success exit reachable after the stream is in use is a violation.')
