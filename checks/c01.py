"""C01: a reported error always makes the compilation fail."""
import json, os, re
import prog, opts, pathfacts, c13
from warnsites import resolve, message
from chk import Check, AnalysisBroken
from ir import VERIF
from absint import Interp, C, TOP
from start import P, start_interp

NAMES = FLAGS = ('fold_had_error', 'parse_had_error', 'gen_had_error')
SOFT = ('warn_at', 'note_at')
# printing these is always followed by another, failing, report about the same object: the incomplete type of an
# initialised object is reported again (fold_decl / type completeness) once the declaration or literal is folded
BACKED = {"initialising incomplete type '%s'"}

def fmts(p, f, o):
    r = {message(p, x) for x in resolve(p, f, o)}
    s = p.strof(o) if isinstance(o, list) else None
    if s is not None: r = {s}
    return {x for x in r if x}

def argfmt(p, c, k):
    return fmts(p, c.f, c.a[k]) if k < len(c.a) else set()

def messages(p):
    """([error (message, call)], [soft], [direct stderr writes])"""
    er, so, di = [], [], []
    idx = {**{n: 1 for n in (printers(p) if p.callers().get('vwarn') else [])}, 'die_at': 1, 'die': 0, 'ccdie': 0, 'warn_at': 1, 'note_at': 1, 'cc1_warn_at_w': 2, 'usage': 1}
    for n, k in idx.items():
        if n not in p.f: continue
        for c in p.callers().get(n, []):
            for m in argfmt(p, c, k):
                (so if n in SOFT or n == 'cc1_warn_at_w' else er).append((m, c))
    for n, k, sk in (('fprintf', 1, 0), ('fputs', 0, 1)):
        for c in p.callers().get(n, []):
            s = c.f.op(c.a[sk])
            if c.f.file in ('warn.c',) or c.f.name in p.noret: continue
            if s is not None and s.op == 'load' and s.a[0] == ['g', 'stderr']:
                for m in argfmt(p, c, k):
                    if len(m) > 3: di.append((m, c))
    return er, so, di

def nonzero(f, o):
    if isinstance(o, list): return o[0] == 'c' and o[1] != 0
    i = f.inst.get(o)
    if i is None: return False
    if i.op == 'or': return any(nonzero(f, x) for x in i.a)
    if i.op in ('zext', 'sext', 'freeze'): return nonzero(f, i.a[0])
    if i.op == 'select': return nonzero(f, i.a[1]) and nonzero(f, i.a[2])
    if i.op == 'phi': return all(nonzero(f, x[0]) for x in i.a)
    return False

def flag_store(i):
    return i.op == 'store' and isinstance(i.a[1], list) and i.a[1][0] == 'g' and i.a[1][1] in FLAGS

def find_flags(p):
    """the had-error flags, by name or (renamed) as globals that only ever get nonzero values where errors are printed"""
    global FLAGS
    if p.name != 'cc1' or all(n in p.g for n in NAMES): FLAGS = NAMES; return
    pr = set(printers(p)); st = {}
    for f in p.defs():
        for i in f.insts():
            if i.op == 'store' and isinstance(i.a[1], list) and i.a[1][0] == 'g': st.setdefault(i.a[1][1], []).append(i)
    FLAGS = tuple(sorted({n for n in NAMES if n in p.g} | {g for g, l in st.items() if all(nonzero(i.f, i.a[0]) for i in l) and len({i.f.name for i in l if any(True for _ in i.f.calls(pr))}) > 2}))

def printers(p):
    """functions that print an error and return"""
    err = p.enum_of('VWARN_ERR')['VWARN_ERR']
    return sorted({c.f.name for c in p.callers().get('vwarn', []) if isinstance(c.a[1], list) and c.a[1][0] == 'c' and c.a[1][1] == err and c.f.name not in p.noret})

class Escape:
    """does the failure of an error report reach the end of the program unrecorded?"""
    def __init__(s, p):
        s.p = p; s.noret = p.noret; s.must = set(); s.undecided = []
        ch = True
        while ch:
            ch = False
            for f in p.defs():
                if f.name in s.must or f.name in s.noret: continue
                if s.always(f): s.must.add(f.name); ch = True
        s.P = pathfacts.Paths(p, pathfacts.Mod(p), s.records)
        pr = set(printers(p)) if 'VWARN_ERR' in p.enumval else set()
        s.P.quiet = lambda i: i.callee in pr or i.callee in SOFT
    def records(s, i):
        return (flag_store(i) and nonzero(i.f, i.a[0])) or (i.op == 'call' and i.callee in s.must)
    def stop(s, i): return s.records(i) or (i.op == 'call' and (i.d.get('nr') or i.callee in s.noret))
    def always(s, f):
        seen = {0}; st = [0]
        while st:
            b = st.pop()
            for i in f.blocks[b]:
                if s.stop(i): break
                if i.op == 'ret': return False
            else:
                for y in f.succ[b]:
                    if y not in seen: seen.add(y); st.append(y)
        return True
    def simple(s, c):
        """recorded on every path before or after c, whatever the branches"""
        f = c.f
        for b in f.dom[c.b]:
            for i in f.blocks[b]:
                if i is c: break
                if s.records(i): return True
        seen = set(); work = [(c.b, c.pos + 1)]
        while work:
            b, k = work.pop()
            for i in f.blocks[b][k:]:
                if s.stop(i): break
                if i.op == 'ret': return False
            else:
                for y in f.succ[b]:
                    if y not in seen: seen.add(y); work.append((y, 0))
        return True
    def escapes(s, c, depth=4):
        """None, or the chain of calls up which the unrecorded error travels"""
        if s.simple(c): return None
        seen = set(); todo = [(c, '?', (c,))]
        while todo:
            k, fact, tr = todo.pop(0)
            if (k.f.name, k.id, fact) in seen: continue
            seen.add((k.f.name, k.id, fact))
            if k is not c and s.simple(k): continue
            try: out = s.P.run(k.f, lambda i: fact if i is k else None)
            except AnalysisBroken as e:
                s.undecided.append((c.where, str(e))); continue
            for ret, x in out:
                if k.f.name == 'main':
                    if x and (x == ('!', 0) or (x[0] == '=' and x[1] & 255 != 0)): continue
                    return tr
                cs = s.p.callers_all().get(k.f.name, [])
                if not cs or len(tr) >= depth: return tr
                for z in cs: todo.append((z, x or '?', tr + (z,)))
        return None

def check():
    ck = Check('C01')
    r_e = ck.rule('recorded', 'from every error report every feasible path records the failure (had-error flag), ends the program with failure, or has already recorded it')
    r_c = ck.rule('sticky', 'a recorded failure is never cleared')
    r_n = ck.rule('fatal', 'a fatal report does not return, and every exit of the compiler or preprocessor other than from main is with a failure status')
    r_s = ck.rule('status', 'whichever phase records the failure, main ends with a failure status, and code is generated only if none was recorded before')
    r_w = ck.rule('optional-errors', 'an optional diagnostic printed as an error records the failure')
    r_v = ck.rule('severity', 'a message that is an error is reported through an error report')
    r_d = ck.rule('direct', 'an error a program writes itself is followed by a failure status')
    spec = json.load(open(os.path.join(VERIF, 'spec', 'errors.json')))
    for pn in ('cc1', 'cpp', 'ucc'):
        p = prog.load(pn); find_flags(p)
        E = Escape(p)
        er, so, di = messages(p)
        # reports
        pr = printers(p) if p.callers().get('vwarn') else []
        sites = [c for n in pr for c in p.callers().get(n, [])]
        for c in p.callers().get('vwarn', []):
            if c.f.name in pr or c.f.name in ('cc1_warn_at_w', 'warn_at', 'note_at'): continue
            err = p.enum_of('VWARN_ERR')['VWARN_ERR']
            if isinstance(c.a[1], list) and c.a[1][0] == 'c' and c.a[1][1] != err: continue
            sites.append(c)
        for n in ('warn_at', 'note_at'):
            if n not in p.f: continue
            for c in p.fn(n).calls('vwarn'):
                ck.ob(r_v, isinstance(c.a[1], list) and c.a[1][0] == 'c' and c.a[1][1] != p.enum_of('VWARN_ERR')['VWARN_ERR'], c.where, '%s: %s() prints an error' % (pn, n), 'kind/%s/%s' % (pn, n))
        for c in sites:
            m = argfmt(p, c, 1)
            tr = E.escapes(c)
            if tr and m and m <= BACKED: tr = None
            txt = sorted(m)[0] if m else '?'
            ck.ob(r_e, tr is None, c.where, '%s: %s() reports the error "%s" and can go on without recording a failure%s' % (pn, c.f.name, txt, '' if not tr or len(tr) < 2 else ' (through %s)' % ' < '.join(x.f.name for x in tr)),
                  'unrecorded/%s/%s/%s' % (pn, c.f.name, txt), '%s %s(): "%s"' % (c.where, c.f.name, txt))
        # flags
        for f in p.defs():
            for i in f.insts():
                if flag_store(i): ck.ob(r_c, nonzero(f, i.a[0]), i.where, '%s: %s() may clear %s' % (pn, f.name, i.a[1][1]), 'clear/%s/%s' % (f.name, i.a[1][1]))
        # fatal functions
        trust = p.LIBC_NORETURN
        for f in p.defs():
            if not f.nr: continue
            others = {x.name for x in p.defs() if x.nr and x.name != f.name} | trust
            ck.ob(r_n, not list(real_returns(p, f, others)), f.where, '%s: %s() can return' % (pn, f.name), 'returns/%s/%s' % (pn, f.name))
        if pn != 'ucc':
            for e in ('exit', '_exit'):
                for c in p.callers().get(e, []):
                    if c.f.name == 'main': continue
                    a = c.a[0]
                    ck.ob(r_n, isinstance(a, list) and a[0] == 'c' and a[1] & 255 != 0, c.where, '%s: %s() exits with status %s' % (pn, c.f.name, a[1] if isinstance(a, list) and a[0] == 'c' else 'that may be 0'), 'exit/%s/%s' % (pn, c.f.name))
        else:
            for n in ('die',):
                for c in p.fn(n).calls(('exit', '_exit')):
                    a = c.a[0]; ck.ob(r_n, isinstance(a, list) and a[0] == 'c' and a[1] & 255 != 0, c.where, 'ucc: %s() exits with a status that may be 0' % n, 'exit/ucc/' + n)
        # severity
        S = set(spec[pn]['error'])
        for m, c in so:
            ck.ob(r_v, m not in S, c.where, '%s: %s() reports "%s", which is an error, through %s()' % (pn, c.f.name, m, c.callee), 'severity/%s/%s' % (pn, m))
        # direct
        D = set(spec[pn]['direct'])
        for m, c in di:
            if m not in D: continue
            tr = E.escapes(c, 6)
            ck.ob(r_d, tr is None, c.where, '%s: %s() writes "%s" and the program can still end successfully%s' % (pn, c.f.name, m.strip(), '' if not tr or len(tr) < 2 else ' (through %s)' % ' < '.join(x.f.name for x in tr)), 'direct/%s/%s' % (pn, m.strip()))
        ck.units[pn] = {'error reports': len(sites), 'fatal messages': len(er), 'direct messages': len(di), 'undecided paths': E.undecided[:5]}
    ck.need(r_e, 100); ck.need(r_c, 60); ck.need(r_n, 10); ck.need(r_d, 8)
    o = opts.Opts(); find_flags(o.p)
    status(ck, r_s, o)
    c13.emit(ck, o, o.p, r_w, None, None, None, None)
    directive(ck, r_n)
    return ck.finish('every report of an error in the three programs is followed to the end of the program: along every feasible path the failure is recorded, and every recorded failure makes main fail')

def real_returns(p, f, nr):
    """ret reachable in f trusting only functions in nr not to return"""
    seen = {0}; st = [0]
    while st:
        b = st.pop()
        for i in f.blocks[b]:
            if i.op == 'call' and i.callee in nr: break
            if i.op == 'ret': yield i
            if i.op == 'unreachable' and not any(j.op == 'call' and j.callee in nr for j in f.blocks[b]): yield i
        else:
            for x in f.succ[b]:
                if x not in seen: seen.add(x); st.append(x)

def status(ck, r_s, o):
    """main (and parse_and_fold) interpreted with each phase recording a failure"""
    p = o.p; pf = p.fn('parse_and_fold'); main = p.fn('main'); gb = p.fn('gen_backend').name
    direct = {}
    for f in p.defs(): direct[f.name] = {i.callee for i in f.calls() if i.callee}
    setters = {f.name for f in p.defs() if any(flag_store(i) for i in f.insts())}
    def can(n):
        if n not in p.f or p.f[n].decl or p.f[n].file in ('dynarray.c', 'dynmap.c'): return False
        return bool(p.reach([n]) & setters)
    A = sorted({i.callee for i in pf.calls() if i.callee and can(i.callee)})
    if len(A) < 4: raise AnalysisBroken('parse_and_fold: only phases %s' % A)
    def run(argv, who, flag):
        seen = []; called = []
        def leaf(n):
            def fn(I, a, i, m, k):
                if n == who: m[('g:' + flag, 0)] = C(1); called.append(1)
                if n == gb: seen.append(m.get(('g:' + flag, 0), C(0)) if flag else 0)
                t = m.get(('N', n), C(0))
                if t == C(0):
                    m[('N', n)] = C(1)
                    for x in a:
                        if x is not TOP and len(x) == 1 and isinstance(next(iter(x)), tuple) and str(next(iter(x))[1]).startswith(('A:', 'L:', 'alloca')): pass
                    if n == 'parse_decl_group' and a and a[-1] is not TOP:
                        m[next(iter(a[-1]))[1:]] = P('NEWD'); m[('NEWD', 0)] = P('DECL'); m[('NEWD', 8)] = C(0)
                    return C(1)
                return C(0)
            return fn
        nop = lambda *a: C(0)
        ex = {n: leaf(n) for n in A + [gb]}
        for f in (pf, main):
            for i in f.calls():
                n = i.callee
                if n in p.f and n not in ex and n != pf.name and not p.f[n].decl and not can(n) and p.f[n].file != 'cc1.c' and n not in p.noret: ex.setdefault(n, nop)
        for n in ('triple_default', 'platform_init', 'platform_word_size', 'dynmap_nochk_new', 'dynmap_nochk_set', 'type_nav_init', 'init_target'): ex.pop(n, None)
        ex.update({n: nop for n in ('tokenise_set_mode', 'fclose', 'ferror', 'dynmap_nochk_key', 'tokenise_set_input', 'type_nav_dump')})
        ex['symtabg_new'] = lambda *a: P('GLOBS')
        r, rets, I = o.run(argv, ex)
        st = set(r) if r is not TOP else {None}
        for x in rets: st |= set(x) if x is not TOP else {None}
        return st, seen, called
    st, seen, _ = run([], None, None)
    ck.ob(r_s, st == {0} and seen, main.where, 'without any failure main ends with %s%s' % (sorted(map(str, st)), '' if seen else ' and generates no code'), 'status/clean')
    n = 0
    for who in A + [gb]:
        for fl in FLAGS:
            for argv in ([], ['-emit=dump']):
                st, seen, called = run(argv, who, fl)
                if not called: continue
                n += 1
                bad = any(x is None or not isinstance(x, int) or x & 255 == 0 for x in st) or not st
                ck.ob(r_s, not bad, main.where, '%s records a failure in %s%s and main ends with status %s' % (who, fl, ' '.join([''] + argv), sorted(map(str, st))), 'status/%s/%s' % (who, fl))
                if who != gb and fl != 'gen_had_error' and not argv:
                    ck.ob(r_s, not seen, main.where, '%s records a failure in %s and code is generated all the same' % (who, fl), 'gen/%s/%s' % (who, fl))
    if n < 30: raise AnalysisBroken('only %d failing phases explored' % n)

def directive(ck, r_n):
    """#error"""
    p = prog.load('cpp')
    if 'handle_error' not in p.f: return
    nop = lambda *a: TOP
    I = start_interp(p, stubs={'parse_should_noop': lambda *a: C(0), 'tokens_join': lambda *a: P('S'), 'cpp_where_current': nop, 'warn_colour': nop, 'warn_at': nop, 'die_at': lambda *a: NotImplemented, 'vdie': lambda *a: NotImplemented, 'exit': lambda *a: NotImplemented})
    I.enter_noret = True
    mem = I.init_mem(['handle_error'])
    r, m = I.run('handle_error', [TOP], mem)
    ck.ob(r_n, m is None, p.f['handle_error'].where, 'cpp: #error in a group that is not skipped can return', 'error-directive')
