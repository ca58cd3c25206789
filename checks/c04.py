"""C04: temporary files are created exclusively, registered for removal and removed on exit."""
import prog, flow, driver
from absint import Interp, C, TOP
from chk import Check, AnalysisBroken

NONEX = ('tmpnam', 'tmpnam_r', 'tempnam', 'mktemp', 'tmpfile')
S_IFREG, S_IFCHR, S_IFIFO, S_IFDIR, S_IFBLK, S_IFLNK, S_IFSOCK = 0o100000, 0o020000, 0o010000, 0o040000, 0o060000, 0o120000, 0o140000

def glob_ptr(o): return o[1] if isinstance(o, list) and o[0] == 'g' else None

def check():
    ck = Check('C04')
    r1 = ck.rule('exclusive', 'temporary names come from mkstemp only, and the driver sets a private umask before it creates any')
    r2 = ck.rule('registered', 'whenever the code that created a temporary returns or the process exits, its path is in the removal list and the removal handler is registered with atexit')
    r3 = ck.rule('handler-complete', 'the exit handler removes every entry of the list, whatever the result of each removal')
    r4 = ck.rule('handlers-run', 'the driver never ends without running exit handlers, and only the child calls exec')
    r5 = ck.rule('partial-output', 'when a stage fails its output file is removed before exiting if it is a regular file, and not otherwise')
    p = prog.load('ucc')
    for n in NONEX:
        for pn in ('ucc', 'cc1', 'cpp'):
            rf = flow.refs_fn(prog.load(pn), n)
            ck.ob(r1, not rf, getattr(rf[0], 'where', rf[0]) if rf else pn, '%s: %s() does not create the file exclusively' % (pn, n), 'nonex/%s/%s' % (pn, n))
    makers = ('mkstemp', 'mkostemp', 'mkstemps', 'mkdtemp')
    mk = {f.name for f in p.defs() for i in f.calls(makers)}
    if not mk:
        ck.ob(r1, False, p.fn('main').where, 'no exclusive temporary file creation is left in the driver', 'no-mkstemp')
        return ck.finish('')
    # handlers
    main = p.fn('main')
    hs = {}
    for f in p.defs():
        for i in f.calls('atexit'):
            t = p.points_to_fns(f, i.a[0])
            for h in t or ():
                if h in p.f and not p.f[h].decl: hs[h] = i
    rm = ('remove', 'unlink', 'unlinkat')
    handlers = {h for h in hs if any(set(p.reach([h])) & set(rm) for _ in (0,))}
    ck.ob(r2, bool(handlers), main.where, 'no handler removing files is registered with atexit', 'no-handler')
    # lists: globals read by handlers
    lists = set()
    for h in handlers:
        for fn in p.reach([h]):
            f = p.f.get(fn)
            if not f or f.decl: continue
            for i in f.insts():
                if i.op == 'load' and i.t == 'p' and glob_ptr(i.a[0]) and glob_ptr(i.a[0]) not in ('stderr', 'stdout', 'stdin', 'argv0'): lists.add(glob_ptr(i.a[0]))
    ck.units['handlers'] = sorted(handlers); ck.units['removal lists'] = sorted(lists)
    # registration roots
    hreach = p.reach(handlers) if handlers else set()
    def mentions(f): return f.name not in hreach and any(l in [glob_ptr(o) for o in (i.a if i.op != 'phi' else [])] for i in f.insts() for l in lists)
    regs = {f.name for f in p.defs() if mentions(f)}
    both = {f.name for f in p.defs() if (p.reach([f.name]) & mk) and (p.reach([f.name]) & regs)}
    roots = {n for n in both if not any((t in both and t != n) for i in p.f[n].calls() for t in p.targets(i))}
    ck.units['creating and registering functions'] = sorted(roots)
    ck.ob(r2, bool(roots) or not handlers, main.where, 'temporary files are created but never put in the removal list', 'no-root')
    # every creation goes through a root
    for n in mk:
        st = [n]; seen = set(); esc = None
        while st:
            x = st.pop()
            if x in seen or x in roots: continue
            seen.add(x)
            if x == 'main': esc = x
            st += [c.f.name for c in p.callers_all().get(x, [])]
        ck.ob(r2, esc is None, p.f[n].where, '%s() is reachable from main without the code that registers its file' % n, 'unregistered/' + n)
    for rn in sorted(roots):
        for nm, init in (('first file', 0), ('later file', 1)):
            registration(ck, p, r2, p.f[rn], lists, handlers, nm, init)
    for h in sorted(handlers): handler(ck, p, r3, p.f[h], lists)
    # umask
    um = [i for i in main.calls('umask')]
    ok = any(flow.const_of(i.a[0]) is not None and flow.const_of(i.a[0]) & 0o77 == 0o77 for i in um)
    creators = [i for i in main.calls() if i.callee and i.callee in p.f and (p.reach([i.callee]) & mk)]
    for c in creators:
        ck.ob(r1, any(flow.const_of(i.a[0]) is not None and flow.const_of(i.a[0]) & 0o77 == 0o77 and main.dominates(i, c) for i in um) or not ok and False, c.where, 'temporary files may be created before a private umask is set', 'umask')
    # exits
    for n in ('_exit', '_Exit', 'quick_exit'):
        rf = flow.refs_fn(p, n)
        rf = [x for x in rf if isinstance(x, str) or not only_child(p, x)]
        ck.ob(r4, not rf, getattr(rf[0], 'where', rf[0]) if rf else '', '%s() ends the driver without removing temporary files' % n, n)
    for f in p.defs():
        for i in f.calls(('abort', 'kill', 'raise')):
            ck.ob(r4, f.name == 'ice' or not f.file.startswith('ucc'), i.where, '%s() ends the driver by %s()' % (f.name, i.callee), 'abort/' + f.name)
    I, r, mo = driver.run('main', [TOP, TOP], {}, fork=C(1234), status=C(0), skip=set(SKIP), enter_noret=True)
    ex = [e for e in I.events if e.name == 'exec']
    ck.ob(r4, not ex, ex[0].inst.where if ex else main.where, 'the parent process replaces itself by exec and never removes its files', 'exec')
    partial(ck, p, r5)
    ck.need(r2, 4); ck.need(r3, 1)
    ck.assume.append('process termination by a signal or an internal-error abort is outside the property')
    return ck.finish('mkstemp/atexit/removal-list protocol of the driver interpreted from every state of the list; exit handler interpreted over a symbolic list; runner interpreted with every child failure and file type.')

SKIP = ('state_from_triple', 'triple_parse', 'triple_default', 'infer_target_from_argv0', 'parse_argv', 'add_library_path', 'usage', 'darwin_syslibroot')

def only_child(p, i):
    f = i.f
    for s in f.calls(driver.SPAWN):
        for u in f.uses[s.id]:
            if u.op == 'switch':
                for k, b in zip(u.d['cs'], u.d['s'][1:]):
                    if k == 0 and flow.edge_dominates(f, u.b, b, i.b): return True
            if u.op == 'icmp' and flow.const_of(u.a[1]) == 0:
                for b, t, e in flow.bool_branches(f, u.id, u.d['p'] == 'eq'):
                    if flow.edge_dominates(f, b, t, i.b): return True
    return False

def registration(ck, p, r, f, lists, handlers, nm, init):
    PATH = ('p', 'TMPPATH', 0)
    def mkst(I, a, i, m, k):
        m[('ghost', 'made')] = C(1); return C(5, -1)
    def fresh(I, a, i, m, k): return C(PATH)
    def add(I, a, i, m, k):
        if a[0] is not TOP and a[1] is not TOP and a[0] and a[1] and all(isinstance(x, tuple) and x[1] in {'g:' + l for l in lists} for x in a[0]) and a[1] == C(PATH):
            m[('ghost', 'reg')] = C(1)
            for x in a[0]: m[(x[1], x[2])] = C(('p', 'LIST', 0))
        return TOP
    def ate(I, a, i, m, k):
        if a[0] is not TOP and all(isinstance(x, tuple) and x[0] == 'f' and x[1] in handlers for x in a[0]): m[('ghost', 'at')] = C(1)
        return C(0)
    def ex(I, a, i, m, k):
        I.event('call', 'exit', [m.get(('ghost', n), C(0)) for n in ('made', 'reg', 'at')], i, k, None); return NotImplemented
    # creation succeeded: mkstemp's result is a descriptor
    st = {n: (lambda I, a, i, m, k: (m.__setitem__(('ghost', 'made'), C(1)), C(5))[1]) for n in ('mkstemp', 'mkostemp', 'mkstemps')}
    st.update({n: fresh for n in ('ustrprintf', 'ustrdup', 'strdup', 'ustrdup2')})
    for n in p.f:
        if 'dynarray' in n and 'add' in n and 'array' not in n.replace('dynarray', ''): st[n] = add
    st['atexit'] = ate
    st['exit'] = ex; st['_exit'] = ex
    for n in ('fprintf', 'vfprintf', 'fputc', 'getenv', 'strerror'): st[n] = lambda I, a, i, m, k: TOP
    mem = {('ghost', 'made'): C(0), ('ghost', 'reg'): C(0), ('ghost', 'at'): C(init)}
    for l in lists: mem[('g:' + l, 0)] = C(('p', 'LIST', 0)) if init else C(0)
    I = Interp(p, stubs=st, track_globals=True, enter_noret=True)
    rv, mo = I.run(f, [C(('p', 'arg%d' % k, 0)) if t == 'p' else TOP for k, t in enumerate(f.d['at'])], mem)
    states = [(e.inst.where, e.args) for e in I.events if e.kind == 'call' and e.name == 'exit']
    if mo is not None: states.append((f.where, [mo.get(('ghost', n), C(0)) for n in ('made', 'reg', 'at')]))
    for where, (made, reg, at) in states:
        if made is not TOP and 1 not in made: continue
        # paths that create nothing leave reg untouched: registered must accompany made
        ok = reg is TOP or 1 in reg
        if made == C(1): ok = reg == C(1)
        ck.ob(r, ok, where, '%s(): %s: a created temporary is not always put in the removal list' % (f.name, nm), 'reg/' + f.name, '%s, %s: made=%s registered=%s handler=%s' % (f.name, nm, made, reg, at))
        ok = at == C(1) if made == C(1) else (at is TOP or 1 in at)
        ck.ob(r, ok, where, '%s(): %s: the removal handler is not registered with atexit' % (f.name, nm), 'atexit/' + f.name)
    # relational: restricted to executions through the creating call
    sites = [i for g in p.reach([f.name]) if g in p.f and not p.f[g].decl for i in p.f[g].calls(('mkstemp', 'mkostemp', 'mkstemps'))]
    thr = {}
    for s in sites: thr[s.f.name] = s.b
    # follow the call chain up to the root
    fr = [s.f for s in sites]
    while fr:
        g = fr.pop()
        if g is f: continue
        for c in p.callers().get(g.name, []):
            if c.f.name in p.reach([f.name]) and c.f.name not in thr:
                thr[c.f.name] = c.b; fr.append(c.f)
    I = Interp(p, stubs=st, track_globals=True, enter_noret=True, through=thr)
    rv, mo = I.run(f, [C(('p', 'arg%d' % k, 0)) if t == 'p' else TOP for k, t in enumerate(f.d['at'])], dict(mem))
    if mo is None: raise AnalysisBroken('C04: %s() never returns after creating a file' % f.name)
    for where, (made, reg, at) in [(e.inst.where, e.args) for e in I.events if e.kind == 'call' and e.name == 'exit'] + [(f.where, [mo.get(('ghost', n), C(0)) for n in ('made', 'reg', 'at')])]:
        if made is not TOP and 1 not in made: continue
        ck.ob(r, reg == C(1), where, '%s(): %s: a created temporary is not always put in the removal list' % (f.name, nm), 'reg/' + f.name)
        ck.ob(r, at == C(1), where, '%s(): %s: the removal handler is not registered with atexit' % (f.name, nm), 'atexit/' + f.name)

def handler(ck, p, r, h, lists):
    N = 4
    arr = {8 * k: C(('p', 'F%d' % k, 0)) for k in range(N)}; arr[8 * N] = C(0)
    for res in (0, -1):
        def rmv(I, a, i, m, k):
            I.event('call', 'rm', [a[0]], i, k, None); return C(res)
        st = {'remove': rmv, 'unlink': rmv, 'unlinkat': lambda I, a, i, m, k: (I.event('call', 'rm', [a[1]], i, k, None), C(res))[1]}
        st['free'] = lambda I, a, i, m, k: TOP
        for n in ('fprintf', 'perror', 'close'): st[n] = lambda I, a, i, m, k: TOP
        for n in p.f:
            if 'dynarray' in n and 'count' in n: st[n] = lambda I, a, i, m, k: C(N)
            elif 'dynarray' in n and 'free' in n: st[n] = lambda I, a, i, m, k: TOP
        I = Interp(p, stubs=st, objp={'LIST': arr}, globals_={l: C(('p', 'LIST', 0)) for l in lists})
        rv, mo = I.run(h, [], {})
        got = set()
        for e in I.events:
            if e.name == 'rm' and e.args[0] is not TOP: got |= {x[1] for x in e.args[0] if isinstance(x, tuple)}
        miss = {'F%d' % k for k in range(N)} - got
        ck.ob(r, not miss, h.where, '%s(): entries %s of a list of %d are not removed (remove returns %d)' % (h.name, sorted(miss), N, res), 'handler/%s' % h.name, '%s removes %s' % (h.name, sorted(got)))
        ck.ob(r, mo is not None, h.where, '%s() does not return' % h.name, 'handler-ret/' + h.name)

def partial(ck, p, r):
    """functions that start a stage writing to a named output"""
    off = p.field_off('stat', 'st_mode')
    spawners = {f.name for f in p.defs() if p.reach([f.name]) & set(driver.SPAWN)}
    n = 0
    for fn in sorted(spawners):
        f = p.f[fn]
        ks = [k for k, a in enumerate(f.an) if a in ('out', 'new', 'output', 'outfile', 'to')]
        if len(ks) != 1 or fn == 'main' or f.d['at'][ks[0]] != 'p': continue
        if any(a in ('files', 'state', 'nfiles') for a in f.an): continue
        for tn, t in (('a regular file', S_IFREG), ('a device', S_IFCHR), ('a pipe', S_IFIFO), ('a block device', S_IFBLK), ('a symbolic link', S_IFLNK)):
            for cs, status in (('exits with failure', C(0x100)), ('is killed', C(11))):
                OUT = ('p', 'OUT', 0)
                def stt(I, a, i, m, k):
                    mode = t | 0o644
                    if i.callee in ('stat', 'fstat') and t == S_IFLNK: mode = S_IFCHR | 0o666   # a link to /dev/null
                    buf = a[1]
                    if buf is not TOP:
                        for x in buf:
                            if isinstance(x, tuple): m[(x[1], x[2] + off)] = C(mode)
                    return C(0)
                def rmv(I, a, i, m, k):
                    if a[0] == C(OUT): m[('ghost', 'rm')] = C(1)
                    elif a[0] is TOP or OUT in a[0]: m[('ghost', 'rm')] = C(0, 1)
                    return C(0)
                def ex(I, a, i, m, k):
                    I.event('call', 'exit', [m.get(('ghost', 'rm'), C(0)), m.get(('ghost', 0), C(0))], i, k, None); return NotImplemented
                st = {'stat': stt, 'lstat': stt, 'remove': rmv, 'unlink': rmv, 'exit': ex,
                      'strcmp': lambda I, a, i, m, k: C(1) if a[0] == C(OUT) or a[1] == C(OUT) else NotImplemented,
                      'umalloc': lambda I, a, i, m, k: C(('p', 'al:heap', 0))}
                st['strcmp'] = lambda I, a, i, m, k: C(1)
                args = [C(OUT) if k == ks[0] else (C(0) if f.an[k] == 'return_ec' else (C(('p', 'IN', 0)) if t2 == 'p' else TOP)) for k, t2 in enumerate(f.d['at'])]
                I, rv, mo = driver.run(f, args, {('ghost', 'rm'): C(0)}, fork=C(1234), status=status, stubs=st, enter_noret=True,
                                       globals_={g: C(0) for g in ('show', 'noop', 'time_subcmds', 'wrapper')}, skip=('cmdpath_resolve', 'cmdpath_initrelative'))
                for e in I.events:
                    if e.name != 'exit' or e.args[1] == C(0): continue
                    n += 1
                    want = C(1) if t == S_IFREG else C(0)
                    ck.ob(r, e.args[0] == want, e.inst.where, '%s(): the stage %s and its output, %s, is %s' % (fn, cs, tn, 'not removed' if want == C(1) else 'removed'), 'partial/%s/%s' % (fn, tn),
                          '%s: stage %s, output is %s: removed=%s' % (fn, cs, tn, sorted(e.args[0]) if e.args[0] is not TOP else '?'))
    if n < 10: raise AnalysisBroken('C04: only %d failing-stage exits reached' % n)
