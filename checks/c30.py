"""C30: the driver's routing of options. main() of the driver is interpreted on command lines; the stages it starts and their
argument vectors are compared with what the command line means (lib/drvmodel.py)."""
import os, re, itertools
from drvrun import DrvRun
from drvmodel import Model, warn_names, observed, PP, CC, AS, LD
from chk import Check, AnalysisBroken, pmap
import ir
RUN = MOD = None
OPTS = [['-DX'], ['-D', 'Y=1'], ['-UZ'], ['-U', 'Q'], ['-Iinc'], ['-I', 'inc2'], ['-isystem', 'sy'], ['-lm'], ['-l', 'n'], ['-Llib'], ['-L', 'lib2'], ['-Wp,-DA,-DB'], ['-Wc,-fa,-fb'], ['-Wa,--x,-y'], ['-Wl,-z,now'],
 ['-Xpreprocessor', '-DP'], ['-Xassembler', '-a'], ['-Xlinker', '-k'], ['-w'], ['-H'], ['-P'], ['-C'], ['-CC'], ['-dM'], ['-M'], ['-MM'], ['-MD'], ['-MF', 'dep'], ['-MG'], ['-O'], ['-O2'], ['-Os'], ['-g'], ['-g0'], ['-gline-tables-only'],
 ['-std=c99'], ['-ansi'], ['-pedantic'], ['-pedantic-errors'], ['-fverbose-asm'], ['-fno-common'], ['-ffreestanding'], ['-fmessage-length=9'], ['-fcpp-offsetof'], ['-fleading-underscore'], ['-fno-leading-underscore'], ['-fpic'],
 ['-fPIC'], ['-fpie'], ['-fPIE'], ['-fno-pic'], ['-fno-PIE'], ['-fsigned-char'], ['-fno-signed-char'], ['-funsigned-char'], ['-fno-unsigned-char'], ['-fstack-protector'], ['-fno-stack-protector'], ['-fstack-protector-all'],
 ['-fno-stack-protector-all'], ['-ffast-math'], ['-fno-fast-math'], ['-fsanitize=undefined'], ['-fuse-cpp'], ['-fuse-cpp=/my/cpp'], ['-mred-zone'], ['-mstackrealign'], ['-mmultilib'], ['-mno-multilib'], ['-mmusl'], ['-mglibc'], ['-s'],
 ['-trigraphs'], ['-digraphs'], ['-target', 'x86_64-linux'], ['-pg'], ['-pthread'], ['-shared'], ['-static'], ['-rdynamic'], ['-pie'], ['-no-pie'], ['-static-pie'], ['-nostdlib'], ['-nostartfiles'], ['-nodefaultlibs'], ['-nostdinc'],
 ['-nostdlibinc'], ['-nobuiltininc'], ['-o', 'out'], ['-oout'], ['-E'], ['-S'], ['-c'], ['-fsyntax-only'], ['-emit=dump'], ['-emit', 'style'], ['-wrapper', 'w'], ['-wrapper', 'w,-a,b'], ['-v'], ['-time'], ['-B/opt/x'], ['-B/opt/x/'],
 ['-xc'], ['-x', 'assembler'], ['-xnone'], ['-###'], ['-save-temps']]
BAD = [['-zz'], ['-Ex'], ['-Sx'], ['-cx'], ['-Xfoo', 'a'], ['-xfoo'], ['-x', 'zz'], ['-emitx'], ['-wabc'], ['--bad'], ['-B'], ['-fuse-cppx'], ['-fsystem-cpp'], ['-static2'], ['-pies'], ['-nostd'], ['-qq'], ['-shared='], ['-t'], ['-k'], ['-target', 'foo-bar'], ['-time2'], ['-ansi2'], ['-std']]
MISS = ['-D', '-U', '-I', '-isystem', '-l', '-L', '-Xpreprocessor', '-Xassembler', '-Xlinker', '-MF', '-o', '-x', '-emit', '-wrapper', '-target']
def names():
    n = warn_names(ir.REPO); u = sorted(n[PP] | n[CC])
    return n, u
def tracks(l): return ' '.join(l)
def jobs(tier):
    R = {'one': 'every option, alone, reaches the stages it is for with its argument', 'pair': 'two options given together each keep their effect, in the order given',
         'warn': 'a warning option reaches the program that knows the warning', 'bad': 'an option that is unknown or lacks its argument is rejected', 'env': 'library directories, start files and link options',
         'many': 'options apply alike to every input'}
    n, u = names()
    for o in OPTS:
        for inp in (['a.c'], ['a.s'], ['a.S'], ['a.i'], ['a.o']): yield R['one'], o + inp, {}, ()
        yield R['one'], ['a.c'] + o, {}, ()
        yield R['one'], ['a.c', '-c'] + o, {}, ()
        yield R['many'], o + ['a.c', 'b.c'], {}, (); yield R['many'], ['a.S', 'b.c'] + o + ['c.S'], {}, (); yield R['many'], ['a.c', 'd.o'] + o + ['b.i', 'e.s'], {}, ()
    for (x, a), (y, b) in itertools.product(enumerate(OPTS), enumerate(OPTS)):
        if tier == 'thorough' or (x <= y) == ((x + y) % 2 == 0): yield R['pair'], a + ['a.c'] + b, {}, ()
    for w in u + ['', 'all', 'extra', 'everything', 'error', 'gnu', 'nosuchwarning', 'p', 'undefx']:
        for pre in ('', 'no-', 'error=', 'no-error='): yield R['warn'], ['-W' + pre + w, 'a.c'], {}, ()
    for o in ('-Wq,-a,-b', '-Wp,', '-Wl,,x', '-Wa,x,', '-Wl,-rpath=a', '-Wp', '-Wl', '-Wlx,y', '-Werror', '-Wno-error', '-W'): yield R['warn'], [o, 'a.c'], {}, ()
    for o in BAD:
        for c in (['a.c'] + o, o + ['a.c'], ['-c', 'a.c'] + o): yield R['bad'], c, {}, ()
    for o in MISS: yield R['bad'], ['a.c', o], {}, (); yield R['bad'], ['a.c', '-c', '-O1', o], {}, ()
    yield R['bad'], [], {}, (); yield R['bad'], ['-O2'], {}, (); yield R['bad'], ['-c', '-o', 'x', 'a.c', 'b.c'], {}, (); yield R['bad'], ['-S', '-o', 'x', 'a.c', 'b.c'], {}, ()
    yield R['bad'], ['-fsyntax-only', '-c', 'a.c'], {}, (); yield R['bad'], ['-fsyntax-only', '-o', 'x', 'a.c'], {}, (); yield R['bad'], ['-MD', 'a.c', 'b.c'], {}, (); yield R['bad'], ['-B/a', '-B/b', 'a.c'], {}, (); yield R['bad'], ['-fsyntax-only', '-E', 'a.c'], {}, ()
    L = [['-shared'], ['-static'], ['-rdynamic'], ['-pie'], ['-no-pie'], ['-static-pie'], ['-nostartfiles'], ['-nodefaultlibs'], ['-nostdlib'], ['-pg'], ['-pthread'], ['-mmusl'], ['-mglibc'], ['-mmultilib'], ['-mno-multilib'], ['-lm']]
    for k in (2, 3):
        for c in itertools.combinations(L, k): yield R['env'], sum(c, []) + ['a.o'], {}, ()
    for e in ('/a', '/a:/b', ':/a', '/a:', '/a::/b', '', ':', '/a:/b:/c'):
        for c in (['a.o'], ['-L/u', 'a.o', '-lx'], ['-c', 'a.c'], ['-pthread', 'a.c']): yield R['env'], c, {'LIBRARY_PATH': e}, ()
    for x in ('/usr/lib/x86_64-linux-gnu', '/usr/lib/x86_64-linux', '/usr/lib/'):
        for c in (['a.c'], ['a.c', '-mno-multilib'], ['a.c', '-target', 'x86_64-linux'], ['a.o', '-shared']): yield R['env'], c, {}, (x,)
    T = [['-DX'], ['-E'], ['-c'], ['-xassembler'], ['-fstack-protector-all'], ['-fPIE'], ['-shared'], ['-nostdlib'], ['-MD'], ['-o', 'z'], ['-isystem', 's'], ['-Wl,-x'], ['-save-temps'], ['-w'], ['-pthread'], ['-static']]
    H = T if tier == 'thorough' else T[::2]
    for a, b, c in itertools.product(H, H, H):
        if a != b and b != c and a != c: yield R['pair'], a + b + ['a.c'] + c + ['b.S'], {}, ()
def short(l): return ' '.join(l)[:150]
def one(job):
    rule, argv, env, exist = job
    try: exp = MOD.result(argv, env, exist)
    except ValueError: exp = None
    r = RUN.run(argv, env, exist, **({'argv0': '/ucc/bin/' + 'long-name-' * 7 + 'ucc'} if len(argv) < 3 else {}))
    ok = r.how in ('return', 'exit') and r.status == 0
    here = r.acts[-1][-1] if r.acts else 'main (ucc.c)'
    if r.how == 'abort': return rule, argv, 'the driver aborts', here
    if exp is None: return (rule, argv, 'is accepted', here) if ok else None
    if not ok: return rule, argv, 'is rejected (%s)' % r.err.strip()[-80:], here
    if exp.get('dump'): return None
    if exp['flags']['noop']:
        bad = next((a for a in r.acts if a[0] in ('run', 'cat', 'fopen')), None)
        if bad: return rule, argv, '-### does %s' % (bad[:2],), bad[-1]
        for st, inp, args in exp['steps']:
            for a in args:
                if not a.startswith('/') and not a.endswith(')') and a not in r.err: return rule, argv, '-### does not show %s' % a, 'runner (ucc_ext.c)'
        return None
    w = exp['wrap'].split(',') if exp['wrap'] else []
    w = [x for x in w[:-1]] + ([w[-1]] if w and w[-1] else [])
    acts = []
    for a in r.acts:
        if a[0] == 'run':
            av = a[1]
            if list(av[:len(w)]) != w: return rule, argv, 'a command is run without the wrapper: %s' % short(av), a[5]
            if w and (a[3] != w[0] or a[2] != 'execvp'): return rule, argv, 'the wrapper is not what is executed' if a[3] != w[0] else 'the wrapper is not looked up in PATH', a[5]
            if not w and '/' not in a[3] and a[2] != 'execvp': return rule, argv, '%s is not looked up in PATH' % a[3], a[5]
            av = av[len(w):]
            if not w and a[3] != av[0]: return rule, argv, '%s is executed as %s' % (a[3], av[0]), a[5]
            if a[4] != 0o22: return rule, argv, 'the file mode mask is not restored before %s' % av[0], a[5]
            a = ('run', av) + a[2:]
        acts.append(a)
    r.acts = acts
    steps, content, stdout, written = observed(r)
    main = [x for x in steps]
    for k, (st, inp, args) in enumerate(exp['steps']):
        if k >= len(main): return rule, argv, 'the %s is not run%s' % (st, ' on ' + inp if inp else ''), here
        t, x, av, wh, path = main[k]
        if os.path.normpath(path) != exp['bins'][st]: return rule, argv, 'runs %s where %s is due' % (path, exp['bins'][st]), wh
        av = [norm(a) for a in av]; want = [norm(a) for a in args]
        if st == LD: av = av
        if av != want:
            lost = [a for a in want if want.count(a) > av.count(a)]; extra = [a for a in av if av.count(a) > want.count(a)]
            return rule, argv, 'the %s gets %s%s' % (st, 'its arguments in another order: %s' % short(av) if not lost and not extra else '', (' and '.join((['no ' + short(lost)] if lost else []) + (['also ' + short(extra)] if extra else [])))), site(extra, lost)
        if st != LD and x != inp: return rule, argv, 'the %s is given %s, not %s' % (st, x, inp), wh
        if st == LD and [c for c in content.values() if c == [('ld', main[k][2])]] and not any(f in exp['final'] and v == [('ld', main[k][2])] for f, v in content.items()): return rule, argv, 'the linker writes elsewhere than %s' % list(exp['final']), wh
    if len(main) > len(exp['steps']): return rule, argv, 'runs %s after the last stage' % short(main[len(exp['steps'])][2]), main[len(exp['steps'])][3]
    return None
def site(extra, lost): return 'parse_argv (ucc.c)'
def norm(a): return os.path.normpath(a) if a.startswith('/') else a
def check():
    global RUN, MOD
    c = Check('C30', level='exhaustive-bounded'); RUN = DrvRun(); MOD = Model(names()[0])
    J = list(jobs(c.tier)); seen = set(); K = []
    for j in J:
        k = (tuple(j[1]), tuple(j[2].items()), j[3])
        if k not in seen: seen.add(k); K.append(j)
    res = pmap(one, K); told = {}
    for j, x in zip(K, res):
        rule = c.rule(j[0], j[0])
        if x is None: c.ob(rule, True, '', '', sample='ucc ' + ' '.join(j[1])); continue
        key = re.sub(r"\S*\(.*?\)\S*", '', x[2])
        told[key] = told.get(key, 0) + 1
        if told[key] > 3 and len(c.viol) > 15: continue
        c.ob(rule, False, x[3], 'ucc %s%s: %s' % (' '.join('%s=%s' % e for e in j[2].items()), ' '.join(x[1]), x[2]), key='%s|%s' % (' '.join(x[1]), x[2]))
    c.need(next(iter(c.rules)), 400)
    c.units = {'command lines': len(K), 'options': len(OPTS)}
    c.assume = ['fork, exec, wait and the file system are modelled; every started program succeeds', 'the target is x86_64 Linux']
    return c.finish('The driver\'s main() is interpreted on every option alone (in several positions and with every kind of input), every ordered pair of %d options, every warning name, and combinations of link options; each started command is compared, argument by argument, with a table of what each option is for.' % len(OPTS))
