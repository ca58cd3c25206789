"""C02: stage failures propagate. main() of the driver is interpreted over abstract child outcomes."""
import prog, flow, driver
from absint import C, TOP
from chk import Check, AnalysisBroken

SKIP = ('state_from_triple', 'triple_parse', 'triple_default', 'infer_target_from_argv0', 'parse_argv', 'add_library_path', 'usage', 'darwin_syslibroot')

def check():
    ck = Check('C02')
    r_fail = ck.rule('failure-exits', 'after a child failed (status in the abstract set), main cannot return 0 and exit() gets a non-zero status')
    r_later = ck.rule('no-later-stage', 'no further stage is started after a child failed')
    r_start = ck.rule('cannot-start', 'fork failing, wait failing, or exec returning in the child ends the process with a non-zero status')
    r_wait = ck.rule('status-collected', 'every fork is followed in the parent by a blocking wait that stores the status, on every path')
    p = prog.load('ucc')
    main = p.fn('main')
    spawn = [f for f in p.defs() if any(True for _ in f.calls(driver.SPAWN))]
    for f in spawn:
        for n in ('posix_spawn', 'posix_spawnp', 'clone'):
            ck.ob(r_wait, not flow.refs_fn(p, n), f.where, 'process started by %s, outside the modelled fork/wait' % n, 'spawn/' + n)
    if not spawn: raise AnalysisBroken('C02: no function forks')
    dry = dry_flags(p)
    direct = {i.callee for i in main.calls() if i.callee and i.callee in p.f and not p.f[i.callee].decl}
    def outcome(name, kw, want_fork=True):
        I, r, mo = driver.run('main', [TOP, TOP], {}, watch=direct | {f.name for f in spawn}, globals_=dry, skip=set(SKIP), enter_noret=True, **kw)
        ck.units['functions'] = sorted(set(ck.units.get('functions', [])) | I.visited)
        forks = [e for e in I.events if e.name == 'fork']
        if want_fork and len({tuple(x.name for x in e.stack) for e in forks}) < 4: raise AnalysisBroken('C02: only %d spawn paths reached' % len(forks))
        return I, forks
    groups = [('exit status %d..%d' % (a, min(a + 39, 255)), [k << 8 for k in range(a, min(a + 40, 256))]) for a in range(1, 256, 40)]
    groups += [('killed by signal %d..%d' % (a, a + 31), list(range(a, a + 32))) for a in (1, 33)]
    groups += [('killed by signal with core dump', [0x80 | k for k in range(1, 32)])]
    if ck.tier != 'thorough':
        groups = [('exit status 1..40,127..130,255', [k << 8 for k in list(range(1, 36)) + [126, 127, 128, 129, 130, 192, 254, 255]]), groups[-3], groups[-1]]
    for nm, st in groups:
        I, forks = outcome(nm, dict(fork=C(1234), status=frozenset(st)))
        bad_exit(ck, I, r_fail, nm, True)
        for e in I.events:
            path = ' -> '.join(x.name for x in e.stack)
            if e.kind == 'ret' and e.stack and e.stack[-1] is main and failed(e.mem):
                rets = [flow.const_of(o) for t, o in flow.reachable_rets(p, main, e.inst)]
                ok = all(v is not None and v & 255 for v in rets)
                ck.ob(r_fail, ok, e.inst.where, '%s: %s() returns to main after a child failed (%s) and main can then return 0' % (path, e.name, nm),
                      'returns/%s' % e.name, '%s after %s -> main returns %s' % (e.name, nm, rets))
            if e.name == 'fork':
                ok = not failed(e.mem)
                if not ok:
                    top = e.stack[1].name if len(e.stack) > 1 else 'main'
                    rets = [flow.const_of(o) for c in main.calls(top) for t, o in flow.reachable_rets(p, main, c)]
                    ok = bool(rets) and all(v is not None and v & 255 for v in rets)   # only prints help
                ck.ob(r_later, ok, e.inst.where, '%s: starts another stage after a child failed (%s)' % (path, nm), 'later/' + path, path)
        waited(ck, I, r_wait, forks, nm)
    ck.units['child outcomes'] = sum(len(s) for _, s in groups)
    # cannot start
    for nm, kw in (('fork fails', dict(fork=C(-1))), ('wait fails', dict(fork=C(1234), wait_fails=True)), ('exec returns in the child', dict(fork=C(0)))):
        I, forks = outcome(nm, kw)
        n = bad_exit(ck, I, r_start, nm, False)
        for e in I.events:
            if e.kind == 'ret' and e.name in {f.name for f in spawn}:
                ck.ob(r_start, False, e.inst.where, '%s: %s() returns when %s' % (' -> '.join(x.name for x in e.stack), e.name, nm), 'start/%s/%s' % (nm, e.name))
        if nm.startswith('exec'):
            ex = [e for e in I.events if e.name == 'exec']
            ck.ob(r_start, bool(ex) and {tuple(x.name for x in e.stack) for e in ex} >= {tuple(x.name for x in e.stack) for e in forks}, spawn[0].where, 'the child of a fork does not reach exec', 'noexec')
    ck.need(r_fail, 3); ck.need(r_later, 12); ck.need(r_start, 3)
    ck.assume.append('the command line and file system are unknown (TOP); -### (dry run) is off; the functions %s do not fork' % ', '.join(SKIP))
    for n in SKIP:
        if n in p.f and set(driver.SPAWN) & p.reach([n]): raise AnalysisBroken('C02: skipped function %s reaches fork' % n)
    return ck.finish('main() and everything it calls are interpreted with an unknown command line under each abstract child outcome; a ghost cell records that a failing status was collected and must never coexist with a zero exit or another fork.')

def failed(mem):
    g = mem.get(('ghost', 0), TOP)
    return g is TOP or 1 in g

def waited(ck, I, rule, forks, nm):
    waits = {tuple(x.name for x in e.stack) for e in I.events if e.name in driver.WAITS}
    for e in forks:
        st = tuple(x.name for x in e.stack)
        ok = any(w[:len(st)] == st or st[:len(w)] == w for w in waits)
        ck.ob(rule, ok, e.inst.where, '%s: forked child is not waited for' % ' -> '.join(st), 'nowait/' + '/'.join(st))
    # a wait that may not collect the status
    for e in I.events:
        if e.name in ('waitpid', 'wait3', 'wait4'):
            o = e.args[{'waitpid': 2, 'wait3': 1, 'wait4': 2}[e.name]]
            ck.ob(rule, o == C(0), e.inst.where, '%s() with options other than 0 may not collect the status' % e.name, 'wnohang/' + e.inst.f.name)

def bad_exit(ck, I, rule, nm, need_ghost):
    n = 0
    for e in I.events:
        if e.kind == 'call' and e.name == 'exit':
            a, g = e.args
            if need_ghost and g == C(0): continue
            n += 1
            ok = a is not TOP and all(isinstance(x, int) and x & 255 for x in a)
            ck.ob(rule, ok, e.inst.where, '%s: exit status %s may be 0 (%s)' % (' -> '.join(x.name for x in e.stack), 'unknown' if a is TOP else sorted(a)[:4], nm),
                  'exit/%s' % e.inst.f.name, 'exit(%s) via %s' % ('?' if a is TOP else sorted(a)[:3], e.inst.f.name))
    return n

def dry_flags(p):
    """the dry-run flag(s): internal globals that guard an early return before fork in the spawning function"""
    r = {}
    for f in p.defs():
        for c in f.calls(driver.SPAWN):
            for i in f.insts():
                if i.op == 'load' and isinstance(i.a[0], list) and i.a[0][0] == 'g' and i.t == 'i32':
                    for b, t, e in [x for u in f.uses[i.id] if u.op == 'icmp' for x in flow.bool_branches(f, u.id, u.d['p'] == 'ne')]:
                        # taking the true edge never reaches the fork
                        seen = {t}; st = [t]
                        while st:
                            x = st.pop()
                            for y in f.succ[x]:
                                if y not in seen: seen.add(y); st.append(y)
                        if c.b not in seen: r[i.a[0][1]] = C(0)
    return r
