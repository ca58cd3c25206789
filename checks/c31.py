"""C31: which stages each input of the driver goes through and where its result lands. main() of the driver is interpreted on
every kind of input, mode and output; the content of every file is followed through the commands it runs."""
import re, itertools
from drvrun import DrvRun
from drvmodel import Model, observed, kind, CC
from chk import Check, pmap
RUN = MOD = None
INS = ['a.c', 'b.i', 'c.s', 'd.S', 'e.o', 'f.a', 'g.so', 'h.xyz', 'noext', '-', 'd.ir/k.c', 'd.ir/noext', '../up/l.S', 'm.x.c', '.c', 'q.C', 'r.', 's.cc', 'cc', 'x.so.c']
MODES = [[], ['-E'], ['-S'], ['-c'], ['-fsyntax-only'], ['-emit=dump'], ['-M'], ['-MM'], ['-E', '-c'], ['-c', '-E'], ['-S', '-c'], ['-c', '-S']]
OUTS = [[], ['-o', 'out'], ['-o', 'out.o'], ['-o-'], ['-o', 'd/out']]
LANGS = ['c', 'cpp-output', 'assembler', 'asm', 'assembler-with-cpp', 'asm-with-cpp', 'none']
def jobs(tier):
    A = 'each kind of input goes through its own stages and its result lands where asked'; B = 'several inputs: each is processed as it would be alone'; X = '-x applies to the inputs after it'; T = '-save-temps keeps the intermediate files and no input is overwritten'
    for i in INS:
        for m in MODES:
            for o in OUTS: yield A, m + o + [i]
            yield A, [i] + m; yield A, m + ['--', i] if False else m + [i, '-O']
            for n, l in enumerate(LANGS):
                if tier == 'thorough' or MODES.index(m) < 6 and (n + INS.index(i)) % 2 == 0: yield X, m + ['-x', l, i]
                if tier == 'thorough' or MODES.index(m) < 6 and (n + INS.index(i)) % 2: yield X, m + ['-x' + l, i, '-o', 'out']
            yield T, ['-save-temps'] + m + [i]
            yield T, m + ['-save-temps', '-xc', i]
            yield T, m + ['-save-temps', '-xassembler-with-cpp', i]
    S = INS[:7] + ['-', 'noext'] if tier == 'thorough' else ['a.c', 'b.i', 'c.s', 'd.S', 'e.o', 'noext']
    for i, j in itertools.product(S, S):
        for m in MODES[:5]:
            for o in OUTS[:2]:
                if i != j: yield B, m + o + [i, j]
            if i != j: yield X, m + ['-xc', i, '-xnone', j]; yield X, m + [i, '-xassembler', j]
    for c in itertools.permutations(['a.c', 'b.i', 'c.s', 'd.S', 'e.o'], 3):
        for m in MODES[:4]: yield B, m + list(c)
        yield B, ['-E', '-o', 'out'] + list(c)
    for n in (4, 10, 40): yield B, ['f%d.c' % k for k in range(n)]; yield B, ['-c'] + ['f%d.c' % k for k in range(n)]; yield B, ['-E', '-o', 'o'] + ['f%d.c' % k for k in range(n)]
def one(job):
    rule, argv = job
    exp = MOD.result(argv); r = RUN.run(argv)
    ok = r.how in ('return', 'exit') and r.status == 0; here = r.acts[-1][-1] if r.acts else 'main (ucc.c)'
    if r.how == 'abort': return rule, argv, 'the driver aborts', here
    save = '-save-temps' in argv
    ins = [n for n, _ in MOD.inputs]
    steps, content, stdout, written = observed(r)
    for f, w in written:
        if f in ins and f not in (MOD.out,) and not f.startswith('/dev'): return rule, argv, 'the input %s is overwritten' % f, w
    if exp is None: return (rule, argv, 'is accepted', here) if ok else None
    if not ok:
        if save: return None        # e.g. a kept file would be the input
        return rule, argv, 'is rejected: %s' % r.err.strip()[-80:], here
    want = [(st, x) for st, x, _ in exp['steps']]; got = [(t, x) for t, x, *_ in steps]
    for k in range(max(len(want), len(got))):
        if k >= len(got): return rule, argv, 'the %s is not run on %s' % want[k], here
        w = steps[k][3]
        if k >= len(want): return rule, argv, 'the %s is run on %s after the last stage' % got[k], w
        if want[k] != got[k]: return rule, argv, 'the %s is run on %s where the %s on %s is due' % (got[k] + want[k]), w
    final = {}
    for f, v in content.items():
        if f.startswith('/tmp/ucc.'): continue
        if v and isinstance(v[0], tuple):
            objs = [o for o in v[0][1] if o.endswith(')') or o in ins]
            v = ['ld(%s)' % ' '.join(objs)]
        final[f] = v
    for f, v in exp['final'].items():
        if final.get(f) != v: return rule, argv, '%s gets %s, not %s' % (f, final.get(f) and '+'.join(final[f]), '+'.join(v)), at(written, f, here)
    if stdout != exp['stdout']: return rule, argv, 'the standard output gets %s, not %s' % (stdout, exp['stdout']), here
    for f in final:
        if f not in exp['final'] and not save: return rule, argv, '%s is written (%s)' % (f, '+'.join(final[f])), at(written, f, here)
    for u in exp['unused']:
        if 'unused' not in r.err: return rule, argv, 'nothing is said about the unused input %s' % u, here
    return None
def at(written, f, here): return next((w for g, w in written if g == f), here)
def check():
    global RUN, MOD
    c = Check('C31', level='exhaustive-bounded'); RUN = DrvRun()
    from drvmodel import warn_names
    import ir
    MOD = Model(warn_names(ir.REPO))
    J = list(jobs(c.tier)); seen = set(); K = []
    for j in J:
        if tuple(j[1]) not in seen: seen.add(tuple(j[1])); K.append(j)
    res = pmap(one, K); told = {}
    for j, x in zip(K, res):
        rule = c.rule(j[0], j[0])
        if x is None: c.ob(rule, True, '', '', sample='ucc ' + ' '.join(j[1])); continue
        key = x[0] + x[3]; told[key] = told.get(key, 0) + 1
        if told[key] > 3 and len(c.viol) > 15: continue
        c.ob(rule, False, x[3], 'ucc %s: %s' % (' '.join(x[1]), x[2]), key='%s|%s' % (' '.join(x[1]), x[2]))
    c.need(next(iter(c.rules)), 400)
    c.units = {'command lines': len(K)}
    c.assume = ['fork, exec, wait and the file system are modelled; every started program succeeds and writes the file after -o']
    return c.finish('The driver\'s main() is interpreted on every kind of input in every mode with and without an output name, alone and in pairs; from the commands it starts, the content of every file it leaves is derived and compared with what was asked for.')
