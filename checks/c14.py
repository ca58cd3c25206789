"""C14: each -f/-m/-std/-O/-g option controls exactly its own feature."""
import opts
from chk import Check, pmap
from absint import TOP
from prog import AnalysisBroken
from c13 import PED

def check():
    ck = Check('C14')
    r_f = ck.rule('feature', 'from a state with every feature off and one with every feature on, each -f<name>/-fno-<name> changes exactly the flags of its feature')
    r_x = ck.rule('other', 'each -m, -std, -O, -g, -fsanitize, -fvisibility, -emit and value option changes exactly its own settings')
    r_d = ck.rule('default', 'without options every setting has its documented default')
    r_i = ck.rule('independent', 'an option given before every other one still has its effect (and only its effect) afterwards')
    r_u = ck.rule('unknown', 'a misspelt option is rejected with a failure status')
    o = opts.Opts(); p = o.p
    sp = opts.Spec(o); S = sp.d
    B = [(S['bases']['features'], sorted(S['features'])), (S['bases']['other'], sorted(x for x in S['other'] if x not in PED))]
    jobs = []
    for sec, (bases, names) in zip(('features', 'other'), B):
        for b in (0, 1):
            jobs.append((sec, b, None)); jobs += [(sec, b, n) for n in names]
    def one(j):
        sec, b, n = j
        return j, o.state(S['bases'][sec][b] + ([n] if n else []))
    st = dict(pmap(one, jobs))
    pairs = []
    for j, s in st.items():
        if j[2]: pairs.append((S[j[0]][j[2]][j[1]], opts.diff(st[(j[0], j[1], None)], s)))
    sp.rename(pairs)
    if len(sp.lost) > 8: raise AnalysisBroken('settings not found in the program: %s' % sorted(sp.lost))
    vals = {k for k in sp.keys if not k.startswith('cc1_warning.')}
    for sec, r in (('features', r_f), ('other', r_x)):
        for n in B[sec == 'other'][1]:
            for b in (0, 1):
                base, cur = st[(sec, b, None)], st[(sec, b, n)]
                what = '%s (from all-%s)' % (n, ('off', 'on')[b]); key = 'option/' + n
                if base is None: ck.ob(r, False, 'cc1.c', 'the options %s are rejected' % ' '.join(S['bases'][sec][b])[:80], 'base'); continue
                if cur is None: ck.ob(r, False, 'cc1.c', '%s is rejected' % n, key); continue
                g = opts.diff(base, cur)
                got = {k: v for k, v in sp.got(g).items() if k in vals}; want = {k: v for k, v in sp.want(S[sec][n][b]).items() if k in vals}
                warns = sorted(k for k in g if k.startswith('cc1_warning.'))
                bad = sorted(map(str, (k for k in set(got) | set(want) if got.get(k) != want.get(k))))
                ck.ob(r, not bad and not warns, 'fopt.c' if sec == 'features' else 'cc1.c', '%s: %s' % (what, ', '.join('%s becomes %s, expected %s' % (k.replace('cc1_fopt.', ''), got.get(k, 'unchanged'), want.get(k, 'unchanged')) for k in bad[:3]) or 'changes warnings %s' % warns[:3]), key, {'option': what, 'sets': {k: v for k, v in list(want.items())[:3]}} if n in ('-fplt', '-mfentry') else None)
    dflt = o.state([])
    want = sp.want(S['settings_default'])
    bad = sorted(k for k, v in want.items() if (dflt or {}).get(k, 0) != v)
    ck.ob(r_d, dflt is not None and not bad, 'fopt.c', 'without options %s' % ', '.join('%s is %s, expected %s' % (k, (dflt or {}).get(k, 0), want[k]) for k in bad[:4]), 'default')
    # order independence between features that share no flag
    EFF = {n: {k for e in S['features'][n] for k in e} for n in B[0][1]}
    def early(n):
        rest = [x for x in S['bases']['features'][1] if x in EFF and not (EFF[x] & EFF[n])]
        a = o.state(S['bases']['features'][0] + [n] + rest); b = o.state(S['bases']['features'][0] + rest + [n])
        return n, a == b if a is not None and b is not None else None, None if a is None or b is None else sorted(opts.diff(a, b))
    for n, ok, d in pmap(early, [n for n in B[0][1] if EFF[n]]):
        ck.ob(r_i, ok, 'fopt.c', '%s before and after unrelated options gives different settings (%s)' % (n, d), 'order/' + n)
    # sanitizers accumulate
    san = [x for x in S['other'] if x.startswith('-fsanitize=')]
    def acc(t):
        a, b = t
        s = o.state([a, b])
        return t, s and set(str(s.get('cc1_sanitize', 0)).split())
    if 'cc1_sanitize' in sp.cur:
        eff = {n: set(S['other'][n][0].get('cc1_sanitize', '').split()) for n in san}
        for (a, b), s in pmap(acc, [(a, b) for a in san for b in san if a != b]):
            ck.ob(r_i, s == eff[a] | eff[b], 'sanitize_opt.c', '%s %s enables %s, expected %s' % (a, b, sorted(s) if s else s, sorted(eff[a] | eff[b])), 'sanitize/%s' % b)
    # near misses
    known = {x for sec in ('features', 'other') for x in S[sec]}
    near = set()
    for x in known:
        if x.startswith('-mstringop-strategy=libcall-threshold') or '=' in x and x.split('=')[0] in ('-ferror-limit', '-fmessage-length', '-fdebug-compilation-dir', '-mstringop-strategy=libcall-threshold', '-fsanitize-error') or x.startswith('-emit') or x == '-w': continue
        near |= {x + 'x', x[:-1]} if x[1] in 'fmg' and len(x) > 3 or '=' in x else {x + 'x'} if x[1] != 'O' else set()
    near = sorted(x for x in near if x not in known and x not in ('-std=', '-f', '-m', '-g', '-gx'))
    near += ['-fno-trapvx', '-fxtrapv', '-mfoo', '-ffoo=3', '-mfoo=3', '-fno-error-limit=3', '-ferror-limit=', '-fvisibility=', '-fsanitize=', '-fsanitize=nosuch', '-fsanitize-error=x', '-fsanitize-error=call=', '-mstringop-strategy=', '-mstringop-strategy=x', '-mstringop-strategy=libcall-threshold=x', '-std=c12', '-fno-visibility=hidden', '-fno-sanitize=undefined']
    def rej(x):
        r = o.run([x]); return x, (r[0], r[1] if r[0] == "exit" else None)
    for x, r in pmap(rej, near):
        ck.ob(r_u, r[0] == 'exit' and r[1] is not TOP and r[1] is not None and 0 not in r[1], 'cc1.c', '%s is accepted' % x if r[0] == 'ok' else '%s does not fail with a status (%s)' % (x, r[1]), 'unknown/' + x)
    ck.need(r_f, 200); ck.need(r_x, 130); ck.need(r_u, 150); ck.need(r_i, 200)
    ck.units.update({'option spellings': len(known), 'settings': len(sp.keys), 'settings not matched': len(sp.lost), 'near misses': len(near)})
    return ck.finish('The compiler\'s main() was interpreted abstractly from program start, on each documented option appended to an everything-off and an everything-on command line; the change in every global setting (flags, modes, levels, tokeniser mode) is compared with spec/options.json, settings being matched by effect when renamed. Pairs of unrelated features and sanitizers were compared in both orders; near-miss spellings must exit with a failure status.')
