"""C13: each -W option controls exactly its own diagnostics."""
import re
import prog, warnsites, opts
from absint import C, TOP
from start import start_interp, P
from chk import Check, pmap
from prog import AnalysisBroken

SPECIAL = ('all', 'extra', '', 'everything', 'gnu')
UNCONTROLLED = ('debug attribute handled', 'non-static function not in "%s" namespace')
PED = ('-w', '-pedantic', '-pedantic-errors')

def check():
    ck = Check('C13')
    r_o = ck.rule('option', 'from the all-off, all-on and no-error states, -W<name>, -Wno-<name>, -Werror=<name> and -Wno-error=<name> change exactly the flags the name stands for, to the value the spelling stands for')
    r_u = ck.rule('unknown', 'a misspelt name changes no flag and is recorded as unknown; with -Werror it fails')
    r_w = ck.rule('werror', '-Werror turns exactly the enabled warnings into errors, wherever it stands; -Wno-error cancels it; -w clears everything; -pedantic and -pedantic-errors set their group')
    r_d = ck.rule('default', 'without options the documented default set is on')
    r_e = ck.rule('emit', 'a diagnostic is printed as warning/error exactly as its flag says, suppressed in system headers unless -Wsystem-headers, and the run is marked failed exactly when an error is printed')
    r_s = ck.rule('shown', 'the [-W...] tags printed after a diagnostic are exactly the names that control its flag')
    r_m = ck.rule('message', 'each diagnostic message is printed under the flag documented for it')
    r_c = ck.rule('controlled', 'each flag a diagnostic is printed under can be set by a -W name; no other call prints a warning')
    r_p = ck.rule('cpp', 'each -W name of the preprocessor enables/disables exactly its own messages; -w disables all')
    o = opts.Opts(); p = o.p
    sp = opts.Spec(o); S = sp.d
    names = sorted(S['warnings'])
    ALL3 = ['-Wno-error=everything']
    b0, b3, b1 = o.state(['-w']), o.state(ALL3), o.state(['-Weverything'])
    for b, v, n in ((b0, 0, '-w'), (b3, 3, ALL3[0]), (b1, 1, '-Weverything')):
        if b is None: ck.ob(r_o, False, 'main.c', '%s is rejected' % n, 'base/' + n); return ck.finish('')
        bad = [k for k in o.W.values() if b.get('cc1_warning.' + k, 0) != v]
        ck.ob(r_o, not bad, 'warn.c', '%s leaves %s at the wrong value' % (n, bad[:4]), 'base/' + n)
    W = {'cc1_warning.' + x for x in o.W.values()}
    def d(base, argv):
        x = opts.diff(base, o.state(argv)); return None if x is None else {k: v for k, v in x.items()}
    def one(n):
        return n, [d(b0, ['-w', '-W' + n]), d(b3, ALL3 + ['-W' + n]), d(b1, ['-Weverything', '-Wno-' + n]), d(b0, ['-w', '-Werror=' + n]), d(b0, ['-w', '-Wno-error=' + n]), d(b1, ['-Weverything', '-Werror=' + n]), d(b1, ['-Weverything', '-Wno-error=' + n]), d(b3, ALL3 + ['-Wno-' + n])]
    cur = dict(pmap(one, names))
    # flags renamed since the options were documented
    sp.rename([({'cc1_warning.' + k: 1 for k in S['warnings'][n]['set']}, cur[n][0]) for n in names])
    F = lambda l: {sp.map['cc1_warning.' + k] for k in l if 'cc1_warning.' + k in sp.map}
    for n in names:
        st, cl = F(S['warnings'][n]['set']), F(S['warnings'][n]['clear'])
        cur1 = cur[n]
        if n == 'everything': w8 = [(st, 1, ()), (st, 1, ()), (st, 0, ()), (st, 2, ()), (st, 3, ()), (st, 2, ()), (st, 3, ()), (st, 0, ())]
        else: w8 = [(st, 1, ()), (st, 1, cl), (st | cl, 0, ()), (st, 2, ()), (st, 3, ()), (st, 2, cl), (st, 3, cl), (st | cl, 0, ())]
        for (s, v, c), e, what in zip(w8, cur1, ('-w -W%s', '-Wno-error=everything -W%s', '-Weverything -Wno-%s', '-w -Werror=%s', '-w -Wno-error=%s', '-Weverything -Werror=%s', '-Weverything -Wno-error=%s', '-Wno-error=everything -Wno-%s')):
            if e is None: ck.ob(r_o, False, 'warn.c', '%s is rejected' % (what % n), 'option/%s' % n); continue
            want = {k: v for k in s}; want.update({k: 0 for k in c})
            got = {k: x for k, x in e.items() if k in sp.keys or (k.startswith('@') and x is not None)}
            extra = {k: x for k, x in e.items() if k not in W and not k.startswith('@') and k in p.g and k in sp.cur} if n not in SPECIAL else {}
            bad = sorted(k for k in set(want) | set(got) if want.get(k) != got.get(k))
            ck.ob(r_o, not bad, 'warn.c', '%s: %s' % (what % n, ', '.join('%s is %s, expected %s' % (k.replace('cc1_warning.', ''), got.get(k, 'unchanged'), want.get(k, 'unchanged')) for k in bad[:4])), 'option/%s' % n, {'option': what % n, 'sets': sorted(want)[:3]} if n in ('vla', 'shadow') else None)
    # unknown names
    known = set(names)
    near = sorted({x for n in names for x in (n + 'x', n[:-1]) if x and x not in known and not x.startswith('error') and not 'error'.startswith(x)})
    def unk(x): return x, d(b0, ['-w', '-W' + x]), (d(b0, ['-w', '-Wno-' + x]) if len(x) % 3 == 0 else 0)
    for x, e, e2 in pmap(unk, near):
        for e, sp_ in ((e, '-W'), (e2, '-Wno-')):
            if e == 0: continue
            ok = e is not None and not [k for k in e if k in W] and e.get('@unknown') == x
            ck.ob(r_u, ok, 'warn.c', '%s%s is not a documented warning but %s' % (sp_, x, 'is rejected outright' if e is None else 'changes %s' % sorted(k for k in e if k in W)[:3] if [k for k in e if k in W] else 'is not recorded as unknown'), 'unknown/%s' % x)
    for a in (['-Wnosuch', '-Werror'], ['-Werror', '-Wnosuch'], ['-Werror=unknown-warning-option', '-Wnosuch']):
        r = o.run(a); ck.ob(r_u, r[0] == 'exit' and r[1] is not TOP and 0 not in r[1], 'main.c', '%s does not fail' % ' '.join(a), 'unknown-fails')
    ck.ob(r_u, o.run(['-Wnosuch'])[0] == 'ok' and o.run(['-Werror', '-Wno-unknown-warning-option', '-Wnosuch'])[0] == 'ok', 'main.c', 'an unknown warning name fails without -Werror', 'unknown-ok')
    # -Werror
    def allv(argv, want, what):
        s = o.state(argv)
        bad = ['rejected'] if s is None else sorted(k for k in W if s.get(k, 0) != (want(k) if callable(want) else want))
        ck.ob(r_w, not bad, 'warn.c', '%s: %s' % (' '.join(argv), what + ' fails for ' + ', '.join(x.replace('cc1_warning.', '') for x in bad[:4])), 'werror/%s' % ' '.join(argv))
    vla = F(['vla'])
    allv(['-Weverything', '-Werror'], 2, 'every enabled warning becomes an error')
    allv(['-Werror', '-Weverything'], 2, 'every enabled warning becomes an error')
    allv(['-w', '-Werror'], 0, 'disabled warnings stay off')
    allv(ALL3 + ['-Werror'], 3, '-Wno-error=X survives -Werror')
    allv(['-Werror', '-Wno-error', '-Weverything'], 1, '-Wno-error cancels -Werror')
    allv(['-Weverything', '-Wno-error', '-Werror'], 2, 'a later -Werror counts')
    allv(['-Werror', '-w', '-Wvla'], lambda k: 2 if k in vla else 0, '-w clears what is before it')
    allv(['-Weverything', '-Wno-error=vla', '-Werror'], lambda k: 3 if k in vla else 2, '-Wno-error=vla exempts vla only')
    allv(['-Weverything', '-Werror', '-Wno-vla'], lambda k: 0 if k in vla else 2, '-Wno-vla turns vla off only')
    for opt in PED:
        for base, e in zip(S['bases']['other'], S['other'][opt]):
            base = [x for x in base if x[:2] in ('-w', '-W')]
            if base == ['-w']: b = b0
            elif base == ALL3: b = b3
            else: raise AnalysisBroken('spec bases')
            g = d(b, base + [opt]); want = {k: v for k, v in sp.want(e).items() if k in W}
            got = None if g is None else {k: v for k, v in g.items() if k in sp.keys and k in W}
            bad = sorted(k for k in set(want) | set(got or ()) if want.get(k) != (got or {}).get(k))
            ck.ob(r_w, got is not None and not bad, 'main.c', '%s after %s: wrong for %s' % (opt, base, ', '.join(bad[:4])), 'option/' + opt)
    dflt = o.state([])
    bad = sorted(k for k, v in S['default'].items() if 'cc1_warning.' + k in sp.map and dflt.get(sp.map['cc1_warning.' + k], 0) != v) if dflt else ['?']
    ck.ob(r_d, not bad, 'warn.c', 'default state differs for %s' % bad[:5], 'default')
    emit(ck, o, p, r_e, r_s, S, F, sp)
    # messages and flags
    single = {next(iter(k)) for n in names for k in [{x for x in cur[n][0] or () if x in W}] if len(k) == 1} | {k for n in names if len(cur[n][0] or ()) < 4 for k in cur[n][0] or ()}
    M = {}
    for c, w, m in warnsites.cc1_sites(p):
        if w is None: ck.ob(r_c, False, c.where, 'warning flag of this diagnostic is not one of cc1_warning', 'flag/%s' % c.f.name); continue
        for q in w:
            if q not in o.W: ck.ob(r_c, False, c.where, 'warning flag at unknown offset %d' % q, 'flag/%s/%d' % (c.f.name, q)); continue
            ck.ob(r_c, 'cc1_warning.' + o.W[q] in single, c.where, 'diagnostic controlled by "%s", which no -W name controls on its own' % o.W[q], 'flag/%s' % o.W[q])
        for x in m:
            if x: M.setdefault(x, []).append((c, {'cc1_warning.' + o.W[q] for q in w}))
    n = 0
    for x, fl in S['messages'].items():
        if x not in M: continue
        want = {sp.map['cc1_warning.' + k] for k in fl if 'cc1_warning.' + k in sp.map}
        if len(want) < len(fl): continue
        n += 1
        got = set().union(*(w for _, w in M[x]))
        bad = [c for c, w in M[x] if w - want]
        ck.ob(r_m, got == want, (bad or [M[x][0][0]])[0].where, 'message "%s" is printed under %s, documented under %s' % (x, sorted(k[12:] for k in got), sorted(fl)), 'message/%s' % x)
    if n < 150: raise AnalysisBroken('only %d of %d documented messages found' % (n, len(S['messages'])))
    for fn in ('warn_at',):
        for c in p.callers().get(fn, []):
            if c.f.file == 'warn.c': continue
            for m in {warnsites.message(p, x) for x in warnsites.resolve(p, c.f, c.a[1])}:
                ck.ob(r_c, m in UNCONTROLLED, c.where, 'warning "%s" is printed regardless of any -W option' % m, 'direct/%s' % m)
    for c in p.callers().get('vwarn', []) if 'vwarn' in p.f else []:
        ck.ob(r_c, c.f.file == 'warn.c' or c.f.name == 'cc1_warn_at_w', c.where, 'direct call of vwarn', 'vwarn/%s' % c.f.name)
    cpp(ck, r_p, S)
    ck.need(r_o, 1500); ck.need(r_u, 300); ck.need(r_m, 150); ck.need(r_e, 30); ck.need(r_p, 30)
    ck.units.update({'option names': len(names), 'warning flags': len(W), 'diagnostic sites': sum(len(v) for v in M.values()), 'interpreted': o.p and sum(1 for _ in p.defs())})
    return ck.finish('The compiler\'s main() was interpreted abstractly from program start on option vectors: every documented -W name in each spelling from three base states, near-miss names, and combinations with -Werror; the resulting flag state is compared to spec/options.json (flags matched by effect, not by name). Every call that prints a diagnostic was resolved to the flag and the message; cc1_warn_type/cc1_warn_at_w were interpreted for every flag value. The same for the preprocessor\'s bit masks.')

def emit(ck, o, p, r_e, r_s, S, F, sp):
    E = p.enum_of('VWARN_WARN'); WARN, ERR = E['VWARN_WARN'], E['VWARN_ERR']
    sysoff = p.field_off('cc1_warning', 'system_headers'); off = p.field_off('cc1_warning', 'vla')
    has = 'cc1_warn_at_w' in p.f
    if not has: raise AnalysisBroken('cc1_warn_at_w not found')
    def run(fatal, shdr, insys, tags, off=off):
        ev = []; shown = []
        def vw(I, a, i, m, k): ev.append(a[1]); return TOP
        def fp(I, a, i, m, k):
            t = tuple(I.cstr(next(iter(x))) if x is not TOP and len(x) == 1 and isinstance(next(iter(x)), tuple) else None for x in a[1:]); shown.append(t); return TOP
        st = {'vwarn': vw, 'fprintf': fp, 'where_in_sysheader': lambda *a: C(insys), 'where_cc1_current': lambda *a: P('W'), 'fputc': lambda *a: TOP, 'fputs': fp}
        I = start_interp(p, stubs=st, objs={'FMT': b'x\0'})
        mem = I.init_mem(['cc1_warn_at_w'])
        for g in p.g:
            if not I.readonly(g) and not p.g[g].get('init'): I.zeroed.add('g:' + g)
        mem[('g:cc1_warning', off)] = C(fatal); mem[('g:cc1_warning', sysoff)] = C(shdr)
        mem[('g:cc1_fopt', p.field_off('cc1_fopt', 'show_warning_option'))] = C(1 if tags else 0)
        r, m = I.run('cc1_warn_at_w', [P('W'), P('g:cc1_warning', off), P('FMT')], mem)
        fl = [m.get(('g:' + g, 0), C(0)) if m is not None else None for g in ('fold_had_error', 'parse_had_error')] if m is not None else None
        return r, ev, fl, shown
    matrix(ck, r_e, run, E, r_s is None)
    if r_s is None: return
    if 'show_warn_options' not in p.f: return
    inv = {}
    for n, e in S['warnings'].items():
        if n in SPECIAL: continue
        for k in F(e['set']): inv.setdefault(k, set()).add(n)
    def tags(off):
        _, ev, _, shown = run(1, 1, 0, 1, off)
        return off, len(ev), shown
    for off, ne, shown in pmap(tags, [x for x in sorted(o.W) if 'cc1_warning.' + o.W[x] in sp.keys]):
        got = set()
        for t in shown:
            s = t[0]
            if s is None: continue
            for x in t[1:]: s = s.replace('%s', x or '?', 1)
            got.update(re.findall(r'\[-W(.*?)\]', s))
        want = inv.get('cc1_warning.' + o.W[off], set())
        ck.ob(r_s, ne == 1 and got == want, 'warn.c', 'diagnostics under %s show %s, controlled by %s' % (o.W[off], sorted(got), sorted(want)), 'shown/%s' % o.W[off])
def matrix(ck, r_e, run, E, failonly=False):
    WH = 'warn.c'; WARN, ERR = E['VWARN_WARN'], E['VWARN_ERR']
    for fatal, nm in enumerate(('off', 'warning', 'error', 'no-error')):
        for shdr in (0, 1):
            for insys in (0, 1):
                r, ev, fl, _ = run(fatal, shdr, insys, 0)
                show = fatal != 0 and (shdr or not insys)
                want = [C(ERR if fatal == 2 else WARN)] if show else []
                what = '%s, %s system header%s' % (nm, 'in a' if insys else 'not in a', ', -Wsystem-headers' if shdr else '')
                if failonly:
                    if any(x is TOP or ERR in x for x in ev): ck.ob(r_e, fl is not None and any(x is not TOP and 0 not in x for x in fl), WH, 'optional diagnostic %s: printed as an error without marking the compilation failed' % what, 'optional-error/' + what)
                    continue
                ck.ob(r_e, ev == want, WH, 'flag %s: %s' % (what, 'printed as %s' % ['?' if x is TOP else {WARN: 'warning', ERR: 'error'}.get(next(iter(x)), '?') for x in ev]), 'print/' + what)
                ck.ob(r_e, r == C(1 if show else 0), WH, 'flag %s: wrong return value %s' % (what, r), 'ret/' + what)
                err = want == [C(ERR)]
                ck.ob(r_e, fl is not None and (any(x is not TOP and 0 not in x for x in fl) if err else all(x == C(0) for x in fl)), WH, 'flag %s: the compilation %s' % (what, 'is not marked failed' if err else 'is marked failed although no error is printed'), 'failed/' + what)
def cpp(ck, r_p, S):
    co = opts.CppOpts(); cs = warnsites.cpp_sites(co.p)
    cur = {}; gl = set()
    for c, g, k, m in cs:
        for x in m:
            ck.ob(r_p, g is not None, c.where, 'preprocessor warning "%s" is not guarded by a warning flag' % x, 'cpp/unguarded/%s' % x)
            if g is not None and x: cur.setdefault(x, []).append((c, k)); gl.add(g)
    if len(gl) != 1: raise AnalysisBroken('preprocessor warning flags live in %s' % sorted(gl))
    g = next(iter(gl))
    def mask(argv):
        r = co.run(argv)
        if r[0] != 'ok': return None
        v = r[1].get(('g:' + g, 0), TOP)
        if v is TOP or len(v) != 1: raise AnalysisBroken('cpp: warning mask after %s unknown' % argv)
        return next(iter(v))
    docs = set(S['cpp_messages']) & set(cur)
    if len(docs) < 12: raise AnalysisBroken('cpp: only %d documented messages found' % len(docs))
    def cmpm(argv, want):
        k = mask(argv)
        for x in sorted(docs):
            on = {bool(k & b) for _, b in cur[x]} if k is not None else {None}
            ck.ob(r_p, on == {x in want}, cur[x][0][0].where, 'cpp %s: the message "%s" is %s' % (' '.join(argv) or '(no options)', x, 'not switched as documented (%s, expected %s)' % (sorted(map(str, on)), x in want)), 'cpp/%s/%s' % (' '.join(argv), x))
    cmpm(['-w'], ()); cmpm(['-Weverything'], docs); cmpm(['-Weverything', '-w'], ()); cmpm([], S['cpp_default'])
    for n, e in S['cpp'].items():
        cmpm(['-w', '-W' + n], e['on']); cmpm(['-Weverything', '-Wno-' + n], e['off'])
        if n + 'x' not in S['cpp']: cmpm(['-w', '-W' + n + 'x'], ()); cmpm(['-Weverything', '-Wno-' + n[:-1]], docs)
