"""Writes spec/options.json: the options as documented in warnings.def/fopts.h etc. at the pinned commit. Run by hand
and reviewed; the checks only read the file."""
import sys, os, re, json
sys.path[:0] = ['/verif/lib']
import prog, warnsites
import opts
from opts import Opts
from chk import pmap
R = '/repo/src/cc1/'
o = Opts(); p = o.p
W = {m[1]: m[0] for m in p.structs['cc1_warning']}; F = {m[1]: m[0] for m in p.structs['cc1_fopt']}
def names(f): return re.findall(r'^(?:X|ALIAS|GROUP|INVERT|EXCLUSIVE|ALIAS_EXCLUSIVE)\("([^"]*)"', open(R + f).read(), re.M)
state = o.state
diff = opts.diff
wn = sorted(set(names('warnings.def'))) + ['all', 'extra', '', 'everything', 'gnu']
fn = sorted(set(names('fopts.h')))
b0, b3, d = state(['-w']), state(['-Wno-error=everything']), state([])
def warn(n):
    on0, on3 = diff(b0, state(['-w', '-W' + n])), diff(b3, state(['-Wno-error=everything', '-W' + n]))
    return n, {'on': on0, 'on3': on3, 'off': diff(b3, state(['-Wno-error=everything', '-Wno-' + n]))}
spec = {'warnings': {}, 'features': {}, 'other': {}}
for n, e in pmap(warn, wn):
    s = {'set': sorted(k[12:] for k, v in e['on'].items() if v == 1 and k.startswith('cc1_warning.')), 'clear': sorted(k[12:] for k, v in e['on3'].items() if v == 0)}
    assert e['on'] == {'cc1_warning.' + k: 1 for k in s['set']}, (n, e)
    assert sorted(e['on3']) == sorted('cc1_warning.' + k for k in s['set'] + s['clear']), (n, e)
    assert sorted(e['off']) == sorted('cc1_warning.' + k for k in s['set'] + s['clear']), (n, e)
    spec['warnings'][n] = s
def feat(n):
    z = ['-fno-' + x for x in fn]; a = ['-f' + x for x in fn]
    def tr(opt):
        # effect of an option as assignments: compare against two bases that differ in every flag
        return [diff(state(base), state(base + [opt])) for base in BASES]
    return n, {'-f' + n: tr('-f' + n), '-fno-' + n: tr('-fno-' + n)}
INV = ['-f' + x for x in fn if not x.startswith('no-') and x not in ('unsigned-char', 'reg-struct-return', 'pie', 'PIE', 'PIC', 'stack-protector-all')]
BASES = [['-fno-' + x for x in fn if x != 'unsigned-char'] + ['-funsigned-char'], INV]
for n, e in pmap(feat, fn): spec['features'].update(e)
oth = ['-std=' + x for x in ('c89', 'c90', 'c99', 'c11', 'c17', 'c18', 'c2x', 'gnu89', 'gnu90', 'gnu99', 'gnu11', 'gnu17', 'gnu18', 'gnu2x')] + ['-ansi', '-g', '-g0', '-g1', '-g2', '-g3', '-gline-tables-only', '-gmlt', '-gcolumn-info', '-gno-column-info',
       '-O', '-O0', '-O1', '-O2', '-O3', '-Os', '-pg', '-mstackrealign', '-mno-stackrealign', '-malign-is-p2', '-mno-align-is-p2', '-mfentry', '-mno-fentry', '-mred-zone', '-mno-red-zone', '-ferror-limit=7', '-fmessage-length=33',
       '-mstringop-strategy=libcall', '-mstringop-strategy=loop', '-mstringop-strategy=libcall-threshold=5', '-fvisibility=hidden', '-fvisibility=default', '-fvisibility=protected', '-fdebug-compilation-dir=/q', '-fno-sanitize=all',
       '-fsanitize=undefined', '-fsanitize=shift', '-fsanitize-error=trap', '-fsanitize-error=call=hn', '-fsanitize-undefined-trap-on-error', '-pedantic', '-pedantic-errors', '-w', '-emit=dump', '-emit=print', '-emit=asm', '-emit=style'] + ['-fsanitize=' + re.match(r'.*?"([^"]*)"', l).group(1) for l in open(R + 'sanitize_opts.h') if 'X(SAN' in l]
OB = [['-fno-' + x for x in fn if x != 'unsigned-char'] + ['-w', '-ferror-limit=1', '-fmessage-length=1', '-g1', '-gcolumn-info', '-mno-red-zone', '-emit=dump', '-mstringop-strategy=loop', '-fvisibility=protected', '-std=c99'],
      INV + ['-Wno-error=everything', '-ferror-limit=1', '-fmessage-length=1', '-gno-column-info', '-mstackrealign', '-mfentry', '-malign-is-p2', '-mred-zone', '-g', '-emit=style', '-mstringop-strategy=libcall-threshold=3', '-std=gnu2x', '-fsanitize=null', '-fvisibility=hidden', '-fsanitize-error=call=zz']]
def other(x):
    return x, [diff(state(b), state(b + [x])) for b in OB]
for n, e in pmap(other, oth): spec['other'][n] = e
spec['default'] = {k[12:]: v for k, v in d.items() if k.startswith('cc1_warning.')}
spec['settings_default'] = {k: d.get(k, 0) for k in sorted({k for x in ('features', 'other') for e in spec[x].values() for q in e for k in q or {}}) if not k.startswith('cc1_warning.')}
def cpp(argv):
    r = co.run(argv); assert r[0] == 'ok', argv
    return next(iter(r[1][('g:wmode', 0)]))
co = opts.CppOpts(); cs = warnsites.cpp_sites(co.p)
def msgs(mask): return sorted({x for c, g, k, m in cs for x in m if mask & k})
spec['cpp'] = {n: {'on': msgs(cpp(['-w', '-W' + n])), 'off': msgs(cpp(['-Weverything', '-Wno-' + n]))} for n in re.findall(r'^X\("([^"]*)"', open('/repo/src/cpp2/warnings.def').read(), re.M)}
spec['cpp_default'] = msgs(cpp([])); spec['cpp_messages'] = msgs(~0)
for k in 'cpp', 'cpp_default', 'cpp_messages': print(k, spec[k])
spec['bases'] = {'features': BASES, 'other': OB}
M = {}
for c, w, m in warnsites.cc1_sites(p):
    for x in m:
        if x and w is not None: M.setdefault(x, set()).update(W[q] for q in w)
spec['messages'] = {k: sorted(v) for k, v in sorted(M.items())}
spec['fields'] = {'cc1_warning': list(W.values()), 'cc1_fopt': list(F.values())}
json.dump(spec, open('/verif/spec/options.json', 'w'), indent=0, sort_keys=True)
for k, v in spec['features'].items(): print(k, v)
for k, v in spec['other'].items(): print(k, str(v)[:160])
for k, v in spec['warnings'].items(): print(k, v if len(v['set']) < 6 else (len(v['set']), v['clear']))
