"""What a driver command line means, written from the documentation (usage text, manual pages of the options) and not from the
code: which stages run on each input, what each is given, and where the results go."""
import os, re
class Bad(Exception): pass
PP, CC, AS, LD = 'cpp', 'cc1', 'as', 'ld'

def warn_names(repo):
    n = {}
    for d, who in (('cpp2', PP), ('cc1', CC)):
        t = re.sub(r'/\*.*?\*/', '', open('%s/src/%s/warnings.def' % (repo, d)).read(), flags=re.S)
        n[who] = set(re.findall(r'\b(?:X|ALIAS|GROUP)\s*\(\s*"([^"]+)"', t))
    return n

class Model:
    def __init__(s, names): s.names = names
    def owners(s, w):
        n = w[3:] if w.startswith('no-') else w
        err = n.startswith('error='); n = n[6:] if err else n
        if n in ('all', 'everything'): return {CC} if err else {PP, CC}
        if n in ('extra', 'error', '', 'gnu'): return {CC}
        r = {CC} if n in s.names[CC] else set()
        if not err and n in s.names[PP]: r.add(PP)
        return r or {CC}
    def parse(s, argv):
        s.a = {PP: [], CC: [], AS: [], LD: []}; s.inc = []; s.sys = []; s.inputs = []
        s.mode = 'link'; s.out = None; s.emit = None; s.syntax = False; s.lang = None; s.ssp = None; s.cpp = None; s.B = None; s.wrap = None
        s.flag = dict(shared=0, static=0, rdynamic=0, pie=None, pthread=0, start=1, libs=1, stdinc=1, builtin=1, pg=0, multilib=None, musl=0, ztext=0, show=0, noop=0, save=0, help=0, dump=0)
        s.MD = s.MF = False; s.target = None
        it = iter(argv); dd = False
        def arg():
            try: return next(it)
            except StopIteration: raise Bad('missing argument')
        def add(o, *to):
            for t in to: s.a[t].append(o)
        for o in it:
            if dd or o == '--' or not o.startswith('-') or o == '-':
                dd = dd or o == '--'
                s.inputs.append((o, s.lang)); continue
            c = o[1]
            if c == 'W':
                m = re.match(r'-W(.),', o)
                if m: s.a[{'p': PP, 'c': CC, 'a': AS, 'l': LD}.get(m.group(1), CC)] += [x for x in o[4:].split(',') if x]
                else:
                    for t in s.owners(o[2:]): add(o, t)
            elif c == 'f': s.fopt(o, add)
            elif o == '-w': add('-w', PP, CC); add('-W', AS)
            elif c == 'm':
                if o in ('-mmultilib', '-mno-multilib'): s.flag['multilib'] = o == '-mmultilib'
                elif o in ('-mmusl', '-mglibc'): s.flag['musl'] = o == '-mmusl'
                else: add(o, CC)
            elif c in 'DU': add(o if len(o) > 2 else o + arg(), PP)
            elif c in 'HPC' or c == 'd' and o != '-dumpmachine': add(o, PP)
            elif o == '-dumpmachine': s.flag['dump'] = 1
            elif c == 'M':
                add(o, PP)
                if o == '-M': s.mode = 'E'; add('-w', PP, CC)
                if o == '-MM': s.mode = 'E'
                if o == '-MD': add('-w', PP, CC); s.MD = True
                if o == '-MF': add(arg(), PP); s.MF = True
            elif c == 'I': s.inc.append(o if len(o) > 2 else o + arg())
            elif c in 'lL': add(o if len(o) > 2 else o + arg(), LD)
            elif c in 'ESc':
                if len(o) > 2: raise Bad('unknown')
                s.mode = c
            elif c == 'o': s.out = o[2:] or arg()
            elif c == 'O': add(o, PP, CC)
            elif c == 'g': add(o, CC)
            elif c == 'X':
                t = {'assembler': AS, 'preprocessor': PP, 'linker': LD}.get(o[2:])
                if not t: raise Bad('unknown')
                add(arg(), t)
            elif c == 'x':
                l = o[2:] or arg()
                k = {'c': 'c', 'cpp-output': 'i', 'assembler': 's', 'asm': 's', 'assembler-with-cpp': 'S', 'asm-with-cpp': 'S', 'none': ''}.get(l)
                if k is None: raise Bad('language')
                s.lang = k or None
            elif c == 'B':
                if s.B is not None or len(o) == 2: raise Bad('-B')
                s.B = o[2:].rstrip('/')
            elif o == '-s': add(o, LD)
            elif o.startswith('-std=') or o == '-ansi': add(o, PP, CC)
            elif o in ('-pedantic', '-pedantic-errors'): add(o, CC)
            elif o == '-nostdlib': s.flag['start'] = s.flag['libs'] = 0
            elif o == '-nostartfiles': s.flag['start'] = 0
            elif o == '-nodefaultlibs': s.flag['libs'] = 0
            elif o == '-nostdinc': s.flag['stdinc'] = s.flag['builtin'] = 0
            elif o == '-nostdlibinc': s.flag['stdinc'] = 0
            elif o == '-nobuiltininc': s.flag['builtin'] = 0
            elif o == '-shared': s.flag['shared'] = 1
            elif o == '-static': s.flag['static'] = 1
            elif o == '-rdynamic': s.flag['rdynamic'] = 1
            elif o == '-pie': s.flag['pie'] = True
            elif o == '-no-pie': s.flag['pie'] = False
            elif o == '-static-pie': s.flag['static'] = s.flag['ztext'] = 1; s.flag['pie'] = True
            elif o == '-pthread': s.flag['pthread'] = 1
            elif o == '-###': s.flag['show'] = s.flag['noop'] = 1
            elif o == '-v': s.flag['show'] = 1
            elif o == '-pg': add(o, CC); s.flag['pg'] = 1
            elif o == '-emit' : s.emit = arg()
            elif o.startswith('-emit='): s.emit = o[6:]
            elif o == '-wrapper': s.wrap = arg()
            elif o in ('-trigraphs', '-digraphs'): add(o, PP)
            elif o == '-save-temps': s.flag['save'] = 1
            elif o == '-isystem': s.sys.append(arg())
            elif o == '-target': t = arg(); add('-target', PP, CC); add(t, PP, CC); s.target = t
            elif o == '-time': pass
            elif o == '--help': s.flag['help'] = 1
            else: raise Bad('unknown option')
        if s.ssp: add({'n': '-D__SSP__=1', 'a': '-D__SSP_ALL__=2'}[s.ssp], PP); add({'n': '-fstack-protector', 'a': '-fstack-protector-all'}[s.ssp], CC)
        if s.MD and not s.MF:
            if s.out: d = s.out if s.mode == 'E' else s.out + '.d'
            else:
                if len(s.inputs) != 1: raise Bad('-MD')
                b = os.path.basename(s.inputs[0][0]); d = (b[:b.rindex('.')] if '.' in b else b) + '.d'
            add('-MF', PP); add(d, PP)
    def fopt(s, o, add):
        no = o.startswith('-fno-'); n = o[5:] if no else o[2:]
        if o == '-fsyntax-only': s.syntax = True
        elif o.startswith('-fuse-cpp'):
            if o == '-fuse-cpp': s.cpp = 'cpp'
            elif o[9] == '=': s.cpp = o[10:]
            else: raise Bad('-fuse-cpp')
        elif n == 'leading-underscore':
            add('-%s__LEADING_UNDERSCORE' % 'DU'[no], PP); add('-U__USER_LABEL_PREFIX__' if no else '-D__USER_LABEL_PREFIX__=_', PP); add(o, CC)
        elif n in ('pic', 'PIC', 'pie', 'PIE'):
            ms = ['__PIC__', '__pic__', '__PIE__', '__pie__']
            if no:
                for m in ms: add('-U' + m, PP)
            else:
                for m in ms if n.lower() == 'pie' else ms[:2]: add('-D%s=%d' % (m, 1 if n.islower() else 2), PP)
            add(o, CC)
        elif n in ('signed-char', 'unsigned-char'):
            add('-U__CHAR_UNSIGNED__' if (n == 'signed-char') != no else '-D__CHAR_UNSIGNED__=1', PP); add(o, CC)
        elif n == 'stack-protector': s.ssp = None if no else 'n'
        elif n == 'stack-protector-all': s.ssp = None if no else 'a'
        elif n == 'fast-math': add('-%s__FAST_MATH__' % 'DU'[no], PP); add(o, CC)
        elif o == '-fcpp-offsetof': add(o, PP)
        elif o.startswith('-fsystem-cpp'): raise Bad('-fsystem-cpp')
        elif o == '-ffreestanding' or o.startswith('-fmessage-length='): add(o, PP, CC)
        else: add(o, CC)
    def result(s, argv, env=None, exist=()):
        """None: rejected. Otherwise {'per': {stage: args}, 'steps': [(stage, input, args)], 'final': {file: content}, 'unused': [inputs], 'mode'}"""
        try: s.parse(argv)
        except Bad: return None
        f = s.flag
        if f['help']: return None
        if s.target is not None and not s.target.startswith('x86_64-linux'): raise ValueError('target')
        if f['dump']: return {'dump': True}
        mode = s.mode; out = s.out
        if out is not None and len(s.inputs) > 1 and mode in 'Sc': return None
        if s.syntax and (out is not None or mode != 'link'): return None
        if not s.inputs: return None
        if mode == 'link' and out is None: out = 'a.out'
        if s.syntax: mode = 'S'; out = '/dev/null'
        if s.emit is not None:
            mode = 'S'
            if s.out is None: out = '-'
        if mode == 'E' and out == '-': out = None
        D = '/ucc/bin/' if s.B is None else None
        def tool(b, r): return os.path.normpath('/ucc/bin/' + r) if s.B is None else os.path.normpath(s.B + '/' + b)
        target = 'x86_64-linux-gnu'
        ml = f['multilib'] if f['multilib'] is not None else '/usr/lib/' + target in exist
        ml = '/' + target if ml else ''
        pp = []
        if f['builtin']: pp += ['-isystem', tool('include', '../include')]
        if f['stdinc']: pp += ['-isystem', '/usr/include', '-isystem', '/usr/local/include', '-isystem', '/usr/include' + ml]
        pp += s.a[PP]
        if f['pthread']: pp.append('-D_REENTRANT=1')
        for d in s.sys: pp += ['-isystem', d]
        pp += s.inc
        cc = ['-fno-track-initial-fname'] + s.a[CC] + (['-emit=' + s.emit] if s.emit is not None else [])
        pie = f['pie'] is not False
        pre = []
        if pie and not f['shared']: pre.append('-pie')
        if f['rdynamic']: pre.append('-export-dynamic')
        if not f['shared']: pre += ['-no-dynamic-linker'] if f['static'] else ['-dynamic-linker', '/lib/ld-musl-x86_64.so.1' if f['musl'] else '/lib64/ld-linux-x86-64.so.2']
        post = ['-L/usr/lib/']
        if f['libs']: post.append('-lc')
        if f['start']:
            if not f['shared']: pre.append('/usr/lib%s/%s' % (ml, 'gcrt1.o' if f['pg'] else ('rcrt1.o' if f['static'] else 'Scrt1.o') if pie else 'crt1.o'))
            pre += [tool('../rt/dsohandle.o', '../rt/dsohandle.o'), '/usr/lib%s/crti.o' % ml]; post.append('/usr/lib%s/crtn.o' % ml)
        if f['ztext']: pre += ['-z', 'text']
        if f['shared']: pre.append('-shared')
        if f['static']: pre.append('-static')
        ld = list(s.a[LD])
        if mode == 'link' and 'LIBRARY_PATH' in (env or {}): ld += ['-L' + d for d in env['LIBRARY_PATH'].split(':') if d]
        if f['pthread']: ld.append('-lpthread')
        steps = []; final = {}; unused = []; objs = []; stdout = []
        for name, lang in s.inputs:
            k = lang or kind(name)
            x = name; got = []
            if k in ('c', 'S'):
                a = pp[:]
                if k == 'S': a.append('-D__ASSEMBLER__=1')
                steps.append([PP, x, a]); x = 'cpp(%s)' % x
                got.append('E')
            if mode != 'E' and k in ('c', 'i'): steps.append([CC, x, cc]); x = 'cc1(%s)' % x; got.append('S')
            if mode in ('c', 'link') and k != 'o': steps.append([AS, x, s.a[AS]]); x = 'as(%s)' % x; got.append('c')
            objs.append(x)
            if mode == 'link': continue
            if mode not in got: unused.append(name); continue
            if mode == 'E': (stdout if out is None else final.setdefault(out, [])).append(x); continue
            if mode == 'S' and out == '-': stdout.append(x); continue
            to = out if out is not None else swap(os.path.basename(name), {'S': 's', 'c': 'o'}[mode])
            if to == name: return None
            final[to] = [x]
        if mode == 'link':
            steps.append([LD, None, pre + objs + post + ld]); final[out] = ['ld(%s)' % ' '.join(objs)]
        return {'steps': steps, 'final': final, 'stdout': stdout, 'unused': unused, 'mode': mode, 'bins': {PP: s.cpp or tool('cpp', '../cpp2/cpp'), CC: tool('cc1', '../cc1/cc1'), AS: 'as', LD: 'ld'}, 'wrap': s.wrap, 'flags': f}
def kind(n):
    if n == '-': return 'c'
    m = re.search(r'\.(.)$', n)
    return m.group(1) if m and m.group(1) in 'cisS' else 'o'
def swap(b, ext):
    """where the result for an input called b goes"""
    i = b.rfind('.')
    return (b[:i] if i > 0 else b) + '.' + ext

def observed(r):
    """the same description read off a run of the driver's code: (steps, final, stdout)"""
    content = {}; steps = []; order = []; stdout = []; files = {}; written = []
    def get(n): return content.get(n, [n])
    def join(l): return l[0] if len(l) == 1 else '+'.join(l)
    def one(av, bins=(), where=''):
        base = os.path.basename(av[0])
        if 'o' in base and False: pass
        return base
    for a in r.acts:
        if a[0] == 'run':
            av = list(a[1]); w = a[5]
            t = os.path.basename(av[0])
            if t == 'sh':
                if av[1:3] == ['-c', 'cat <"$1" >"$2"'] and len(av) == 6: content[av[5]] = list(get(av[4])); written.append((av[5], w)); continue
                steps.append([None, None, av, w, av[0]]); continue
            if '-o' not in av: steps.append([t, None, av[1:], w, av[0]]); continue
            rest = av[1:]
            if t in (PP, CC, AS) or len(rest) >= 3 and rest[-3] == '-o':
                out, inp = rest[-2], rest[-1]
                if rest[-3] != '-o': steps.append([t, None, rest, w, av[0]]); continue
                x = join(get(inp)); steps.append([t, x, rest[:-3], w, av[0]]); content[out] = ['%s(%s)' % (t, x)]; written.append((out, w))
            else:
                out = rest[1]; objs = [join(get(x)) if x in content else x for x in rest[2:]]
                steps.append([t, None, objs, w, av[0]]); content[out] = [(t, objs)]; written.append((out, w))
        elif a[0] == 'fopen':
            files[a[1]] = a[2]
            if a[2].startswith('w'): content[a[1]] = []; written.append((a[1], a[-1]))
            elif a[2].startswith('a'): written.append((a[1], a[-1])); content.setdefault(a[1], ['what %s held before' % a[1]])
        elif a[0] == 'cat':
            if a[2] == 'stdout': stdout += get(a[1])
            else: content[a[2]] = content.get(a[2], []) + get(a[1])
        elif a[0] == 'rename': content[a[2]] = content.pop(a[1], [a[1]]); written.append((a[2], a[-1]))
    return steps, content, stdout, written
