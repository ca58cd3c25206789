"""C05: no text for a command interpreter is built from names or options."""
import re, prog, flow
from chk import Check, AnalysisBroken

INTERP = ('system', 'popen', 'wordexp', 'execl', 'execlp', 'execle', 'pclose', 'dlopen_sh')
SHELL = re.compile(r'^(?:\S*/)?(?:ba|da|z|k|mk|c|tc|a|r)?sh$|^(?:\S*/)?busybox$')
EMBED = re.compile(r'(?:^|[\s/;&|])(?:ba|da|z|k|a)?sh\s+-[a-z]*c\b')
CFLAG = re.compile(r'^-[a-z]*c[a-z]*$')

def operands(i):
    return [x[0] for x in i.a] if i.op == 'phi' else i.a

def scripts(p, f, o, seen=None):
    """constant strings operand o may be, or None"""
    seen = set() if seen is None else seen
    if (f.name, str(o)) in seen: return set()
    seen.add((f.name, str(o)))
    s = p.strof(o)
    if s is not None: return {s}
    if isinstance(o, list):
        if o[0] == 'null': return set()
        if o[0] == 'a':
            cs = p.callers_all().get(f.name, [])
            if not cs: return None
            r = set()
            for c in cs:
                x = scripts(p, c.f, c.a[o[1]], seen) if o[1] < len(c.a) else None
                if x is None: return None
                r |= x
            return r
        return None
    i = f.inst[o]
    if i.op in ('phi', 'select'):
        r = set()
        for x in (operands(i) if i.op == 'phi' else i.a[1:]):
            y = scripts(p, f, x, seen)
            if y is None: return None
            r |= y
        return r
    if i.op == 'bitcast' or i.op == 'freeze': return scripts(p, f, i.a[0], seen)
    if i.op == 'call' and i.callee in ('ustrdup', 'strdup'): return scripts(p, f, i.a[0], seen)
    if i.op == 'load' and isinstance(i.a[0], list) and i.a[0][0] == 'g':
        g = i.a[0][1]; init = p.g[g].get('init'); r = set()
        if init and init[0] == 'g' and p.strof(init) is not None: r.add(p.strof(init))
        elif not (init and init[0] == 'null'): return None
        for ff in p.defs():
            for k in ff.insts():
                if k.op == 'store' and k.a[1] == ['g', g]:
                    y = scripts(p, ff, k.a[0], seen)
                    if y is None: return None
                    r |= y
        return r
    return None

def rootoff(f, o):
    """(base, constant byte offset) of a pointer"""
    off = 0
    while isinstance(o, int):
        i = f.inst[o]
        if i.op == 'getelementptr' and i.d.get('off') is not None: off += i.d['off']; o = i.a[0]
        elif i.op == 'getelementptr':
            k = flow.const_of(i.a[-1]); st = i.d['g'][-1]
            if k is None or len(i.d['g']) != 1 or st[0] != 'i': return None
            off += k * st[1]; o = i.a[0]
        elif i.op in ('bitcast', 'freeze'): o = i.a[0]
        else: break
    return (str(o), off)

def unquoted(script):
    """an expansion in a shell script outside double quotes (single-quoted text is literal)"""
    q = None; k = 0
    while k < len(script):
        c = script[k]
        if c == '\\' and q != "'": k += 2; continue
        if q is None and c in '"\'': q = c
        elif c == q: q = None
        elif c == '`' and q != "'": return 'command substitution'
        elif c == '$' and q != "'":
            if script[k + 1:k + 2] == '(': return 'command substitution'
            if q is None: return 'unquoted expansion ' + script[k:k + 2]
        k += 1
    if re.search(r'\beval\b', script): return 'eval'
    return None

def check():
    ck = Check('C05')
    r1 = ck.rule('no-interpreter', 'no call to, or address of, a function that hands text to a command interpreter')
    r2 = ck.rule('constant-script', 'an argument vector carrying a script option to a shell carries a constant script next, with every expansion quoted')
    r3 = ck.rule('no-embedded-shell', 'no string constant embeds a shell invocation with inline text')
    r4 = ck.rule('argument-vector', 'every process is started by an exec function taking an argument vector')
    for pn in ('cc1', 'cpp', 'ucc'):
        p = prog.load(pn)
        for n in INTERP:
            rf = flow.refs_fn(p, n)
            ck.ob(r1, not rf, getattr(rf[0], 'where', rf[0]) if rf else pn, '%s: %s() hands text to a command interpreter' % (pn, n), '%s/%s' % (pn, n))
        for n, g in p.g.items():
            s = p.gstr(n)
            if s and EMBED.search(s): ck.ob(r3, False, pn, '%s: string constant %r invokes a shell with inline text' % (pn, s[:60]), 'embed/%s' % s[:60])
        ck.ob(r3, True, pn, '')
        for f in p.defs():
            strs = {}
            shell = False
            for i in f.insts():
                for o in operands(i):
                    s = p.strof(o)
                    if s and SHELL.match(s): shell = True
            for i in f.insts():
                # array element
                if i.op == 'store':
                    s = p.strof(i.a[0])
                    if s is None or not (s == '-c' or (shell and CFLAG.match(s))): continue
                    at = rootoff(f, i.a[1])
                    nxt = [k for k in f.insts() if k.op == 'store' and at and rootoff(f, k.a[1]) == (at[0], at[1] + 8)]
                    judge(ck, p, f, r2, i, [k.a[0] for k in nxt])
                elif i.op == 'call' and i.callee and 'dynarray' in i.callee:
                    s = p.strof(i.a[1]) if len(i.a) > 1 else None
                    if s is None and len(i.a) > 1:
                        sc = scripts(p, f, i.a[1]); s = next(iter(sc)) if sc and len(sc) == 1 else None
                    if s is None or not (s == '-c' or (shell and CFLAG.match(s))): continue
                    later = [k for k in f.blocks[i.b] if k.pos > i.pos and k.op == 'call' and k.callee == i.callee and k.a[0] == i.a[0]]
                    judge(ck, p, f, r2, i, [later[0].a[1]] if later else [])
            for i in f.calls():
                if i.callee and i.callee.startswith(('exec', 'posix_spawn')) and (p.f.get(i.callee) is None or p.f[i.callee].decl):
                    ck.ob(r4, i.callee in ('execv', 'execvp', 'execve', 'execvpe', 'posix_spawn', 'posix_spawnp'), i.where, '%s: %s used' % (pn, i.callee), 'exec/%s' % i.callee)
        for n in ('execv', 'execvp', 'execve'):
            for x in flow.refs_fn(p, n): ck.ob(r4, True, '', '')
    passed_on(ck)
    ck.need(r1, 20); ck.need(r4, 1)
    return ck.finish('All references to interpreter-invoking library functions, all string constants and every argument-vector slot following a shell script option in the three programs were examined; scripts must resolve to constants through phis, parameters and copies.')

def passed_on(ck):
    """the function that forks gives exec the strings of its argument array themselves"""
    import driver
    from absint import Interp, C, TOP
    r5 = ck.rule('unchanged', 'each element of the vector given to exec is the resolved program or an element of the argument array itself')
    p = prog.load('ucc')
    for f in [f for f in p.defs() if any(True for _ in f.calls(driver.SPAWN))]:
        ks = [k for k, n in enumerate(f.an) if n in ('args', 'argv')]
        if not ks: continue
        A = [('p', 'A%d' % k, 0) for k in range(4)]
        arr = {8 * k: C(a) for k, a in enumerate(A)}; arr[32] = C(0)
        args = [C(('p', 'arg%d' % k, 0)) for k in range(f.nargs)]; args[ks[0]] = C(('p', 'ARGS', 0))
        res = []
        def new(I, a, i, m, k): return C(('p', 'al:heap', 0))
        def rs(I, a, i, m, k): return a[0]
        def ex(I, a, i, m, stack): I.event('call', 'exec', a, i, stack, dict(m)); return C(-1)
        st = {n: new for n in ('umalloc', 'malloc', 'calloc', 'ucalloc')}
        st.update({n: rs for n in ('realloc', 'urealloc', 'urealloc1')})
        st['fork'] = lambda I, a, i, m, k: C(0); st['vfork'] = st['fork']
        for e in driver.EXECS: st[e] = ex
        st['dynarray_count'] = lambda I, a, i, m, k: C(4)
        st['cmdpath_resolve'] = lambda I, a, i, m, k: resolve(p, I, a, m)
        I = Interp(p, stubs=st, globals_={'wrapper': C(0), 'show': C(0), 'noop': C(0), 'time_subcmds': C(0)}, enter_noret=True, objp={'ARGS': arr},
                   objs={'A0': b'\0', 'A1': b' a  b\0', 'A2': b'-x;$(y)`z`"\'*\0', 'A3': b'plain.c\0'})
        I.run(f, args, {})
        evs = [e for e in I.events if e.name == 'exec']
        if not evs: raise AnalysisBroken('C05: exec not reached in %s()' % f.name)
        ok = set(A) | {('p', 'PROG', 0), 0}
        for e in evs:
            v = e.args[1]
            vals = set()
            if v is not TOP and all(isinstance(x, tuple) and x[1] == 'ARGS' for x in v): vals = set(A)   # passed directly
            else:
                for (o, off), x in e.mem.items():
                    if o == 'al:heap': vals |= {'?'} if x is TOP else set(x)
            bad = vals - ok
            ck.ob(r5, not bad and set(A) <= vals, e.inst.where, '%s(): exec is given %s, not the argument strings themselves' % (f.name, sorted(map(str, bad)) or 'only some of the arguments'), 'argv/%s' % f.name, '%s: exec argv = %s' % (f.name, sorted(map(str, vals))))

def resolve(p, I, a, m):
    if len(a) > 1 and a[1] is not None:
        for x in a[1]:
            if isinstance(x, tuple): m[(x[1], x[2])] = frozenset({('f', 'execvp')})
    return frozenset({('p', 'PROG', 0)})

def judge(ck, p, f, r, i, nxt):
    if not nxt:
        ck.ob(r, False, i.where, '%s(): script option without a resolvable script argument' % f.name, 'script/%s' % f.name); return
    for o in nxt:
        sc = scripts(p, f, o)
        ck.ob(r, sc is not None, i.where, '%s(): the script given to the shell is not a constant' % f.name, 'script/%s' % f.name, '%s: script %s' % (f.name, sc))
        for s in sc or ():
            u = unquoted(s)
            ck.ob(r, u is None, i.where, '%s(): script %r has %s' % (f.name, s, u), 'quote/%s' % f.name)
