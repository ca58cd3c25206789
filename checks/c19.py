"""C19: bounded writes into fixed-size and computed-size buffers."""
import re
import prog, flow
from chk import Check
from bounds import Bounds, L, root

SIZED = {'snprintf': (0, 1), 'vsnprintf': (0, 1), 'fgets': (0, 1), 'strncpy': (0, 2), 'memcpy': (0, 2), 'memmove': (0, 2), 'memset': (0, 2),
         'llvm.memcpy.p0.p0.i64': (0, 2), 'llvm.memmove.p0.p0.i64': (0, 2), 'llvm.memset.p0.i64': (0, 2), 'fread': (0, None), 'read': (1, 2),
         'readlink': (1, 2), 'getcwd': (0, 1), 'strftime': (0, 1)}
COPY = ('strcpy', 'strcat', 'sprintf', 'vsprintf', 'stpcpy', 'strncat', 'gets')
ALLOC = {'umalloc': 0, 'urealloc': 1, 'urealloc1': 1, 'malloc': 0, 'realloc': 1, 'ucalloc': None}

class Undecided(Exception): pass

class C19:
    def __init__(s, ck, pn):
        s.ck = ck; s.pn = pn; s.p = prog.load(pn); s.B = Bounds(s.p); s.calls = s.p.callers_all(); s.done = set(); s.skipped = []
        s.pairs = {}
    # -- the object a pointer points into: list of (capacity L, offset L, block, extra facts) or ('param', k, offset)
    def dest(s, f, o, depth=0):
        B = s.B; off = L()
        while True:
            if isinstance(o, list):
                if o[0] == 'null': return [('null', None, None)]
                if o[0] == 'g':
                    return [('obj', L.c(s.p.g[o[1]]['size']), off)]
                if o[0] == 'cgep':
                    return [('obj', L.c(s.p.g[o[1][1]]['size']), off.add(L.c(o[2])))] if o[1][0] == 'g' else [('?', repr(o), off)]
                if o[0] == 'a': return [('param', o[1], off)]
                return [('?', repr(o), off)]
            i = f.inst[o]
            if i.op in ('bitcast', 'freeze'): o = i.a[0]; continue
            if i.op == 'getelementptr':
                gt = i.d.get('gt') or ''
                r = L.c(i.d['off']) if 'off' in i.d else B.gepoff(f, i)
                if r is None: return [('?', 'gep', off)]
                m = re.match(r'A(\d+):', gt)
                if m and int(m.group(1)) and i.d.get('gs') and len(i.a) == 3:
                    # an array: its own bounds, wherever it lives
                    if i.d['gs'] > 1: return [('obj', L.c(i.d['gs']), off.add(r))]
                off = off.add(r); o = i.a[0]; continue
            if i.op == 'alloca':
                n = i.d.get('sz')
                return [('obj', L.c(n) if n else None, off)] if n else [('?', 'alloca', off)]
            if i.op == 'call' and i.callee in ALLOC and ALLOC[i.callee] is not None:
                return [('obj', B.lin(f, i.a[ALLOC[i.callee]]), off)]
            if i.op == 'call' and i.callee in s.p.f and not s.p.f[i.callee].decl and depth < 3 and i.callee not in ('ustrdup', 'umalloc', 'urealloc', 'urealloc1', 'ustrdup2'):
                g = s.p.f[i.callee]; rs = [x for x in g.insts() if x.op == 'ret' and x.a and x.b in B.live(g)]
                ds = s.dest(g, rs[0].a[0], depth + 1) if len(rs) == 1 else []
                if ds and all(x[0] == 'obj' and x[2].const is not None for x in ds):
                    sub = [(B.subst(g, i, x[1]), x[2]) for x in ds]
                    if all(x[0] is not None for x in sub): return [('obj', x[0], x[1].add(off)) for x in sub]
                ps = [x for x in ds if x[0] == 'param' and x[2].const is not None]
                if len(ds) == 1 and ps: off = off.add(ps[0][2]); o = i.a[ps[0][1]]; continue
            if i.op == 'call' and i.callee in ('ustrdup', 'strdup'):
                return [('obj', L.a(('len', B.lin(f, i.a[0]).key())).add(L.c(1)), off)]
            if i.op == 'phi' and depth < 3:
                out = []
                for v, b in i.a:
                    if v == o: continue
                    ex = list(s.B.facts(f, b)); s.B.edgefacts(f, b, i.b, ex)
                    for d in s.dest(f, v, depth + 1): out.append((d[0], d[1], d[2].add(off) if d[2] is not None else off, ex + list(d[3:] and d[3])))
                return out
            if i.op == 'select' and depth < 3:
                return [(d[0], d[1], (d[2] or L()).add(off)) for v in i.a[1:] for d in s.dest(f, v, depth + 1)]
            return [('?', i, off)]
    # -- n bytes at pointer o, in block b of f
    def fits(s, f, b, o, n, ex=(), depth=0):
        """None when proven, else a reason"""
        B = s.B
        ex0 = ex
        for kind, cap, off, *more in s.dest(f, o):
            if kind == 'null': continue
            ex = list(ex0) + (more[0] if more else [])
            if kind == 'obj':
                ex = list(ex)
                for a in set(off) | set(n):
                    if a != '' and a[0] == 'len' and len(a[1]) == 1:
                        t = eval(a[1][0][0])
                        m = s.bufstr(f, t[1]) if t[0] == 'ga' else None
                        if m is not None: ex.append(L.c(m).add(L.a(a), -1))
                if not B.holds(f, b, cap.add(off, -1).add(n, -1), ex) and cap.const is None and s.unbounded(f, b, off): raise Undecided(kind)
                if not B.holds(f, b, cap.add(off, -1).add(n, -1), ex): return 'needs %s bytes at offset %s of a buffer of %s' % (show(n), show(off), show(cap))
                if off.const is None and not all(a == '' or a[0] == 'a' for a in off) and not B.holds(f, b, off, ex): return 'offset %s may be negative' % show(off)
                elif off.const is not None and off.const < 0: return 'offset %d' % off.const
            elif kind == 'param':
                cs = s.calls.get(f.name, [])
                if not cs: continue      # nothing calls it
                if depth > 4: return 'the buffer is handed down too many calls'
                for c in cs:
                    if c.b not in B.live(c.f): continue
                    if cap >= len(c.a): continue
                    for e, x in B.cases(f, off.add(n), b):
                        if x and B.prove(L.c(-1), list(B.facts(f, b)) + ex + x): continue     # cannot happen
                        sub = s.subst(f, c, e)
                        if sub is None: return 'its size %s is not known to the callers' % show(e)
                        r = s.fits(c.f, c.b, c.a[cap], sub, (), depth + 1)
                        if r: return '%s (from %s)' % (r, c.where)
            else: raise Undecided(cap)
        return None
    def unbounded(s, f, b, off):
        """does the offset count something no branch compares with anything?"""
        seen = [x if isinstance(x, L) else x[1] for x in s.B.facts(f, b)]
        for a in off:
            if a == '' or a[0] != 'v' or f.inst[a[2]].op != 'phi': continue
            ph = f.inst[a[2]]
            if not s.advancing(f, ph): continue     # not a loop's
            if ph.t == 'p' or not any(a in x for x in seen): return True
        return False
    def subst(s, f, c, e):
        r = L()
        for a, k in e.items():
            if a == '': r = r.add(L.c(k))
            elif a[0] == 'a' and a[1] == f.name and a[2] < len(c.a): r = r.add(s.B.lin(c.f, c.a[a[2]]), k)
            elif a[0] == 'len':
                t = a[1]
                if len(t) == 1 and t[0][1] == 1:
                    at = eval(t[0][0])
                    if at[0] == 'a' and at[1] == f.name: r = r.add(s.strlen(c.f, c.a[at[2]]), k); continue
                return None
            else: return None
        return r
    # -- strings
    def strlen(s, f, o, depth=0):
        """upper bound of the length of the string at o"""
        if isinstance(o, list) and o[0] == 'g':
            t = s.p.gstr(o[1]) if s.p.g[o[1]].get('const') else None
            if t is not None: return L.c(len(t.encode('latin1')))
            n = s.bufstr(f, o[1])
            if n is not None: return L.c(n)
        i = f.inst.get(o) if isinstance(o, int) else None
        if i is not None and depth < 4:
            if i.op in ('phi', 'select'):
                vs = [v for v, _ in i.a] if i.op == 'phi' else i.a[1:]
                ns = [s.strlen(f, v, depth + 1) for v in vs]
                if all(n.const is not None for n in ns): return L.c(max(n.const for n in ns))
            if i.op == 'call' and i.callee in s.p.f and not s.p.f[i.callee].decl:
                n = s.retlen(i.callee)
                if n is not None: return L.c(n)
        return L.a(('len', s.B.lin(f, o).key()))
    def retlen(s, name, own=()):
        """longest constant string a function returns (None when it returns others)"""
        f = s.p.f[name]; ns = []
        def rets(o, d):
            if isinstance(o, list):
                if o[0] == 'null': return
                if o[0] == 'g':
                    if s.p.g[o[1]].get('const') and s.p.gstr(o[1]) is not None: ns.append(len(s.p.gstr(o[1]))); return
                    if s.p.g[o[1]]['src'] and o[1].startswith(name + '.'): return     # its own buffer: only on the outermost call
                ns.append(None); return
            i = f.inst[o]
            if i.op in ('phi', 'select') and d < 6:
                for v in ([v for v, _ in i.a] if i.op == 'phi' else i.a[1:]): rets(v, d + 1)
            else: ns.append(None)
        for i in f.insts():
            if i.op == 'ret' and i.a: rets(i.a[0], 0)
        return max(ns) if ns and None not in ns else None
    def bufstr(s, f, g):
        """longest constant string copied to the start of static buffer g in f"""
        ns = [0]
        for i in f.calls(('strcpy',)):
            if i.a[0] == ['g', g]:
                n = s.strlen(f, i.a[1])
                if n.const is None: return None
                ns.append(n.const)
        return max(ns) if len(ns) > 1 else None
    def rendered(s, f, i, k):
        """upper bound on what printf-style arguments (format at k) render to"""
        t = s.p.gstr(i.a[k][1]) if isinstance(i.a[k], list) and i.a[k][0] == 'g' else None
        if t is None: return None
        n = L(); a = k + 1; pos = 0
        for m in re.finditer(r'%([-+ #0]*)(\d*)(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t)?([diouxXcsp%])', t):
            n = n.add(L.c(m.start() - pos)); pos = m.end(); c = m.group(5)
            if c == '%': n = n.add(L.c(1)); continue
            if m.group(3) == '*': return None
            if c == 's': w = s.strlen(f, i.a[a])
            elif c == 'c': w = L.c(1)
            elif c == 'p': w = L.c(18)
            elif c == 'o': w = L.c(s.octal(f, i.a[a]))
            else: w = L.c({None: 11, 'h': 6, 'hh': 4}.get(m.group(4), 20))
            if m.group(2) and w.const is not None: w = L.c(max(w.const, int(m.group(2))))
            elif m.group(2): w = w.add(L.c(int(m.group(2))))
            n = n.add(w); a += 1
        if t[pos:].count('%'): return None
        return n.add(L.c(len(t) - pos))
    def octal(s, f, o):
        i = f.inst.get(o) if isinstance(o, int) else None
        return 3 if i is not None and i.op == 'zext' and i.d.get('ft') == 'i8' else 11
    # -- rules
    def sized(s, rule):
        """calls told how much they may write"""
        for f in s.p.defs():
            for i in f.insts():
                if i.op != 'call' or i.callee not in SIZED or i.b not in s.B.live(f): continue
                if i.callee in s.p.f and not s.p.f[i.callee].decl: continue
                d, k = SIZED[i.callee]
                n = s.B.lin(f, i.a[k]) if k is not None else None
                if i.callee == 'fread':
                    x, y = s.B.lin(f, i.a[1]), s.B.lin(f, i.a[2])
                    n = y.scale(x.const) if x.const is not None else x.scale(y.const) if y.const is not None else None
                    if n is None: s.skipped.append(i); continue
                if i.callee.startswith('llvm.mem') or i.callee in ('memcpy', 'memmove', 'memset'):
                    # whole-object copies the compiler makes for initialisers and assignments
                    ds = s.dest(f, i.a[d])
                    if any(x[0] not in ('obj', 'null') for x in ds):
                        if n.const is None: s.skipped.append(i)
                        continue
                pr = s.cursor(f, i, d, k) if k is not None else None
                if pr: s.pairs.setdefault(pr, []).append(i); continue
                try: r = s.fits(f, i.b, i.a[d], n)
                except Undecided as e: s.skipped.append(i); continue
                s.ck.ob(rule, r is None, i.where, '%s: %s in %s %s' % (s.pn, i.callee, f.name, r), 'sized/%s/%s/%s' % (s.pn, f.name, i.callee),
                        sample='%s %s(%s bytes)' % (i.where, i.callee, show(n)))
    def cursor(s, f, i, d, k):
        """(function, pointer cell, size cell) when the destination and size are both read from cells given as parameters"""
        def cell(o):
            while isinstance(o, int):
                x = f.inst[o]
                if x.op in ('sext', 'zext', 'trunc'): o = x.a[0]; continue
                if x.op == 'load' and isinstance(x.a[0], list) and x.a[0][0] == 'a': return x.a[0][1], x
                return None
            return None
        a, b = cell(i.a[d]), cell(i.a[k])
        return (f.name, a[0], b[0]) if a and b else None
    def cursors(s, rule):
        """a (pointer, remaining) pair moves in step, by no more than remains"""
        work = list(s.pairs); seen = set()
        while work:
            fn, pa, pb = work.pop()
            if (fn, pa, pb) in seen: continue
            seen.add((fn, pa, pb)); f = s.p.f[fn]
            A = ['a', pa]; Z = ['a', pb]
            moves = [i for i in f.insts() if i.op == 'store' and i.a[1] == A]; shr = [i for i in f.insts() if i.op == 'store' and i.a[1] == Z]
            for i in moves:
                k = s.delta(f, i.a[0], A)
                z = next((j for j in shr if j.b == i.b), None)
                kz = s.delta(f, z.a[0], Z) if z else None
                why = None
                if k is None: why = 'is set to something not computed from it'
                elif kz is None: why = 'moves on without its remaining size being reduced'
                elif k.add(kz).const != 0: why = 'moves by %s and its remaining size by %s' % (show(k), show(kz))
                else:
                    rem = s.lastload(f, z.a[0], Z)
                    ok = s.B.holds(f, i.b, rem_minus(s, f, rem, k))
                    if not ok: why = 'may move by more than remains'
                s.ck.ob(rule, why is None, i.where, '%s: %s: the buffer position %s' % (s.pn, fn, why), 'cursor/%s/%s' % (s.pn, fn), sample='%s cursor step in %s' % (i.where, fn))
            for i in shr:
                if not any(j.b == i.b for j in moves): s.ck.ob(rule, False, i.where, '%s: %s: the remaining size changes without the position' % (s.pn, fn), 'cursor/%s/%s/z' % (s.pn, fn))
            for c in s.calls.get(fn, []):
                if c.b not in s.B.live(c.f): continue
                x, y = c.a[pa], c.a[pb]
                if isinstance(x, list) and x[0] == 'a' and isinstance(y, list) and y[0] == 'a': work.append((c.f.name, x[1], y[1])); continue
                why = s.start(c, x, y)
                s.ck.ob(rule, why is None, c.where, '%s: %s starts %s %s' % (s.pn, c.f.name, fn, why), 'cursor/%s/%s/start' % (s.pn, c.f.name), sample='%s cursor start in %s' % (c.where, c.f.name))
    def start(s, c, x, y):
        f = c.f
        if not all(isinstance(v, int) and f.inst[v].op == 'alloca' for v in (x, y)): return 'with a position that is not a local of its own'
        px = [i for i in f.insts() if i.op == 'store' and i.a[1] == x]; py = [i for i in f.insts() if i.op == 'store' and i.a[1] == y]
        if len(px) != 1 or len(py) != 1: return 'with a position set in several places'
        n = s.B.lin(f, py[0].a[0])
        try: r = s.fits(f, px[0].b, px[0].a[0], n)
        except Undecided: return 'with a buffer of unknown size'
        if n.const is None or n.const < 1: return 'with no known size'
        return ('with a size of %s: %s' % (show(n), r)) if r else None
    def delta(s, f, v, cell):
        i = f.inst.get(v) if isinstance(v, int) else None
        while i is not None and i.op in ('trunc', 'sext', 'zext', 'bitcast'): i = f.inst.get(i.a[0]) if isinstance(i.a[0], int) else None
        if i is None: return None
        l = s.lastload(f, i.id, cell)
        if l is None: return None
        return s.B.lin(f, i.id).add(s.B.lin(f, l.id), -1)
    def lastload(s, f, v, cell):
        seen = set(); st = [v]
        while st:
            o = st.pop()
            if not isinstance(o, int) or o in seen: continue
            seen.add(o); i = f.inst[o]
            if i.op == 'load':
                if i.a[0] == cell: return i
                continue
            if i.op in ('add', 'sub', 'getelementptr', 'sext', 'zext', 'trunc', 'bitcast'): st += [x for x in i.a]
        return None
    def copies(s, rule):
        """calls that write as much as they are given"""
        for f in s.p.defs():
            for i in f.insts():
                if i.op != 'call' or i.callee not in COPY or i.b not in s.B.live(f): continue
                if f.name not in s.calls and f.name != 'main': continue      # dead code
                n = None
                if i.callee in ('strcpy', 'stpcpy'): n = s.strlen(f, i.a[1]).add(L.c(1))
                elif i.callee == 'sprintf':
                    n = s.rendered(f, i, 1)
                    if n is not None: n = n.add(L.c(1))
                try:
                    if n is None: raise Undecided(i)
                    ds = s.dest(f, i.a[0])
                    if any(x[0] == '?' for x in ds) : raise Undecided(i)
                    ip = f.inst.get(i.a[0]) if isinstance(i.a[0], int) else None
                    if ip is not None and ip.op == 'phi' and s.advancing(f, ip): raise Undecided(i)
                    r = s.fits(f, i.b, i.a[0], s.known(f, n), ())
                except Undecided: s.skipped.append(i); continue
                s.ck.ob(rule, r is None, i.where, '%s: %s in %s %s' % (s.pn, i.callee, f.name, r), 'copy/%s/%s/%s' % (s.pn, f.name, i.callee), sample='%s %s(%s bytes)' % (i.where, i.callee, show(n)))
    def known(s, f, n): return n
    def advancing(s, f, ph):
        """does the pointer move round a loop?"""
        seen = set(); st = [v for v, _ in ph.a]
        while st:
            o = st.pop()
            if o == ph.id: return True
            if not isinstance(o, int) or o in seen: continue
            seen.add(o); i = f.inst[o]
            if i.op in ('getelementptr', 'bitcast', 'sext', 'zext', 'trunc'): st.append(i.a[0])
            elif i.op in ('add', 'sub'): st += i.a
            elif i.op == 'phi': st += [v for v, _ in i.a]
            elif i.op == 'select': st += i.a[1:]
        return False
    def indexes(s, rule):
        """stores at a computed index"""
        B = s.B; arrays = set(); sites = []
        for f in s.p.defs():
            for i in f.insts():
                if i.op != 'store' or i.b not in B.live(f): continue
                o = i.a[1]
                while isinstance(o, int):
                    x = f.inst[o]
                    if x.op == 'getelementptr':
                        m = re.match(r'A(\d+):', x.d.get('gt') or '')
                        if m and 'off' not in x.d: sites.append((f, i, x)); g = root(f, x.id); arrays.add(g[1]) if g and g[0] == 'g' and any(a != '' and a[0] == 'G' for a in B.lin(f, x.a[-1])) else None
                        elif 'off' not in x.d and s.heap(f, x): sites.append((f, i, x))
                        o = x.a[0]
                    elif x.op == 'bitcast': o = x.a[0]
                    else: break
        # and every read of the file-scope arrays so written
        for f in s.p.defs():
            for x in f.insts():
                if x.op == 'getelementptr' and 'off' not in x.d and x.b in B.live(f) and re.match(r'A(\d+):', x.d.get('gt') or ''):
                    g = root(f, x.id)
                    if g and g[0] == 'g' and g[1] in arrays:
                        for u in f.uses[x.id]: s.usesof(f, u, x, sites)
        counters = {}
        for f, i, x in sites:
            for a in B.lin(f, x.a[-1]):
                if a != '' and a[0] == 'G': counters.setdefault(a[2], set()).add(s.count(f, x))
        for g, ns in sorted(counters.items()):
            n = min(ns)
            r, k = B.counter(g, [(lo, hi) for lo in (0, -1) for hi in (n - 1, n, None)])
            s.ck.units['%s: %s' % (s.pn, g)] = 'always in %s..%s (%d assignments)' % ((r or ('?', '?'))[0], (r or ('?', '?'))[1] , k)
        done = set()
        for f, i, x in sites:
            k = (f.name, i.id, x.id)
            if k in done: continue
            done.add(k)
            n = s.count(f, x); idx = B.lin(f, x.a[-1]); why = None
            if n is not None:
                why = s.inrange(f, i, idx, n)
            else:
                try: why = s.fits(f, i.b, i.a[1], L.c(1))
                except Undecided: s.skipped.append(i); continue
            s.ck.ob(rule, why is None, i.where, '%s: %s in %s: index %s' % (s.pn, i.op, f.name, why), 'index/%s/%s/%s' % (s.pn, f.name, (root(f, x.id) or ('', ''))[1]), sample='%s index %s of %s' % (i.where, show(idx), n))
    def usesof(s, f, u, x, sites, d=0):
        if u.op in ('load',): sites.append((f, u, x))
        elif u.op in ('getelementptr', 'bitcast') and d < 3 and u.a[0] is not None:
            for v in f.uses[u.id]: s.usesof(f, v, x, sites, d + 1)
    def inrange(s, f, i, idx, n, depth=0):
        B = s.B; lo = idx; hi = L.c(n - 1).add(idx, -1)
        bad = None
        if not B.holds(f, i.b, lo): bad = ('may be below 0 (%s)' % show(idx), lo)
        elif not B.holds(f, i.b, hi): bad = ('may be %d or more (%s)' % (n, show(idx)), hi)
        if not bad: return None
        # lift to the callers when it depends on the state at entry only
        goals = [g for g in (lo, hi) if not B.holds(f, i.b, g)]
        for g in goals:
            if not all(a == '' or a[0] == 'a' and a[1] == f.name or a[0] == 'G' and a[3] == 'in' and a[1] == f.name for a in g): return bad[0]
        cs = s.calls.get(f.name, [])
        if not cs or depth > 3: return bad[0]
        for c in cs:
            if c.b not in B.live(c.f): continue
            for g in goals:
                r = L()
                for a, k in g.items():
                    if a == '': r = r.add(L.c(k))
                    elif a[0] == 'a': r = r.add(B.lin(c.f, c.a[a[2]]), k)
                    else: r = r.add(B.gval(c.f, a[2], c.b, c.pos), k)
                if g is lo or g == lo:
                    if not B.holds(c.f, c.b, r): s.skipped.append(c)
                    continue
                if not B.holds(c.f, c.b, r):
                    return '%s when called from %s (%s)' % (bad[0], c.f.name, c.where)
        return None
    def count(s, f, x):
        m = re.match(r'A(\d+):', x.d.get('gt') or '')
        if not m: return None
        n = int(m.group(1))
        if n == 0:
            r = root(f, x.id); g = s.p.g.get(r[1]) if r and r[0] == 'g' else None
            t = re.match(r'A(\d+):', g['type']) if g else None
            n = int(t.group(1)) if t else 0
        return n
    def heap(s, f, x):
        if (x.d.get('gt') or '') != 'i8': return False
        r = root(f, x.id)
        if r and r[0] == 'call' and f.inst[r[1]].callee in ALLOC: return True
        return bool(r and r[0] == 'alloca' and str(f.inst[r[1]].d.get('at', '')).startswith('A'))

def rem_minus(s, f, rem, e): return s.B.lin(f, rem.id).add(e, -1)

def show(e):
    if e is None: return '?'
    out = []
    for a, k in sorted(e.items(), key=lambda x: str(x[0])):
        if a == '': continue
        n = 'strlen(..)' if a[0] == 'len' else a[2] if a[0] == 'G' else 'arg%d' % a[2] if a[0] == 'a' else a[1] if a[0] == 'ga' else '%%%s' % (a[-1],)
        out.append('%s%s' % ('' if k == 1 else '%d*' % k, n))
    if e.get('', 0) or not out: out.append(str(e.get('', 0)))
    return ' + '.join(out)

def check():
    ck = Check('C19')
    r1 = ck.rule('told-size', 'a call told how many bytes it may write is told no more than its buffer has from that position on, at every caller')
    r2 = ck.rule('copied-size', 'a call that writes whatever it is given has a buffer of at least that length and the terminator')
    r3 = ck.rule('index', 'every computed index into a fixed array that is written is within it')
    r4 = ck.rule('cursor', 'a buffer position handed about with its remaining size moves in step with it, and by no more than remains')
    for pn in ('cc1', 'cpp', 'ucc'):
        c = C19(ck, pn)
        c.indexes(r3); c.sized(r1); c.copies(r2); c.cursors(r4)
        ck.units['functions:' + pn] = sum(1 for _ in c.p.defs())
        ck.units['not decided: ' + pn] = sorted({'%s (%s)' % (i.f.name, i.callee or i.op) for i in c.skipped})
    ck.need(r1, 30); ck.need(r2, 8); ck.need(r3, 10); ck.need(r4, 10)
    ck.assume = ['lengths and sizes fit in an int', 'a string whose length was taken is not lengthened before it is copied']
    return ck.finish('Every call that writes memory and every store at a computed index in the three programs: the capacity of the object written (local, global, allocation size as an expression, or every caller\'s argument) is compared, as linear expressions, with what is written, using the dominating branch conditions, string-search results, loop counters and inductively proven ranges of file-scope counters.')
