"""Linear bounds over the SSA IR: values as linear expressions over unresolved atoms, facts from dominating
branches, string-length and loop-counter axioms, inductive bounds of file-scope counters, and a small
prover that derives `L >= 0` by adding facts. Integers are treated as mathematical integers."""
import pathfacts, flow, re

INTMAX = 1 << 40

class L(dict):
    """linear expression: atom -> coefficient, '' -> constant"""
    @staticmethod
    def c(k): return L({'': k}) if k else L()
    @staticmethod
    def a(x): return L({x: 1})
    def add(s, o, k=1):
        r = L(s)
        for a, v in o.items():
            n = r.get(a, 0) + k * v
            if n: r[a] = n
            else: r.pop(a, None)
        return r
    def scale(s, k): return L({a: v * k for a, v in s.items()}) if k else L()
    @property
    def const(s): return s.get('', 0) if all(a == '' for a in s) else None
    def key(s): return tuple(sorted(((str(a), v) for a, v in s.items())))

class Bounds:
    def __init__(s, p):
        s.p = p; s.mod = pathfacts.Mod(p); s._lin = {}; s._succ = {}; s._mg = {}; s._facts = {}; s.inv = {}; s._ed = {}; s._ax = {}
    # ---- control flow without the continuation of calls that never return
    def succ(s, f):
        r = s._succ.get(f.name)
        if r is None:
            cut = f.cut_noreturn(s.p.noret)
            r = [[] if b in cut else f.succ[b] for b in range(len(f.blocks))]
            s._succ[f.name] = r
        return r
    def preds(s, f):
        k = (f.name, 'p')
        if k not in s._succ:
            r = [[] for _ in f.blocks]
            live = {0}; st = [0]
            while st:
                x = st.pop()
                for y in s.succ(f)[x]:
                    if x not in r[y]: r[y].append(x)
                    if y not in live: live.add(y); st.append(y)
            s._succ[k] = r; s._succ[f.name, 'l'] = live
        return s._succ[k]
    def live(s, f): s.preds(f); return s._succ[f.name, 'l']
    def edge_dom(s, f, a, b, blk):
        k = (f.name, a, b)
        if k not in s._ed:
            seen = {0}; st = [0]; su = s.succ(f)
            while st:
                x = st.pop()
                for y in su[x]:
                    if (x, y) == (a, b) or y in seen: continue
                    seen.add(y); st.append(y)
            s._ed[k] = seen
        return blk not in s._ed[k]
    # ---- globals
    def cell(s, f, o, t):
        """(argument, constant offset, type) a load or store reads or writes, as a trackable memory cell"""
        off = 0
        while isinstance(o, int):
            i = f.inst[o]
            if i.op == 'getelementptr' and 'off' in i.d: off += i.d['off']; o = i.a[0]
            elif i.op == 'bitcast': o = i.a[0]
            else: return None
        return ('cell', o[1], off, t) if isinstance(o, list) and o[0] == 'a' else None
    def modifies(s, i, g):
        if isinstance(g, tuple):
            if i.op == 'store': return i.d.get('vt') == g[3]      # accesses of different types are to different objects
            if i.op != 'call' or i.callee and (i.callee not in s.p.f or s.p.f[i.callee].decl): return False
            return any(r == ('a', g[1]) for r in (root(i.f, a) for a in i.a))      # only when handed the object
        if i.op == 'store':
            return root(i.f, i.a[1]) == ('g', g)
        if i.op == 'call':
            k = (s.p.name, i.callee, g) if i.callee else None
            if k and k in s._mg: return s._mg[k]
            r = ('g', g) in s.globmods(i)
            if k: s._mg[k] = r
            return r
        return False
    def globmods(s, i):
        if i.callee and (i.callee not in s.p.f or s.p.f[i.callee].decl): return ()
        fs = [i.callee] if i.callee else [c for c in s.p.targets(i)]
        out = set()
        for n in fs: out |= s._reach(n)
        return out
    def _reach(s, n):
        if not hasattr(s, '_rc'):
            s._rc = {}; s._dir = {}
            for f in s.p.defs():
                st = set(); ca = set()
                for i in f.insts():
                    if i.op == 'store':
                        r = root(f, i.a[1])
                        if r and r[0] == 'g': st.add(r)
                    elif i.op == 'call':
                        if i.callee: ca.add(i.callee)
                        else: ca |= set(s.p.targets(i))
                s._dir[f.name] = (st, ca)
        if n not in s._rc:
            seen = {n}; w = [n]; out = set()
            while w:
                x = w.pop()
                if x not in s._dir: continue
                out |= s._dir[x][0]
                for y in s._dir[x][1]:
                    if y not in seen: seen.add(y); w.append(y)
            s._rc[n] = out
        return s._rc[n]
    def gval(s, f, g, b, pos, depth=0):
        """value of scalar global g just before instruction (b,pos)"""
        for i in reversed(f.blocks[b][:pos]):
            if i.op == 'store' and i.a[1] == ['g', g]: return s.lin(f, i.a[0])
            if i.op == 'store' and isinstance(g, tuple):
                c = s.cell(f, i.a[1], i.d.get('vt'))
                if c == g: return s.lin(f, i.a[0])
                if c and c[1] == g[1]: continue
                if isinstance(i.a[1], int) and root(f, i.a[1])[0] == 'alloca': continue
            if (i.op == 'store' or i.op == 'call') and s.modifies(i, g): return L.a(('G', f.name, g, 'c', i.id))
        ps = s.preds(f)[b]
        if not ps: return L.a(('G', f.name, g, 'in', 0))
        if len(ps) == 1: return s.gval(f, g, ps[0], len(f.blocks[ps[0]]), depth + 1)
        d = s.idom(f, b)
        if d is not None and depth < 60:
            reg = s.between(f, d, b)
            if not any(s.modifies(i, g) for x in reg for i in f.blocks[x] if i.op in ('store', 'call')):
                return s.gval(f, g, d, len(f.blocks[d]), depth + 1)
        return L.a(('G', f.name, g, 'j', b))
    def idom(s, f, b):
        k = (f.name, 'd')
        if k not in s._succ:
            import prog
            s._succ[k] = prog._dominators(len(f.blocks), [0], s.preds(f), s.succ(f))
        ds = s._succ[k][b] - {b}
        return max(ds, key=lambda x: len(s._succ[k][x])) if ds else None
    def between(s, f, d, b):
        su = s.succ(f); fw = set(); st = list(su[d])
        while st:
            x = st.pop()
            if x in fw or x == d: continue
            fw.add(x); st += su[x]
        bw = set(); st = list(s.preds(f)[b])
        while st:
            x = st.pop()
            if x in bw or x == d: continue
            bw.add(x); st += s.preds(f)[x]
        return fw & (bw | {b}) if b in bw else (fw & bw)
    # ---- values
    def lin(s, f, o):
        if isinstance(o, list):
            if o[0] == 'c':
                v = o[1]; w = o[2] if len(o) > 2 else 64
                if w < 64 and w > 1 and v >= 1 << (w - 1): v -= 1 << w
                elif v >= 1 << 63: v -= 1 << 64
                return L.c(v)
            if o[0] == 'null': return L.c(0)
            if o[0] == 'a': return L.a(('a', f.name, o[1]))
            if o[0] == 'g': return L.a(('ga', o[1]))
            if o[0] == 'ce' and o[1] in ('ptrtoint', 'inttoptr', 'bitcast'): return s.lin(f, o[2][0])
            if o[0] == 'cgep' and isinstance(o[2], int): return s.lin(f, o[1]).add(L.c(o[2]))
            return L.a(('?', f.name, repr(o)))
        k = (f.name, o)
        if k in s._lin: return s._lin[k]
        s._lin[k] = L.a(('v', f.name, o))
        s._lin[k] = r = s._lin1(f, f.inst[o])
        return r
    def _lin1(s, f, i):
        me = L.a(('v', f.name, i.id)); op = i.op
        if op in ('sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            if op == 'zext' and i.d.get('ft') == 'i1': return me
            return s.lin(f, i.a[0])
        if op == 'add': return s.lin(f, i.a[0]).add(s.lin(f, i.a[1]))
        if op == 'sub': return s.lin(f, i.a[0]).add(s.lin(f, i.a[1]), -1)
        if op in ('mul', 'shl'):
            x, y = s.lin(f, i.a[0]), s.lin(f, i.a[1])
            if y.const is not None: return x.scale(y.const if op == 'mul' else 1 << y.const if 0 <= y.const < 40 else 1) if op == 'mul' or 0 <= y.const < 40 else me
            if x.const is not None and op == 'mul': return y.scale(x.const)
            return me
        if op == 'getelementptr':
            r = s.lin(f, i.a[0])
            if 'off' in i.d: return r.add(L.c(i.d['off']))
            # variable: element sizes
            off = s.gepoff(f, i)
            return r.add(off) if off is not None else me
        if op == 'load' and isinstance(i.a[0], list) and i.a[0][0] == 'g' and i.t and i.t[0] == 'i':
            return s.gval(f, i.a[0][1], i.b, i.pos)
        if op == 'load' and isinstance(i.a[0], int) and f.inst[i.a[0]].op == 'alloca':
            r = s.outparam(f, i.a[0], i)
            if r is not None: return r
        if op == 'load' and i.t and (i.t[0] == 'i' or i.t == 'p'):
            c = s.cell(f, i.a[0], i.t)
            if c: return s.gval(f, c, i.b, i.pos)
        if op == 'call' and i.callee == 'strlen': return L.a(('len', s.lin(f, i.a[0]).key()))
        if op == 'call' and i.callee in s.p.f and not s.p.f[i.callee].decl and i.t and i.t[0] == 'i':
            g = s.p.f[i.callee]; rs = [x for x in g.insts() if x.op == 'ret' and x.a and x.b in s.live(g)]
            if len(rs) == 1:
                r = s.subst(g, i, s.lin(g, rs[0].a[0]))
                if r is not None: return r
        return me
    def gepoff(s, f, i):
        g = i.d.get('g'); r = L()
        idx = i.a[1:]
        if g is None or len(g) > len(idx): return None
        # `g` describes the indices after skipping leading zero ones
        skip = len(idx) - len(g)
        for x in idx[:skip]:
            if s.lin(f, x).const != 0: return None
        for x, e in zip(idx[skip:], g):
            if e[0] == 'f': r = r.add(L.c(e[3]))
            elif e[0] == 'i': r = r.add(s.lin(f, x).scale(e[1]))
            else: return None
        return r
    def outparam(s, f, al, ld):
        """the constant a local holds when one call, given its address, sets it"""
        us = [u for u in f.uses[al] if u.op != 'load']
        if len(us) != 1 or us[0].op != 'call' or not f.dominates(us[0], ld): return None
        g = s.p.f.get(us[0].callee)
        if g is None or g.decl: return None
        k = us[0].a.index(al); vs = []
        for u in g.uses[('a', k)]:
            if u.op == 'store' and u.a[1] == ['a', k]: vs.append(s.lin(g, u.a[0]).const)
            elif u.op not in ('icmp', 'load'): return None
        return L.c(vs[0]) if vs and None not in vs and len(set(vs)) == 1 else None
    def subst(s, g, c, e):
        """e, over the parameters of g, at call c"""
        r = L()
        for a, k in e.items():
            if a == '': r = r.add(L.c(k))
            elif a[0] == 'a' and a[1] == g.name and a[2] < len(c.a): r = r.add(s.lin(c.f, c.a[a[2]]), k)
            elif a[0] == 'len' and len(a[1]) == 1 and a[1][0][1] == 1:
                t = eval(a[1][0][0])
                if t[0] != 'a' or t[1] != g.name: return None
                r = r.add(L.a(('len', s.lin(c.f, c.a[t[2]]).key())), k)
            else: return None
        return r
    # ---- facts
    def cond(s, f, o, sense, out, depth=0):
        """facts (L >= 0, or ('ne', L)) implied by i1 value o being `sense`"""
        if not isinstance(o, int) or depth > 6: return
        i = f.inst[o]
        if i.op == 'xor' and i.t == 'i1': return s.cond(f, i.a[0], not sense, out, depth + 1)
        if i.op == 'phi' and i.t == 'i1':
            rest = [(v, b) for v, b in i.a if not (isinstance(v, list) and v[0] == 'c' and bool(v[1]) != sense)]
            if len(rest) == 1:
                out += s.facts(f, rest[0][1])
                s.cond(f, rest[0][0], sense, out, depth + 1)
                s.edgefacts(f, rest[0][1], i.b, out)
            return
        if i.op != 'icmp': return
        p = i.d['p']; x, y = s.lin(f, i.a[0]), s.lin(f, i.a[1])
        if p in ('ne', 'eq') and y.const == 0 and isinstance(i.a[0], int):
            j = f.inst[i.a[0]]
            while j.op in ('zext', 'sext') and isinstance(j.a[0], int) : j = f.inst[j.a[0]]
            if j.t == 'i1': return s.cond(f, j.id, sense == (p == 'ne'), out, depth + 1)
        if not sense: p = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}[p]
        d = y.add(x, -1)   # y - x
        if p in ('slt', 'ult'): out.append(d.add(L.c(-1)))
        elif p in ('sle', 'ule'): out.append(d)
        elif p in ('sgt', 'ugt'): out.append(d.scale(-1).add(L.c(-1)))
        elif p in ('sge', 'uge'): out.append(d.scale(-1))
        elif p == 'eq': out.append(d); out.append(d.scale(-1))
        elif p == 'ne': out.append(('ne', d))
        if p in ('ult', 'ule') and y.const is not None: out.append(x)   # unsigned below a constant: not negative
    def edgefacts(s, f, a, b, out):
        t = f.blocks[a][-1]
        if t.op == 'br' and len(t.d['s']) == 2 and t.d['s'][0] != t.d['s'][1]:
            s.cond(f, t.a[0], t.d['s'][0] == b, out)
    def facts(s, f, b):
        k = (f.name, b)
        if k in s._facts: return s._facts[k]
        s._facts[k] = out = []
        ds = s.idom(f, b); s.idom(f, b)
        doms = s._succ[f.name, 'd'][b]
        for d in sorted(doms):
            if d == b: continue
            t = f.blocks[d][-1]
            if t.op != 'br' or len(t.d['s']) != 2 or t.d['s'][0] == t.d['s'][1]: continue
            for e in t.d['s']:
                if e in s.succ(f)[d] and s.edge_dom(f, d, e, b): s.edgefacts(f, d, e, out)
        # one predecessor each way of a two-way test that merges nowhere else is covered by the dominators
        return out
    def leaves(s, f, ph):
        out = []; seen = {ph.id}; st = [v for v, _ in ph.a]
        while st:
            o = st.pop()
            if isinstance(o, int):
                if o in seen:
                    if o == ph.id: out.append(o)
                    continue
                j = f.inst[o]
                if j.op == 'phi': seen.add(o); st += [v for v, _ in j.a]; continue
            out.append(o)
        return out
    def retnonneg(s, n):
        k = ('rn', n)
        if k not in s._ax:
            s._ax[k] = False; f = s.p.f.get(n)
            if f and not f.decl:
                rs = [i for i in f.insts() if i.op == 'ret' and i.a]
                s._ax[k] = bool(rs) and all(s.holds(f, i.b, s.lin(f, i.a[0])) for i in rs if i.b in s.live(f))
        return s._ax[k]
    def axioms(s, f, a, seen):
        """facts about an atom"""
        out = []
        if a == '' or a in seen: return out
        seen.add(a)
        if a[0] == 'len': out.append(L.a(a))
        elif a[0] == 'G':
            lo, hi = s.inv.get(a[2], (None, None))
            if lo is not None: out.append(L.a(a).add(L.c(-lo)))
            if hi is not None: out.append(L.c(hi).add(L.a(a), -1))
        elif a[0] == 'v':
            f = s.p.f[a[1]]; i = f.inst[a[2]]
            if i.op == 'phi':
                inits = []; steps = []
                for v in s.leaves(f, i):
                    d = s.lin(f, v).add(L.a(a), -1)
                    if d.const is not None: steps.append(d.const)
                    else: inits.append(s.lin(f, v))
                if len(inits) == 1 and steps:
                    if all(x >= 0 for x in steps): out.append(L.a(a).add(inits[0], -1))
                    if all(x <= 0 for x in steps): out.append(inits[0].add(L.a(a), -1))
            elif i.op == 'call' and i.callee in ('strchr', 'strrchr', 'strstr'):
                p = s.lin(f, i.a[0]); n = L.a(('len', p.key()))
                out.append(L.a(a).add(p, -1))
                last = 0 if i.callee == 'strchr' and s.lin(f, i.a[1]).const == 0 else 1
                out.append(p.add(n).add(L.a(a), -1).add(L.c(-last)))
            elif i.op == 'call' and i.callee in ('readlink', 'read', 'fread', 'snprintf_clamped') :
                k = 2 if i.callee != 'fread' else 2
                out.append(s.lin(f, i.a[k]).add(L.a(a), -1))
                out.append(L.a(a).add(L.c(1)))
            elif i.op == 'call' and i.callee and i.t and i.t[0] == 'i' and s.retnonneg(i.callee): out.append(L.a(a))
            elif i.op == 'zext' : out.append(L.a(a))
            elif i.op == 'and' and isinstance(i.a[1], list) and i.a[1][0] == 'c' and i.a[1][1] < 1 << 30:
                out.append(L.a(a)); out.append(L.c(i.a[1][1]).add(L.a(a), -1))
            elif i.op == 'urem' and isinstance(i.a[1], list):
                out.append(L.a(a)); out.append(L.c(i.a[1][1] - 1).add(L.a(a), -1))
        return out
    def prove(s, goal, facts, depth=4):
        """goal >= 0 from facts"""
        fs = [x for x in facts if isinstance(x, L)]; ne = [x[1] for x in facts if not isinstance(x, L)]
        seen = set(); work = set(goal) | {a for x in fs for a in x} | {a for x in ne for a in x}
        while work:
            new = set()
            for a in work:
                ax = s.axioms(None, a, seen); fs += ax
                for x in ax: new |= set(x)
            work = {a for a in new if a not in seen}
        for d in ne:
            if s._prove(d, fs, 2) and s._prove(d.scale(-1), fs, 2): return True     # contradictory
        for _ in range(2):
            for d in list(ne):
                for q in (d, d.scale(-1)):
                    if s._prove(q, fs, 2):
                        q1 = q.add(L.c(-1))
                        if q1 not in fs: fs.append(q1)
        return s._prove(goal, fs, depth)
    def _prove(s, g, fs, depth):
        memo = {}
        def go(g, d):
            atoms = [a for a in g if a != '']
            if not atoms: return g.get('', 0) >= 0
            if d == 0: return False
            k = (g.key(), d)
            if k in memo: return memo[k]
            memo[k] = False
            a = sorted(atoms, key=str)[0]
            for a in sorted(atoms, key=str):
                for x in fs:
                    if a in x and x[a] * g[a] > 0 and g[a] % x[a] == 0:
                        if go(g.add(x, -(g[a] // x[a])), d - 1): memo[k] = True; return True
                break
            return memo[k]
        return go(g, depth)
    def split(s, f, e):
        """one phi, select or truth value of e replaced by each of its values: [(expression, what then holds)]"""
        for a in sorted((a for a in e if a != '' and a[0] == 'v' and a[1] == f.name), key=lambda a: -a[2]):      # latest first
            i = f.inst[a[2]]; vs = None
            if i.op == 'phi' and not any(a in s.lin(f, v) for v, _ in i.a):
                vs = []
                for v, pb in i.a:
                    ex = list(s.facts(f, pb)); s.edgefacts(f, pb, i.b, ex); vs.append((s.lin(f, v), ex))
            elif i.op == 'zext' and i.d.get('ft') == 'i1' or i.op == 'select':
                vs = []
                for v, sense in ((1, True), (0, False)) if i.op == 'zext' else ((i.a[1], True), (i.a[2], False)):
                    ex = []; s.cond(f, i.a[0], sense, ex); vs.append((L.c(v) if i.op == 'zext' else s.lin(f, v), ex))
            if vs:
                r = L({k: c for k, c in e.items() if k != a})
                return [(r.add(v, e[a]), ex) for v, ex in vs]
        return None
    def cases(s, f, e, b, depth=0):
        """e with every such value replaced"""
        sp = s.split(f, e) if depth < 3 else None
        if not sp: return [(e, [])]
        return [(e3, ex + x3) for e2, ex in sp for e3, x3 in s.cases(f, e2, b, depth + 1)]
    def holds(s, f, b, goal, extra=()):
        """goal >= 0 whenever control is in block b"""
        return s._holds(f, goal, list(extra) + list(s.facts(f, b)), 0)
    def _holds(s, f, goal, facts, depth):
        if s.prove(goal, facts): return True
        sp = s.split(f, goal) if depth < 3 else None
        return bool(sp) and all(s._holds(f, e, facts + ex, depth + 1) for e, ex in sp)
    # ---- counters
    def counter(s, g, cands):
        """(lo, hi) inductive bounds of global g out of candidates; hi None when unbounded"""
        st = [(f, i) for f in s.p.defs() for i in f.insts() if i.op == 'store' and i.a[1] == ['g', g]]
        init = s.p.g[g].get('init') or ['zero', 4]
        v0 = init[1] if init[0] == 'c' else 0
        w = init[2] if init[0] == 'c' and len(init) > 2 else 32
        if v0 >= 1 << (w - 1): v0 -= 1 << w
        for lo, hi in cands:
            if lo is not None and v0 < lo or hi is not None and v0 > hi: continue
            s.inv[g] = (lo, hi); s._facts.clear(); s._lin.clear()
            bad = None
            for f in {x.name: x for x, _ in st}.values():
                bad = bad or s._inductive(f, g, lo, hi)
            if not bad: return (lo, hi), len(st)
            s.inv.pop(g)
        s._facts.clear(); s._lin.clear()
        return None, len(st)
    def _inductive(s, f, g, lo, hi):
        pts = []
        for b in s.live(f):
            cut = f.cut_noreturn(s.p.noret).get(b)
            for i in f.blocks[b]:
                if cut is not None and i.pos >= cut: break
                if i.op == 'ret': pts.append((b, i.pos))
                elif i.op == 'call' and not (i.callee and (i.callee not in s.p.f or s.p.f[i.callee].decl)) and s.modifies(i, g): pts.append((b, i.pos))
            else:
                for y in s.succ(f)[b]:
                    if len(s.preds(f)[y]) > 1: pts.append((b, len(f.blocks[b])))
        for b, pos in pts:
            v = s.gval(f, g, b, pos)
            ex = []
            if pos == len(f.blocks[b]): pass
            for goal in ([v.add(L.c(-lo))] if lo is not None else []) + ([L.c(hi).add(v, -1)] if hi is not None else []):
                if s.holds(f, b, goal): continue
                if not all(a == '' or a[0] == 'G' and a[1] == f.name and a[3] == 'in' for a in goal): return (f, b)
                cs = s.p.callers_all().get(f.name, [])
                if not cs: return (f, b)
                for c in cs:      # what the callers know
                    if c.b not in s.live(c.f): continue
                    r = L()
                    for a, k in goal.items(): r = r.add(L.c(k) if a == '' else s.gval(c.f, a[2], c.b, c.pos).scale(k))
                    if not s.holds(c.f, c.b, r): return (f, b)
        return None

def root(f, o):
    while isinstance(o, int):
        i = f.inst[o]
        if i.op in ('getelementptr', 'bitcast', 'addrspacecast'): o = i.a[0]
        else: return (i.op, i.id)
    if isinstance(o, list):
        if o[0] == 'cgep': return root(f, o[1])
        return (o[0], o[1]) if len(o) > 1 else (o[0],)
    return None
