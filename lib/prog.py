"""Program model over the dumped SSA IR: functions, CFG, dominance, call graph (function pointers resolved
through struct slots, tables and parameters), reachability helpers."""
import re, os, collections
import ir
from ir import AnalysisBroken

TERM = ('br', 'switch', 'ret', 'unreachable')

class Inst:
    __slots__ = ('id', 'op', 't', 'a', 'line', 'lf', 'd', 'b', 'f', 'pos')
    def __init__(s, d, f, b, pos):
        s.id = d['id']; s.op = d['op']; s.t = d.get('t'); s.a = d.get('a', []); s.line = d.get('l', 0); s.lf = d.get('lf')
        s.d = d; s.f = f; s.b = b; s.pos = pos
    @property
    def callee(s):
        c = s.d.get('callee')
        return c[1] if c and isinstance(c, list) and c[0] == 'fn' else None
    @property
    def where(s):
        return '%s:%d' % (s.lf or s.f.file, s.line)
    def __repr__(s): return '<%s %%%d %s @%s>' % (s.op, s.id, s.callee or '', s.where)

class Func:
    def __init__(s, p, name, d):
        s.p = p; s.name = name; s.d = d; s.decl = bool(d.get('decl')); s.src = d.get('src', name)
        s.file = d.get('file', '?'); s.line = d.get('line', 0); s.internal = d['internal']
        s.nr = d['noreturn']; s.nargs = d['nargs']; s.blocks = []; s.inst = {}
        s.an = d.get('an', [])
        for bi, b in enumerate(d.get('b', [])):
            l = [Inst(x, s, bi, k) for k, x in enumerate(b)]
            s.blocks.append(l)
            for i in l: s.inst[i.id] = i
        s._succ = s._pred = s._dom = s._pdom = s._uses = None
    def __repr__(s): return s.name
    @property
    def where(s): return '%s:%d' % (s.file, s.line)
    @property
    def succ(s):
        if s._succ is None:
            s._succ = []
            for b in s.blocks:
                t = b[-1]
                nxt = list(dict.fromkeys(t.d.get('s', [])))
                s._succ.append(nxt)
        return s._succ
    def cut_noreturn(s, noret):
        """index of the first no-return call in each block, or None"""
        r = {}
        for bi, b in enumerate(s.blocks):
            for i in b:
                if i.op == 'call' and (i.d.get('nr') or (i.callee and i.callee in noret)):
                    r[bi] = i.pos; break
        return r
    @property
    def pred(s):
        if s._pred is None:
            s._pred = [[] for _ in s.blocks]
            for b, ss in enumerate(s.succ):
                for x in ss: s._pred[x].append(b)
        return s._pred
    @property
    def uses(s):
        if s._uses is None:
            u = collections.defaultdict(list)
            for b in s.blocks:
                for i in b:
                    ops = [x[0] for x in i.a] if i.op == 'phi' else i.a
                    for o in ops:
                        if isinstance(o, int): u[o].append(i)
                        elif isinstance(o, list) and o and o[0] == 'a': u[('a', o[1])].append(i)
                    c = i.d.get('callee')
                    if isinstance(c, int): u[c].append(i)
                    elif isinstance(c, list) and c[0] == 'a': u[('a', c[1])].append(i)
            s._uses = u
        return s._uses
    def insts(s):
        for b in s.blocks:
            for i in b: yield i
    def calls(s, name=None):
        for i in s.insts():
            if i.op == 'call' and (name is None or i.callee == name or (isinstance(name, (set, frozenset, tuple, list)) and i.callee in name)):
                yield i
    @property
    def dom(s):
        """list of dominator sets by block"""
        if s._dom is None:
            s._dom = _dominators(len(s.blocks), [0], s.pred, s.succ)
        return s._dom
    def pdom(s):
        if s._pdom is None:
            n = len(s.blocks)
            exits = [b for b in range(n) if not s.succ[b]]
            s._pdom = _dominators(n, exits, s.succ, s.pred)
        return s._pdom
    def dominates(s, i, j):
        if i.b == j.b: return i.pos < j.pos
        return i.b in s.dom[j.b]
    def op(s, o):
        """instruction for an operand, or None"""
        return s.inst.get(o) if isinstance(o, int) else None

def _dominators(n, roots, pred, succ):
    full = None
    dom = [None] * n
    order = []; seen = set()
    st = [(r, iter(succ[r])) for r in roots]
    import sys
    for r in roots:
        if r in seen: continue
        seen.add(r); stack = [(r, iter(succ[r]))]
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y); stack.append((y, iter(succ[y]))); break
            else:
                order.append(x); stack.pop()
    order.reverse()
    rs = set(roots)
    for r in roots: dom[r] = {r}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b in rs: continue
            ps = [dom[p] for p in pred[b] if dom[p] is not None]
            if not ps: continue
            nd = set.intersection(*ps) | {b}
            if nd != dom[b]: dom[b] = nd; ch = True
    for b in range(n):
        if dom[b] is None: dom[b] = {b}
    return dom

class Program:
    def __init__(s, prog):
        raw = ir.load_raw(prog); s.name = prog
        s.g = raw['globals']; s.enums = raw['enums']; s.structs = raw['structs']
        s.f = {n: Func(s, n, d) for n, d in raw['funcs'].items()}
        s.enumval = {}
        for e, m in s.enums.items():
            for k, v in m.items(): s.enumval.setdefault(k, v)
        s._noret = None; s._slots = None; s._callers = None; s._ptcache = {}
        s.bysrc = collections.defaultdict(list)
        for f in s.f.values(): s.bysrc[f.src].append(f)
    def fn(s, name):
        f = s.f.get(name)
        if f is None or f.decl:
            c = [x for x in s.bysrc.get(name, []) if not x.decl]
            if len(c) == 1: return c[0]
            raise AnalysisBroken('%s: function %s not found (%d candidates)' % (s.name, name, len(c)))
        return f
    def has(s, name):
        try: s.fn(name); return True
        except AnalysisBroken: return False
    def defs(s): return (f for f in s.f.values() if not f.decl)
    def enum(s, name):
        if name not in s.enums: raise AnalysisBroken('%s: enum %s not found' % (s.name, name))
        return s.enums[name]
    def ev(s, name):
        if name not in s.enumval: raise AnalysisBroken('%s: enumerator %s not found' % (s.name, name))
        return s.enumval[name]
    def enum_of(s, enumerator):
        for n, m in s.enums.items():
            if enumerator in m: return m
        raise AnalysisBroken('%s: enumerator %s not found' % (s.name, enumerator))
    def fieldname(s, struct, idx_off):
        """field names at byte offset"""
        return [m[0] for m in s.structs.get(struct, []) if m[1] == idx_off]
    def field_off(s, struct, field):
        for m in s.structs.get(struct, []):
            if m[0] == field: return m[1]
        raise AnalysisBroken('%s: field %s.%s not found' % (s.name, struct, field))
    def off(s, struct, path):
        """byte offset of a dotted member path, e.g. off('expr', 'bits.op.op')"""
        o = 0; cur = struct
        for f in path.split('.'):
            m = next((m for m in s.structs.get(cur, []) if m[0] == f), None)
            if m is None:
                # member of an anonymous member
                for m2 in s.structs.get(cur, []):
                    if m2[0] == '' and m2[6]:
                        try:
                            o += m2[1] + s.off(m2[6], f)
                            m = next(x for x in s.structs[m2[6]] if x[0] == f); m = [m[0], 0] + m[2:]
                            break
                        except AnalysisBroken: pass
            if m is None: raise AnalysisBroken('%s: member %s of %s not found' % (s.name, path, struct))
            o += m[1]; cur = m[6]
        return o
    # ---- strings
    def gstr(s, name):
        g = s.g.get(name)
        if not g: return None
        i = g.get('init')
        if not i: return None
        if i[0] == 'str':
            b = bytes.fromhex(i[1]); k = b.find(0)
            return (b if k < 0 else b[:k]).decode('latin1')
        if i[0] == 'zero': return ''
        return None
    def strof(s, o):
        """string constant for an operand (global, or constant gep into it)"""
        if isinstance(o, list):
            if o[0] == 'g':
                g = s.g.get(o[1])
                if g and g.get('const'): return s.gstr(o[1])
            if o[0] == 'cgep' and o[2] is not None and o[1][0] == 'g':
                x = s.gstr(o[1][1])
                if x is not None: return x[o[2]:]
        return None
    # ---- no-return
    LIBC_NORETURN = {'exit', '_exit', '_Exit', 'abort', '__assert_fail', 'longjmp', 'quick_exit', 'execl_never'}
    @property
    def noret(s):
        if s._noret is None:
            nr = {f.name for f in s.f.values() if f.nr} | s.LIBC_NORETURN
            ch = True
            while ch:
                ch = False
                for f in s.defs():
                    if f.name in nr: continue
                    if not any(True for _ in s.return_points(f, nr)):
                        nr.add(f.name); ch = True
            s._noret = nr
        return s._noret
    def return_points(s, f, nr=None):
        """reachable ret instructions, cutting at no-return calls"""
        nr = s.noret if nr is None else nr
        seen = {0}; st = [0]
        while st:
            b = st.pop()
            for i in f.blocks[b]:
                if i.op == 'call' and (i.d.get('nr') or (i.callee and i.callee in nr)): break
                if i.op == 'ret': yield i
            else:
                for x in f.succ[b]:
                    if x not in seen: seen.add(x); st.append(x)
    # ---- function pointers
    def _all_const_fns(s, o, out):
        if not isinstance(o, list): return
        if o and o[0] == 'fn': out.add(o[1]); return
        for x in o:
            if isinstance(x, list): s._all_const_fns(x, out)
    @property
    def slots(s):
        """(struct, byte offset) -> list of ('fn', name) / ('val', func, operand) stored there"""
        if s._slots is None:
            sl = collections.defaultdict(list); s.gslots = collections.defaultdict(set)
            def init(o, gname):
                if not isinstance(o, list) or not o: return
                if o[0] == 'st':
                    for off, x in o[2]:
                        if isinstance(x, list) and x and x[0] == 'fn': sl[(o[1], off)].append(('fn', x[1]))
                        init(x, gname)
                elif o[0] == 'arr':
                    for x in o[2]: init(x, gname)
                elif o[0] == 'fn': s.gslots[gname].add(o[1])
            for n, g in s.g.items(): init(g.get('init'), n)
            for f in s.defs():
                for i in f.insts():
                    if i.op == 'store' and i.d.get('vt') == 'p':
                        k = s.slot_of(f, i.a[1])
                        if k: sl[k].append(('val', f, i.a[0]))
            s._slots = sl
        return s._slots
    def slot_of(s, f, ptr):
        """(struct, off) for a pointer operand that is a gep ending in a struct field, or ('@g', name)"""
        if isinstance(ptr, list):
            if ptr[0] == 'g': return ('@g', ptr[1])
            if ptr[0] == 'cgep':
                st = [x for x in ptr[3] if x[0] == 'f']
                if st: return (st[-1][1], st[-1][3])
                return s.slot_of(f, ptr[1])
            return None
        i = f.inst.get(ptr) if isinstance(ptr, int) else None
        if i is None: return None
        if i.op == 'getelementptr':
            st = [x for x in i.d['g'] if x[0] == 'f']
            if st: return (st[-1][1], st[-1][3])
            return s.slot_of(f, i.a[0])
        return None
    @property
    def addr_taken(s):
        if not hasattr(s, '_at'):
            at = set()
            for g in s.g.values(): s._all_const_fns(g.get('init'), at)
            for f in s.defs():
                for i in f.insts():
                    for o in (i.a if i.op != 'phi' else [x[0] for x in i.a]):
                        s._all_const_fns(o, at)
            s._at = at
        return s._at
    def points_to_fns(s, f, o, seen=None):
        """set of function names an operand may denote; falls back to arity-matching is done by the caller (None = unknown)"""
        if seen is None: seen = set()
        key = (f.name, str(o))
        if key in seen: return set()
        seen.add(key)
        if isinstance(o, list):
            if o[0] == 'fn': return {o[1]}
            if o[0] in ('null', 'undef', 'c', 'zero'): return set()
            if o[0] == 'a':
                r = set()
                cs = s.callers().get(f.name, [])
                if f.name in s.addr_taken and not cs: return None
                for i in cs:
                    if o[1] < len(i.a):
                        x = s.points_to_fns(i.f, i.a[o[1]], seen)
                        if x is None: return None
                        r |= x
                return r
            return None
        i = f.inst.get(o)
        if i is None: return None
        if i.op in ('phi', 'select'):
            r = set()
            for x in ([y[0] for y in i.a] if i.op == 'phi' else i.a[1:]):
                y = s.points_to_fns(f, x, seen)
                if y is None: return None
                r |= y
            return r
        if i.op == 'load':
            k = s.slot_of(f, i.a[0])
            if k is None: return None
            if k[0] == '@g':
                s.slots
                r = set(s.gslots.get(k[1], ()))
            else:
                r = set()
            for e in s.slots.get(k, []):
                if e[0] == 'fn': r.add(e[1])
                else:
                    x = s.points_to_fns(e[1], e[2], seen)
                    if x is None: continue
                    r |= x
            return r
        return None
    def targets(s, i):
        """possible callees of a call instruction"""
        if i.callee: return {i.callee}
        k = (i.f.name, i.id)
        if k not in s._ptcache:
            s._ptcache[k] = set()
            c = i.d.get('callee')
            r = s.points_to_fns(i.f, c) if not (isinstance(c, list) and c[0] == 'asm') else set()
            if r is None or not r:
                n = len(i.a)
                r = {x for x in s.addr_taken if x in s.f and (s.f[x].nargs == n or (s.f[x].d.get('vararg') and s.f[x].nargs <= n))}
            s._ptcache[k] = r
        return s._ptcache[k]
    def callers(s):
        if s._callers is None:
            c = collections.defaultdict(list)
            for f in s.defs():
                for i in f.insts():
                    if i.op == 'call' and i.callee: c[i.callee].append(i)
            s._callers = c
        return s._callers
    def callers_all(s):
        """including indirect"""
        if not hasattr(s, '_callers_all'):
            c = collections.defaultdict(list)
            for f in s.defs():
                for i in f.insts():
                    if i.op == 'call':
                        for t in s.targets(i): c[t].append(i)
            s._callers_all = c
        return s._callers_all
    def reach(s, roots):
        seen = set(); st = [r for r in roots]
        while st:
            n = st.pop()
            if n in seen: continue
            seen.add(n)
            f = s.f.get(n)
            if not f or f.decl: continue
            for i in f.insts():
                if i.op == 'call': st += [t for t in s.targets(i) if t not in seen]
        return seen

_cache = {}
def load(prog):
    if prog not in _cache: _cache[prog] = Program(prog)
    return _cache[prog]
