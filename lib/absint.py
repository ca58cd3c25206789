"""Context-sensitive abstract interpretation over the SSA IR.

Domain: finite powersets of constants (integers, symbolic pointers obj+offset, functions), TOP = None.
Flow-sensitive memory for address-taken locals and harness-named objects, joins at control-flow merges, calls
analysed per abstract-argument context. It computes, for an entry point and an abstract input, the events that
may occur (calls to sink functions, stores to named objects) and the values that may be returned.
No concrete run, no path enumeration, no solver: a dataflow fixpoint."""
import sys
from prog import AnalysisBroken
sys.setrecursionlimit(20000)

TOP = None
K = 48

def join(a, b):
    if a is TOP or b is TOP: return TOP
    if a == b: return a
    r = a | b
    return TOP if len(r) > K else r

def C(*xs): return frozenset(xs)

def wrap(n, bits):
    n &= (1 << bits) - 1
    if bits > 1 and n >> (bits - 1): n -= 1 << bits
    if bits == 1: n = -1 if n & 1 else 0
    return n

def bits_of(t):
    if t and t[0] == 'i' and t[1:].isdigit(): return int(t[1:])
    if t == 'p': return 64
    return 0

# ------------------------------------------------------------ Herbrand terms: ('x', op, bits, args...)
def isx(a): return isinstance(a, tuple) and a[0] == 'x'
def X(name, bits=64): return C(('x', 'v', bits, name))
def may_true(v): return v is TOP or any(x != 0 or isx(x) for x in v)
def may_false(v): return v is TOP or 0 in v or any(isx(x) for x in v)
COMMX = ('add', 'mul', 'and', 'or', 'xor', 'fadd', 'fmul')
def xsize(t): return 1 + sum(xsize(a) for a in t[3:] if isx(a)) if isx(t) else 1
def mkx(op, bits, *a):
    if op in COMMX and repr(a[0]) > repr(a[1]): a = (a[1], a[0])
    x, y = (a + (None,))[:2]
    if op in ('add', 'or', 'xor'):
        if x == 0: return y
        if y == 0: return x
    if op in ('sub', 'shl', 'lshr', 'ashr') and y == 0: return x
    if op == 'or':
        w = rejoin(x, y)
        if w is None: w = rejoin(y, x)
        if w is not None: return w
    if op == 'and' and isinstance(x, int) and isx(y): x, y = y, x
    if op == 'and' and isinstance(y, int) and isx(x) and x[1] == 'shl' and isinstance(x[4], int) and y == -1 << x[4]: return x
    if op == 'xor':
        for p, q in ((x, y), (y, x)):
            if p == -1 and isx(q) and q[1] == 'icmp': return xnot(q)
            if p == -1 and isx(q) and q[1] == 'xor' and -1 in q[3:]: return [z for z in q[3:] if z != -1][0]
    if op == 'sub' and y is not None and isinstance(y, int): return mkx('add', bits, x, wrap(-y, bits))
    if op == 'and':
        for p, q in ((x, y), (y, x)):
            if p == -1: return q
            if p == 0: return 0
    if op == 'mul':
        for p, q in ((x, y), (y, x)):
            if p == 1: return q
            if p == -1: return mkx('sub', bits, 0, q)
            if p == 0: return 0
    if op in ('lshr', 'shl', 'ashr') and isx(x) and x[1] == op and isinstance(y, int) and isinstance(x[4], int):
        if x[4] + y < bits: return mkx(op, bits, x[3], x[4] + y)
        if op != 'ashr': return 0
    r = ('x', op, bits) + a
    return r if xsize(r) <= 40 else None
def rejoin(lo, hi):
    """the value whose low and high pieces (as taken apart for a union member) these are"""
    if not (isx(lo) and isx(hi) and hi[1] == 'shl' and lo[1] == 'zext' and hi[4] == lo[3]): return None
    z = hi[3]
    if not (isx(z) and z[1] == 'zext' and z[3] == hi[2] - hi[4] and isx(z[4]) and z[4][1:4] == ('trunc', z[3], hi[2])): return None
    q = z[4][4]
    if isx(q) and q[1:3] == ('lshr', hi[2]) and q[4] == hi[4]:
        v = q[3]
        if lo[4] == (mkcast('trunc', hi[2], lo[3], v) if isx(v) else ('x', 'trunc', lo[3], hi[2], v)): return v
    return None
def mkcast(op, fb, tb, t):
    """zext/sext/trunc of a term"""
    o = t[1]
    if op == 'trunc':
        if o in ('zext', 'sext'):
            inner = t[4]; ib = t[3]
            if ib == tb: return inner
            if ib < tb: return ('x', o, tb, ib, inner)
            return mkcast('trunc', ib, tb, inner) if isx(inner) else wrap(inner, tb)
        if o == 'trunc': return ('x', 'trunc', tb, t[3], t[4])
        return ('x', 'trunc', tb, fb, t)
    if o == 'zext': return ('x', 'zext', tb, t[3], t[4])
    if o == op: return ('x', op, tb, t[3], t[4])
    return ('x', op, tb, fb, t)
SWP = {'sgt': 'slt', 'sge': 'sle', 'ugt': 'ult', 'uge': 'ule'}
def mkicmp(pred, bits, a, b):
    if pred in SWP: pred, a, b = SWP[pred], b, a
    if pred in ('eq', 'ne'):
        if not isx(a) or (isx(b) and repr(a) > repr(b)): a, b = b, a
        if b == 0 and isx(a) and a[1] in ('zext', 'sext'):
            inner = a[4]
            if a[3] == 1: return inner if pred == 'ne' else xnot(inner)
            return mkicmp(pred, a[3], inner, 0)
        if b in (1, -1) and isx(a) and a[1] in ('zext', 'sext') and a[3] == 1 and b == (1 if a[1] == 'zext' else -1): return inner_or_not(a[4], pred == 'eq')
        if a == b: return -1 if pred == 'eq' else 0
    # strict/non-strict with a constant: use the strict form
    if pred in ('sle',) and isinstance(b, int): pred, b = 'slt', b + 1
    if pred in ('sle',) and isinstance(a, int): pred, a = 'slt', a - 1
    if pred == 'ule' and isinstance(b, int) and b & ((1 << bits) - 1) != (1 << bits) - 1: pred, b = 'ult', wrap(b + 1, bits)
    if pred == 'ule' and isinstance(a, int) and a != 0: pred, a = 'ult', wrap(a - 1, bits)
    if pred == 'ult' and b == 1 and isx(a): return mkicmp('eq', bits, a, 0)
    if pred == 'ult' and a == 0 and isx(b): return mkicmp('ne', bits, b, 0)
    return ('x', 'icmp', 1, pred, bits, a, b)
def inner_or_not(t, same): return t if same else xnot(t)
def xnot(t):
    if isinstance(t, int): return 0 if t else -1
    if t[1] == 'icmp':
        p, bits, a, b = t[3:]
        if p == 'eq': return ('x', 'icmp', 1, 'ne', bits, a, b)
        if p == 'ne': return ('x', 'icmp', 1, 'eq', bits, a, b)
        return mkicmp({'slt': 'sle', 'sle': 'slt', 'ult': 'ule', 'ule': 'ult'}[p], bits, b, a)
    if t[1] == 'xor' and -1 in t[3:]: return [z for z in t[3:] if z != -1][0]
    return ('x', 'xor', t[2], -1, t)
def hasx(*vs): return any(v is not TOP and any(isx(x) for x in v) for v in vs)

class Event:
    __slots__ = ('kind', 'name', 'args', 'inst', 'stack', 'mem')
    def __init__(s, kind, name, args, inst, stack, mem=None):
        s.kind = kind; s.name = name; s.args = args; s.inst = inst; s.stack = stack; s.mem = mem
    def __repr__(s): return '<%s %s %s @%s>' % (s.kind, s.name, s.args, s.inst.where)

class Stop(Exception): pass

class Interp:
    def __init__(s, p, sinks=(), stubs=None, fields=None, skip=(), globals_=None, maxdepth=24, only=None, budget=400000, ro=(), record_stores=False, objs=None, track_globals=False, stable=(), watch=(), enter_noret=False, through=None, start=None, preset=None, objp=None, assume=None, part=(), maxrec=1):
        """sinks: functions recorded and not entered. stubs: name -> callable(interp, args, inst, mem) -> AbsVal.
        fields: (struct, field) -> AbsVal forced on loads through that field. skip: functions not entered (TOP)."""
        s.p = p; s.sinks = set(sinks); s.stubs = dict(stubs or {}); s.skip = set(skip); s.maxdepth = maxdepth
        s.fields = {}
        for (st, fl), v in (fields or {}).items():
            s.fields[(st, p.field_off(st, fl))] = v
        s.gl = dict(globals_ or {})
        s.events = []; s.evseen = set(); s.imprecise = []
        s.steps = 0; s.budget = budget; s.ro = set(ro); s.rec = record_stores
        s.objs = dict(objs or {})     # harness objects: name -> bytes
        s.objp = dict(objp or {})     # read-only harness arrays: name -> {offset: value}; other offsets are out of bounds
        s._readonly = {}; s.visited = set(); s.covered = set()
        s.memo = {}; s.zeroed = set(); s.nomemo = False
        s.assume = dict(assume or {})   # (pred, a, b) of an icmp term -> truth
        s.maxrec = maxrec
        s.part = set(part)              # functions interpreted with trace partitioning (loops unrolled while branches are decided)
        s.track_globals = track_globals
        s.enter_noret = enter_noret
        s.through = {fn: _through(p.f[fn], b) for fn, b in (through or {}).items()}   # only executions passing through a block
        s.start = dict(start or {})   # fn name -> block where interpretation begins (earlier values unknown or `preset`)
        s.preset = dict(preset or {}) # (fn name, inst id) -> value assumed before the start block
        s.watch = set(watch)          # functions whose returns are recorded as ('ret', name) events
        s.stable = set(stable)   # harness objects an un-entered callee is assumed not to change

    # ------------------------------------------------------------ constants
    def const(s, o, t=None):
        k = o[0]
        if k == 'c': return C(o[1] if o[2] != 1 else (-1 if o[1] else 0))
        if k == 'null': return C(0)
        if k == 'fn': return C(('f', o[1]))
        if k == 'g': return C(('p', 'g:' + o[1], 0))
        if k == 'fp': return C(('fp', o[1]))
        if k == 'undef': return frozenset()
        if k == 'cgep':
            b = s.const(o[1])
            if b is TOP or o[2] is None: return TOP
            return frozenset(('p', x[1], x[2] + o[2]) for x in b if isinstance(x, tuple) and x[0] == 'p')
        return TOP

    def opv(s, o, env, ref, args):
        if isinstance(o, list):
            if o[0] == 'a':
                k = ('a', o[1])
                if k in ref: return ref[k]
                return args[o[1]] if o[1] < len(args) else TOP
            return s.const(o)
        if o in ref: return ref[o]
        return env.get(o, frozenset())

    # ------------------------------------------------------------ memory
    def readonly(s, g):
        if g in s._readonly: return s._readonly[g]
        gg = s.p.g.get(g); r = False
        if gg is not None and gg.get('init'):
            if gg.get('const') or g in s.ro: r = True
            elif gg.get('internal'): r = not s._written(g)
        s._readonly[g] = r
        return r

    def _written(s, g):
        p = s.p
        if not hasattr(p, '_gwritten'):
            w = set(); esc = set()
            def roots(f, o, seen):
                if isinstance(o, list):
                    if o[0] == 'g': return {o[1]}
                    if o[0] == 'cgep': return roots(f, o[1], seen)
                    return set()
                if o in seen: return set()
                seen.add(o)
                i = f.inst.get(o)
                if i is None: return set()
                if i.op == 'getelementptr': return roots(f, i.a[0], seen)
                if i.op == 'phi':
                    r = set()
                    for x in i.a: r |= roots(f, x[0], seen)
                    return r
                if i.op == 'select': return roots(f, i.a[1], seen) | roots(f, i.a[2], seen)
                return set()
            for f in p.defs():
                for i in f.insts():
                    if i.op == 'store':
                        w |= roots(f, i.a[1], set()); esc |= roots(f, i.a[0], set())
                    elif i.op == 'call':
                        for k, a in enumerate(i.a):
                            rs = roots(f, a, set())
                            if rs and i.callee not in ('strcmp', 'strncmp', 'strlen', 'fprintf', 'printf', 'snprintf', 'memcmp'): esc |= rs
                    elif i.op == 'ret':
                        for a in i.a: esc |= roots(f, a, set())
            p._gwritten = w | esc
        return g in p._gwritten

    def init_at(s, init, off, nbytes, t):
        """value of an initialiser at byte offset"""
        if init is None: return TOP
        k = init[0]
        if k == 'zero': return C(0) if off < max(init[1], 1) else TOP
        if k == 'str':
            b = bytes.fromhex(init[1])
            if nbytes and 0 <= off and off + nbytes <= len(b):
                v = int.from_bytes(b[off:off + nbytes], 'little')
                return C(wrap(v, nbytes * 8))
            return TOP
        if k == 'arr':
            sz = init[1]; i = off // sz if sz else 0
            if 0 <= i < len(init[2]): return s.init_at(init[2][i], off - i * sz, nbytes, t)
            return frozenset()   # out of bounds
        if k == 'st':
            best = None
            for o, x in init[2]:
                if o <= off: best = (o, x)
            if best is None: return TOP
            return s.init_at(best[1], off - best[0], nbytes, t)
        if off == 0:
            if k in ('c', 'null', 'fn', 'g', 'fp', 'cgep'): return s.const(init)
            if k == 'undef': return C(0)
        return TOP

    def load(s, ptr, t, mem, i, f):
        key = s.p.slot_of(f, i.a[0])
        if key and key in s.fields: return s.fields[key]
        nb = (bits_of(t) + 7) // 8
        if ptr is TOP: return TOP
        r = frozenset()
        for a in ptr:
            if not isinstance(a, tuple): continue     # null deref: infeasible
            if a[0] != 'p': return TOP
            obj, off = a[1], a[2]
            v = TOP
            if (obj, off) in mem: v = mem[(obj, off)]
            elif obj in s.objp:
                if off is None:
                    v = frozenset()
                    for x in s.objp[obj].values(): v = join(v, x)
                else: v = s.objp[obj].get(off, frozenset())
            elif off is None or (obj, None) in mem: v = TOP
            elif obj in s.zeroed: v = C(0)
            elif obj in s.objs:
                b = s.objs[obj]
                if nb and 0 <= off and off + nb <= len(b): v = C(wrap(int.from_bytes(b[off:off + nb], 'little'), nb * 8))
                else: v = frozenset()
            elif isinstance(obj, str) and obj.startswith('g:'):
                g = obj[2:]
                if g in s.gl: v = s.gl[g] if off == 0 else TOP
                elif s.readonly(g): v = s.init_at(s.p.g[g].get('init'), off, nb, t)
            r = join(r, v)
            if r is TOP: return TOP
        return r

    def cstr(s, a, limit=4096):
        """constant string at pointer atom, or None"""
        if not (isinstance(a, tuple) and a[0] == 'p') or a[2] is None: return None
        obj, off = a[1], a[2]
        if obj in s.objs:
            b = s.objs[obj][off:]
            if obj in s.wstr:
                b = bytearray(b)
                for (o, k), v in s.curmem.items():
                    if o == obj and k is not None and k >= off and k - off < len(b) and v is not TOP and len(v) == 1: b[k - off] = next(iter(v)) & 255
                b = bytes(b)
        elif isinstance(obj, str) and obj.startswith('g:'):
            g = s.p.g.get(obj[2:])
            if not g or not s.readonly(obj[2:]): return None
            init = g.get('init')
            if init and init[0] == 'str': b = bytes.fromhex(init[1])[off:]
            elif init and init[0] == 'zero': b = b'\0'
            else: return None
        else: return None
        k = b.find(0)
        return (b[:k] if k >= 0 else b).decode('latin1')

    def strs(s, v):
        """set of strings for a value; None when unknown"""
        if v is TOP: return None
        r = set()
        for a in v:
            if a == 0: r.add(None); continue
            x = s.cstr(a)
            if x is None: return None
            r.add(x)
        return r

    # ------------------------------------------------------------ libc models
    forks = None   # undecided branches, when recorded
    wstr = ()      # string objects the program writes into
    def libcall(s, name, args, inst, mem):
        s.curmem = mem
        def two():
            A, B = s.strs(args[0]), s.strs(args[1])
            if A is None or B is None or None in A or None in B: return None
            return [(x, y) for x in A for y in B]
        if name == 'strcmp':
            q = two()
            if q is None: return TOP
            return frozenset((x > y) - (x < y) for x, y in q)
        if name == 'strncmp':
            q = two()
            if q is None or args[2] is TOP: return TOP
            return frozenset((x[:n] > y[:n]) - (x[:n] < y[:n]) for x, y in q for n in args[2])
        if name == 'strlen':
            A = s.strs(args[0])
            if A is None or None in A: return TOP
            return frozenset(len(x) for x in A)
        if name in ('strchr', 'strrchr'):
            if args[0] is TOP or args[1] is TOP: return TOP
            r = set()
            for a in args[0]:
                st = s.cstr(a)
                if st is None: return TOP
                for c in args[1]:
                    st2 = st + '\0'
                    k = st2.find(chr(c & 255)) if name == 'strchr' else st2.rfind(chr(c & 255))
                    r.add(0 if k < 0 else ('p', a[1], a[2] + k))
            return frozenset(r)
        return NotImplemented

    # ------------------------------------------------------------ run
    def run(s, fname, args, mem=None, stack=()):
        f = fname if not isinstance(fname, str) else s.p.fn(fname)
        return s.call(f, list(args), dict(mem or {}), stack)

    def event(s, kind, name, args, inst, stack, mem=None):
        k = (kind, name, tuple(args), id(inst), tuple(x.name if hasattr(x, 'name') else x for x in stack))
        if k in s.evseen: return
        s.evseen.add(k); s.events.append(Event(kind, name, args, inst, stack, mem))

    def binop(s, op, a, b, bits):
        if a is TOP or b is TOP:
            # absorbing cases
            for x in (a, b):
                if x is not TOP and x == C(0) and op in ('and', 'mul'): return C(0)
            if op == 'and':
                for x in (a, b):
                    if x is not TOP and len(x) == 1:
                        c = next(iter(x))
                        if isinstance(c, int) and 0 < c < 8:
                            return frozenset(v for v in range(c + 1) if v & ~c == 0)
            return TOP
        r = set()
        for x in a:
            for y in b:
                if not isinstance(x, int) or not isinstance(y, int):
                    if (isx(x) or isx(y)) and (isx(x) or isinstance(x, int)) and (isx(y) or isinstance(y, int)):
                        t = mkx(op, bits, x, y)
                        if t is None: return TOP
                        r.add(t); continue
                    if op == 'lshr' and isinstance(x, tuple) and isinstance(y, int) and x[0] == 'p': r.add(('x', 'lshr', bits, x, y)); continue
                    if op in ('add', 'sub') and isinstance(x, tuple) and isinstance(y, int) and x[0] == 'p' and x[2] is not None:
                        r.add(('p', x[1], x[2] + (y if op == 'add' else -y))); continue
                    if op == 'sub' and isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'p' and x[1] == y[1] and None not in (x[2], y[2]):
                        r.add(x[2] - y[2]); continue
                    return TOP
                m = (1 << bits) - 1
                ux, uy = x & m, y & m
                try:
                    if op == 'add': v = x + y
                    elif op == 'sub': v = x - y
                    elif op == 'mul': v = x * y
                    elif op == 'and': v = ux & uy
                    elif op == 'or': v = ux | uy
                    elif op == 'xor': v = ux ^ uy
                    elif op == 'shl':
                        if uy >= bits: continue
                        v = ux << uy
                    elif op == 'lshr':
                        if uy >= bits: continue
                        v = ux >> uy
                    elif op == 'ashr':
                        if uy >= bits: continue
                        v = x >> uy
                    elif op == 'udiv': v = ux // uy
                    elif op == 'urem': v = ux % uy
                    elif op == 'sdiv': v = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                    elif op == 'srem': v = abs(x) % abs(y) * (-1 if x < 0 else 1)
                    else: return TOP
                except ZeroDivisionError:
                    continue
                r.add(wrap(v, bits))
        return frozenset(r) if len(r) <= K else TOP

    def icmp(s, pred, a, b, bits):
        pred = pred
        if a is TOP or b is TOP: return C(0, -1)
        r = set()
        m = (1 << bits) - 1 if bits else 0
        for x in a:
            for y in b:
                if isinstance(x, int) and isinstance(y, int):
                    ux, uy = x & m, y & m
                    v = {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y,
                         'ult': ux < uy, 'ule': ux <= uy, 'ugt': ux > uy, 'uge': ux >= uy}.get(pred)
                    if v is None: return C(0, -1)
                    r.add(-1 if v else 0)
                elif isx(x) or isx(y):
                    if not ((isx(x) or isinstance(x, int)) and (isx(y) or isinstance(y, int))): return C(0, -1)
                    t = mkicmp(pred, bits, x, y)
                    r.add(s.decide(t))
                else:
                    eq = None
                    if x == y:
                        eq = True
                        if pred in ('ult', 'ugt', 'ule', 'uge') and isinstance(x, tuple) and x[0] == 'p' and x[2] is not None: r.add(-1 if pred in ('ule', 'uge') else 0); continue
                    elif isinstance(x, tuple) and isinstance(y, tuple):
                        if x[0] != y[0]: eq = False
                        elif x[0] == 'f': eq = False
                        elif x[0] == 'p' and x[1] == y[1] and None not in (x[2], y[2]):
                            if pred in ('ult', 'ule', 'ugt', 'uge'):
                                r.add(-1 if {'ult': x[2] < y[2], 'ule': x[2] <= y[2], 'ugt': x[2] > y[2], 'uge': x[2] >= y[2]}[pred] else 0); continue
                            eq = False
                        elif x[0] == 'p' and x[1] != y[1]: eq = False
                    elif isinstance(x, int) != isinstance(y, int):
                        eq = False if 0 in (x if isinstance(x, int) else y,) else None
                        if pred in ('ugt', 'ult') and isinstance(y, int): eq = None
                    if eq is None or pred not in ('eq', 'ne'): return C(0, -1)
                    r.add(-1 if (eq == (pred == 'eq')) else 0)
        return frozenset(r)

    def decide(s, t):
        if isx(t) and t[1] == 'fcmp' and s.assume:
            k = (t[3], t[4], t[5])
            return (-1 if s.assume[k] else 0) if k in s.assume else t
        if not isx(t) or t[1] != 'icmp' or not s.assume: return t
        for u, flip in ((t, False), (xnot(t), True)):
            if isx(u) and u[1] == 'icmp':
                k = (u[3], u[5], u[6])
                if k in s.assume: return -1 if s.assume[k] != flip else 0
        return t

    def call(s, f, args, mem, stack):
        """returns (retval, memout or None when it cannot return)"""
        s.visited.add(f.name)
        if s.nomemo: return s.call_part(f, args, mem, stack + (f,))
        key = (f.name, tuple(args), frozenset(mem.items()))
        if key in s.memo:
            rv, mo, evs = s.memo[key]
            for e in evs: s.event(e.kind, e.name, e.args, e.inst, stack + e.stack[e_len(e):] if False else e.stack, e.mem)
            return rv, (dict(mo) if mo is not None else None)
        n0 = len(s.events)
        st2 = stack + (f,)
        if f.name in s.part or '*' in s.part:
            ret, memout = s.call_part(f, args, mem, st2)
            s.memo[key] = (ret, dict(memout) if memout is not None else None, s.events[n0:])
            return ret, memout
        n = len(f.blocks)
        env = {}
        memin = [None] * n; refin = [None] * n; refedge = {}
        memin[0] = mem; refin[0] = {}
        feas = set()
        b0 = s.start.get(f.name, 0)
        if b0:
            memin[0] = refin[0] = None; memin[b0] = mem; refin[b0] = {}
            for d in f.dom[b0]:
                if d != b0:
                    for i in f.blocks[d]: env[i.id] = s.preset.get((f.name, i.id), TOP)
        work = [b0]; inq = {b0}
        ret = frozenset(); memout = None
        rpo = rpo_of(f)
        noret = s.p.noret
        first = set()
        while work:
            work.sort(key=lambda b: rpo[b], reverse=True)
            b = work.pop(); inq.discard(b)
            s.covered.add((f.name, b))
            m = dict(memin[b]); ref = dict(refin[b])
            blk = f.blocks[b]
            alive = True; grew = b not in first
            first.add(b)
            for i in blk:
                s.steps += 1
                if s.steps > s.budget: raise AnalysisBroken('absint: budget exhausted in %s' % '<'.join(x.name for x in st2[::-1][:40]))
                op = i.op
                if op == 'phi':
                    v = frozenset()
                    for o, pb in i.a:
                        if (pb, b) in feas:
                            x = s.opv(o, env, refedge.get((pb, b), {}), args)
                            v = join(v, x)
                            if v is TOP: break
                elif op == 'br':
                    if len(i.d['s']) == 1: nxt = [(i.d['s'][0], ref)]
                    else:
                        c = s.opv(i.a[0], env, ref, args)
                        nxt = []
                        t, e = i.d['s']
                        if may_true(c): nxt.append((t, s.refine(f, i.a[0], True, env, ref, args)))
                        if may_false(c): nxt.append((e, s.refine(f, i.a[0], False, env, ref, args)))
                    break
                elif op == 'switch':
                    c = s.opv(i.a[0], env, ref, args)
                    cs = i.d['cs']; ss = i.d['s']; nxt = []
                    if c is TOP or hasx(c):
                        for k, x in zip(cs, ss[1:]):
                            r2 = dict(ref); s.setref(f, i.a[0], C(k), r2); nxt.append((x, r2))
                        nxt.append((ss[0], dict(ref)))
                    else:
                        for k, x in zip(cs, ss[1:]):
                            if k in c:
                                r2 = dict(ref); s.setref(f, i.a[0], C(k), r2); nxt.append((x, r2))
                        rest = frozenset(x for x in c if x not in cs)
                        if rest:
                            r2 = dict(ref); s.setref(f, i.a[0], rest, r2); nxt.append((ss[0], r2))
                    break
                elif op == 'ret':
                    v = s.opv(i.a[0], env, ref, args) if i.a else TOP
                    ret = join(ret, v)
                    memout = memjoin(memout, m)
                    nxt = []; break
                elif op == 'unreachable':
                    nxt = []; break
                elif op == 'call':
                    r = s.docall(i, f, env, ref, args, m, st2)
                    if r is NotImplemented:  # does not return
                        nxt = []; break
                    v = r
                else:
                    v = s.simple(i, f, env, ref, args, m, st2)
                if i.t:
                    old = env.get(i.id, frozenset())
                    # values are joined over revisits; a dead value stays bottom
                    nv = join(old, v) if i.id in env else v
                    if nv != old or i.id not in env:
                        if i.id in env:
                            us = [(i.id, 0)]
                            while us:
                                vid, dp = us.pop()
                                for u in f.uses.get(vid, ()):
                                    if u.b != b or u.pos <= i.pos:
                                        if memin[u.b] is not None and u.b not in inq: inq.add(u.b); work.append(u.b)
                                    if dp < 3 and u.op in ('icmp', 'zext', 'sext', 'xor', 'trunc'): us.append((u.id, dp + 1))
                        env[i.id] = nv; grew = True
                    if i.id in ref: del ref[i.id]
            else:
                nxt = []
            for x, r2 in nxt:
                ek = (b, x)
                if f.name in s.through and ek not in s.through[f.name]: continue
                new = False
                if ek not in feas: feas.add(ek); new = True
                oldre = refedge.get(ek)
                re2 = r2 if oldre is None else refjoin(oldre, r2)
                if re2 != oldre: refedge[ek] = re2; new = True
                nm = memjoin(memin[x], m) if memin[x] is not None else dict(m)
                # in-ref = join over feasible in-edges
                nr = None
                for pb in f.pred[x]:
                    if (pb, x) in feas:
                        nr = refedge[(pb, x)] if nr is None else refjoin(nr, refedge[(pb, x)])
                if nm != memin[x] or nr != refin[x] or new or grew:
                    memin[x] = nm; refin[x] = nr
                    if x not in inq: inq.add(x); work.append(x)
        s.memo[key] = (ret, dict(memout) if memout is not None else None, s.events[n0:])
        return ret, memout

    def call_part(s, f, args, mem, st2, limit=6000):
        """the same transfer functions, but no join at merges: one abstract state per trace, identical states merged"""
        ret = frozenset(); memout = None; seen = set(); forked = False; n = 0
        work = [(0, None, {}, {}, dict(mem))]
        while work:
            b, pb, env, ref, m = work.pop(); n += 1
            # with a single trace so far there is nothing to merge with; look for a repeated state (endless loop) now and then
            if forked or n % 64 == 0:
                key = (b, pb, frozenset(env.items()), frozenset(ref.items()), frozenset(m.items()))
                if key in seen: continue
                seen.add(key)
                if len(seen) > limit: raise AnalysisBroken('absint: too many partitions in %s' % f.name)
            s.covered.add((f.name, b))
            if forked: env = dict(env); m = dict(m); ref = dict(ref)
            nxt = []
            phis = {}
            for i in f.blocks[b]:
                if i.op != 'phi': break
                for o, q in i.a:
                    if q == pb: phis[i.id] = s.opv(o, env, ref, args)
            env.update(phis)
            for k in phis: ref.pop(k, None)
            for i in f.blocks[b]:
                s.steps += 1
                if s.steps > s.budget: raise AnalysisBroken('absint: budget exhausted in %s' % '<'.join(x.name for x in st2[::-1][:40]))
                op = i.op
                if op == 'phi': continue
                if op == 'br':
                    if len(i.d['s']) == 1: nxt = [(i.d['s'][0], ref)]
                    else:
                        c = s.opv(i.a[0], env, ref, args); t, e = i.d['s']
                        if may_true(c): nxt.append((t, s.refine(f, i.a[0], True, env, ref, args)))
                        if may_false(c): nxt.append((e, s.refine(f, i.a[0], False, env, ref, args)))
                    break
                if op == 'switch':
                    c = s.opv(i.a[0], env, ref, args); cs = i.d['cs']; ss = i.d['s']
                    unk = c is TOP or hasx(c)
                    for k, x in zip(cs, ss[1:]):
                        if unk or k in c:
                            r2 = dict(ref); s.setref(f, i.a[0], C(k), r2); nxt.append((x, r2))
                    rest = TOP if unk else frozenset(x for x in c if x not in cs)
                    if rest is TOP or rest:
                        r2 = dict(ref)
                        if rest is not TOP: s.setref(f, i.a[0], rest, r2)
                        nxt.append((ss[0], r2))
                    break
                if op == 'ret':
                    ret = join(ret, s.opv(i.a[0], env, ref, args) if i.a else TOP); memout = memjoin(memout, m); break
                if op == 'unreachable': break
                v = s.docall(i, f, env, ref, args, m, st2) if op == 'call' else s.simple(i, f, env, ref, args, m, st2)
                if v is NotImplemented: break
                if i.t: env[i.id] = v; ref.pop(i.id, None)
            if len(nxt) > 1:
                forked = True
                if s.forks is not None: s.forks.append((f.blocks[b][-1].where, [x.name for x in st2[-3:]]))
            for x, r2 in nxt: work.append((x, b, env, r2, m))
        return ret, memout

    def setref(s, f, o, v, ref):
        if isinstance(o, int):
            ref[o] = v
            i = f.inst.get(o)
            # look through casts that keep the value
            if i is not None and i.op in ('zext', 'sext') and isinstance(i.a[0], int) and v is not TOP:
                ref[i.a[0]] = v
        elif isinstance(o, list) and o[0] == 'a': ref[('a', o[1])] = v

    def refine(s, f, cond, truth, env, ref, args):
        ref = dict(ref)
        s.setref(f, cond, C(-1) if truth else C(0), ref)
        i = f.inst.get(cond) if isinstance(cond, int) else None
        if i is None: return ref
        if i.op == 'icmp':
            p = i.d['p']
            s.chain_refine(f, i, truth, env, ref, args)
            if p in ('eq', 'ne'):
                same = (p == 'eq') == truth
                for x, y in ((i.a[0], i.a[1]), (i.a[1], i.a[0])):
                    if isinstance(x, list) and x[0] != 'a': continue
                    yv = s.opv(y, env, ref, args); xv = s.opv(x, env, ref, args)
                    if yv is TOP or hasx(xv, yv): continue
                    if same:
                        nv = yv if xv is TOP else (xv & yv)
                        s.setref(f, x, nv, ref)
                        j = f.inst.get(x) if isinstance(x, int) else None
                        if j is not None and j.op in ('zext',) and j.d.get('ft') == 'i1' and yv == C(0):
                            ref.update(s.refine(f, j.a[0], False, env, ref, args))
                    elif len(yv) == 1:
                        if xv is not TOP: s.setref(f, x, xv - yv, ref)
                        j = f.inst.get(x) if isinstance(x, int) else None
                        if j is not None and j.op == 'zext' and j.d.get('ft') == 'i1' and yv == C(0):
                            ref.update(s.refine(f, j.a[0], True, env, ref, args))
            elif p in ('slt', 'sle', 'sgt', 'sge', 'ult', 'ule', 'ugt', 'uge'):
                for k in (0, 1):
                    x = i.a[k]
                    xv = s.opv(x, env, ref, args); yv = s.opv(i.a[1 - k], env, ref, args)
                    if xv is TOP or yv is TOP or len(yv) != 1 or hasx(xv, yv): continue
                    bits = 64
                    ft = s.ty(f, x)
                    bits = bits_of(ft) or 64
                    keep = frozenset(a for a in xv if (-1 if truth else 0) in (s.icmp(p, C(a), yv, bits) if k == 0 else s.icmp(p, yv, C(a), bits)))
                    s.setref(f, x, keep, ref)
        elif i.op == 'xor':
            # not
            for x, y in ((i.a[0], i.a[1]), (i.a[1], i.a[0])):
                if isinstance(y, list) and y[0] == 'c' and i.t == 'i1':
                    ref.update(s.refine(f, x, not truth, env, ref, args))
        elif i.op == 'trunc':
            pass
        return ref

    PURE = ('load', 'getelementptr', 'zext', 'sext', 'trunc', 'add', 'sub', 'and', 'or', 'xor', 'mul', 'shl', 'lshr', 'ashr', 'icmp', 'select')
    def chain_leaves(s, f, o, out, depth=0, hasload=None):
        if isinstance(o, list):
            if o[0] == 'a': out.add(('a', o[1]))
            return True
        i = f.inst.get(o)
        if i is None or depth > 8: return False
        if i.op in s.PURE:
            if i.op == 'load': hasload.append(i)
            return all(s.chain_leaves(f, x, out, depth + 1, hasload) for x in i.a)
        out.add(o); return True
    def chain_eval(s, f, o, leaf, val, env, ref, args):
        if isinstance(o, list):
            if o[0] == 'a' and ('a', o[1]) == leaf: return C(val)
            return s.opv(o, env, ref, args)
        if o == leaf: return C(val)
        i = f.inst[o]
        if i.op not in s.PURE: return s.opv(o, env, ref, args)
        e2 = {}
        for x in i.a:
            if isinstance(x, int): e2[x] = s.chain_eval(f, x, leaf, val, env, ref, args)
        r2 = {k: v for k, v in ref.items() if k not in e2}
        if leaf[0] == 'a' if isinstance(leaf, tuple) else False: r2 = dict(r2); r2[leaf] = C(val)
        e3 = dict(env); e3.update(e2)
        if i.op == 'load':
            ptr = e2.get(i.a[0], TOP) if isinstance(i.a[0], int) else s.opv(i.a[0], env, ref, args)
            return s.load(ptr, i.t, {}, i, f)
        return s.simple(i, f, e3, r2, args, {}, ())
    def chain_refine(s, f, i, truth, env, ref, args):
        leaves_ = set(); hl = []
        if not all(s.chain_leaves(f, x, leaves_, 0, hl) for x in i.a): return
        def cv(l): return s.opv(['a', l[1]] if isinstance(l, tuple) else l, env, ref, args)
        leaves_ = {l for l in leaves_ if cv(l) is TOP or len(cv(l)) != 1}
        if len(leaves_) != 1 or not hl: return
        leaf = next(iter(leaves_))
        cur = s.opv(['a', leaf[1]] if isinstance(leaf, tuple) else leaf, env, ref, args)
        if cur is TOP or not (2 <= len(cur) <= K) or hasx(cur): return
        if isinstance(leaf, tuple) or isinstance(leaf, int):
            keep = set()
            for c in cur:
                a = s.chain_eval(f, i.a[0], leaf, c, env, ref, args); b = s.chain_eval(f, i.a[1], leaf, c, env, ref, args)
                r = s.icmp(i.d['p'], a, b, bits_of(s.ty(f, i.a[0])) or bits_of(s.ty(f, i.a[1])))
                if (-1 if truth else 0) in r or (truth and 1 in r): keep.add(c)
            ref[leaf] = frozenset(keep)

    def ty(s, f, o):
        if isinstance(o, int): return f.inst[o].t
        if o[0] == 'a': return f.d['at'][o[1]]
        if o[0] == 'c': return 'i%d' % o[2]
        return 'p'

    def simple(s, i, f, env, ref, args, m, stack):
        op = i.op
        V = lambda o: s.opv(o, env, ref, args)
        if op == 'load':
            return s.load(V(i.a[0]), i.t, m, i, f)
        if op == 'store':
            ptr, v = V(i.a[1]), V(i.a[0])
            if s.rec:
                key = s.p.slot_of(f, i.a[1])
                s.event('store', key, [ptr, v], i, stack)
            if ptr is not TOP:
                strong = len(ptr) == 1
                for a in ptr:
                    if isinstance(a, tuple) and a[0] == 'p':
                        if a[1].startswith('g:') and not s.track_globals: continue
                        k = (a[1], a[2])
                        if a[2] is None:
                            old = m.get((a[1], None), frozenset())
                            for kk in [kk for kk in m if kk[0] == a[1]]: m[kk] = join(m[kk], v)
                            m[(a[1], None)] = join(old, v)
                        else: m[k] = v if strong else join(m.get(k, frozenset() if a[1].startswith('al:') and (a[1], None) not in m else TOP), v)
            return TOP
        if op == 'alloca':
            return C(('p', 'al:%s:%d:%d' % (f.name, i.id, len(stack)), 0))
        if op == 'getelementptr':
            b = V(i.a[0])
            if b is TOP: return TOP
            if 'off' in i.d: offs = {i.d['off']}
            else:
                offs = {0}
                # indices in order; struct steps constant, array steps from operands
                idx = i.a[1:]
                steps = i.d['g']
                k = 0
                first = True
                cur = list(steps)
                ops = list(idx)
                # the dumper drops a leading zero index
                if isinstance(ops[0], list) and ops[0][0] == 'c' and ops[0][1] == 0 and not (cur and len(cur) == len(ops)):
                    ops = ops[1:]
                for stp, o in zip(cur, ops):
                    if stp[0] == 'f': offs = {x + stp[3] for x in offs}
                    else:
                        v = V(o)
                        if v is TOP or any(not isinstance(y, int) for y in v): offs = None; break
                        offs = {x + stp[1] * y for x in offs for y in v}
                        if len(offs) > K: offs = None; break
            r = set()
            for a in b:
                if isinstance(a, tuple) and a[0] == 'p':
                    if offs is None or a[2] is None:
                        # unknown index into a read-only table: enumerate in-bounds offsets if small
                        t = s.table_offsets(a, i)
                        if t is None: r.add(('p', a[1], None))
                        else: r |= {('p', a[1], x) for x in t}
                    else:
                        for x in offs: r.add(('p', a[1], a[2] + x))
                elif isinstance(a, tuple): return TOP
                elif a == 0 and offs is not None and offs != {0}: continue   # arithmetic on null
                else: r.add(a)
            return frozenset(r) if len(r) <= 400 else TOP
        if op == 'icmp':
            return s.icmp(i.d['p'], V(i.a[0]), V(i.a[1]), bits_of(s.ty(f, i.a[0])) or bits_of(s.ty(f, i.a[1])))
        if op == 'fcmp':
            a, b = V(i.a[0]), V(i.a[1])
            if not hasx(a, b) or a is TOP or b is TOP: return C(0, -1)
            return frozenset(s.decide(('x', 'fcmp', 1, i.d['p'], x, y)) for x in a for y in b)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            vs = [V(o) for o in i.a]
            if any(v is TOP for v in vs) or not hasx(*vs): return TOP
            r = set()
            for x in vs[0]:
                for y in (vs[1] if len(vs) > 1 else (None,)):
                    r.add(mkx(op, i.t, x, y) if y is not None else ('x', op, i.t, x))
            return frozenset(r)
        if op == 'select':
            c = V(i.a[0])
            r = frozenset()
            if may_true(c): r = join(r, s.opv(i.a[1], env, s.refine(f, i.a[0], True, env, ref, args), args))
            if may_false(c): r = join(r, s.opv(i.a[2], env, s.refine(f, i.a[0], False, env, ref, args), args)) if r is not TOP else TOP
            return r
        if op in ('zext', 'sext', 'trunc'):
            v = V(i.a[0])
            fb, tb = bits_of(i.d['ft']), bits_of(i.t)
            if v is TOP: return C(0, 1) if (fb == 1 and op == 'zext') else (C(0, -1) if fb == 1 else TOP)
            r = set()
            for x in v:
                if isx(x): r.add(mkcast(op, fb, tb, x)); continue
                if isinstance(x, tuple) and x[0] == 'p' and op == 'trunc' and fb == 64: r.add(('x', 'trunc', tb, 64, x)); continue
                if not isinstance(x, int): return TOP
                if op == 'zext': r.add(wrap(x & ((1 << fb) - 1), tb))
                elif op == 'sext': r.add(x)
                else: r.add(wrap(x, tb))
            return frozenset(r)
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze'): return V(i.a[0])
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            if op == 'and' and any(isinstance(o, list) and o[0] == 'undef' for o in i.a): return C(0)
            return s.binop(op, V(i.a[0]), V(i.a[1]), bits_of(i.t))
        return TOP

    def table_offsets(s, a, i):
        obj = a[1]
        if not (isinstance(obj, str) and obj.startswith('g:')): return None
        g = obj[2:]
        gg = s.p.g.get(g)
        if not gg or not s.readonly(g): return None
        init = gg.get('init')
        if not init or init[0] not in ('arr',): return None
        base = a[2] or 0
        st = [x for x in i.d['g'] if x[0] == 'i']
        fo = sum(x[3] for x in i.d['g'] if x[0] == 'f')
        if len(st) != 1 or st[0][1] != init[1]: return None
        n = len(init[2])
        if n > 300: return None
        return [k * init[1] + fo for k in range(n)]

    def docall(s, i, f, env, ref, args, m, stack):
        V = lambda o: s.opv(o, env, ref, args)
        av = [V(o) for o in i.a]
        if i.callee: ts = {i.callee}
        else:
            c = i.d.get('callee')
            cv = V(c) if not (isinstance(c, list) and c[0] in ('asm',)) else TOP
            if cv is not TOP and cv and all(isinstance(x, tuple) and x[0] == 'f' for x in cv): ts = {x[1] for x in cv}
            else: ts = s.p.targets(i)
        r = frozenset(); returned = False
        m0 = dict(m); mo = None
        for t in sorted(ts):
            if t in s.stubs:
                v = s.stubs[t](s, av, i, m0, stack)
                if v is NotImplemented: continue
                returned = True; r = join(r, v); mo = memjoin(mo, m0); continue
            if t in s.sinks:
                s.event('call', t, av, i, stack, dict(m0))
                if t in s.p.noret: continue
                returned = True; r = TOP; mo = memjoin(mo, m0); continue
            g = s.p.f.get(t)
            if i.d.get('nr') or t in s.p.noret:
                if s.enter_noret and g is not None and not g.decl and len(stack) <= s.maxdepth: s.call(g, av, dict(m0), stack)
                continue
            if g is None or g.decl:
                v = s.libcall(t, av, i, m0)
                if v is NotImplemented:
                    v = TOP
                    if t not in ('strcmp', 'strlen', 'strncmp', 'strchr', 'memcmp', 'fprintf', 'printf', 'fputs', 'fputc') and not t.startswith('llvm.'):
                        m1 = dict(m0); s.havoc(av, m1); mo = memjoin(mo, m1)
                    elif t.startswith('llvm.mem'):
                        m1 = dict(m0); s.memintr(t, av, m1); mo = memjoin(mo, m1)
                    elif 'va_start' in t and s.vastart(f, av, args, m0, stack): mo = memjoin(mo, m0)
                    elif t.startswith('llvm.') and ('va_start' in t or 'va_copy' in t):
                        m1 = dict(m0); s.havoc(av, m1); mo = memjoin(mo, m1)
                    else: mo = memjoin(mo, m0)
                else: mo = memjoin(mo, m0)
                returned = True; r = join(r, v); continue
            if t in s.skip or len(stack) > s.maxdepth or sum(1 for x in stack if x is g) > s.maxrec:
                if t not in s.skip: s.imprecise.append((t, i.where))
                m1 = dict(m0); s.havoc(av, m1); mo = memjoin(mo, m1)
                returned = True; r = TOP; continue
            v, mm = s.call(g, av, m0, stack)
            if mm is None: continue
            if t in s.watch: s.event('ret', t, [v], i, stack, dict(mm))
            returned = True; r = join(r, v); mo = memjoin(mo, mm)
        if not returned: return NotImplemented
        m.clear(); m.update(mo)
        return r

    def vastart(s, f, av, args, m, stack):
        """x86-64 va_list over the abstract variadic arguments: the register area is marked used up"""
        if av[0] is TOP or len(av[0]) != 1: return False
        a = next(iter(av[0]))
        if not (isinstance(a, tuple) and a[0] == 'p' and a[2] is not None): return False
        n = len(f.d['at']); ob = 'al:va:%s:%d' % (f.name, len(stack))
        for k, v in enumerate(args[n:]): m[(ob, 8 * k)] = v
        m[(a[1], a[2])] = C(48); m[(a[1], a[2] + 4)] = C(176); m[(a[1], a[2] + 8)] = C(('p', ob, 0)); m[(a[1], a[2] + 16)] = TOP
        return True

    def init_mem(s, roots, limit=300):
        """initial contents of the writable globals the code reachable from roots mentions (program start)"""
        p = s.p; seen = set(); st = [r for r in roots]; gs = set()
        def ops(o):
            if isinstance(o, list):
                if o and o[0] == 'g': gs.add(o[1])
                elif o and o[0] == 'fn': st.append(o[1])
                elif o and o[0] == 'cgep': ops(o[1])
        while st:
            n = st.pop()
            if n in seen or n in s.stubs or n in s.skip or n in s.sinks: continue
            seen.add(n); f = p.f.get(n)
            if f is None or f.decl: continue
            for i in f.insts():
                for o in i.a: ops(o[0] if i.op == 'phi' else o)
                if i.op == 'call': st.extend(s.p.targets(i) if not i.callee else [i.callee])
        mem = {}
        for g in sorted(gs):
            gg = p.g.get(g)
            if gg is None or gg.get('init') is None or s.readonly(g) or g in s.gl: continue
            s.zeroed.add('g:' + g)
            for k, (off, v) in enumerate(leaves(s, gg['init'], 0)):
                if k >= limit: s.zeroed.discard('g:' + g); break
                if v != C(0): mem[('g:' + g, off)] = v
        return mem

    def memintr(s, t, av, m):
        dst = av[0]
        if dst is TOP: return
        n = av[2]
        for a in dst:
            if isinstance(a, tuple) and a[0] == 'p':
                if t.startswith('llvm.memset') and av[1] is not TOP and all(isinstance(c, int) for c in av[1]) and n is not TOP and len(n) == 1 and a[2] is not None and len(dst) == 1 and next(iter(n)) <= 512:
                    # byte-wise: exact for byte loads, and for any load when the byte is 0 or -1
                    v = frozenset(wrap(c, 8) for c in av[1])
                    for k in range(a[2], a[2] + next(iter(n))): m[(a[1], k)] = v
                    continue
                if t.startswith(('llvm.memcpy', 'llvm.memmove')) and n is not TOP and len(n) == 1 and len(dst) == 1 and av[1] is not TOP and len(av[1]) == 1 and a[2] is not None:
                    src = next(iter(av[1]))
                    if isinstance(src, tuple) and src[0] == 'p' and src[2] is not None:
                        nn = next(iter(n)); old = [(o, off, v) for (o, off), v in m.items() if o == src[1] and off is not None and src[2] <= off < src[2] + nn]
                        for kk in [kk for kk in m if kk[0] == a[1] and kk[1] is not None and a[2] <= kk[1] < a[2] + nn]: del m[kk]
                        for o, off, v in old: m[(a[1], off - src[2] + a[2])] = v
                        if src[1] in s.zeroed and a[1] not in s.zeroed and nn <= 512:
                            for k in range(nn): m.setdefault((a[1], a[2] + k), C(0))
                        # from a read-only global: leaf values
                        if isinstance(src[1], str) and src[1].startswith('g:') and s.readonly(src[1][2:]):
                            init = s.p.g[src[1][2:]].get('init')
                            for off in range(0, nn, 4):
                                pass
                            for off, v in leaves(s, init, 0):
                                if src[2] <= off < src[2] + nn: m[(a[1], off - src[2] + a[2])] = v
                        continue
                for kk in [kk for kk in m if kk[0] == a[1]]: m[kk] = TOP

    def havoc(s, av, m):
        seen = set(); st = [v for v in av]
        while st:
            v = st.pop()
            if v is TOP: continue
            for a in v:
                if isinstance(a, tuple) and a[0] == 'p' and a[1] not in seen:
                    seen.add(a[1])
                    if a[1] in s.stable: continue
                    for kk in list(m):
                        if kk[0] == a[1]:
                            st.append(m[kk]); m[kk] = TOP

def leaves(s, init, off):
    if init is None: return
    k = init[0]
    if k == 'arr':
        for n, x in enumerate(init[2]): yield from leaves(s, x, off + n * init[1])
    elif k == 'st':
        for o, x in init[2]: yield from leaves(s, x, off + o)
    elif k == 'zero':
        for n in range(0, min(init[1], 256), 1): yield off + n, C(0)
    elif k == 'str':
        b = bytes.fromhex(init[1])
        if len(b) <= 256:
            for n, x in enumerate(b): yield off + n, C(wrap(x, 8))
    else: yield off, s.const(init)

def _through(f, b):
    """CFG edges lying on executions of f that pass through block b"""
    to = {b}; st = [b]
    while st:
        x = st.pop()
        for y in f.pred[x]:
            if y not in to: to.add(y); st.append(y)
    fr = {b}; st = [b]
    while st:
        x = st.pop()
        for y in f.succ[x]:
            if y not in fr: fr.add(y); st.append(y)
    return {(x, y) for x in range(len(f.blocks)) for y in f.succ[x] if y in to or x in fr}

def e_len(e): return 0

def memjoin(a, b):
    if a is None: return dict(b)
    if b is None: return dict(a)
    r = {}
    for k in set(a) | set(b):
        if k in a and k in b: r[k] = join(a[k], b[k])
        else: r[k] = TOP if k not in a or k not in b else None
    # a location written on one side only is unknown on the other: for locals "unwritten" is indeterminate (bottom)
    for k in set(a) ^ set(b):
        if k[0].startswith('al:'): r[k] = a[k] if k in a else b[k]
        else: r[k] = TOP
    return r

def refjoin(a, b):
    r = {}
    for k in a:
        if k in b:
            v = join(a[k], b[k])
            if v is not TOP: r[k] = v
    return r

_rpo = {}
def rpo_of(f):
    r = _rpo.get(id(f))
    if r is None:
        seen = set(); order = []
        st = [(0, iter(f.succ[0]))]; seen.add(0)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen: seen.add(y); st.append((y, iter(f.succ[y]))); break
            else: order.append(x); st.pop()
        order.reverse()
        r = {b: n for n, b in enumerate(order)}
        for b in range(len(f.blocks)): r.setdefault(b, len(r))
        _rpo[id(f)] = r
    return r
