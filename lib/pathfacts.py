"""Path-sensitive reachability: which returns can be reached after an event without passing a discharging instruction.
Branch outcomes on values, on unmodified memory and on phi inputs are remembered along the path."""
from ir import AnalysisBroken

CAST = ('zext', 'sext', 'trunc', 'bitcast', 'freeze')

class Mod:
    """which struct slots a call may store to"""
    def __init__(s, p): s.p = p; s.own = {}; s.memo = {}
    def _own(s, f):
        if f.name not in s.own:
            r = set()
            for i in f.insts():
                if i.op == 'store': r.add(s.p.slot_of(f, i.a[1]))
                elif i.op == 'call' and i.callee and i.callee.startswith('llvm.mem'): r.add(None)
            s.own[f.name] = r
        return s.own[f.name]
    def call(s, i):
        k = frozenset(s.p.targets(i))
        if k not in s.memo:
            r = set()
            for n in s.p.reach(k):
                f = s.p.f.get(n)
                if f and not f.decl: r |= s._own(f)
            s.memo[k] = r
        return s.memo[k]

def konst(o):
    if isinstance(o, list):
        if o[0] == 'c': return ('=', o[1])
        if o[0] in ('null', 'zero'): return ('=', 0)
        if o[0] in ('g', 'fn', 'cgep'): return ('!', 0)
    return None

class Paths:
    def __init__(s, p, mod, discharge, budget=60000):
        s.p = p; s.mod = mod; s.discharge = discharge; s.budget = budget
    # -- memory keys
    def key(s, f, o, al, d=0):
        if d > 12: return None
        if isinstance(o, list):
            if o[0] == 'a': return ('a', o[1])
            if o[0] == 'g': return ('g', o[1])
            if o[0] == 'cgep' and o[2] is not None:
                b = s.key(f, o[1], al, d + 1)
                return b and (b, o[2], s.p.slot_of(f, o))
            return None
        i = f.inst.get(o)
        if i is None: return None
        if i.op == 'getelementptr':
            if not all(x[0] == 'f' for x in i.d['g']): return ('v', o)
            b = s.key(f, i.a[0], al, d + 1)
            return b and (b, sum(x[3] for x in i.d['g']), s.p.slot_of(f, o))
        if i.op == 'load' and o in al: return ('*', al[o])
        if i.op in ('bitcast', 'freeze'): return s.key(f, i.a[0], al, d + 1)
        return ('v', o)
    def get(s, f, o, v):
        k = konst(o)
        if k: return k
        if isinstance(o, list): return v.get(('a', o[1])) if o[0] == 'a' else None
        if o in v: return v[o]
        i = f.inst.get(o)
        if i is None: return None
        if i.op in ('zext', 'bitcast', 'freeze'): return s.get(f, i.a[0], v)
        if i.op in ('sext', 'trunc'):
            x = s.get(f, i.a[0], v)
            return x if x == ('=', 0) or (i.op == 'sext' and x) else None
        if i.op == 'xor':
            x = s.get(f, i.a[0], v); y = s.get(f, i.a[1], v)
            if x and y and x[0] == y[0] == '=': return ('=', x[1] ^ y[1])
            return None
        if i.op == 'icmp':
            x = s.get(f, i.a[0], v); y = s.get(f, i.a[1], v); pr = i.d['p']
            if x and y:
                if x[0] == '=' and y[0] == '=':
                    if pr == 'eq': return ('=', int(x[1] == y[1]))
                    if pr == 'ne': return ('=', int(x[1] != y[1]))
                if pr in ('eq', 'ne') and {x[0], y[0]} == {'=', '!'} and x[1] == y[1]: return ('=', int(pr == 'ne'))
        if i.op == 'select':
            c = s.get(f, i.a[0], v)
            if c and c[0] == '=': return s.get(f, i.a[1] if c[1] else i.a[2], v)
        if i.op == 'getelementptr': return None
        return None
    def learn(s, f, o, fact, v, m, al):
        """assume operand o satisfies fact; False if contradictory"""
        old = s.get(f, o, v)
        if old:
            if old[0] == '=':
                if fact[0] == '=' and old[1] != fact[1]: return False
                if fact[0] == '!' and old[1] == fact[1]: return False
                return True
            if fact[0] == '=' and old[1] == fact[1]: return False
        if isinstance(o, list):
            if o[0] == 'a' : v[('a', o[1])] = fact
            return True
        v[o] = fact
        if o in al: m[al[o]] = fact
        i = f.inst.get(o)
        if i is None: return True
        i1 = i.t == 'i1'
        if i.op in ('zext', 'bitcast', 'freeze'): return s.learn(f, i.a[0], fact, v, m, al)
        if i.op == 'xor' and i1 and fact[0] == '=' and konst(i.a[1]) == ('=', 1): return s.learn(f, i.a[0], ('=', 1 - fact[1]), v, m, al)
        if i.op == 'xor' and i1 and fact[0] == '=' and konst(i.a[1]) == ('=', -1): return s.learn(f, i.a[0], ('=', int(not fact[1])), v, m, al)
        if i.op == 'icmp' and i.d['p'] in ('eq', 'ne'):
            t = fact == ('=', 1) or fact == ('=', -1) or fact == ('!', 0)
            eq = t == (i.d['p'] == 'eq')
            x, y = i.a
            if konst(x) and not konst(y): x, y = y, x
            k = s.get(f, y, v)
            if k and k[0] == '=': return s.learn(f, x, ('=' if eq else '!', k[1]), v, m, al)
        return True
    def run(s, f, event):
        """event(inst) -> None or a fact for the instruction's value ('?' = unknown). -> list of (ret, fact or None)"""
        ev = {i.id: event(i) for i in f.insts()}
        ev = {k: x for k, x in ev.items() if x is not None}
        if not ev: return []
        can = set(); st = [f.inst[k].b for k in ev]
        while st:
            b = st.pop()
            if b in can: continue
            can.add(b); st += f.pred[b]
        rel, lkeys = s.relevant(f, [f.inst[k] for k in ev])
        out = {}; seen = set(); work = [(0, {}, {}, {}, False)]; n = 0
        noret = s.p.noret
        while work:
            b, v, m, al, ph = work.pop()
            if not ph and b not in can: continue
            k = (b, frozenset(v.items()), frozenset(m.items()), frozenset(al.items()), ph)
            if k in seen: continue
            seen.add(k); n += 1
            if n > s.budget: raise AnalysisBroken('path budget exceeded in %s' % f.name)
            dead = False
            for i in f.blocks[b]:
                if i.op == 'phi': continue
                if i.id in v: del v[i.id]
                if i.id in al: del al[i.id]
                if i.op == 'load':
                    mk = s.key(f, i.a[0], al)
                    if mk is not None:
                        al[i.id] = mk
                        if mk in m: v[i.id] = m[mk]
                elif i.op == 'store':
                    sl = s.p.slot_of(f, i.a[1]); mk = s.key(f, i.a[1], al)
                    if s.discharge(i): dead = True; break
                    s.kill(f, {sl}, m, al, mk)
                    if mk is not None:
                        x = s.get(f, i.a[0], v)
                        if x: m[mk] = x
                        else: m.pop(mk, None)
                elif i.op == 'call':
                    if i.d.get('nr') or (i.callee and i.callee in noret): dead = True; break
                    if i.callee and i.callee.startswith('llvm.dbg'): continue
                    if not s.quiet(i): s.kill(f, s.mod.call(i), m, al, None, True)
                    if i.id in ev:
                        ph = True
                        if ev[i.id] != '?': v[i.id] = ev[i.id]
                    elif s.discharge(i): dead = True; break
                elif i.op == 'ret':
                    if ph:
                        x = s.get(f, i.a[0], v) if i.a else None
                        out[(i.id, x)] = (i, x)
                elif i.op == 'unreachable': dead = True
            if dead: continue
            t = f.blocks[b][-1]
            nxt = []
            if t.op == 'br' and len(t.d['s']) == 2 and t.d['s'][0] != t.d['s'][1]:
                for k, y in enumerate(t.d['s']):
                    v2, m2 = dict(v), dict(m)
                    if s.learn(f, t.a[0], ('=', 1 - k), v2, m2, al): nxt.append((y, v2, m2))
            elif t.op == 'switch':
                cs = t.d.get('cases'); 
                nxt = [(y, dict(v), dict(m)) for y in f.succ[b]]
            else: nxt = [(y, dict(v), dict(m)) for y in f.succ[b]]
            for y, v2, m2 in nxt:
                new = {}
                al2 = dict(al)
                for i in f.blocks[y]:
                    if i.op != 'phi': break
                    for x, pb in i.a:
                        if pb == b: new[i.id] = s.get(f, x, v2)
                for q, x in new.items():
                    if x: v2[q] = x
                    else: v2.pop(q, None)
                    # memory named through a redefined value
                    for mk in [z for z in m2 if mentions(z, q)]: del m2[mk]
                    for a_ in [z for z in al2 if mentions(al2[z], q)]: del al2[a_]
                live = s.live(f)[y]
                for o in [o for o in v2 if o not in rel or (isinstance(o, int) and o not in live)]: del v2[o]
                for o in [o for o in al2 if o not in rel or o not in live]: del al2[o]
                for mk in [mk for mk in m2 if s.memname(mk) not in lkeys and not any(z == mk for z in al2.values())]: del m2[mk]
                work.append((y, v2, m2, al2, ph))
        return list(out.values())
    def memname(s, k):
        """what a later load of the same memory must share with a key: last offset, or the named object"""
        return k[1] if len(k) == 3 else k
    def ptrname(s, f, o):
        g = f.inst.get(o) if isinstance(o, int) else None
        if g is not None and g.op == 'getelementptr' and all(x[0] == 'f' for x in g.d['g']): return sum(x[3] for x in g.d['g'])
        if isinstance(o, list): return o[2] if o[0] == 'cgep' else (o[0], o[1] if len(o) > 1 else None)
        return ('v', o)
    quiet = staticmethod(lambda i: False)   # calls known not to modify the objects the function looks at
    def relevant(s, f, events):
        """values (and memory) that decide a branch an undischarged path may take after the event"""
        seen = set(); st = []
        for e in events:
            st.append((e.b, e.pos + 1))
        blocks = set()
        while st:
            b, k = st.pop()
            if k == 0:
                if b in blocks: continue
                blocks.add(b)
            for i in f.blocks[b][k:]:
                if i.op in ('store', 'call') and s.discharge(i): break
                if i.op == 'call' and (i.d.get('nr') or (i.callee and i.callee in s.p.noret)): break
            else:
                if k: blocks.add(b)
                for y in f.succ[b]: st.append((y, 0))
        rel = set(); lk = set()
        def add(o):
            if isinstance(o, list):
                if o[0] == 'a': rel.add(('a', o[1]))
                return
            if o in rel: return
            rel.add(o); i = f.inst.get(o)
            if i is None: return
            if i.op == 'phi':
                for x in i.a: add(x[0])
            elif i.op == 'load':
                lk.add(s.ptrname(f, i.a[0]))
                if isinstance(i.a[0], int): add(i.a[0])
                # values other loads of the same memory were tested against
                n = s.ptrname(f, i.a[0])
                for j in f.insts():
                    if j.op == 'load' and j.id not in rel and s.ptrname(f, j.a[0]) == n: add(j.id)
            elif i.op in ('zext', 'sext', 'trunc', 'xor', 'icmp', 'select', 'getelementptr', 'bitcast', 'freeze'):
                for x in i.a: add(x)
        for b in blocks:
            t = f.blocks[b][-1]
            if t.op in ('br', 'switch') and len(f.succ[b]) > 1 or t.op == 'ret' and t.a: add(t.a[0])
        # a condition computed elsewhere from the same value correlates with it
        ch = True
        while ch:
            ch = False
            for i in f.insts():
                if i.id not in rel and i.op in ('icmp', 'zext', 'xor') and any(isinstance(x, int) and x in rel or isinstance(x, list) and x[0] == 'a' and ('a', x[1]) in rel for x in i.a):
                    rel.add(i.id); ch = True
        return rel, lk
    def live(s, f):
        """per block: values used (transitively through pure operations) in blocks reachable from it"""
        if not hasattr(f, '_pf_live'):
            use = []
            def add(o, r):
                if isinstance(o, int) and o not in r:
                    r.add(o); i = f.inst.get(o)
                    if i is not None and i.op in ('zext', 'sext', 'trunc', 'xor', 'icmp', 'select', 'getelementptr', 'bitcast', 'freeze'):
                        for x in i.a: add(x, r)
            for bl in f.blocks:
                r = set()
                for i in bl:
                    for x in ([y[0] for y in i.a] if i.op == 'phi' else i.a): add(x, r)
                use.append(r)
            live = [set(u) for u in use]; ch = True
            while ch:
                ch = False
                for b in range(len(live) - 1, -1, -1):
                    for y in f.succ[b]:
                        if not live[y] <= live[b]: live[b] |= live[y]; ch = True
            f._pf_live = live
        return f._pf_live
    def kill(s, f, slots, m, al, mk, call=False):
        def hit(k):
            if mk is not None and k == mk: return True
            for part in parts(k):
                if part == mk: return True
            sl = s.keyslot(f, k)
            if None in slots and not (call and local(f, k)): return True
            return any(x in slots for x in sl)
        if not m and not al: return
        for k in [k for k in m if hit(k)]: del m[k]
        for o in [o for o in al if hit(al[o])]: del al[o]
    def keyslot(s, f, k):
        """slots (struct, offset) a memory key may live in: or the named global"""
        r = []
        while isinstance(k, tuple):
            if k[0] == '*': k = k[1]; continue
            if k[0] in ('a', 'v'): break
            if k[0] == 'g': r.append(('@g', k[1])); break
            r.append(k[2]); k = k[0]
        return r

def parts(k):
    while isinstance(k, tuple):
        yield k
        if k[0] == '*': k = k[1]
        elif isinstance(k[0], tuple): k = k[0]
        else: return
def mentions(k, q): return any(x == ('v', q) for x in parts(k))
def local(f, k):
    """memory rooted in a local whose address is never passed on"""
    for x in parts(k): last = x
    if last[0] != 'v': return False
    i = f.inst.get(last[1])
    return i is not None and i.op == 'alloca' and not any(u.op == 'call' for u in f.uses[i.id])
