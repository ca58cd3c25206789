"""CFG/dataflow helpers shared by the checks."""

def refs_fn(p, name):
    """instructions/globals that mention function `name` (call or address)"""
    r = []
    def has(o):
        if not isinstance(o, list): return False
        if len(o) >= 2 and o[0] == 'fn' and o[1] == name: return True
        return any(has(x) for x in o if isinstance(x, list))
    for f in p.defs():
        for i in f.insts():
            ops = [x[0] for x in i.a] if i.op == 'phi' else i.a
            if i.callee == name or any(has(o) for o in ops): r.append(i)
    for n, g in p.g.items():
        if has(g.get('init')): r.append(n)
    return r

def edge_dominates(f, a, b, blk):
    """does taking CFG edge a->b dominate entry to blk? (b has a as only predecessor, or every path uses the edge)"""
    # remove the edge; blk unreachable from entry <=> the edge dominates it
    seen = {0}; st = [0]
    while st:
        x = st.pop()
        if x == blk: return False
        for y in f.succ[x]:
            if x == a and y == b: continue
            if y not in seen: seen.add(y); st.append(y)
    return True

def live_reach(p, f, start, avoid_edges=()):
    """(blocks reachable from block `start`, positions cut at no-return calls) -> set of (block, cutpos or None)"""
    nr = p.noret; cut = f.cut_noreturn(nr)
    seen = {start}; st = [start]
    while st:
        x = st.pop()
        if x in cut: continue
        for y in f.succ[x]:
            if (x, y) in avoid_edges: continue
            if y not in seen: seen.add(y); st.append(y)
    return seen, cut

def strip(f, o):
    """look through casts"""
    while isinstance(o, int):
        i = f.inst[o]
        if i.op in ('bitcast', 'zext', 'sext', 'trunc', 'freeze', 'ptrtoint', 'inttoptr'): o = i.a[0]
        else: break
    return o

def null_checks(f, v):
    """[(block, nonnull succ, null succ)] for branches testing value v against null; through i1 flags"""
    r = []
    for u in f.uses[v]:
        if u.op != 'icmp' or u.d['p'] not in ('eq', 'ne'): continue
        o = u.a[1] if u.a[0] == v else u.a[0]
        if not (isinstance(o, list) and (o[0] == 'null' or (o[0] == 'c' and o[1] == 0))): continue
        r += bool_branches(f, u.id, u.d['p'] == 'ne')
    return r

def bool_branches(f, v, sense):
    """branches decided by i1 (or widened) value v: (block, succ when v has truth `sense`, other succ)"""
    r = []
    for u in f.uses[v]:
        if u.op == 'br' and len(u.d['s']) == 2:
            t, e = u.d['s']
            r.append((u.b, t, e) if sense else (u.b, e, t))
        elif u.op == 'xor' and u.t == 'i1': r += bool_branches(f, u.id, not sense)
        elif u.op in ('zext', 'sext', 'freeze'): r += bool_branches(f, u.id, sense)
        elif u.op == 'icmp' and u.d['p'] in ('eq', 'ne'):
            o = u.a[1] if u.a[0] == v else u.a[0]
            if isinstance(o, list) and o[0] == 'c' and o[1] == 0: r += bool_branches(f, u.id, sense == (u.d['p'] == 'ne'))
    return r

def reachable_rets(p, f, inst, own=None):
    """operands that may be returned on paths from just after `inst` (phi edges respected): list of (ret inst, operand)"""
    cut = f.cut_noreturn(p.noret)
    if inst.b in cut and cut[inst.b] <= inst.pos: return []
    out = []; seen = set(); st = []
    def visit(b, frm, first):
        t = f.blocks[b][-1]
        if t.op == 'ret' and t.a:
            o = t.a[0]
            out.append((t, resolve(o, b, frm)))
    def resolve(o, b, frm):
        k = 0
        i = f.inst.get(o) if isinstance(o, int) else None
        if i is not None and i.op == 'phi' and i.b == b and frm is not None:
            for x, pb in i.a:
                if pb == frm: return x
        return o
    visit(inst.b, None, True)
    st = [(inst.b, y) for y in f.succ[inst.b]]
    while st:
        a, b = st.pop()
        if (a, b) in seen: continue
        seen.add((a, b))
        if b in cut:
            continue
        visit(b, a, False)
        for y in f.succ[b]: st.append((b, y))
    return out

def const_of(o):
    return o[1] if isinstance(o, list) and o[0] == 'c' else None
