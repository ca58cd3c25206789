"""Every place a program prints an optional diagnostic: which message, under which warning flag."""

def resolve(p, f, o, depth=0, seen=None):
    """constants an operand may denote: ('g', name, offset), 0 for null, None when unknown"""
    seen = set() if seen is None else seen
    if isinstance(o, int) or o[0] == 'a':
        k = (f.name, repr(o))
        if k in seen: return set()
        seen.add(k)
    if depth > 14: return {None}
    if isinstance(o, list):
        if o[0] == 'g': return {('g', o[1], 0)}
        if o[0] in ('null', 'zero'): return {0}
        if o[0] == 'undef': return set()
        if o[0] == 'cgep':
            if o[2] is None: return {None}
            return {('g', x[1], x[2] + o[2]) if x else x for x in resolve(p, f, o[1], depth + 1, seen)}
        if o[0] == 'a':
            cs = p.callers().get(f.name, [])
            if not cs or f.name in p.addr_taken: return {None}
            r = set()
            for c in cs: r |= resolve(p, c.f, c.a[o[1]], depth + 1, seen) if o[1] < len(c.a) else {None}
            return r
        return {None}
    i = f.inst.get(o)
    if i is None: return {None}
    if i.op == 'phi':
        r = set()
        for x in i.a: r |= resolve(p, f, x[0], depth + 1, seen)
        return r
    if i.op == 'select': return resolve(p, f, i.a[1], depth + 1, seen) | resolve(p, f, i.a[2], depth + 1, seen)
    if i.op == 'getelementptr' and all(x[0] == 'f' for x in i.d['g']):
        off = sum(x[3] for x in i.d['g'])
        return {('g', x[1], x[2] + off) if x else x for x in resolve(p, f, i.a[0], depth + 1, seen)}
    if i.op == 'load': return {('load',)}
    return {None}

def message(p, x):
    if not x or x[0] != 'g': return None
    s = p.gstr(x[1])
    return s[x[2]:] if s is not None else None

def cc1_sites(p):
    """[(site, set of warning offsets or None, set of messages or None)]"""
    r = []
    for c in p.callers().get('cc1_warn_at_w', []):
        w = resolve(p, c.f, c.a[1]); m = resolve(p, c.f, c.a[2])
        offs = {x[2] for x in w if x and x[0] == 'g' and x[1] == 'cc1_warning'}
        ok = all(x == 0 or (x and x[0] == 'g' and x[1] == 'cc1_warning') for x in w)
        r.append((c, offs if ok else None, {message(p, x) for x in m}))
    return r

def cpp_sites(p):
    """[(call, global, mask or None, message)]: each warning print of the preprocessor with the flag test guarding it"""
    r = []
    for c in p.callers().get('warn_at', []):
        if c.f.file == 'warn.c': continue
        g = guard(p, c)
        r.append((c, g and g[0], g and g[1], {message(p, x) for x in resolve(p, c.f, c.a[1])}))
    return r
def guard(p, c, depth=0):
    f = c.f; g = None
    cb = next(k for k, bl in enumerate(f.blocks) if c in bl)
    for b, blk in enumerate(f.blocks):
        t = blk[-1]
        if t.op != 'br' or len(f.succ[b]) != 2: continue
        m = flagtest(f, t)
        if m is None: continue
        yes, no = f.succ[b][0], f.succ[b][1]
        if m[2]: yes, no = no, yes
        if yes in f.dom[cb] and len(f.pred[yes]) == 1:
            if g is None or g[2] in f.dom[b]: g = (m[0], m[1], b)
    if g is None and depth < 3:
        cs = p.callers().get(f.name, [])
        gs = {(guard(p, x, depth + 1) or (None, None))[:2] for x in cs}
        if len(gs) == 1 and next(iter(gs))[0]: return next(iter(gs)) + (0,)
    return g
def flagtest(f, t):
    """(global, mask, inverted) for a branch on (global & mask)"""
    i = f.op(t.a[0]) if t.a else None
    inv = False
    while i is not None:
        if i.op == 'icmp' and isinstance(i.a[1], list) and i.a[1][:2] in (['c', 0], ['c', '0']) and i.d['p'] in ('ne', 'eq'):
            if i.d['p'] == 'eq': inv = not inv
            i = f.op(i.a[0]); continue
        if i.op in ('zext', 'trunc'): i = f.op(i.a[0]); continue
        break
    if i is None or i.op != 'and': return None
    x, k = i.a
    if isinstance(x, list) and not isinstance(k, list): x, k = k, x
    ld = f.op(x)
    if ld is None or ld.op != 'load' or not isinstance(k, list) or k[0] != 'c' or not isinstance(ld.a[0], list) or ld.a[0][0] != 'g': return None
    return ld.a[0][1], int(k[1]), inv
