"""C26: every allocation result is checked before use; failure exits."""
import prog, flow
from chk import Check

ALLOC = ('malloc', 'calloc', 'realloc', 'reallocarray', 'strdup', 'strndup', 'aligned_alloc', 'memalign', 'valloc')
OKUSE = ('free', 'fclose')

def check():
    ck = Check('C26')
    r1 = ck.rule('checked', 'every use of an allocation/open result is dominated by a non-null test of that result')
    r2 = ck.rule('failure-exits', 'from the failure edge of an allocation test inside a never-fails allocator, no return is reachable')
    for pn in ('cc1', 'cpp', 'ucc'):
        p = prog.load(pn)
        ck.units['functions:' + pn] = sum(1 for _ in p.defs())
        # no allocator is called through a pointer
        for a in ALLOC:
            for x in flow.refs_fn(p, a):
                if not isinstance(x, str) and x.callee == a: continue
                ck.ob(r1, False, getattr(x, 'where', x), '%s: address of %s taken; its results cannot be tracked' % (pn, a), 'addr/%s/%s' % (pn, a))
        # functions returning a fresh allocation unchecked are themselves allocators
        allocs = set(ALLOC); ch = True; may_null = {}
        work = [(f, i) for f in p.defs() for i in f.calls() if i.callee in ALLOC]
        seen = set()
        while work:
            f, i = work.pop()
            if (f.name, i.id) in seen: continue
            seen.add((f.name, i.id))
            mem = True
            prop = analyse(ck, p, f, i, r1, r2, mem, pn)
            if prop:
                for c in p.callers().get(f.name, []): work.append((c.f, c))
        # wrappers that must not return null
    ck.need(r1, 12)
    return ck.finish('Each call to a libc allocation or open function (and to functions that hand such a result on untested) was found in the resolved call graph of the three programs; every use of each result (through phis and stores to locals) must be dominated by the non-null edge of a null test on it.')

def vals(f, v):
    """v and the phis/selects/casts it flows into"""
    out = {v}; st = [v]
    while st:
        x = st.pop()
        for u in f.uses[x]:
            if u.op in ('phi', 'bitcast', 'freeze') and u.id not in out: out.add(u.id); st.append(u.id)
            elif u.op == 'select' and x in u.a[1:] and u.id not in out: out.add(u.id); st.append(u.id)
    return out

def analyse(ck, p, f, i, r1, r2, mem, pn):
    vs = vals(f, i.id)
    edges = []
    for v in vs:
        for b, nn, nl in flow.null_checks(f, v): edges.append((b, nn, nl))
    cut = f.cut_noreturn(p.noret)
    ok = True; bad = None; returned = False; store = None
    # flow-sensitive: blocks reachable from the call without taking a non-null edge
    taint = reach_unchecked(f, i, [(b, nn) for b, nn, nl in edges], cut)
    for v in vs:
        for u in f.uses[v]:
            if u.op in ('icmp', 'phi', 'select', 'bitcast', 'freeze'): continue
            if u.op == 'call' and u.callee in OKUSE: continue
            if (u.b, u.pos) in taint or any(tb == u.b and tp is None or (tb == u.b and tp is not None and u.pos >= tp) for tb, tp in taint):
                if u.b in cut and cut[u.b] < u.pos: continue
                if u.b in cut and cut[u.b] == u.pos: continue   # message of the fatal error
                if u.op == 'ret':
                    returned = True; continue
                if u.op == 'call' and u.callee == 'fprintf' and u.a[0] != v: continue
                bad = u
    ck.ob(r1, bad is None, (bad or i).where, '%s: %s() uses the result of %s() at %s without a null test on every path' % (pn, f.name, i.callee, i.where),
          'unchecked/%s/%s/%s' % (pn, f.name, i.callee), '%s %s(): %s at %s tested' % (pn, f.name, i.callee, i.where))
    if mem and not returned:
        # failure edge is fatal
        for b, nn, nl in edges:
            if b not in {x for x, _ in taint} and b != i.b: continue
            reach, c = flow.live_reach(p, f, nl)
            exits = [x for x in reach if x not in c and any(q.op == 'ret' for q in f.blocks[x])]
            ck.ob(r2, not exits, f.blocks[b][-1].where, '%s: %s() continues after %s() failed' % (pn, f.name, i.callee), 'nonfatal/%s/%s/%s' % (pn, f.name, i.callee))
    return returned

def reach_unchecked(f, i, okedges, cut):
    """{(block, first tainted pos)} reachable from just after i without crossing a non-null edge"""
    out = {(i.b, i.pos + 1)}; seen = set(); st = [i.b]
    oks = set(okedges)
    if i.b in cut and cut[i.b] > i.pos: return out
    while st:
        x = st.pop()
        for y in f.succ[x]:
            if (x, y) in oks: continue
            if y in seen: continue
            seen.add(y); out.add((y, None))
            if y in cut: continue
            if y == i.b: continue
            st.append(y)
    return out
