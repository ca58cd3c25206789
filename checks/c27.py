"""C27: the include stack. The preprocessor's line loop is interpreted on include graphs; depth, array bounds, file closing and
the failure of endless inclusion are read off the one path taken."""
import itertools
from absint import C, TOP
from cpprun import CppRun
from chk import Check, AnalysisBroken, pmap
RUN = None
def graphs():
    """(rule, what, files, accepted?)"""
    def chain(n, last=()): 
        f = {'m.c': ['a', '#include "c1.h"', 'b']}
        for k in range(1, n + 1): f['c%d.h' % k] = ['t%d' % k] + (['#include "c%d.h"' % (k + 1)] if k < n else list(last)) + ['u%d' % k]
        return f
    R = 'endless inclusion is stopped with an error'
    for pre in ([], ['x'], ['#define A'], ['#ifdef YES']):
        for post in ([], ['y']):
            yield R, 'a header including itself (%s, %s)' % (pre, post), {'m.c': ['#include "r.h"'], 'r.h': pre + ['#include "r.h"'] + post + (['#endif'] if pre == ['#ifdef YES'] else [])}, False
    yield R, 'the main file including itself', {'m.c': ['a', '#include "m.c"', 'b']}, False
    yield R, 'a system header including itself', {'m.c': ['#include <sysr.h>'], 'sysr.h': ['a', '#include <sysr.h>']}, False
    yield R, 'a system header and another in a ring', {'m.c': ['#include <sysr.h>'], 'sysr.h': ['a', '#include "p.h"'], 'p.h': ['#include <sysr.h>']}, False
    yield R, 'two headers including each other', {'m.c': ['#include "p.h"'], 'p.h': ['#include "q.h"'], 'q.h': ['a', '#include "p.h"']}, False
    yield R, 'three headers in a ring', {'m.c': ['#include "p.h"'], 'p.h': ['#include "q.h"'], 'q.h': ['a', '#include <s.h>'], 's.h': ['#include "p.h"', 'c']}, False
    yield R, 'a header including itself twice', {'m.c': ['#include "p.h"'], 'p.h': ['#include "p.h"', '#include "p.h"']}, False
    yield R, 'a header including itself after others', {'m.c': ['#include "i.h"', '#include "i.h"', '#include "p.h"'], 'p.h': ['#include "i.h"', '#include "p.h"'], 'i.h': ['i']}, False
    yield R, 'a header including itself while conditionals are open', {'m.c': ['#include "p.h"'], 'p.h': ['#if 1', '#include "p.h"', '#endif']}, False
    for n in (200, 400): yield R, 'a chain of %d headers ending in a ring' % n, dict(chain(70), **{'c70.h': ['#include "c1.h"']}), False
    R = 'nesting that ends is accepted, each file closed once'
    for n in (1, 2, 3, 7, 15, 30, 60): yield R, 'a chain of %d headers' % n, chain(n), True
    yield R, 'a header included many times', {'m.c': ['#include "i.h"'] * 80 + ['z'], 'i.h': ['i']}, True
    yield R, 'nested headers included many times', {'m.c': ['#include "j.h"'] * 40, 'j.h': ['#include "i.h"', '#include "i.h"'], 'i.h': ['i']}, True
    yield R, 'empty headers', {'m.c': ['#include "e.h"', '#include "e.h"'], 'e.h': []}, True
    yield R, 'a header whose last line has no newline', {'m.c': ['#include "o.h"', 'a'], 'o.h': [('x', 0)]}, True
    yield R, 'a header ending in an #include without newline', {'m.c': ['#include "o.h"', 'a'], 'o.h': [('#include "i.h"', 0)], 'i.h': ['i']}, True
    yield R, 'a guarded header including itself', {'m.c': ['#include "g.h"', '#include "g.h"'], 'g.h': ['#ifndef G', '#define G', '#include "g.h"', 'b', '#endif']}, True
    yield R, 'a full binary tree', dict({'m.c': ['#include "b0.h"']}, **{'b%d.h' % k: ['#include "b%d.h"' % (k + 1)] * 2 + ['x'] if k < 5 else ['leaf'] for k in range(6)}), True
    yield R, 'a deep chain twice', dict(chain(40), **{'m.c': ['#include "c1.h"', '#include "c1.h"']}), True
    yield R, 'no include', {'m.c': ['a']}, True
    yield R, 'a missing header', {'m.c': ['#include "i.h"', '#include "no.h"', 'a'], 'i.h': ['i']}, False
def one(job):
    rule, what, files, good = job
    RUN.ends = []
    try: res = RUN.run(files, maxopen=1000, budget=6000000, ends=RUN.ends)
    except AnalysisBroken as e: raise AnalysisBroken('%s: %s' % (what, e))
    push = 'preproc_push (preproc.c)'
    if not res: return rule, what, 'the preprocessor crashes', push
    if len(res) != 1: raise AnalysisBroken('C27: %d outcomes for %s: %s' % (len(res), what, RUN.forks[:2]))
    st, log = next(iter(res)); last = log[-1][-1]
    for m in RUN.ends:
        for (o, off) in m:
            if isinstance(o, str) and o.startswith('g:') and isinstance(off, int):
                sz = size(o[2:])
                if sz is not None and (off >= sz or off < 0): return rule, what, 'byte %d of %s is written, it has %d' % (off, o[2:], sz), last
    if any(e[0] == 'die' and e[1] == 'endless inclusion' for e in log): return rule, what, 'inclusion does not stop', push
    if any(e[0] == 'read-closed' for e in log): return rule, what, 'a closed file is read', last
    closed = [e[1] for e in log if e[0] == 'close']
    if any(c.endswith('twice') for c in closed) or len(set(closed)) != len(closed): return rule, what, 'a file is closed twice', next(e[-1] for e in log if e[0] == 'close' and (e[1].endswith('twice') or closed.count(e[1]) > 1))
    opened = [e for e in log if e[0] == 'include']
    if good:
        if st != 'return': return rule, what, 'is refused in %s' % last, last
        n = len([c for c in closed if '#' in c])
        if n != len(opened): return rule, what, '%d headers are opened, %d closed' % (len(opened), n), 'read_line (preproc.c)'
    elif not st.startswith('exit') or st == 'exit 0': return rule, what, 'ends with %s' % st, last
    return rule, what, None, None
def size(g):
    t = RUN.p.g[g]; return t.get('size') or t.get('sz')
def check():
    c = Check('C27'); global RUN
    RUN = CppRun()
    if not any(size(g) for g in RUN.p.g): raise AnalysisBroken('no sizes of globals')
    js = list(graphs())
    for rule, what, bad, at in pmap(one, js):
        c.rule(rule, rule); c.ob(rule, bad is None, at or '', '%s: %s' % (what, bad), key='%s/%s' % (rule, what), sample=what)
    c.need('endless inclusion is stopped with an error', 12); c.need('nesting that ends is accepted, each file closed once', 15)
    c.units = {'include graphs': len(js)}
    return c.finish('preprocess() was interpreted abstractly on each include graph, the opening of files modelled as always succeeding: it must end, with an error exactly for the endless graphs, write no global array out of its bounds, close each opened header once and read none after closing it.')
