"""Abstract-interpretation harness for the compiler driver (ucc): the fork/wait/exec boundary is modelled, the rest
of main() is interpreted over the source with unknown command line."""
from absint import Interp, C, TOP
from prog import AnalysisBroken
import prog

WAITS = ('wait', 'waitpid', 'wait4', 'wait3', 'waitid')
SPAWN = ('fork', 'vfork')
EXECS = ('execv', 'execvp', 'execve', 'execl', 'execlp', 'execle', 'execvpe', 'fexecve')

def wait_model(status):
    """stub: stores the abstract wait status"""
    def st(argi, opti):
        def f(I, a, i, m, stack):
            I.event('call', i.callee, a, i, stack, dict(m))
            if opti is not None and a[opti] != C(0):
                return TOP                     # WNOHANG & co: status may not be collected
            if a[argi] is not TOP:
                for x in a[argi]:
                    if isinstance(x, tuple) and x[0] == 'p': m[(x[1], x[2])] = status
            m[('ghost', 0)] = C(1)
            return C(1234)
        return f
    return {'wait': st(0, None), 'waitpid': st(1, 2), 'wait3': st(0, 1), 'wait4': st(1, 2)}

def run(entry, args, mem, fork, status=None, wait_fails=False, exec_returns=True, watch=(), stubs=None, sinks=(), globals_=None, **kw):
    p = prog.load('ucc')
    st = {}
    for n in SPAWN:
        def f(I, a, i, m, stack):
            I.event('call', 'fork', a, i, stack, dict(m)); return fork
        st[n] = f
    if wait_fails:
        for w in ('wait', 'waitpid', 'wait3', 'wait4'): st[w] = lambda I, a, i, m, k: C(-1)
    elif status is not None: st.update(wait_model(status))
    def ex(I, a, i, m, stack):
        I.event('call', 'exec', a, i, stack, dict(m)); return C(-1)
    for e in EXECS: st[e] = ex
    # printing and bookkeeping have no effect on control flow
    for n in ('fprintf', 'printf', 'fputc', 'fputs', 'puts', 'vfprintf', 'free', 'fflush', 'perror', 'umask', 'time', 'gettimeofday'):
        st.setdefault(n, lambda I, a, i, m, k: TOP)
    def ex2(I, a, i, m, stack):
        I.event('call', 'exit', [a[0], m.get(('ghost', 0), C(0))], i, stack, None); return NotImplemented
    for n in ('exit', '_exit', '_Exit'): st[n] = ex2
    if stubs: st.update(stubs)
    g = {}
    if globals_: g.update(globals_)
    m = {('ghost', 0): C(0)}; m.update(mem or {})
    I = Interp(p, sinks=set(sinks), stubs=st, watch=watch, globals_=g, budget=kw.pop('budget', 3000000), **kw)
    r, mo = I.run(entry, args, m)
    return I, r, mo
