"""Harness for abstract interpretation of cc1's code generator: symbolic out_vals and types, value-preserving
helpers modelled as identities, emitted instructions decoded to text with operand identities."""
import re, itertools
from absint import Interp, C, TOP, join
from prog import AnalysisBroken

def P(name, off=0): return C(('p', name, off))

class CG:
    def __init__(s, p):
        s.p = p
        s.off = {n: p.field_off('out_val', n) for n in ('type', 't', 'bits')}
        s.vt = p.enum('out_val_store') if 'out_val_store' in p.enums else p.enum_of('V_REG')
        s.TO = p.enum_of('TO_REG')
    def val(s, mem, name, types=None, ty=None):
        if types: mem[(name, s.off['type'])] = frozenset(s.vt[t] for t in types)
        mem[(name, s.off['t'])] = ty if ty is not None else P('T' + name)
        return P(name)
    def objname(s, v):
        if v is TOP: return '?'
        r = sorted({a[1] if isinstance(a, tuple) and a[0] == 'p' else '?' for a in v})
        return '|'.join(r)
    def text(s, I, v, mem):
        """set of strings a char* value may denote"""
        if v is TOP: return {'?'}
        out = set()
        for a in v:
            if a == 0: out.add('(null)'); continue
            if isinstance(a, tuple) and a[0] == 't': out.add(a[1]); continue
            if isinstance(a, tuple) and a[0] == 'p':
                c = I.cstr(a)
                if c is not None: out.add(c); continue
                m = mem.get((a[1], a[2]))
                if m is not None and m is not TOP and m and all(isinstance(x, tuple) and x[0] == 't' for x in m):
                    out |= {x[1] for x in m}; continue
            out.add('?')
        return out
    def expand(s, I, fmtv, args, mem):
        """texts of a printf-like format with abstract arguments; <..> marks operand identities"""
        res = set()
        for fmt in s.text(I, fmtv, mem):
            parts = re.split(r'(%[-0-9.*#+ ]*(?:hh|ll|[hlzjtL])?[a-zA-Z%])', fmt)
            opts = []; k = 0
            for q in parts:
                if q.startswith('%') and len(q) > 1:
                    conv = q[-1]
                    if conv == '%': opts.append({'%'}); continue
                    k += q.count('*')
                    v = args[k] if k < len(args) else TOP; k += 1
                    if conv == 's': opts.append(s.text(I, v, mem))
                    elif conv == 'c': opts.append({'?'} if v is TOP else {chr(x & 255) if isinstance(x, int) else '?' for x in v})
                    elif conv in 'diu': opts.append({'#'} if v is TOP else {str(x) for x in v})
                    else: opts.append({'#'})
                else: opts.append({q})
            n = 1
            for o in opts: n *= max(1, len(o))
            if n > 4096: res.add('?'); continue
            for c in itertools.product(*opts): res.add(''.join(c))
        return res
    # ---------------- stubs
    def stubs(s, signed=None, floating=None, size=None, extra=None, idents=True):
        p = s.p
        st = {}
        def const(v):
            return lambda I, a, i, m, k: v
        def b(x): return C(0, 1) if x is None else C(1 if x else 0)
        if signed is not None: st['type_is_signed'] = const(b(signed))
        if floating is not None:
            st['type_is_floating'] = const(b(floating)); st['type_is_integral'] = const(b(not floating))
        if size is not None: st['type_size'] = const(C(size) if isinstance(size, int) else frozenset(size))
        def ident(k):
            def f(I, a, i, m, st): return a[k]
            return f
        if idents:
            for n in ('v_dup_or_reuse', 'v_mutable_copy', 'v_reg_apply_offset', 'out_val_retain', 'out_cast', 'out_change_type', 'v_new_reg', 'out_normalise'):
                st[n] = ident(1)
            OT = s.off['type']
            V = s.vt
            def to(allowed, default):
                def f(I, a, i, m, stack):
                    v = a[1]
                    al = allowed(a)
                    if v is TOP: return TOP
                    for x in v:
                        if isinstance(x, tuple) and x[0] == 'p' and x[2] is not None:
                            cur = m.get((x[1], x[2] + OT), TOP)
                            if al is None: m[(x[1], x[2] + OT)] = TOP; continue
                            if cur is TOP: m[(x[1], x[2] + OT)] = frozenset(al)
                            else:
                                keep = cur & al
                                new = keep | (frozenset(default) if cur - al else frozenset())
                                m[(x[1], x[2] + OT)] = frozenset(new)
                    return v
                return f
            def vto_allowed(a):
                w = a[2]
                if w is TOP or len(w) != 1: return None
                w = next(iter(w)); r = set()
                if w & s.TO['TO_REG']: r.add(V['V_REG'])
                if w & s.TO['TO_MEM']: r |= {V['V_SPILT'], V['V_LBL'], V['V_REGOFF']} & set(V.values())
                if w & s.TO['TO_CONST']: r |= {V['V_CONST_I']}
                return frozenset(r)
            st['v_to'] = to(vto_allowed, {V['V_REG']})
            for n in ('v_to_reg', 'v_to_reg_given', 'v_to_reg_given_freeup_no_off', 'v_to_reg_out'):
                st[n] = to(lambda a: frozenset({V['V_REG']}), {V['V_REG']})
            def val_str_r(I, a, i, m, stack):
                nm = s.objname(a[1]); txt = frozenset({('t', '<%s>' % nm)})
                if a[0] is not TOP:
                    for x in a[0]:
                        if isinstance(x, tuple) and x[0] == 'p': m[(x[1], x[2])] = txt
                return a[0]
            st['impl_val_str_r'] = val_str_r
            st['impl_val_str'] = lambda I, a, i, m, k: frozenset({('t', '<%s>' % s.objname(a[0]))})
            def newconst(name, kind, valarg):
                def f(I, a, i, m, stack):
                    I.event('call', name, a, i, stack, dict(m))
                    m[('K', OT)] = C(V[kind]); m[('K', s.off['t'])] = a[1] if len(a) > 1 else TOP
                    m[('K', s.off['bits'])] = a[valarg] if valarg is not None else C(0)
                    return P('K')
                return f
            st['out_new_l'] = newconst('out_new_l', 'V_CONST_I', 2)
            st['out_new_zero'] = newconst('out_new_zero', 'V_CONST_I', None)
        def ustrp(I, a, i, m, stack):
            return frozenset(('t', x) for x in s.expand(I, a[0], a[1:], m))
        st['ustrprintf'] = ustrp
        def snp(I, a, i, m, stack):
            txt = frozenset(('t', x) for x in s.expand(I, a[2], a[3:], m))
            if a[0] is not TOP:
                for x in a[0]:
                    if isinstance(x, tuple) and x[0] == 'p': m[(x[1], x[2])] = txt
            return TOP
        st['snprintf'] = snp; st['xsnprintf'] = snp
        st['ustrdup'] = ident(0)
        if extra: st.update(extra)
        return st
    def interp(s, stubs, sinks, files=('x86_64.c',), fields=None, skip=(), **kw):
        """functions outside `files` that are neither stubs nor sinks are not entered, except leaf helpers listed"""
        p = s.p
        outside = {f.name for f in p.defs() if not any(f.file.endswith(x) for x in files)}
        outside -= set(sinks) | set(stubs)
        enter = kw.pop('enter', ())
        outside -= set(enter)
        return Interp(p, sinks=sinks, stubs=stubs, fields=fields, skip=outside | set(skip), **kw)
    def insns(s, I, names=('out_asm', 'out_asm2')):
        """[(text, event)] of emitted instructions"""
        r = []
        for e in I.events:
            if e.kind != 'call' or e.name not in names: continue
            fi = 1 if e.name == 'out_asm' else 2
            for t in s.expand(I, e.args[fi], e.args[fi + 1:], e.mem): r.append((t, e))
        return r
