"""Check framework: obligations, known findings, evidence, verdict."""
import os, sys, json, time, traceback
import ir
from ir import AnalysisBroken, VERIF

class Check:
    def __init__(s, pid, level='other'):
        s.pid = pid; s.level = level; s.t0 = time.time()
        s.tier = os.environ.get('VERIF_TIER', 'quick')
        s.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        s.obl = 0; s.viol = []; s.rules = {}; s.notes = []; s.samples = []; s.assume = []; s.units = {}
        s.known = []
        kf = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kf):
            for e in json.load(open(kf)).get('findings', []):
                if e.get('property') == pid and e.get('status') == 'known': s.known.append(e)
    def rule(s, name, text):
        s.rules.setdefault(name, {'text': text, 'instances': 0})
        return name
    def ob(s, rule, ok, where, msg, key=None, sample=None):
        """one obligation; when not ok, `key` identifies the construct stably (no line numbers)"""
        s.obl += 1
        if rule not in s.rules: s.rules[rule] = {'text': rule, 'instances': 0}
        s.rules[rule]['instances'] += 1
        if sample is not None and len(s.samples) < 12: s.samples.append(sample)
        if not ok:
            s.viol.append({'rule': rule, 'where': str(where), 'message': msg, 'key': key or msg})
        return ok
    def need(s, rule, n):
        """floor on the number of instances of a rule: below it the analysis is broken, not passing"""
        got = s.rules.get(rule, {'instances': 0})['instances']
        if got < n and not s.viol:
            raise AnalysisBroken('%s: rule %s matched %d instances, expected at least %d' % (s.pid, rule, got, n))
    def finish(s, explanation, **extra):
        new = []; hit = []
        for v in s.viol:
            k = next((e for e in s.known if e['key'] == v['key']), None)
            if k is None: new.append(v)
            else: hit.append((k, v))
        cov = {'explanation': explanation, 'obligations': s.obl, 'discharged': s.obl - len(s.viol),
               'rules': s.rules, 'samples': s.samples[:12], 'analysed': s.units}
        cov.update(extra)
        ev = {'property': s.pid, 'tier': s.tier, 'seed': s.seed, 'level': s.level, 'coverage': cov,
              'assumptions': s.assume, 'wall_s': round(time.time() - s.t0, 2), 'violations': len(new)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', s.pid + '.json'), 'w'), indent=1)
        seen = set()
        for k, v in hit:
            if k['key'] in seen: continue
            seen.add(k['key'])
            print('KNOWN-FINDING: property=%s %s (%s)' % (s.pid, k['what'], v['where']))
        if new:
            rd = os.path.join(VERIF, 'build', 'replay'); os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, s.pid + '.txt')
            with open(path, 'w') as f:
                for v in new: f.write('%s: [%s] %s\n  rule: %s\n  key: %s\n' % (v['where'], v['rule'], v['message'], s.rules[v['rule']]['text'], v['key']))
            for v in new[:20]: print('%s: [%s] %s' % (v['where'], v['rule'], v['message']))
            print('VIOLATION property=%s replay=%s' % (s.pid, path))
            return 1
        print('%s: ok, %d obligations over %d rules, %.1fs' % (s.pid, s.obl, len(s.rules), time.time() - s.t0))
        return 0

def main(fn):
    try:
        rc = fn()
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN: %s' % e); rc = 2
    except Exception:
        traceback.print_exc(); print('ANALYSIS-BROKEN: internal error'); rc = 2
    sys.exit(rc)

_PF = None
def _pcall(x): return _PF(x)
def pmap(fn, items, jobs=8):
    """fn over items in forked workers (each inherits the loaded program); order kept, exceptions propagate"""
    import multiprocessing as mp, os
    global _PF
    items = list(items)
    if len(items) < 2 or os.environ.get('VERIF_JOBS') == '1': return [fn(x) for x in items]
    _PF = fn
    import gc
    gc.collect(); gc.freeze()
    with mp.get_context('fork').Pool(min(jobs, len(items))) as pool:
        return pool.map(_pcall, items, max(1, len(items) // (jobs * 64)))
