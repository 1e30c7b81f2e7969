#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current source by static analysis.
exit 0 held, 1 violated (VIOLATION line), 2 the tree could not be analysed."""
import sys, os, json, time, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get('GDXSA_OUT', HERE)
sys.path.insert(0, os.path.join(HERE, 'gdxsa'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from pipeline import AnalysisError
import pipeline

class Cx:
    def __init__(s, prop, tier):
        s.prop, s.tier = prop, tier
        s.viol, s.counts, s.samples, s.notes, s.assume = [], {}, [], [], []
        s.rule = ''
        s._m = None
    def thorough(s): return s.tier == 'thorough'
    def module(s):
        if s._m is None:
            import ir
            dev = os.environ.get('GDXSA_DEV_JSON')
            if dev:
                with open(dev) as f: d = json.load(f)
            else: d = pipeline.load_library()
            s._m = ir.load(d, pipeline.REPO.rstrip('/') + '/')
            s.counts['functions_in_program'] = sum(1 for f in s._m.fns.values() if not f.decl)
        return s._m
    def flat(s):
        if getattr(s, '_fl', None) is None:
            import ir
            dev = os.environ.get('GDXSA_DEV_FLAT')
            if dev:
                with open(dev) as f: d = json.load(f)
            else: d = pipeline.load_flat()
            s._fl = ir.load(d, pipeline.REPO.rstrip('/') + '/')
            s.counts['functions_in_inlined_program'] = sum(1 for f in s._fl.fns.values() if not f.decl)
        return s._fl
    def variant(s, name):
        """further views of the program: 'strm' (one function per stream method), 'gates' (validators and table entry kept out of line)"""
        vs = s.__dict__.setdefault('_var', {})
        if name not in vs:
            import ir
            dev = os.environ.get('GDXSA_DEV_' + name.upper())
            if dev:
                with open(dev) as f: d = json.load(f)
            else: d = pipeline.load_flat(**{name: True})
            vs[name] = ir.load(d, pipeline.REPO.rstrip('/') + '/')
            s.counts['functions_in_%s_view' % name] = sum(1 for f in vs[name].fns.values() if not f.decl)
        return vs[name]
    def violation(s, key, where, fn, msg, detail=''):
        """key identifies the failing construct independently of line numbers"""
        if not any(v['key'] == key for v in s.viol):
            s.viol.append(dict(key=key, where=where, function=fn, message=msg, detail=detail))
    def count(s, k, n=1): s.counts[k] = s.counts.get(k, 0) + n
    def sample(s, x):
        if len(s.samples) < 12: s.samples.append(x)
    def need(s, cond, msg):
        if not cond: raise AnalysisError(msg)

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    t0 = time.time()
    cx = Cx(prop, tier)
    try:
        mod = importlib.import_module('checks.' + prop.lower())
        mod.run(cx)
    except AnalysisError as e:
        print('ERROR property=%s cannot analyse: %s' % (prop, e)); return 2
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s internal error' % prop); return 2
    with open(os.path.join(HERE, 'known_findings.json')) as f: kf = json.load(f)
    known = {x['key']: x for x in kf['findings'] if x['property'] == prop}
    new = [v for v in cx.viol if v['key'] not in known]
    for v in cx.viol:
        if v['key'] in known: print('KNOWN-FINDING: property=%s %s' % (prop, known[v['key']]['what']))
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=getattr(mod, 'LEVEL', 'other'),
              coverage=dict(explanation=mod.EXPLANATION, rule=cx.rule or mod.RULE, samples=cx.samples, **cx.counts),
              assumptions=cx.assume + getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=len(new))
    if cx.notes: ev['coverage']['notes'] = cx.notes
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    rp = os.path.join(OUT, 'replay', prop + '.txt')
    if os.path.exists(rp): os.remove(rp)
    if not new:
        print('OK property=%s %s' % (prop, ' '.join('%s=%s' % kv for kv in sorted(cx.counts.items()) if kv[1].__class__ is int)))
        return 0
    os.makedirs(os.path.dirname(rp), exist_ok=True)
    with open(rp, 'w') as f:
        for v in new:
            f.write('%s: in %s: %s\n   key: %s\n%s\n\n' % (v['where'], v['function'], v['message'], v['key'], v['detail']))
    for v in new[:20]: print('  %s: in %s: %s' % (v['where'], v['function'], v['message']))
    print('VIOLATION property=%s replay=%s' % (prop, rp))
    return 1

if __name__ == '__main__':
    sys.exit(main())
