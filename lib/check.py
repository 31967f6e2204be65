"""Check driver: check.py <property> [--thorough].  Exit 0 (held) or 1 (VIOLATION line printed); nothing else."""
import os, sys, json, time, traceback, resource
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import pipeline

KF = os.path.join(VERIF, 'known_findings.txt')
def known_findings(prop):
    out = []
    if os.path.exists(KF):
        for l in open(KF):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                r = l.split(' ', 2)[2]; key, _, what = r.partition(' :: '); out.append((key, what))
    return out

class Report:
    """what one run decided"""
    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.results = []           # unit results
        self.concrete = []          # (location, what): failing inputs found by running the real code
        self.cases = 0; self.concrete_rule = ''; self.samples = []
        self.trusted = []; self.assumptions = []; self.notes = []
        self.undecided = []         # parts not decided by proof
        self.extra = {}
    def unproved(self):
        """list of (unit result, obligation) the verifier refuted"""
        return [(r, o) for r in self.results for o in r['obls'] if o['status'] == 'refuted']
    def weak(self):
        out = ['%s: %s' % (r['unit'], r.get('why', r['status'])) for r in self.results if r['status'] in ('unsupported', 'vacuous')]
        out += ['%s: %s: solver undecided' % (r['unit'], o['name']) for r in self.results for o in r['obls'] if o['status'] == 'unknown']
        return out + self.undecided
    def need_concrete(self): return bool(self.unproved() or self.weak()) or self.tier == 'thorough'

def finish(rep, level='proof'):
    import fw
    prop = rep.prop
    ev = os.path.join(VERIF, 'evidence'); rd = os.path.join(ev, 'replay'); os.makedirs(rd, exist_ok=True)
    kf = known_findings(prop); hit = set()
    c = fw.summarize(rep.results)
    viol = []
    def is_known(key):
        for k, what in kf:
            if k == key: hit.add((k, what)); return True
        return False
    cl = {}
    for loc, what in rep.concrete: cl.setdefault(loc, []).append(what)
    failed_ob = {}
    for r, o in rep.unproved(): failed_ob.setdefault(r.get('replay') or r['unit'], []).append((r, o))
    n = 0
    def dump(key, kind, body):
        p = os.path.join(rd, '%s-%02d.json' % (prop, len(viol)))
        json.dump({'property': prop, 'where': key, 'kind': kind, **body}, open(p, 'w'), indent=1, default=str)
        return os.path.relpath(p, VERIF)
    def obs(key):
        return [{'unit': r['unit'], 'function': r['fn'], 'obligation': o['name'], 'at': o.get('loc'), 'verifier': (o.get('model') or '')[:4000]} for r, o in failed_ob.get(key, [])][:20]
    for key, whats in cl.items():
        new = [w for w in whats if not is_known('%s | %s' % (key, w)) and not is_known(key)]
        if not new: continue
        p = dump(key, 'failing input replayed on the real code', {'failing_inputs': new[:50], 'failed_obligations': obs(key)})
        viol.append('VIOLATION property=%s replay=%s' % (prop, p)); print('%s: %s' % (key, new[0][:300]))
    for key, l in failed_ob.items():
        if key in cl or is_known(key): continue
        if cl and rep.extra.get('any_replay_covers'): continue
        p = dump(key, 'obligation refuted by the verifier', {'failed_obligations': obs(key)})
        viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p)); print('%s: %s' % (l[0][0]['unit'], l[0][1]['name'][:300]))
    for l in viol[:40]: print(l)
    for k, what in sorted(hit): print('KNOWN-FINDING: property=%s %s %s' % (prop, k, what))
    weak = rep.weak()
    trusted = sorted(set(rep.trusted) | {t for r in rep.results for t in r.get('trusted', [])})
    fns = sorted({r['fn'] for r in rep.results if r.get('kind') != 'lemma' and r['fn']})
    cov = {'obligations': c['obligations'], 'discharged': c['proved'], 'checker_cmd': './check %s%s' % (prop, ' --thorough' if rep.tier == 'thorough' else ''),
           'trusted_base': trusted + BASE_TRUST,
           'functions_under_contract': len(fns), 'functions': [f.replace(pipeline.REPO + '/', '') for f in fns], 'units': c['units'], 'lemmas': sum(1 for r in rep.results if r.get('kind') == 'lemma'),
           'paths_explored': sum(r['paths'] for r in rep.results), 'discharged_by_backend': c['backends'], 'solver_s': c['solver_s'], 'refuted': c['refuted'], 'unknown': c['unknown'],
           'not_decided_by_proof': weak[:200], 'concrete_cases_bounded': rep.cases, 'concrete_rule': rep.concrete_rule,
           'functions_executed_inside_units': sorted({f for r in rep.results for f in r.get('visited', [])})[:2000]}
    cov.update({k: v for k, v in rep.extra.items() if k != 'any_replay_covers'})
    if level == 'exploration':
        cov['evaluations'] = rep.cases; cov['distinct_nontrivial'] = rep.cases; cov['rule'] = rep.concrete_rule; cov['samples'] = rep.samples[:5]
    e = {'property': prop, 'tier': rep.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level, 'coverage': cov,
         'assumptions': rep.assumptions, 'wall_s': round(time.time() - rep.t0, 2), 'violations': len(viol)}
    json.dump(e, open(os.path.join(ev, prop + '.json'), 'w'), indent=1)
    print('%s: %d units, %d obligations, %d discharged, %d refuted, %d unknown, %d units/parts not decided by proof, %d concrete cases, %.1f s' % (prop, c['units'], c['obligations'], c['proved'], c['refuted'], c['unknown'], len(weak), rep.cases, e['wall_s']))
    for x in weak[:10]: print('  not decided by proof: ' + x[:300])
    return 1 if viol else 0

BASE_TRUST = ['clang 18 front end (AST of the real sources), tool/cx.cpp (AST to JSON), lib/sym.py (symbolic semantics, verification-condition generator)', 'z3, cvc5', 'takatori interfaces as written in stubs/ (takatori is not installed here)', 'C++ standard library behaviour as modelled in lib/sym.py']

def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    sys.stdout.reconfigure(line_buffering=True)
    import props
    w = pipeline.Work(); rep = Report(prop, tier); level = 'proof'
    try:
        level = props.LEVEL.get(prop, 'proof')
        try: props.RUN[prop](rep, w)
        except pipeline.ToolError as e:
            rep.undecided.append('tool: %s' % e)
        except Exception as e:
            rep.undecided.append('internal: %r %s' % (e, traceback.format_exc(limit=-4).replace('\n', ' | ')))
        code = finish(rep, level)
    finally: w.close()
    sys.stdout.flush()
    os._exit(code)
if __name__ == '__main__': main()
