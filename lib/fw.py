"""Check framework: units of verification, discharge of obligations, evidence, verdict."""
import os, sys, json, time, traceback, multiprocessing, subprocess, hashlib
import z3
from sym import *
import sym
import pipeline, bv2int
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)

class Unit:
    """one function (or one case of it) under contract.
    thunk(interp) runs the code symbolically and records obligations; it is explored over all paths.
    allow: set of path outcomes other than 'ok' that the contract permits."""
    def __init__(self, name, fn, thunk, contracts=None, hooks=None, allow=(), setup=None, kind='function', replay=None, maxpaths=4000, bound=None, facts=None):
        self.name, self.fn, self.thunk, self.contracts, self.hooks = name, fn, thunk, contracts or {}, hooks or {}
        self.allow, self.setup, self.kind, self.replay, self.maxpaths, self.bound, self.facts = set(allow), setup, kind, replay, maxpaths, bound, facts

class Lemma:
    """a closed formula over contracts, to be proved valid"""
    def __init__(self, name, formula, hyps=(), fn=None, replay=None):
        self.name, self.formula, self.hyps, self.fn, self.replay = name, formula, list(hyps), fn, replay

def smt_check(hyps, goal, timeout=20000, brief=False):
    """prove hyps => goal; returns (status, backend, seconds, model)"""
    t = time.time()
    quick = min(timeout, 3000)
    if has_quant(goal) or any(has_quant(h) for h in hyps):
        try:
            hs, g = bv2int.translate(list(hyps) + list(LITFACTS), goal)
            s = z3.Solver(); s.set('timeout', quick)
            for h in hs: s.add(h)
            s.add(z3.Not(g))
            if s.check() == z3.unsat: return 'proved', 'z3 (integers)', time.time() - t, None
        except bv2int.No: pass
        if brief: return 'unknown', 'z3', time.time() - t, None
    s = z3.Solver(); s.set('timeout', quick)
    for h in hyps: s.add(h)
    for l in LITFACTS: s.add(l)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat: return 'proved', 'z3', time.time() - t, None
    if r == z3.sat:
        m = s.model()
        return 'refuted', 'z3', time.time() - t, model_text(m)
    # second back end
    r2 = cvc5_check(s.to_smt2(), timeout)
    if r2 == 'unsat': return 'proved', 'cvc5', time.time() - t, None
    if r2 == 'sat': return 'refuted', 'cvc5', time.time() - t, ''
    s.set('timeout', timeout); r = s.check()
    if r == z3.unsat: return 'proved', 'z3', time.time() - t, None
    if r == z3.sat: return 'refuted', 'z3', time.time() - t, model_text(s.model())
    return 'unknown', 'z3+cvc5', time.time() - t, s.reason_unknown()
def cvc5_check(text, timeout=20000):
    import tempfile
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + text); n = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % timeout, n], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout / 1000 + 10)
        o = r.stdout.decode().strip().split('\n')
        return o[0] if o else 'unknown'
    except subprocess.TimeoutExpired: return 'unknown'
    finally: os.unlink(n)
def model_text(m):
    out = []
    for d in m.decls()[:60]:
        try: out.append('%s = %s' % (d.name(), str(m[d]).replace('\n', ' ')[:200]))
        except Exception: pass
    return '\n'.join(out)

_P = None; _UNITS = None; _TIER = 'quick'
def _run_unit(i):
    u = _UNITS[i]
    res = {'unit': u.name, 'fn': u.fn, 'obls': [], 'status': 'ok', 'paths': 0, 'kind': getattr(u, 'kind', 'lemma')}
    t0 = time.time()
    del sym.LITFACTS[:]; sym._lits.clear()
    try:
        if isinstance(u, Lemma):
            st, be, dt, m = smt_check(u.hyps, u.formula)
            res['obls'].append({'name': u.name, 'status': st, 'backend': be, 's': dt, 'model': m})
            res['paths'] = 1; res['reach'] = True
            res['kind'] = 'lemma'
        else:
            it = Interp(_P, u.contracts, u.hooks)
            it.bound = u.bound
            if u.facts: it.assume_facts = list(u.facts)
            if u.setup: u.setup(it)
            paths = it.explore(u.thunk, u.maxpaths)
            res['paths'] = len(paths)
            res['bounded'] = any(p.bounded for p in paths)
            res['visited'] = sorted({_P.F[f]['qn'] for f in it.visited_funcs if f in _P.F})
            res['trusted'] = sorted(it.trusted_used)
            seen = {}
            reach = False
            for p in paths:
                if p.out == 'ok': reach = True
                if p.out in ('ok', 'pruned') or p.out in u.allow or (p.out == 'throw' and 'throw:' + str(p.ret[0]) in u.allow):
                    pass
                else:
                    r = p.ret
                    if p.out == 'throw': r = p.ret[0]
                    st, be, dt = 'refuted', 'z3', 0
                    if any(has_quant(c) for c in p.pc): st, be, dt, _ = smt_check(list(it.assume_facts) + p.pc, z3.BoolVal(False))
                    res['obls'].append({'name': 'no %s (%s)' % (p.out, r), 'status': st, 'backend': be, 's': dt, 'model': 'reachable path ends with %s: %s\npath condition: %s' % (p.out, r, z3.And([TRUE] + p.pc).sexpr()[:1500])})
                for nm, pc, f, loc in p.obls:
                    f = z3.simplify(f) if z3.is_expr(f) else z3.BoolVal(bool(f))
                    key = (nm, f.get_id(), tuple(c.get_id() for c in pc))
                    if key in seen: continue
                    seen[key] = 1
                    if z3.is_true(f):
                        res['obls'].append({'name': nm, 'status': 'proved', 'backend': 'simplifier', 's': 0}); continue
                    st, be, dt, m = smt_check(list(it.assume_facts) + pc, f)
                    o = {'name': nm, 'status': st, 'backend': be, 's': dt}
                    if st != 'proved':
                        o['model'] = 'obligation: %s\npath condition: %s\n%s' % (f.sexpr()[:1200], z3.And([TRUE] + pc).sexpr()[:1500], m or '')
                        o['loc'] = loc
                    res['obls'].append(o)
            if reach and any(has_quant(c) for p in paths for c in p.pc):
                # the assumptions must not contradict each other
                reach = any(smt_check(list(it.assume_facts) + p.pc, z3.BoolVal(False), 1500, True)[0] != 'proved' for p in paths if p.out == 'ok')
            res['reach'] = reach or u.allow and len(paths) > 0
            if not res['reach']: res['status'] = 'vacuous'
            if not res['obls']: res['status'] = 'vacuous'
    except Unsupported as e:
        res['status'] = 'unsupported'; res['why'] = str(e)
    except z3.Z3Exception as e:
        res['status'] = 'unsupported'; res['why'] = 'z3: %s' % e
    except RecursionError as e:
        res['status'] = 'unsupported'; res['why'] = 'recursion'
    except Exception as e:
        res['status'] = 'unsupported'; res['why'] = 'internal: %r %s' % (e, traceback.format_exc(limit=-3).replace('\n', ' | '))
    res['s'] = time.time() - t0
    return res

def run_units(P, units, jobs=None):
    rs = _run_units(P, units, jobs)
    # a proof that relies on invariants found for the present form of a loop: if it fails, unroll instead (bounded); a failure
    # there is a failure of the contract, otherwise the function is undecided
    again = [i for i, (u, r) in enumerate(zip(units, rs)) if getattr(u, 'soft', None) and (r['status'] != 'ok' or any(o['status'] != 'proved' for o in r['obls']))]
    if again:
        bs = _run_units(P, [units[i].soft for i in again], jobs)
        for i, b in zip(again, bs):
            bad = b['status'] == 'ok' and any(o['status'] == 'refuted' for o in b['obls'])
            if bad: rs[i] = b
            else:
                for o in rs[i]['obls']:
                    if o['status'] == 'refuted': o['status'] = 'unknown'; o['name'] += ' (not refuted when unrolled)'
                if rs[i]['status'] == 'ok' and b['status'] == 'ok': rs[i]['bounded'] = True
    return rs
def _run_units(P, units, jobs=None):
    global _P, _UNITS
    _P, _UNITS = P, units
    jobs = jobs or pipeline.JOBS
    if len(units) <= 2 or jobs == 1: return [_run_unit(i) for i in range(len(units))]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(jobs) as pool:
        return pool.map(_run_unit, range(len(units)), chunksize=max(1, min(8, len(units) // (jobs * 4) or 1)))

def summarize(results):
    c = {'units': len(results), 'obligations': 0, 'proved': 0, 'refuted': 0, 'unknown': 0, 'unsupported_units': 0, 'vacuous_units': 0, 'bounded_units': 0, 'solver_s': 0.0, 'backends': {}}
    for r in results:
        if r['status'] == 'unsupported': c['unsupported_units'] += 1
        if r['status'] == 'vacuous': c['vacuous_units'] += 1
        if r.get('bounded'): c['bounded_units'] += 1
        for o in r['obls']:
            c['obligations'] += 1; c[o['status']] = c.get(o['status'], 0) + 1; c['solver_s'] += o['s']
            if o['status'] == 'proved': c['backends'][o['backend']] = c['backends'].get(o['backend'], 0) + 1
    c['solver_s'] = round(c['solver_s'], 3)
    return c
