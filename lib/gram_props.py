"""P05, P06, P08 and parts of P04/P12: the semantic actions of the grammar against contracts/productions.txt."""
import os, re
from gram import *
import gram
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
CONTRACTS = os.path.join(VERIF, 'contracts', 'productions.txt')

class Case: pass
def read_contracts(path=CONTRACTS):
    """{production text: [Case]}, plus header sets"""
    out = {}; nonnull = set(); values = {}; cur = None; case = None
    for l in open(path):
        l = l.rstrip('\n')
        if not l.strip() or l.startswith('#'): continue
        if l.startswith('%nonnull '): nonnull |= set(l.split()[1:]); continue
        if l.startswith('%values '): x = l.split(); values[x[1]] = x[2:]; continue
        if not l.startswith(' '): cur = out.setdefault(l, []); continue
        k, _, v = l.strip().partition(' ')
        if k in ('always', 'when'):
            case = Case(); case.guards = frozenset(v.split(' & ')) if k == 'when' else frozenset()
            case.events = []; case.exit = 'end'; case.tree = case.plain = 'nothing'; cur.append(case)
        elif k == 'gives': case.tree = v
        elif k == 'plain': case.plain = v
        elif k == 'calls': case.events.append(v)
        elif k == 'exit': case.exit = v
        else: raise ValueError(l)
    return out, nonnull, values
def write_contracts(recs, nonnull, values, path=CONTRACTS, header=''):
    with open(path, 'w') as f:
        f.write(header)
        f.write('%nonnull ' + ' '.join(sorted(nonnull)) + '\n')
        for k, v in sorted(values.items()): f.write('%%values %s %s\n' % (k, ' '.join(v)))
        for txt, cases in recs:
            f.write('\n%s\n' % txt)
            for c in cases:
                f.write('  %s\n' % ('when ' + ' & '.join(sorted(c.guards)) if c.guards else 'always'))
                if c.exit != 'end': f.write('    exit %s\n' % c.exit)
                else:
                    f.write('    gives %s\n' % c.tree)
                for e in c.events: f.write('    calls %s\n' % e)

REGPAT = None
def strip_regions(s):
    """removes the ' @ region' suffixes of a canonical tree text"""
    out = []; i = 0; q = None
    while i < len(s):
        if q is None and s.startswith(' @ ', i):
            i += 3
            if s.startswith('@$', i): i += 2; continue
            d = 0
            while i < len(s):
                c = s[i]
                if c in '(<[{': d += 1
                elif c in ')>]}':
                    if d == 0: break
                    d -= 1
                    if d == 0 and c == '>': i += 1; break
                elif d == 0 and c in ', ': break
                i += 1
            continue
        c = s[i]
        if c == "'": q = None if q else c
        out.append(c); i += 1
    return ''.join(out)

def conflict(a, b):
    """two guard sets that cannot hold together (propositionally, or by different enumerators)"""
    for x in a:
        n = x[1:] if x.startswith('!') else '!' + x
        if n in b: return True
        m = re.match(r'(.*) == (\w+)$', x)
        if m and not x.startswith('!'):
            for y in b:
                m2 = re.match(r'(.*) == (\w+)$', y)
                if m2 and not y.startswith('!') and m2.group(1) == m.group(1) and m2.group(2) != m.group(2): return True
    return False
def atoms(gs): return {x.lstrip('!') for x in gs}

class Prod:
    def __init__(self, cx, rule): self.cx, self.r, self.text = cx, rule, cx.G.text(rule)
    def act(self): return Act(self.cx, self.r)
    def run(self, it, a):
        v = a.run(it); st = it.path.st; S = Show(it, self.r)
        c = Case(); c.exit = st['exit'].replace('yyabortlab', 'abort').replace('yyerrorlab', 'error')
        c.value = v
        c.tree = 'nothing' if v is None or c.exit != 'end' else S.val(v)
        c.guards = frozenset(S.guards(it.path.guards)); c.events = list(st['events'])
        return c
def bare(e):
    """a driver call without its position argument"""
    m = re.match(r'(validate|error)\((.*)\)$', e)
    if not m: return e
    parts = split_args(m.group(2))
    return '%s(%s)' % (m.group(1), ', '.join(p for p in parts if not p.startswith('@')))
def split_args(s):
    out = []; d = 0; cur = ''
    for c in s:
        if c in '([{<': d += 1
        if c in ')]}>' : d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    return out + [cur.strip()]

def compare(it, got, cases, proj, name, relevant=lambda c: True):
    """the contract cases compatible with this path must all prescribe this outcome"""
    g = proj(got)
    comp = [c for c in cases if not conflict(c.guards, got.guards)]
    comp = [c for c in comp if relevant(c)]
    if not comp:
        if not relevant(got): return
        raise Unsupported('no case of the contract fits: %s' % ' & '.join(sorted(got.guards)))
    ok = [c for c in comp if proj(c) == g]
    detail = 'got %s; contract: %s' % (g, ' | '.join(str(proj(c)) for c in comp[:3]))
    if len(ok) == len(comp): it.obligation(name, TRUE); return
    if ok:
        known = set().union(*[atoms(c.guards) for c in cases]) if cases else set()
        if atoms(got.guards) - known: raise Unsupported('case structure differs from the contract: %s' % ' & '.join(sorted(got.guards)))
    it.obligation('%s [%s] %s' % (name, ' & '.join(sorted(got.guards)), detail), FALSE)

def setup(cx):
    gold, nonnull, values = read_contracts()
    cx.nonnull = {n for n in nonnull if n in cx.G.nterm}
    for k, v in values.items():
        t = cx.lhs_type(k) if k in cx.G.nterm else None
        if not t: continue
        et = ty(t).args[0] if ty(t).args else t
        items = {n: x for n, x in cx.P.E[ty(et).base]['items']} if ty(et).base in cx.P.E else {}
        cx.values[k] = [items[n] for n in v if n in items]
    return gold
def loc(cx, r): return 'sql_parser.yy'
def prod_unit(cx, r, check, prop):
    p = Prod(cx, r)
    a = p.act()
    def th(it):
        c = p.run(it, a)
        check(it, p, a, c)
    return Unit(prop + ': ' + p.text, 'parse(): ' + p.text, th, a.contracts(), a.hooks(), kind='production', replay=p.text)

def novalidate(c): return not any(x.startswith('!validate#') for x in c.guards)
def nonnull_terms(it, v):
    if isinstance(v, Ptr): return [v.null]
    if isinstance(v, Vec):
        cells = list(v.items or []); t = v.term; d = it.path.st.get('app', {})
        while v.items is None and z3.is_app(t) and t.decl().name() == 'vappend':
            if t.get_id() not in d: raise Unsupported('list element')
            cells.append(d[t.get_id()][1]); t = t.arg(0)
        return [c.v.null for c in cells if isinstance(c.v, Ptr)]
    return []
def p05_units(cx, gold, rep):
    out = []
    for r in cx.G.rules[1:]:
        def check(it, p, a, c):
            cases = gold.get(p.text)
            lhs = p.r['lhs']
            if c.exit == 'end' and c.value is not None:
                if lhs in cx.nonnull:
                    for k, x in enumerate(nonnull_terms(it, c.value.v)): it.obligation('the value of %s is not null%s' % (lhs, ' (element %d)' % k if isinstance(c.value.v, Vec) else ''), z3.Not(x))
                if lhs in cx.values and isinstance(c.value.v, Rec):
                    f = it.get_field(c.value.v, 'value_').v
                    it.obligation('the value of %s is one of its kinds' % lhs, z3.Or([f == n for n in cx.values[lhs]]))
            if cases is None: raise Unsupported('production without contract')
            if not novalidate(c): it.obligation('a rejected list ends the parse', z3.BoolVal(c.exit != 'end')); return
            proj = lambda c: (c.exit, strip_regions(c.tree) if c.exit == 'end' else '', tuple(e for e in c.events if e.startswith(('success', 'set_option'))))
            compare(it, c, cases, proj, 'the production builds its node from its parts', novalidate)
        out.append(prod_unit(cx, r, check, 'P05'))
    return out
def p08_units(cx, gold, rep):
    """every production that makes a list longer validates its new length, with the kind of that list"""
    out = []
    lists = {}
    for txt, cases in gold.items():
        for c in cases:
            for e in c.events:
                if e.startswith('validate('): lists[txt.split(':')[0]] = split_args(e[9:-1])[2]
    for r in cx.G.rules[1:]:
        t = cx.lhs_type(r['lhs'])
        if not t or ty(t).name != 'std::vector': continue
        def check(it, p, a, c):
            lhs = p.r['lhs']
            st = it.path.st
            sz = None
            v = c.value.v if c.value is not None else None
            grows = lhs in p.r['rhs'] and p.r['rhs'][0] == lhs or (p.r['rhs'] and isinstance(v, Vec) and v.items is None and v.term is not None and z3.is_app(v.term) and v.term.decl().name() == 'vappend')
            vs = [e for e in c.events if e.startswith('validate(')]
            if grows:
                if lhs not in lists: raise Unsupported('list without contract')
                s = Show(it, p.r); full = 'size(%s)' % s.val(v) if isinstance(v, Vec) else '?'
                it.obligation('the longer list is validated once', z3.BoolVal(len(vs) == 1))
                if len(vs) == 1:
                    ar = split_args(vs[0][9:-1])
                    grown = isinstance(v, Vec) and (v.items is not None or z3.is_app(v.term) and v.term.decl().name() == 'vappend')
                    # a rejected list need not be stored; its length was computed before the branch, which the accepting path checks
                    if grown or c.exit != 'abort': it.obligation('with its length: %s' % ar[1], z3.BoolVal(True) if ar[1] == full else it.path.st['vsizes'][0] == it.vec_len(v) if isinstance(v, Vec) else FALSE)
                    it.obligation('as its kind: %s' % ar[2], z3.BoolVal(ar[2] == lists[lhs]))
                    rejected = not novalidate(c)
                    it.obligation('rejected exactly when validation fails', z3.BoolVal((c.exit == 'abort') == rejected))
                    if not rejected and c.exit == 'end':
                        it.obligation('accepted only when validation succeeds', z3.BoolVal('validate#1' in c.guards))
            else:
                it.obligation('a list of %s elements is not validated' % (len(v.items) if isinstance(v, Vec) and v.items is not None else 'the same'), z3.BoolVal(not vs and c.exit == 'end'))
                if isinstance(v, Vec) and v.items is not None: it.obligation('a new list has at most one element', z3.BoolVal(len(v.items) <= 1))
        out.append(prod_unit(cx, r, check, 'P08'))
    return out
def p06_units(cx, gold, rep):
    out = []
    for r in cx.G.rules[1:]:
        if not cx.lhs_type(r['lhs']): continue
        def check(it, p, a, c):
            if c.exit != 'end' or c.value is None: it.obligation('no value', TRUE); return
            W = RegionWalk(it, p.r); W.walk(c.value, None, '$$')
            if not W.n: it.obligation('no new position', TRUE)
            cases = gold.get(p.text)
            if cases is None: raise Unsupported('production without contract')
            same = [k for k in cases if k.exit == 'end' and strip_regions(k.tree) == strip_regions(c.tree) and not conflict(k.guards, c.guards)]
            if same: compare(it, c, same, lambda k: k.tree, 'each position is that of its construct')
            elif W.n: raise Unsupported('tree without contract')
        out.append(prod_unit(cx, r, check, 'P06'))
    return out
class RegionWalk:
    def __init__(self, it, rule):
        self.it, self.r, self.n = it, rule, 0; self.S = Show(it, rule)
        L = it.path.st['locs']; k = len(rule['rhs'])
        self.lo, self.hi = (rb(L[1]), re_(L[k])) if k else (rb(L[0]), re_(L[0])); self.L = L
    def inside(self, b, e, parent, what):
        it = self.it; lo, hi = parent or (self.lo, self.hi)
        it.obligation('%s is inside %s' % (what, 'its parent' if parent else 'the construct'), z3.And(z3.ULE(lo, b), z3.ULE(e, hi)))
    def known(self, b, e):
        """positions taken from $k lie within @k, or are unknown (contract of $k)"""
        for t in (b, e):
            for k in set(int(x) for x in re.findall(r'\$(\d+)', self.S.term(z3.simplify(t)))):
                r = self.L[k]
                self.it.assume(z3.Or(z3.And(b == NPOS, e == NPOS), z3.And(z3.ULE(rb(r), b), z3.ULE(b, e), z3.ULE(e, re_(r)))))
    def leaf(self, s, parent, what):
        if parent is None: return
        for k in sorted({int(x) for x in re.findall(r'\$(\d+)', s)}):
            r = self.L[k]; self.n += 1
            self.inside(rb(r), re_(r), parent, '%s (%s)' % (what, s[:80]))
    def walk(self, v, parent, what, t=None, depth=0):
        it = self.it
        if isinstance(v, Cell): t = v.t or t; v = v.v
        if depth > 30: raise Unsupported('depth')
        if isinstance(v, Ptr):
            k = is_const_bool(v.null)
            if k is True or v.cell is None: return
            x = v.cell.v
            if isinstance(x, Rec) and x.term is not None and not x.dirty: self.leaf(self.S.term(x.term), parent, what); return
            return self.walk(v.cell, parent, what, None, depth + 1)
        if isinstance(v, Opt):
            if is_const_bool(v.has) is False or v.cell is None: return
            return self.walk(v.cell, parent, what, None, depth + 1)
        if isinstance(v, Vec):
            if v.items is None: self.leaf(self.S.seqterm(v.term), parent, what); 
            for c in v.items or (): self.walk(c, parent, what, v.et, depth + 1)
            t = v.term; d = it.path.st.get('app', {})
            while v.items is None and z3.is_app(t) and t.decl().name() == 'vappend':
                if t.get_id() in d: self.walk(d[t.get_id()][1], parent, what, v.et, depth + 1)
                t = t.arg(0)
            return
        if isinstance(v, Tup):
            for c in v.cells: self.walk(c, parent, what, None, depth + 1)
            return
        if isinstance(v, Opq):
            for c in v.parts or (): self.walk(c, parent, what, None, depth + 1)
            return
        if isinstance(v, Rec):
            if v.term is not None and not v.dirty: self.leaf(self.S.term(v.term), parent, what); return
            if v.cls == REG: return
            fs = it.p.fields(v.cls); here = parent
            for n, ft, dc, nd in fs:
                if n == 'region_' and ty(ft).base == REG:
                    c = it.field(v, n, ft, dc) if v.term is not None else v.f.get(n)
                    b, e = it.get_field(c.v, 'begin').v, it.get_field(c.v, 'end').v
                    nm = v.cls.split('::')[-1]
                    self.known(b, e); self.n += 1
                    if v.cls.startswith(NS + 'common::regioned'):
                        f = v.f.get('value'); nm = what
                        u = z3.And(b == NPOS, e == NPOS)
                        lo, hi = parent or (self.lo, self.hi)
                        it.obligation('the position of %s is unknown or inside its parent' % what, z3.Or(u, z3.And(b != NPOS, z3.ULE(b, e), z3.ULE(lo, b), z3.ULE(e, hi))))
                        here = None
                    else:
                        it.obligation('%s has a position' % nm, z3.And(b != NPOS, e != NPOS, z3.ULE(b, e)))
                        self.inside(b, e, parent, nm); here = (b, e)
            for n, ft, dc, nd in fs:
                if n in ('region_', 'description_', 'shared_', 'documents_', 'bits'): continue
                c = it.field(v, n, ft, dc) if v.term is not None else v.f.get(n)
                if c is not None: self.walk(c, here, n.rstrip('_'), ft, depth + 1)
FAILS = re.compile(r'!(validate#\d+|set_option#ok)$')
def p12_prods(cx, gold, rep):
    """a production either goes on without any report or ends the parse with exactly one; only the start symbol reports success"""
    out = []; start = cx.G.rules[1]['lhs']
    for r in cx.G.rules[1:]:
        def check(it, p, a, c):
            errs = [e for e in c.events if e.startswith('error(')]
            failed = [g for g in c.guards if FAILS.match(g)]
            succ = [e for e in c.events if e.startswith('success(')]
            n = len(errs) + len(failed)
            if c.exit == 'end': it.obligation('the parse goes on only without a diagnostic', z3.BoolVal(n == 0))
            else: it.obligation('the parse ends here with exactly one diagnostic (%s)' % ', '.join(errs + failed), z3.BoolVal(n == 1))
            if p.r['lhs'] == start: it.obligation('the whole text gives its tree', z3.BoolVal(c.exit != 'end' or len(succ) == 1))
            else: it.obligation('only the whole text gives a tree', z3.BoolVal(not succ))
            cases = gold.get(p.text)
            if cases is None:
                if errs: raise Unsupported('production without contract')
                return
            if errs or any(e.startswith('error(') for k in cases for e in k.events):
                compare(it, c, cases, lambda c: (c.exit, tuple(bare(e) for e in c.events if e.startswith('error(')), tuple(e for e in c.events if e.startswith('error('))), 'a rejected construct is reported at its part', novalidate)
        out.append(prod_unit(cx, r, check, 'P12'))
    return out
def p04_prods(cx, gold, rep):
    """beyond the tables, a construct is rejected by an action exactly where its contract says"""
    out = []
    for r in cx.G.rules[1:]:
        def check(it, p, a, c):
            if not novalidate(c): it.obligation('rejected for its length (P08)', TRUE); return
            cases = gold.get(p.text)
            if cases is None:
                if c.exit != 'end': raise Unsupported('production without contract')
                it.obligation('no rejection', TRUE); return
            compare(it, c, cases, lambda c: c.exit == 'end', 'the construct is accepted exactly where its contract accepts it', novalidate)
        out.append(prod_unit(cx, r, check, 'P04'))
    return out
def touching(words):
    """the productions whose contract names one of these driver calls, under their whole contract"""
    def gen(cx, gold, rep):
        keep = {t for t, cs in gold.items() if any(w in x for c in cs for w in words for x in [c.tree, *c.events, *c.guards])}
        us = p05_units(cx, gold, rep)
        have = {u.replay for u in us}
        for t in sorted(keep - have): rep.undecided.append('production changed: ' + t)
        return [u for u in us if u.replay in keep or u.replay not in gold]
    return gen
p03_prods = touching(['description('])
p09_prods = touching(['placeholder('])
p10_prods = touching(['merge_chain', 'build_chain', 'build_type', 'unquote', 'regular', 'delimited', 'name::'])
p11_prods = touching(['fold_literal', 'to_size', 'literal::numeric', 'literal::sign'])
p14_prods = touching(['set_option', 'sequence_option'])
