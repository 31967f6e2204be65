"""Grammar productions under contract.

Every semantic action of the LALR parser bison generates from /repo's sql_parser.yy is one unit: the case body is
taken from the generated parse() on every run, executed symbolically with $1..$n and @1..@n arbitrary, and the value
it leaves in $$ (with the calls it makes to the driver) is compared with the contract of that production."""
import re, xml.etree.ElementTree as ET
from fw import *
import sym
NS = 'mizugaki::ast::'; PN = 'mizugaki::parser::'
REG = NS + 'node_region'
GEN = PN + 'sql_parser_generated'

class Grammar:
    def __init__(self, w_or_path):
        p = w_or_path
        root = ET.parse(p).getroot(); g = root.find('grammar')
        self.term = {}; self.nterm = {}
        for t in g.find('terminals'):
            self.term[t.get('name')] = dict(t.attrib)
        for t in g.find('nonterminals'): self.nterm[t.get('name')] = dict(t.attrib)
        self.rules = []
        for r in g.find('rules'):
            lhs = r.find('lhs').text; rhs = [x.text for x in r.find('rhs') if x.tag == 'symbol']
            self.rules.append({'n': int(r.get('number')), 'lhs': lhs, 'rhs': rhs, 'useful': r.get('usefulness'), 'prec': r.get('percent_prec')})
        self.root = root
        nul = set(); ch = True
        while ch:
            ch = False
            for r in self.rules:
                if r['lhs'] not in nul and all(s in nul for s in r['rhs']): nul.add(r['lhs']); ch = True
        self.nullable = nul
    def text(self, r): return '%s: %s' % (r['lhs'], ' '.join(r['rhs']) or '%empty')

def walk(x):
    if isinstance(x, dict):
        yield x
        for v in x.values(): yield from walk(v)
    elif isinstance(x, list):
        for v in x: yield from walk(v)

class Actions:
    """case bodies of the generated parse()"""
    def __init__(self, P):
        self.P = P
        fs = [f for f in P.F.values() if f['name'] == 'parse' and f.get('cls') == GEN and 'body' in f]
        if not fs: fs = [f for f in P.F.values() if f['qn'] == GEN + '::parse' and 'body' in f]
        self.f = fs[0]
        sws = [x for x in walk(self.f['body']) if x.get('k') == 'Switch']
        self.emplace = {}; self.case = {}
        for which, sw in ((self.emplace, sws[0]), (self.case, sws[1])):
            labels = []
            for st in sw['b']['b']:
                while st is not None and st['k'] in ('Case', 'Default'):
                    if st['k'] == 'Case': labels.append(int(lit(st['v'])))
                    st = st['b']
                    body = st
                else:
                    pass
                if labels:
                    for l in labels: which[l] = st
                    labels = []
                    last = st
        self.try_body = None
def lit(e):
    while e['k'] == 'Cast' or e['k'] == 'Mat' or e['k'] == 'Const': e = e['e']
    return e['v']

def regcell(it, name):
    r = Rec(REG, z3.Const(name, U)); r.exact = True
    for n in ('begin', 'end'):
        c = Cell(z3.BitVec('%s.%s' % (name, n), 64), 'unsigned long', n, r); r.f[n] = c
    return r
def regval(it, b, e):
    r = Rec(REG); r.exact = True
    r.f['begin'] = Cell(z3.simplify(b), 'unsigned long', 'begin', r); r.f['end'] = Cell(z3.simplify(e), 'unsigned long', 'end', r)
    return r
NPOS = bv(-1)
def rb(r): return r.f['begin'].v
def re_(r): return r.f['end'].v
def rvalid(r): return z3.And(rb(r) != NPOS, re_(r) != NPOS)
def umin(a, b): return z3.If(z3.ULT(b, a), b, a)
def umax(a, b): return z3.If(z3.ULT(a, b), b, a)
def c_union(it, call):
    a, b = [x.v if isinstance(x, Cell) else x for x in call.args]
    for x in (a, b):
        for n in ('begin', 'end'): it.get_field(x, n)
    va, vb = rvalid(a), rvalid(b)
    if not va.sexpr() or True:
        s = it.solver
    B = z3.If(va, z3.If(vb, umin(rb(a), rb(b)), rb(a)), rb(b)); E = z3.If(va, z3.If(vb, umax(re_(a), re_(b)), re_(a)), re_(b))
    # simplify under the current path (locations of symbols are known to be ordered)
    for x in (va, vb):
        if not it.feasible(z3.Not(x)): B = z3.substitute(B, (x, TRUE)); E = z3.substitute(E, (x, TRUE))
    return regval(it, decided(it, B), decided(it, E))
def decided(it, e):
    e = z3.simplify(e)
    n = 0
    while z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and n < 8:
        c = e.arg(0); n += 1
        if not it.feasible(z3.Not(c)): e = e.arg(1)
        elif not it.feasible(c): e = e.arg(2)
        elif not it.feasible(e != e.arg(1)): e = e.arg(1)
        elif not it.feasible(e != e.arg(2)): e = e.arg(2)
        else: break
    return e

# ------------------------------------------------------------------ canonical text of values
def enumname(P, et, n):
    for nm, v in P.E[et]['items']:
        if v == n: return nm
    return '?%d' % n
class Show:
    """canonical, readable text of a symbolic value; leaves are parts of $k and @k"""
    def __init__(self, it, rule, regions=True): self.it, self.n, self.regions = it, len(rule['rhs']), regions
    def pos(self, t, side):
        s = self.term(t)
        if self.n:
            if s == '@$.begin': s = '@1.begin'
            if s == '@$.end': s = '@%d.end' % self.n
        return s
    def region(self, b, e):
        b, e = decided(self.it, z3.simplify(b)), decided(self.it, z3.simplify(e))
        if b.num_args() == 2 and e.num_args() == 2 and b.decl().name().endswith('.begin') and e.decl().name() == b.decl().name()[:-6] + '.end' and all(p.eq(q) for p, q in zip(b.children(), e.children())):
            return '%s(%s)' % (b.decl().name()[:-6], self.region(*b.children()))
        x, y = self.pos(b, 0), self.pos(e, 1)
        if self.n and x == '@1.begin' and y == '@%d.end' % self.n: return '@$'
        if x.endswith('.begin') and y.endswith('.end'):
            return x[:-6] if x[:-6] == y[:-4] else x[:-6] + '..' + y[:-4]
        if x == '-1' and y == '-1': return 'unknown'
        return '<%s, %s>' % (x, y)
    def term(self, t):
        t = z3.simplify(t)
        if z3.is_bv_value(t): return str(t.as_signed_long())
        if z3.is_true(t) or z3.is_false(t): return str(t).lower()
        d = self.it.path.st.get('defs', {}).get(t.get_id())
        if d is not None: return d
        n = t.decl().name(); ch = t.children()
        k = t.decl().kind()
        if not ch: return n
        if k == z3.Z3_OP_NOT: return '!' + self.term(ch[0])
        if k == z3.Z3_OP_BADD and len(ch) == 2 and z3.is_bv_value(ch[0]): return '%s + %d' % (self.term(ch[1]), ch[0].as_signed_long())
        if n in ('bvule', 'bvult', 'bvsle', 'bvslt'): return '%s %s %s' % (self.term(ch[0]), '<=' if n[3:] == 'le' else '<', self.term(ch[1]))
        if k == z3.Z3_OP_ITE: return '(%s if %s else %s)' % (self.term(ch[1]), self.term(ch[0]), self.term(ch[2]))
        if n in ('optval', 'vec.at', 'asbool', 'asbv32', 'asbv64', 'asbv8'): return self.term(ch[0]) + {'optval': '*'}.get(n, '')
        if n == 'opthas': return 'has(%s)' % self.term(ch[0])
        if n == 'vlen': return 'size(%s)' % self.seqterm(ch[0])
        if n.startswith('tuple.'): return '%s.%s' % (self.term(ch[0]), n[6:])
        if n.startswith('virt.'): return '%s.%s()' % (self.term(ch[0]), n[5:])
        if len(ch) == 1 and '.' in n and '::' in n: 
            f = n.rsplit('.', 1)[1].rstrip('_')
            return '%s.%s' % (self.term(ch[0]), f)
        if n in ('=', 'distinct', 'and', 'or'):
            return '%s(%s)' % (n, ', '.join(sorted(self.term(c) for c in ch)))
        return '%s(%s)' % (n, ', '.join(self.term(c) for c in ch))
    def seqterm(self, t):
        app = []
        while z3.is_app(t) and t.decl().name() == 'vappend':
            app.append(t); t = t.arg(0)
        d = self.it.path.st.get('app', {})
        parts = [self.term(t) + '...'] + [self.val(d[a.get_id()][1]) if a.get_id() in d else self.term(a.arg(1)) for a in reversed(app)]
        return '[%s]' % ', '.join(parts)
    def guard(self, c, d):
        return self.guards([(c, d)])[0]
    def guards(self, gs):
        out = set()
        def add(c, d):
            c = z3.simplify(c)
            while z3.is_not(c): c, d = c.arg(0), not d
            if z3.is_true(c) or z3.is_false(c): return
            if d and z3.is_and(c):
                for x in c.children(): add(x, True)
                return
            if not d and z3.is_or(c):
                for x in c.children(): add(x, False)
                return
            out.add(('' if d else '!') + self.cond(c))
        for c, d in gs: add(c, d)
        return sorted(out)
    def cond(self, c):
        if z3.is_eq(c):
            a, b = c.children()
            if z3.is_bv_value(a): a, b = b, a
            if z3.is_bv_value(b):
                e = self.enum_of(a)
                if e: return '%s == %s' % (self.term(a), enumname(self.it.p, e, b.as_signed_long()))
        return self.term(c)
    def enum_of(self, t):
        return self.it.enum_terms.get(t.get_id()) if hasattr(self.it, 'enum_terms') else None
    def val(self, v, t=None, depth=0):
        it = self.it
        if isinstance(v, Cell): t = v.t or t; v = v.v
        if depth > 30: raise Unsupported('depth')
        if z3.is_expr(v):
            v = z3.simplify(v)
            if t is not None and z3.is_bv_value(v):
                et = ty(t).base
                if et in it.p.E: return enumname(it.p, et, v.as_signed_long())
            return self.term(v)
        if isinstance(v, Str): return repr(v.lit.decode('latin1').rstrip('\0')) if v.lit is not None else self.term(v.term)
        if isinstance(v, Opq):
            if v.t == 'std::nullopt_t': return 'none'
            if v.t and v.t.startswith('std::variant') and v.parts: return 'variant(%s)' % ', '.join(self.val(x, None, depth + 1) for x in v.parts)
            if v.set is not None: return '{%s}' % ', '.join(sorted(self.term(x) for x in v.set))
            if v.t == 'message': return 'message'
            return self.term(v.term)
        if isinstance(v, Ptr):
            k = is_const_bool(v.null)
            if k is True: return 'null'
            if v.cell is None: raise Unsupported('unknown pointer')
            x = v.cell.v
            if isinstance(x, Rec) and x.term is not None and not x.dirty: return self.term(x.term)
            s = self.val(v.cell, None, depth + 1)
            return s if k is False else 'null if %s else %s' % (self.term(v.null), s)
        if isinstance(v, Opt):
            k = is_const_bool(v.has)
            if k is False: return 'none'
            if k is None:
                h = z3.simplify(v.has)
                if z3.is_app(h) and h.decl().name() == 'opthas':
                    x = v.cell.v if v.cell else None
                    if not (isinstance(x, Rec) and x.dirty): return self.term(h.arg(0))
                return 'none unless %s else %s' % (self.term(h), self.val(v.cell, None, depth + 1))
            return 'some(%s)' % self.val(v.cell, None, depth + 1)
        if isinstance(v, Vec):
            if v.items is None: return self.seqterm(v.term)
            return '[%s]' % ', '.join(self.val(c, v.et, depth + 1) for c in v.items)
        if isinstance(v, Tup):
            # an untouched tuple is its source
            return '(%s)' % ', '.join(self.val(c, None, depth + 1) for c in v.cells)
        if isinstance(v, Rec):
            if v.cls == REG: return self.region(it.get_field(v, 'begin').v, it.get_field(v, 'end').v)
            if v.term is not None and not v.dirty: return self.term(v.term)
            if v.term is None:
                t = it.projection_of(v)
                if t is not None: return self.term(t)
            fs = []; reg = None
            for n, ft, dc, nd in it.p.fields(v.cls):
                c = it.field(v, n, ft, dc) if v.term is not None else v.f.get(n)
                if c is None: raise Unsupported('field %s' % n)
                if n == 'shared_' or n == 'documents_': continue
                if n == 'region_' and ty(c.t or ft).base == REG: reg = self.val(c, ft, depth + 1); continue
                fs.append((n.rstrip('_'), self.val(c, ft, depth + 1)))
            nm = v.cls.split('<')[0]
            at = ' @ ' + reg if reg is not None and self.regions else ''
            if nm == NS + 'common::clone_wrapper' and len(fs) == 1: return fs[0][1]
            if nm == NS + 'common::regioned' and fs and fs[0][0] == 'value': return fs[0][1] + at
            nm = v.cls
            for x in (NS, PN, 'takatori::util::'): nm = nm.replace(x, '')
            if nm.startswith('enum_set<'): nm = 'set'
            return '%s(%s)%s' % (nm, ', '.join('%s=%s' % x for x in fs), at)
        if isinstance(v, Void) or v is None: return 'nothing'
        raise Unsupported('text of ' + type(v).__name__)

# ------------------------------------------------------------------ one action
DRV = PN + 'sql_driver::'
class Act:
    """runs the action of rule r; collects $$, the driver calls and the exit"""
    def __init__(self, cx, r): self.cx, self.r = cx, r
    def contracts(self):
        c = {}
        it_ = [None]
        def S(): return Show(self.it, self.r)
        def stk(it, call):
            k = cint(call.args[0] if not isinstance(call.args[0], Cell) else call.args[0].v)
            n = len(self.r['rhs'])
            if k is None: raise Unsupported('stack index')
            i = n - k
            if not 1 <= i <= n: raise _Ab('ub', '$%d of a production with %d symbols' % (i, n))
            return it.path.st['slots'][i]
        c[GEN + '::stack<%s::stack_symbol_type>::operator[]' % GEN] = stk
        def as_(it, call):
            rec = call.this.v
            if rec.f.get('$v') is None:
                i = rec.f['$i'].v
                if i == 0: raise Unsupported('$$ has no type')
                nm = '$%d' % i
                t = call.e['t']
                cell = Cell(None, t, nm); cell.v = it.symval(t, nm); it._own(cell.v, cell)
                sy = self.r['rhs'][i - 1]
                if isinstance(cell.v, Vec) and sy in self.cx.nonnull: cell.v.nn = True
                if isinstance(cell.v, Ptr) and sy in self.cx.nonnull:
                    it.assume(z3.Not(cell.v.null)); cell.v.null = FALSE
                if sy in self.cx.values and isinstance(cell.v, Rec):
                    f = it.get_field(cell.v, 'value_').v
                    it.assume(z3.Or([f == n for n in self.cx.values[sy]]))
                rec.f['$v'] = cell
            cell = rec.f['$v']
            if ty(cell.t).base != ty(call.e['t']).base: raise _Ab('ub', 'value of type %s read as %s' % (cell.t, call.e['t']))
            return cell
        c[GEN + '::value_type::as'] = as_
        c[NS + 'operator|'] = lambda it, call: c_union(it, call) if ty(call.e['t']).base == REG else NotImplemented
        def ev(it, name, args):
            it.path.st['events'].append('%s(%s)' % (name, ', '.join(S().val(a) for a in args)))
        def vc(it, call):
            k = len([e for e in it.path.st['events'] if e.startswith('validate(')]) + 1
            a = [x.v if isinstance(x, Cell) else x for x in call.args]
            it.path.st.setdefault('vsizes', []).append(a[1])
            it.path.st['events'].append('validate(%s, %s, %s)' % (S().val(a[0]), S().val(a[1]), S().val(a[2], PN + 'sql_parser_element_kind')))
            return z3.Bool('validate#%d' % k)
        c[DRV + 'validate_count'] = vc
        def err(it, call):
            a = [x.v if isinstance(x, Cell) else x for x in call.args]
            it.path.st['events'].append('error(%s, %s, message)' % (S().val(a[0], PN + 'sql_parser_code'), S().val(a[1]))); return VOID
        c[DRV + 'error'] = err
        def succ(it, call): ev(it, 'success', call.args); return VOID
        c[DRV + 'success'] = succ
        def uf(name, *extra):
            def h(it, call):
                args = []
                for a in call.args:
                    v = a.v if isinstance(a, Cell) else a
                    if isinstance(v, Rec) and v.cls == REG: args += [it.get_field(v, 'begin').v, it.get_field(v, 'end').v]
                    elif isinstance(v, Str): args.append(v.term if v.lit is None else strlit(v.lit))
                    else: raise Unsupported('argument of ' + name)
                return it.symval(call.e['t'], name, tuple(args)) if not ty(call.e['t']).base == REG else self._ufreg(it, name, args)
            return h
        c[DRV + 'leading_description_comment'] = uf('description')
        c[DRV + 'find_placeholder_mark'] = uf('placeholder')
        c[DRV + 'to_size'] = uf('to_size')
        c[DRV + 'check_regular_identifier'] = uf('check_regular')
        c[DRV + 'check_delimited_identifier'] = uf('check_delimited')
        c[DRV + 'image'] = uf('image')
        c[DRV + 'parse_delimited_identifier'] = uf('unquote')
        def define(it, base, t, d):
            u = z3.Const(it.newname(base), U); it.path.st['defs'][u.get_id()] = d; it.path.st['keep'].append(u)
            return u
        def chain(name):
            def h(it, call):
                a, b = call.args
                d = '%s(%s, %s)' % (name, S().val(a), S().val(b))
                k = z3.Bool('%s#ok' % name)
                if it.branch(k):
                    # both operands are consumed
                    u = define(it, name, call.e['t'], d)
                    it.setcell(a, Ptr(TRUE, None, 'std::unique_ptr')); it.setcell(b, Ptr(TRUE, None, 'std::unique_ptr'))
                    et = ty(call.e['t']).args[0]
                    return Ptr(FALSE, Cell(it.from_term(et, u), et, 'chain'), 'std::unique_ptr')
                return Ptr(TRUE, None, 'std::unique_ptr')
            return h
        c[DRV + 'try_merge_identifier_chain'] = chain('merge_chain')
        c[DRV + 'try_build_identifier_chain'] = chain('build_chain')
        def btype(it, call):
            a = call.args[0]; d = 'build_type(%s)' % S().val(a)
            if it.branch(z3.Bool('build_type#ok')):
                u = define(it, 'build_type', call.e['t'], d); it.setcell(a, Ptr(TRUE, None, 'std::unique_ptr'))
                et = ty(call.e['t']).args[0]
                return Ptr(FALSE, Cell(it.from_term(et, u), et, 'type'), 'std::unique_ptr')
            return Ptr(TRUE, None, 'std::unique_ptr')
        c[DRV + 'try_build_type'] = btype
        def fold(it, call):
            a = call.args[0]; d = 'fold_literal(%s)' % S().val(a)
            u = define(it, 'fold', call.e['t'], d); et = ty(call.e['t']).args[0]
            return Ptr(FALSE, Cell(it.from_term(et, u), et, 'folded'), 'std::unique_ptr')
        c[DRV + 'try_fold_literal'] = fold
        def setopt(it, call):
            d, o, f = call.args
            tr = 'set_option(%s, %s)' % (S().val(o), S().val(f))
            k = z3.Bool('set_option#ok')
            u = define(it, 'set_option', o.t, tr)
            it.path.st['events'].append(tr)
            it.setcell(o, it.from_term(ty(o.t).base, u))
            return k
        c[PN + 'details::set'] = setopt
        return c
    def _ufreg(self, it, name, args):
        r = Rec(REG); r.exact = True
        for n in ('begin', 'end'):
            f = UF('%s.%s' % (name, n), *[a.sort() for a in args], BV64)
            r.f[n] = Cell(f(*args), 'unsigned long', n, r)
        return r
    def hooks(self):
        def ref(it, e):
            if e['n'] == 'yylhs': return it.path.st['slots'][0]
            if e['n'] in ('yyn', 'yylen'): raise Unsupported(e['n'])
            return NotImplemented
        def construct(it, t, args, e):
            if t.name == 'std::variant':
                o = Opq(z3.Const(it.newname('variant'), U), t.base)
                o.parts = [it.take(*a) for a in args]
                if len(args) == 1 and isinstance(o.parts[0], Opq) and o.parts[0].t == t.base: return o.parts[0]
                return o
            return NotImplemented
        return {'ref': ref, 'construct': construct, 'virtual': virt}
    def locs(self, it):
        n = len(self.r['rhs'])
        L = [regcell(it, '@%d' % i if i else '@$') for i in range(n + 1)]
        big = bv(1 << 62)
        prev = None
        for i in range(1, n + 1):
            b, e = rb(L[i]), re_(L[i])
            s = self.r['rhs'][i - 1]
            it.assume(z3.ULE(b, e) if (s in self.cx.G.nullable or s in ('$end', 'END_OF_FILE')) else z3.ULT(b, e)); it.assume(z3.ULT(e, big))
            if prev is not None: it.assume(z3.ULE(prev, b))
            # consequences of the order, stated to keep the solver fast
            it.assume(z3.ULE(rb(L[1]), b)); it.assume(z3.ULE(rb(L[1]), e)); it.assume(b != NPOS); it.assume(e != NPOS)
            for j in range(1, i): it.assume(z3.ULE(re_(L[j]), b)); it.assume(z3.ULE(re_(L[j]), e)); it.assume(z3.ULE(rb(L[j]), b)); it.assume(z3.ULE(rb(L[j]), e))
            prev = e
        if n: it.assume(rb(L[0]) == rb(L[1])); it.assume(re_(L[0]) == re_(L[n]))
        else: it.assume(rb(L[0]) == re_(L[0])); it.assume(z3.ULT(re_(L[0]), big))
        return L
    def run(self, it):
        cx, r = self.cx, self.r; self.it = it
        st = it.path.st; st['events'] = []; st['defs'] = {}; st['keep'] = []; st['appended'] = {}
        L = self.locs(it); st['locs'] = L
        slots = []
        for i in range(len(r['rhs']) + 1):
            s = Rec(GEN + '::stack_symbol_type'); s.exact = True
            val = Rec(GEN + '::value_type'); val.exact = True; val.f['$i'] = Cell(i)
            s.f['value'] = Cell(val, GEN + '::value_type', 'value', s)
            s.f['location'] = Cell(L[i], REG, 'location', s)
            slots.append(Cell(s, GEN + '::stack_symbol_type', 'sym%d' % i))
        st['slots'] = slots
        ps = Rec(GEN); ps.exact = True
        ps.f['yystack_'] = Cell(Opq(z3.Const('yystack', U), 'stack'), 'stack', 'yystack_', ps)
        drv = Rec(PN + 'sql_driver'); drv.exact = True
        ps.f['driver'] = Cell(drv, PN + 'sql_driver', 'driver', ps)
        ps.f['scanner'] = Cell(Rec(PN + 'sql_scanner'), PN + 'sql_scanner', 'scanner', ps)
        st['driver'] = ps.f['driver']
        fr = Frame(it, {}, Cell(ps, GEN, 'this')); fr.f = cx.A.f
        it.frames.append(fr)
        exit = 'end'
        try:
            # $$ is first default constructed by the generated code
            t = cx.lhs_type(r['lhs'])
            if t:
                cell = Cell(it.zero(t), t, '$$'); it._own(cell.v, cell); slots[0].v.f['value'].v.f['$v'] = cell
            body = cx.A.case.get(r['n'] + 1)
            if body is not None:
                try: it.exec(body)
                except _Gt as g: exit = g.n
                except _Bk: pass
        finally: it.frames.pop()
        st['exit'] = exit
        v = slots[0].v.f['value'].v.f.get('$v')
        return v
from sym import _Abort as _Ab, _Goto as _Gt, _Brk as _Bk, _Ret as _Rt
def virt(it, e, o, args):
    return NotImplemented
def msgtext(it, a):
    return Opq(z3.Const('message', U), 'message')

class GCtx:
    def __init__(self, P, xml):
        self.P = P; self.G = Grammar(xml); self.A = Actions(P)
        self.nonnull = set(); self.values = {}
        # type of each left hand side, from the emplace<T>() switch of the generated code
        self.types = {}
        idx = {t['name']: int(t['symbol-number']) for t in list(self.G.nterm.values()) + list(self.G.term.values())}
        tmap = {}
        for num, st in self.A.emplace.items():
            for x in walk(st):
                if x.get('k') == 'MCall' and x['qn'].endswith('value_type::emplace'):
                    tmap[num] = ty(x['t']).base
        self.symno = idx
        self.tmap = tmap
        enum = P.E.get(GEN + '::symbol_kind::symbol_kind_type')
        self.symenum = {v[1]: v[0] for v in enum['items']} if enum else {}
    def lhs_type(self, lhs): return self.tmap.get(self.symno[lhs])
