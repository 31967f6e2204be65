"""Contracts over the AST classes (equality, cloning, construction/access, kinds/dispatch, serialization, regions).

The contracts are generated per class from the class's own declaration in /repo, so every class of the AST is
under contract on every run.  Named contracts:

  EQ(C)      operator==(a, b)  <=>  every attribute of a equals the one of b (regions excluded); a == a.
  CLONE(C)   clone() const& / clone() && / the tagged copy constructors yield an object of the same dynamic type
             whose attributes and region are those of the source, sharing no owned child with it.
  CTOR(C)    every constructor stores each argument in the attribute read back by the accessor of the same name.
  KIND(C)    node_kind() is the class's tag.
  SER(C)     serialize() emits one well-nested struct with node_kind and every attribute exactly once.
"""
from fw import *
import sym, re
NS = 'mizugaki::ast::'
REG = NS + 'node_region'
B = z3.BoolSort()

class Ctx:
    def __init__(self, P):
        self.P = P
        self.nodes = sorted(c for c, r in P.R.items() if c.startswith(NS) and NS + 'element' in P.bases(c) and not c.startswith(NS + 'common::regioned') and '(lambda' not in c)
        self.concrete = [c for c in self.nodes if not P.R[c]['abstract']]
        self.units = [c for c in (NS + 'compilation_unit',) if c in P.R]      # values above the nodes
        self.eq = {}
        for i, f in P.F.items():
            if f['name'] == 'operator==' and len(f['params']) == 2 and 'body' in f:
                a, b = [ty(p['t']).base for p in f['params']]
                if a == b and a in P.R and (a in self.nodes or a in self.units): self.eq[a] = i
        self.tags = {}
        for i, f in P.F.items():
            if f['name'] == 'node_kind' and f.get('cls') in self.nodes: self.tags[f['cls']] = i
        # kind -> class (the type_of table of each category)
        self.kinds_of, self.class_of = {}, {}
        import re
        for n, r in P.R.items():
            m = re.match(r'^(mizugaki::ast::[\w:]+::)type_of<([\w:]+), ([\w:]+)>$', n)
            if not m or not r['bases']: continue
            en, item = m.group(2), m.group(3).split('::')[-1]
            tgt = ty(r['bases'][0]).args[0] if ty(r['bases'][0]).args else None
            e = P.E.get(en)
            if not e or not tgt: continue
            val = [x[1] for x in e['items'] if x[0] == item]
            if val:
                self.kinds_of.setdefault(tgt, []).append(val[0]); self.class_of[(en, val[0])] = tgt
        # fall back to the class's own static tag / tags
        self.static_tags = {}
        for v in sorted(P.V.values(), key=lambda v: v.get('qn', '')):
            q = v.get('qn', '')
            if q.startswith(NS) and q.rsplit('::', 1)[-1] in ('tag', 'tags'):
                ks = sorted(set(self._ints(v.get('init'))))
                if ks and not (q.endswith('tags') and q.rsplit('::', 1)[0] in self.static_tags): self.static_tags[q.rsplit('::', 1)[0]] = ks
        for c in self.concrete:
            if c not in self.kinds_of and c in self.static_tags: self.kinds_of[c] = self.static_tags[c]
    def _ints(self, x):
        if isinstance(x, dict):
            if x.get('k') == 'Int' and x.get('t', '').startswith('mizugaki::'): yield int(x['v'])
            else:
                for v in x.values(): yield from self._ints(v)
        elif isinstance(x, list):
            for v in x: yield from self._ints(v)
    def isnode(self, c): return c in self._nodeset()
    def _nodeset(self):
        if not hasattr(self, '_ns'): self._ns = set(self.nodes)
        return self._ns
    def methods(self, cls, name, inherited=True):
        out = []
        for c in (self.P.bases(cls) if inherited else [cls]):
            r = self.P.R.get(c)
            if not r: continue
            ms = [m for m in r['methods'] if m['n'] == name]
            if ms: return ms
        return out
def short(c): return c.replace(NS, '').replace('std::default_delete', 'dd')

# ------------------------------------------------------------------ equality
def veq(c): return UF('veq:' + c, U, U, B)
def veqvec(et): return UF('veqvec:' + et, U, U, B)
def elem_eq(cx, it, et, x, y):
    """spec equality of two element terms x, y of type et"""
    a, b = it.from_term(et, x), it.from_term(et, y)
    return spec_val(cx, it, a, b)
def spec_val(cx, it, a, b):
    if isinstance(a, Cell): a = a.v
    if isinstance(b, Cell): b = b.v
    if isinstance(a, Rec):
        if cx.isnode(a.cls): return veq(a.cls)(a.term, b.term)
        return spec_fields(cx, it, a, b)
    if isinstance(a, Ptr):
        return z3.Or(z3.And(a.null, b.null), z3.And(z3.Not(a.null), z3.Not(b.null), spec_val(cx, it, a.cell, b.cell)))
    if isinstance(a, Opt):
        return z3.Or(z3.And(z3.Not(a.has), z3.Not(b.has)), z3.And(a.has, b.has, spec_val(cx, it, a.cell, b.cell)))
    if isinstance(a, Vec):
        r = veqvec(a.et)(a.term, b.term)
        it.assume(z3.Implies(r, vlen(a.term) == vlen(b.term)))   # contract of the comparison of vectors
        return r
    if z3.is_expr(a): return a == b
    if isinstance(a, (Str, Opq)): return a.term == b.term
    raise Unsupported('spec of ' + type(a).__name__)
# attributes that are meaningful only for some kinds of the object (documented tagged unions)
CONDITIONAL = {(NS + 'statement::privilege_user', 'authorization_identifier_'): ('user_kind_', NS + 'statement::privilege_user_kind', 'identifier')}
IGNORED = {(NS + 'compilation_unit', 'comments_'), (NS + 'compilation_unit', 'document_')}   # positional information, as regions
def spec_fields(cx, it, a, b, cond=True):
    cs = []
    for n, ft, dc, nd in it.p.fields(a.cls):
        if ty(ft).base == REG or (dc, n) in IGNORED: continue
        c = spec_val(cx, it, it.field(a, n, ft, dc), it.field(b, n, ft, dc))
        if (dc, n) in CONDITIONAL:
            kf, en, item = CONDITIONAL[(dc, n)]
            kv = it.get_field(a, kf).v
            while isinstance(kv, Rec): kv = it.get_field(kv, 'value_').v
            val = [x[1] for x in it.p.E[en]['items'] if x[0] == item][0]
            c = z3.Or(kv != val, c)
        cs.append(c)
    return z3.And([TRUE] + cs)

def eq_contracts(cx, root):
    con = {}
    for c, i in cx.eq.items():
        if i == root: continue
        def h(it, call, c=c):
            x, y = call.args
            if x is y: return TRUE
            return veq(c)(x.v.term, y.v.term)
        con[i] = h
    for i, f in cx.P.F.items():
        if i == root or f['name'] != 'operator()': continue
        if f.get('cls', '').startswith(NS + 'impl::eqer<std::vector<'):
            def h(it, call):
                x, y = [a.v for a in call.args]
                if x is y: return TRUE
                return veqvec(x.et)(x.term, y.term)
            con[i] = h
    return con
def eq_hooks(cx):
    def virtual(it, e, o, args):
        if e['qn'].endswith('::equals'):
            return veq(o.v.cls if True else '')(o.v.term, args[0].v.term)
        return NotImplemented
    def receq(it, a, b):
        """std::optional<T> == std::optional<T> calls T's operator=="""
        x, y = it.val(a), it.val(b)
        if isinstance(x, Rec) and x.cls in cx.eq: return veq(x.cls)(x.term, y.term)
        if isinstance(x, Rec):
            for i, f in it.p.F.items():
                if f['name'] == 'operator==' and len(f['params']) == 2 and all(ty(p['t']).base == x.cls for p in f['params']):
                    return it.call(i, None, [a, b])
            # regioned<T>: the template may not have been instantiated by name; use the value
            if x.cls.startswith(NS + 'common::regioned<'): return spec_fields(cx, it, x, y)
        return NotImplemented
    return {'virtual': virtual, 'receq': receq}

def eq_units(cx):
    us = []
    P = cx.P
    for c, i in sorted(cx.eq.items()):
        con = eq_contracts(cx, i); hk = eq_hooks(cx)
        fn = P.F[i]
        def t_attr(it, c=c, i=i):
            a, b = Cell(Rec(c, z3.Const('a', U)), c), Cell(Rec(c, z3.Const('b', U)), c)
            r = it.call(i, None, [a, b])
            if P.R[c]['abstract']:
                it.obligation('operator== compares dynamic values', it.tobool(r) == veq(c)(a.v.term, b.v.term)); return r
            it.obligation('operator== holds exactly when every attribute is equal', it.tobool(r) == spec_fields(cx, it, a.v, b.v))
            return r
        us.append(Unit('EQ(%s)' % short(c), fn['loc'], t_attr, con, hk, replay=c))
        if not P.R[c]['abstract']:
            def t_refl(it, c=c, i=i):
                a = Cell(Rec(c, z3.Const('a', U)), c)
                r = it.call(i, None, [a, a])
                it.obligation('operator== is reflexive', it.tobool(r))
                return r
            us.append(Unit('EQ-REFL(%s)' % short(c), fn['loc'], t_refl, con, hk, replay=c))
            def l_equiv(it, c=c):
                # lemma: attribute-wise equality of component equivalences is an equivalence
                x, y, z = [Rec(c, z3.Const(n, U)) for n in 'xyz']
                fs = {}
                def S(p, q): return spec_fields(cx, it, p, q)
                xy, yx, yz, xz, xx = S(x, y), S(y, x), S(y, z), S(x, z), S(x, x)
                u, v, w = [z3.Const(n, U) for n in ('u!', 'v!', 'w!')]
                for nm, f in list(sym._ufc.items()):
                    if f.name().startswith('veq'):
                        it.assume(z3.ForAll([u], f(u, u))); it.assume(z3.ForAll([u, v], f(u, v) == f(v, u)))
                        it.assume(z3.ForAll([u, v, w], z3.Implies(z3.And(f(u, v), f(v, w)), f(u, w))))
                it.obligation('lemma: reflexive', xx)
                it.obligation('lemma: symmetric', xy == yx)
                it.obligation('lemma: transitive', z3.Implies(z3.And(xy, yz), xz))
            us.append(Unit('EQ-EQUIV(%s)' % short(c), fn['loc'], l_equiv, {}, {}, kind='lemma', replay=c))
    # operator!= is the negation
    for i, f in sorted(P.F.items()):
        if f['name'] == 'operator!=' and len(f['params']) == 2 and 'body' in f:
            a, b = [ty(p['t']).base for p in f['params']]
            if a == b and a in cx.eq:
                def t_ne(it, c=a, i=i):
                    x, y = Cell(Rec(c, z3.Const('a', U)), c), Cell(Rec(c, z3.Const('b', U)), c)
                    r = it.call(i, None, [x, y])
                    it.obligation('operator!= is the negation of operator==', it.tobool(r) == z3.Not(veq(c)(x.v.term, y.v.term)))
                us.append(Unit('NE(%s)' % short(a), f['loc'], t_ne, eq_contracts(cx, None), eq_hooks(cx), replay=a))
    # equals(): same kind and equal as that class
    for i, f in sorted(P.F.items()):
        if f['name'] == 'equals' and f.get('cls') in cx.concrete and 'body' in f:
            c = f['cls']
            def t_equals(it, c=c, i=i, f=f):
                base = ty(f['params'][0]['t']).base
                a = Cell(Rec(c, z3.Const('a', U), True), c)
                b = Cell(Rec(base, z3.Const('b', U)), base)
                r = it.call(i, a, [b])
                kt = P.F[cx.tags[c]]['ret'] if c in cx.tags else None
                kind = it.symval(kt, 'virt.node_kind', z3.Const('b', U))
                ks = cx.kinds_of.get(c)
                if not ks: raise Unsupported('no kind is mapped to ' + c)
                spec = spec_fields(cx, it, Rec(c, z3.Const('a', U)), Rec(c, z3.Const('b', U)))
                own = veq(c)(z3.Const('a', U), z3.Const('b', U)) if c in cx.eq else TRUE
                hyp = TRUE
                if z3.is_true(z3.simplify(spec)): hyp = own        # contract of operator== without attributes: always true
                elif c in cx.eq: spec = own
                it.obligation('equals() is true exactly for an equal object of the same class', z3.Implies(hyp, it.tobool(r) == z3.And(z3.Or([kind == k for k in ks]), spec)))
            us.append(Unit('EQUALS(%s)' % short(c), f['loc'], t_equals, eq_contracts(cx, None), eq_hooks(cx), replay=c))
    # vectors
    for i, f in sorted(P.F.items()):
        if f['name'] == 'operator()' and f.get('cls', '').startswith(NS + 'impl::eqer<std::vector<') and 'body' in f:
            vt = ty(f['params'][0]['t']).base
            def t_vec(it, i=i, vt=vt):
                et = ty(vt).args[0]
                a, b = Cell(Vec(et, z3.Const('a', U)), vt), Cell(Vec(et, z3.Const('b', U)), vt)
                n = vlen(a.v.term)
                j = z3.Const('j!', BV64)
                def at(k): return elem_eq(cx, it, et, velem(a.v.term, k), velem(b.v.term, k))
                def upto(k): return z3.ForAll([j], z3.Implies(z3.ULT(j, k), at(j)))
                it.loop_inv = lambda it, st: z3.And(z3.ULE(st.index, n), n == vlen(b.v.term), upto(st.index))
                r = it.tobool(it.call(i, None, [a, b]))
                spec = z3.And(n == vlen(b.v.term), upto(n))
                it.obligation('vectors are equal exactly when they have the same length and equal elements at every index', r == spec)
            us.append(Unit('EQ-VEC(%s)' % short(vt)[:90], f['loc'], t_vec, eq_contracts(cx, i), dict(eq_hooks(cx), genloop=inductive_loop, loop=inductive_range), replay='vector'))
    return us

# ------------------------------------------------------------------ inductive loops
class LoopState: pass
MUT = {'push_back', 'emplace_back', 'pop_back', 'clear', 'operator=', 'operator+=', 'append', 'reset', 'emplace', 'operator++', 'operator--', 'erase', 'insert', 'resize'}
def written_ids(node, out=None):
    out = set() if out is None else out
    def base(e):
        while isinstance(e, dict):
            if e['k'] == 'Ref': out.add(e['d']); return
            e = e.get('e') or e.get('a') or e.get('obj') or e.get('b')
    def walk(x):
        if isinstance(x, dict):
            k = x.get('k')
            if k == 'Bin' and x['op'] == '=': base(x['a'])
            if k == 'CAsg': base(x['a'])
            if k == 'Un' and x['op'] in ('++', '--'): base(x['e'])
            if k == 'MCall':
                nm = x['qn'].split('::')[-1]
                if 'operator' in x['qn']: nm = x['qn'][x['qn'].rindex('operator'):]
                if nm in MUT or not x.get('const', True): base(x['obj'])
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    walk(node)
    return out
def _havoc(it, ids):
    fr = it.frame(); hv = []
    for d in ids:
        c = fr.env.get(d)
        if c is None: continue
        v = c.v
        if z3.is_bv(v): c.v = z3.Const(it.newname('havoc'), v.sort())
        elif z3.is_bool(v): c.v = z3.Const(it.newname('havoc'), z3.BoolSort())
        elif isinstance(v, Vec): c.v = Vec(v.et, z3.Const(it.newname('havoc'), U), None, v.kind); c.v.own = c
        elif isinstance(v, Str): c.v = Str(z3.Const(it.newname('havoc'), U))
        else: raise Unsupported('loop modifies ' + type(v).__name__)
        hv.append(c)
    return hv
def inductive_loop(it, s, c, inc, body, cv):
    inv = getattr(it, 'loop_inv', None)
    if inv is None: return NotImplemented
    ids = written_ids(body) | written_ids(inc) | written_ids(c)
    fr = it.frame()
    cells = [fr.env[d] for d in ids if d in fr.env]
    ints = [x for x in cells if z3.is_bv(x.v) and x.v.size() == 64]
    vecs = [x for x in cells if isinstance(x.v, Vec)]
    st = LoopState(); st.cells, st.ints, st.vecs, st.it = cells, ints, vecs, it
    if len(ints) != 1: raise Unsupported('loop without a single counter')
    def I():
        st.index = ints[0].v
        return inv(it, st)
    it.obligation('loop invariant holds initially', I())
    lf = it.loop_begin(_havoc(it, ids))
    it.assume(I())
    if cv: it.exec(cv)
    b = it.tobool(it.rval(c)) if c is not None else TRUE
    if not it.branch(b): return True
    try: it.exec(body)
    except sym._Cnt: pass
    except sym._Brk: return True
    if inc: it.eval(inc)
    it.loop_end(lf)
    it.obligation('loop invariant is preserved', I())
    raise sym._Prune()
def inductive_range(it, s, r):
    inv = getattr(it, 'loop_inv', None)
    if inv is None: return NotImplemented
    if not isinstance(r, Vec) or r.items is not None: return NotImplemented
    ids = written_ids(s['b']); ids.discard(s['var']['id'])
    n = it.vec_len(r)
    st = LoopState(); fr = it.frame()
    cells = [fr.env[d] for d in ids if d in fr.env]
    st.cells, st.vecs, st.ints = cells, [x for x in cells if isinstance(x.v, Vec)], [x for x in cells if z3.is_bv(x.v)]
    st.index = bv(0); st.src = r
    it.obligation('loop invariant holds initially', inv(it, st))
    k = z3.Const(it.newname('k'), BV64)
    lf = it.loop_begin(_havoc(it, ids) + ([it.vec_at(r, k)] if ty(s['var']['t']).ref == '&&' or not ty(s['var']['t']).const else []), k)
    st.index = k
    it.assume(z3.ULE(k, n)); it.assume(inv(it, st))
    if not it.branch(z3.ULT(k, n)): return True
    try: it._iter_one(s, it.vec_at(r, k))
    except sym._Brk: return True
    it.loop_end(lf)
    st.index = k + 1
    it.obligation('loop invariant is preserved', inv(it, st))
    raise sym._Prune()

# ------------------------------------------------------------------ cloning
def clone_result(it, src):
    """value of a clone of the object in cell src (contract CLONE)"""
    v = src.v
    if isinstance(v, Rec) and v.term is not None and not v.dirty:
        r = Rec(v.cls, v.term, v.exact)
        return r
    return it.copyval(v)
def clone_contracts(cx, own):
    con = {}
    for i, f in cx.P.F.items():
        c = f.get('cls')
        if f.get('ctor') and len(f['params']) == 2 and ty(f['params'][0]['t']).base == 'takatori::util::clone_tag_t' and c in cx._nodeset() and c != own:
            def h(it, call, c=c):
                r = clone_result(it, call.args[1]); r.exact = True
                return r
            con[i] = h
        if f['qn'].startswith(NS + 'common::clone_vector') or f['qn'].startswith(NS + 'common::to_vector'):
            def h(it, call, i=i):
                if i == own: return NotImplemented
                v = call.args[0].v if isinstance(call.args[0], Cell) else call.args[0]
                if v.items is not None:
                    if f['qn'].endswith('clone_vector'): return it.copyval(v)
                    return NotImplemented
                r = Vec(v.et, v.term, None, 'std::vector')
                if v.kind == 'std::initializer_list':
                    r = Vec(ty(it.p.F[i]['ret']).args[0], v.term, None, 'std::vector')
                if ty(it.p.F[i]['params'][0]['t']).ref == '&&': it.moveout(call.args[0])
                return r
            con[i] = h
        if f.get('cls', '').startswith(NS + 'common::clone_wrapper<std::vector<') and f['name'] == 'clone' and i != own:
            def h(it, call):
                v = it.get_field(call.this.v, 'element_').v
                if v.items is not None: return it.copyval(v)
                return Vec(v.et, v.term, None, 'std::vector')
            con[i] = h
    return con
def clone_hooks(cx):
    def virtual(it, e, o, args):
        if e['qn'].endswith('::clone') and not args:
            return Ptr(FALSE, Cell(clone_result(it, o), o.v.cls, 'clone'))
        return NotImplemented
    return {'virtual': virtual}
def fresh_of(cx, it, c, name='a'):
    a = Cell(Rec(c, z3.Const(name, U), True), c, 'ref')
    ks = cx.static_tags.get(c)
    if ks and len(ks) > 1 and c in cx.tags and 'body' in cx.P.F[cx.tags[c]]:
        # class invariant established by every constructor (contract CTOR): the kind is one the class represents
        k = it.call(cx.tags[c], a, [])
        it.assume(z3.Or([k == v for v in ks]))
    return a
def owned_cells(v, out=None, depth=0):
    """cells reachable through ownership (unique_ptr, vectors, optionals, fields)"""
    out = [] if out is None else out
    if depth > 8: return out
    if isinstance(v, Cell): v = v.v
    if isinstance(v, Rec):
        for c in v.f.values(): owned_cells(c, out, depth + 1)
    elif isinstance(v, Ptr) and v.kind == 'std::unique_ptr' and v.cell is not None:
        out.append(v.cell); owned_cells(v.cell, out, depth + 1)
    elif isinstance(v, Vec) and v.items is not None:
        for c in v.items: owned_cells(c, out, depth + 1)
    elif isinstance(v, Opt) and v.cell is not None: owned_cells(v.cell, out, depth + 1)
    return out
def clone_units(cx):
    us = []; P = cx.P
    for c in cx.concrete + cx.units + sorted(c for c in P.R if c.startswith(NS + 'common::regioned<')):
        r = P.R[c]
        for m in r['methods']:
            f = P.F.get(m['id'])
            if not f or 'body' not in f: continue
            isclone = m['n'] == 'clone' and not m['params']
            istag = m.get('ctor') and len(m['params']) == 2 and ty(m['params'][0]).base == 'takatori::util::clone_tag_t'
            iscopy = m.get('ctor') and f.get('copy')
            if not (isclone or istag or iscopy): continue
            moved = (isclone and m.get('rq') == '&&') or (istag and ty(m['params'][1]).ref == '&&')
            con = clone_contracts(cx, c); hk = clone_hooks(cx)
            def t_clone(it, c=c, i=m['id'], isclone=isclone, istag=istag, moved=moved):
                a = fresh_of(cx, it, c)
                if isclone:
                    p = it.call(i, a, [])
                    it.obligation('clone() does not return null', z3.Not(p.null))
                    res = p.cell
                elif istag:
                    tag = Opq(z3.Const('clone_tag', U), 'takatori::util::clone_tag_t')
                    res = Cell(it.construct_rec(c, i, [Cell(tag), a]), c)
                else:
                    res = Cell(it.construct_rec(c, i, [a]), c)
                it.obligation('the clone has the same dynamic type', z3.BoolVal(isinstance(res.v, Rec) and res.v.cls == c))
                it.obligation('the clone is a different object', z3.BoolVal(res is not a))
                ref = fresh_of(cx, it, c)
                for n, ft, dc, nd in P.fields(c):
                    x, y = it.field(res.v, n, ft, dc), it.field(ref.v, n, ft, dc)
                    it.obligation('the clone carries the same ' + ('source region' if ty(ft).base == REG else 'attribute ' + n.rstrip('_')), it.same(x, y))
                if not moved:
                    for n, ft, dc, nd in P.fields(c):
                        it.obligation('the source is unchanged: ' + n.rstrip('_'), it.same(it.field(a.v, n, ft, dc), it.field(ref.v, n, ft, dc)))
                    ida = {id(x) for x in owned_cells(a)}
                    sh = [x for x in owned_cells(res) if id(x) in ida]
                    it.obligation('the clone shares no owned child with its source', z3.BoolVal(not sh))
            kind = 'clone' if isclone else ('clone_tag ctor' if istag else 'copy ctor')
            us.append(Unit('CLONE(%s, %s%s)' % (short(c), kind, ' &&' if moved else ''), f['loc'], t_clone, con, hk, replay=c))
    us += vector_clone_units(cx)
    return us
def vector_axioms():
    u = z3.Const('u!', U)
    return [z3.ForAll([u], z3.Implies(isnull(u), u == NULLU))]
def vector_clone_units(cx):
    us = []; P = cx.P
    for i, f in sorted(P.F.items()):
        isv = f['qn'].startswith(NS + 'common::clone_vector') or f['qn'].startswith(NS + 'common::to_vector')
        isw = f['name'] == 'clone' and f.get('cls', '').startswith(NS + 'common::clone_wrapper<std::vector<')
        iso = f['qn'].startswith(NS + 'common::clone_optional')
        if not (isv or isw or iso) or 'body' not in f: continue
        pt = None if isw else f['params'][0]['t']
        if iso:
            def t_opt(it, i=i, pt=pt):
                src = Cell(it.from_term(ty(pt).base, z3.Const('src', U)), pt)
                ref = Cell(it.from_term(ty(pt).base, z3.Const('src', U)), pt)
                r = Cell(it.call(i, None, [src]))
                it.obligation('a cloned optional has the same value', it.same(r, ref))
            us.append(Unit('CLONE-OPT(%s)' % short(pt)[:100], f['loc'], t_opt, clone_contracts(cx, i), clone_hooks(cx), replay='optional')); continue
        def t_vec(it, i=i, pt=pt, isw=isw):
            if isw:
                cls = P.F[i]['cls']; vt = P.fields(cls)[0][1]; et = ty(vt).args[0]
                this = Cell(Rec(cls, z3.Const('w', U), True), cls)
                src = it.get_field(this.v, 'element_'); term = src.v.term; args = []
            else:
                vt = ty(pt).base; et = ty(vt).args[0]; this = None
                term = z3.Const('src', U)
                src = Cell(Vec(et, term, None, ty(vt).name), vt); args = [src if ty(pt).ref else src.v]
            n = vlen(term); j = z3.Const('j!', BV64)
            it.vec_quant = True; it.null_axiom = True
            ret = ty(P.F[i]['ret']).args[0]
            def done(v, k): return z3.And(vlen(v) == k, z3.ForAll([j], z3.Implies(z3.ULT(j, k), velem(v, j) == velem(term, j))))
            def inv(it, st):
                rs = [x for x in st.vecs if it is not None]
                if len(rs) != 1:
                    if not rs and pt and ty(pt).ref == '&&': return z3.BoolVal(True)
                    raise Unsupported('map loop without a single result')
                return z3.And(z3.ULE(st.index, n), done(it.vec_term(rs[0].v), st.index))
            it.loop_inv = inv
            r = it.call(i, this, args)
            v = r.v if isinstance(r, Cell) else r
            it.obligation('the cloned vector has the same length and equal elements, in order', done(it.vec_term(v), n))
        us.append(Unit('CLONE-VEC(%s)' % (short(pt)[:100] if pt else short(f['cls'])[:100]), f['loc'], t_vec, clone_contracts(cx, i), dict(clone_hooks(cx), loop=inductive_range, genloop=inductive_loop), replay='vector', facts=vector_axioms()))
    return us

# ------------------------------------------------------------------ construction and access
def accessors(cx, cls, name):
    """(const accessor id, mutable accessor id) of an attribute"""
    con = mut = None
    for c in cx.P.bases(cls):
        r = cx.P.R.get(c)
        if not r: continue
        for m in r['methods']:
            if m['n'] == name and not m['params'] and m['id'] in cx.P.F and 'body' in cx.P.F[m['id']]:
                if m.get('const'): con = con or m['id']
                else: mut = mut or m['id']
        if con or mut: break
    return con, mut
def arg_matches(it, x, y):
    """formula: attribute y (as read back) is the value passed as argument x"""
    if isinstance(x, Cell): x = x.v
    if isinstance(y, Cell): y = y.v
    if isinstance(x, Rec) and x.cls.startswith('takatori::util::rvalue_reference_wrapper'): x = it.get_field(x, 'ptr_').v.cell.v
    if z3.is_expr(x) and z3.is_expr(y) and z3.is_bool(x) and z3.is_bv(y) and y.size() == 32:   # bool given for a truth value
        kinds = {n: v for n, v in it.p.E[NS + 'literal::boolean_kind']['items']}
        return y == z3.If(x, bv(kinds['true_'], 32), bv(kinds['false_'], 32))
    w = y.cell if isinstance(y, (Ptr, Opt)) else None
    w = w.v if isinstance(w, Cell) else None
    xr = x.cell.v if isinstance(x, Ptr) and x.cell is not None else x
    if isinstance(w, Rec) and w.term is None and (isinstance(xr, Vec) or isinstance(xr, Rec) and xr.cls not in it.p.bases(w.cls) and w.cls not in it.p.bases(xr.cls)):
        # the argument is wrapped into a new child node
        cs = []
        for n, ft, dc, nd in it.p.fields(w.cls):
            try: cs.append(arg_matches(it, x, w.f[n]))
            except Unsupported: pass
        return z3.And(z3.Not(y.null) if isinstance(y, Ptr) else y.has, z3.Or([FALSE] + cs))
    if isinstance(x, Ptr) and isinstance(y, Ptr): 
        return it.same(Ptr(x.null, x.cell), Ptr(y.null, y.cell))
    if isinstance(y, Ptr):
        if y.cell is None: return FALSE
        if isinstance(x, Opt):
            inner = arg_matches(it, x.cell, y) if x.cell is not None else FALSE
            return z3.Or(z3.And(z3.Not(x.has), y.null), z3.And(x.has, inner))
        return z3.And(z3.Not(y.null), it.same(x, y.cell))
    if isinstance(y, Opt) and isinstance(x, Ptr):
        return z3.Or(z3.And(x.null, z3.Not(y.has)), z3.And(z3.Not(x.null), y.has, it.same(x.cell, y.cell))) if y.cell is not None else x.null
    if isinstance(y, Opt) and not isinstance(x, Opt):
        return z3.And(y.has, arg_matches(it, x, y.cell)) if y.cell is not None else FALSE
    if isinstance(y, Rec) and y.cls.startswith(NS + 'common::regioned<') and not (isinstance(x, Rec) and x.cls == y.cls):
        return arg_matches(it, x, it.get_field(y, 'value_'))
    if isinstance(y, Rec) and y.cls.startswith(NS + 'common::clone_wrapper<'):
        return arg_matches(it, x, it.get_field(y, 'element_'))
    return it.same(x, y)
PARAM_ACCESSOR = {(NS + 'type::simple', 'type_kind'): 'node_kind', (NS + 'name::simple', 'kind'): 'identifier_kind'}
def ctor_units(cx):
    us = []; P = cx.P
    for c in cx.nodes + cx.units:
        r = P.R[c]
        own = cx.static_tags.get(c)
        for m in r['methods']:
            f = P.F.get(m['id'])
            if not f or not f.get('ctor') or 'body' not in f or f.get('copy') or f.get('move') or not f['params'] or r['abstract']: continue
            if ty(f['params'][0]['t']).base == 'takatori::util::clone_tag_t': continue
            def t_ctor(it, c=c, i=m['id'], f=f, own=own):
                args, saved = [], []
                for k, p in enumerate(f['params']):
                    nm = 'arg:' + (p['n'] or str(k))
                    t = ty(p['t'])
                    def mk():
                        v = it.symval(p['t'].rstrip('& ').strip() if t.ref else p['t'], nm)
                        return v
                    v, ref = mk(), mk()
                    cell = Cell(v, p['t'], nm); it._own(v, cell)
                    args.append(cell if t.ref else v); saved.append(Cell(ref, p['t']))
                multi = own and len(own) > 1
                kindarg = None
                if multi:
                    et = ty(P.F[cx.tags[c]]['ret']).base
                    for p, s in zip(f['params'], saved):
                        pt = ty(p['t'])
                        if pt.base == et: kindarg = s.v
                        elif isinstance(s.v, Rec) and pt.name == NS + 'common::regioned' and pt.args[0] == et: kindarg = it.get_field(s.v, 'value_').v
                inset = z3.Or([kindarg == k for k in own]) if kindarg is not None else None
                if c == NS + 'statement::privilege_user' and len(f['params']) == 2 and f['params'][0]['n'] == 'user_kind':
                    kv = it.get_field(saved[0].v, 'value_').v if isinstance(saved[0].v, Rec) else saved[0].v
                    inset = kv != dict(P.E[NS + 'statement::privilege_user_kind']['items'])['identifier']    # documented
                try: res = Cell(it.construct_rec(c, i, args), c)
                except sym._Throw as t:
                    if inset is None or t.t != 'std::invalid_argument': raise
                    it.obligation('a constructor rejects only kinds the class does not represent', z3.Not(inset)); return
                if inset is not None: it.obligation('a constructed object has a kind the class represents', inset)
                for p, s in zip(f['params'], saved):
                    if ty(p['t']).base == 'std::nullptr_t':
                        kinds = dict(P.E[NS + 'literal::boolean_kind']['items'])
                        it.obligation('null constructs the unknown truth value', it.get_field(res.v, 'value_').v == kinds['unknown']); continue
                    con, mut = accessors(cx, c, PARAM_ACCESSOR.get((c, p['n']), p['n']))
                    if not con and not mut: raise Unsupported('no accessor for constructor argument ' + p['n'])
                    got = it.call(con or mut, res, [])
                    it.obligation('constructor argument "%s" is what the accessor returns' % p['n'], arg_matches(it, s, got))
            us.append(Unit('CTOR(%s, %s)' % (short(c), ', '.join(p['n'] for p in f['params'])), f['loc'], t_ctor, clone_contracts(cx, None), clone_hooks(cx), replay=c))
    for c in cx.nodes + cx.units:
        seen = set()
        for m in P.R[c]['methods']:
            n = m['n']
            if n in seen or m.get('ctor') or m.get('dtor') or m['params']: continue
            seen.add(n)
            con = [x for x in P.R[c]['methods'] if x['n'] == n and not x['params'] and x.get('const')]
            mut = [x for x in P.R[c]['methods'] if x['n'] == n and not x['params'] and not x.get('const')]
            if len(con) != 1 or len(mut) != 1 or not all(x['id'] in P.F and 'body' in P.F[x['id']] for x in con + mut): continue
            if n == 'clone': continue
            rt = ty(P.F[mut[0]['id']]['ret'])
            def t_acc(it, c=c, a=con[0]['id'], b=mut[0]['id'], n=n, rt=rt):
                o = fresh_of(cx, it, c); o.v.exact = True
                x, y = it.call(a, o, []), it.call(b, o, [])
                if rt.ref:
                    it.obligation('read-only and mutable access to "%s" reach the same attribute' % n, z3.BoolVal(x is y) if isinstance(x, Cell) else it.same(x, y))
                elif isinstance(x, Ptr):
                    it.obligation('read-only and mutable access to "%s" reach the same attribute' % n, z3.And(x.null == y.null, z3.BoolVal(x.cell is y.cell)))
                else: it.obligation('read-only and mutable access to "%s" agree' % n, it.same(x, y))
            us.append(Unit('ACC(%s, %s)' % (short(c), n), P.F[con[0]['id']]['loc'], t_acc, {}, clone_hooks(cx), replay=c))
            # distinct attributes do not alias
        def t_alias(it, c=c):
            o = fresh_of(cx, it, c); cells = {}
            for n in attribute_names(cx, c):
                con, mut = accessors(cx, c, n)
                if con and ty(P.F[con]['ret']).ref: cells[n] = it.call(con, o, [])
            ns = sorted(cells)
            ok = [(x, y) for i, x in enumerate(ns) for y in ns[:i] if cells[x] is cells[y]]
            it.obligation('different accessors reach different attributes' + (' (%s)' % ok[0][0] if ok else ''), z3.BoolVal(not ok))
        if not P.R[c]['abstract'] and len(attribute_names(cx, c)) > 1: us.append(Unit('ALIAS(%s)' % short(c), P.R[c].get('loc', ''), t_alias, {}, clone_hooks(cx), replay=c))
    return us
DEFAULT = {(NS + 'name::simple', 'identifier_kind_'): (NS + 'name::identifier_kind', 'regular'), (NS + 'scalar::value_constructor', 'operator_kind_'): (NS + 'scalar::value_constructor_kind', 'row'),
    (NS + 'statement::privilege_user', 'user_kind_'): (NS + 'statement::privilege_user_kind', 'identifier')}     # documented defaults
def absent(it, v, c, n):
    """formula: attribute value v is what an attribute that was not given is (None: no claim)"""
    if isinstance(v, Cell): v = v.v
    if isinstance(v, Ptr): return v.null
    if isinstance(v, Opt): return z3.Not(v.has)
    if isinstance(v, Vec): return z3.BoolVal(len(v.items) == 0) if v.items is not None else vlen(v.term) == 0
    if isinstance(v, Rec) and v.cls == REG: return z3.Or(it.get_field(v, 'begin').v == -1, it.get_field(v, 'end').v == -1)
    if isinstance(v, Rec) and v.cls.startswith(NS + 'common::clone_wrapper<'): return absent(it, it.get_field(v, 'element_'), c, n)
    if isinstance(v, Str): return v.term == strlit(b'')
    if isinstance(v, Rec) and v.cls.startswith(NS + 'common::regioned<'): return absent(it, it.get_field(v, 'value_'), c, n)
    if z3.is_bool(v): return z3.Not(v)
    if (c, n) in DEFAULT and z3.is_bv(v):
        en, item = DEFAULT[(c, n)]; vs = dict(it.p.E[en]['items'])
        if item in vs: return v == vs[item]
    return None
def default_units(cx):
    """attributes a constructor is not given are absent"""
    us = []; P = cx.P
    for c in cx.concrete + cx.units:
        own = cx.static_tags.get(c)
        for m in P.R[c]['methods']:
            f = P.F.get(m['id'])
            if not f or not f.get('ctor') or 'body' not in f or f.get('copy') or f.get('move'): continue
            if f['params'] and ty(f['params'][0]['t']).base == 'takatori::util::clone_tag_t': continue
            given = {p['n'] for p in f['params']} | {PARAM_ACCESSOR.get((c, p['n']), p['n']) for p in f['params']}
            if '' in given: continue
            rest = [(n, ft, dc) for n, ft, dc, nd in P.fields(c) if n.rstrip('_') not in given and (dc, n) not in CONDITIONAL]
            if not rest: continue
            def t_rest(it, c=c, i=m['id'], f=f, own=own, rest=rest):
                args = []
                for k, p in enumerate(f['params']):
                    t = ty(p['t']); nm = 'arg:' + (p['n'] or str(k))
                    v = it.symval(p['t'].rstrip('& ').strip() if t.ref else p['t'], nm)
                    cell = Cell(v, p['t'], nm); it._own(v, cell); args.append(cell if t.ref else v)
                try: res = Cell(it.construct_rec(c, i, args), c)
                except sym._Throw: return
                for n, ft, dc in rest:
                    a = absent(it, it.field(res.v, n, ft, dc), c, n)
                    if a is not None: it.obligation('attribute "%s", not given, is absent' % n.rstrip('_'), a)
            us.append(Unit('CTOR-REST(%s, %s)' % (short(c), ', '.join(p['n'] for p in f['params'])), f['loc'], t_rest, clone_contracts(cx, None), clone_hooks(cx), replay=c))
    return us
def derived_units(cx):
    """accessors that compute their answer from attributes: is_flexible_X(), is_varying(), last_name(), qualifiers; delimited()"""
    us = []; P = cx.P
    for c in cx.concrete:
        fields = {n.rstrip('_'): (n, ft, dc) for n, ft, dc, nd in P.fields(c)}
        for m in P.R[c]['methods']:
            f = P.F.get(m['id'])
            if not f or 'body' not in f or m['params'] or m.get('ctor'): continue
            n = m['n']
            if n.startswith('is_flexible_') and n[12:] in fields:
                def t(it, c=c, i=m['id'], fl=fields[n[12:]], n=n):
                    o = fresh_of(cx, it, c); v = it.field(o.v, *fl).v
                    if not isinstance(v, Opt): raise Unsupported('not optional')
                    x = v.cell.v
                    if isinstance(x, Rec): x = it.get_field(x, 'value_').v
                    it.obligation('%s() holds exactly for the flexible value' % n, it.tobool(it.call(i, o, [])) == z3.And(v.has, x == -1))
            elif n == 'is_varying' and c in cx.tags:
                def t(it, c=c, i=m['id']):
                    o = fresh_of(cx, it, c); k = it.val(it.call(cx.tags[c], o, []))
                    en = ty(P.F[cx.tags[c]]['ret']).base
                    it.obligation('is_varying() holds exactly for the varying kinds', it.tobool(it.call(i, o, [])) == z3.Or([k == v for nm, v in P.E[en]['items'] if nm.endswith('_varying')]))
            elif n == 'last_name' and c == NS + 'name::simple':
                def t(it, c=c, i=m['id']):
                    o = fresh_of(cx, it, c); it.obligation('the last name of a simple name is itself', z3.BoolVal(it.call(i, o, []) is o))
            elif n == 'last_name' and 'last' in fields:
                def t(it, c=c, i=m['id'], fl=fields['last']):
                    o = fresh_of(cx, it, c); p = it.field(o.v, *fl).v; it.assume(z3.Not(p.null))
                    it.obligation('the last name of a qualified name is its last part', z3.BoolVal(it.call(i, o, []) is p.cell))
            elif n == 'optional_qualifier':
                def t(it, c=c, i=m['id'], fl=fields.get('qualifier')):
                    o = fresh_of(cx, it, c); r = it.val(it.call(i, o, []))
                    if fl is None: it.obligation('a name without qualifier reports none', r.null); return
                    p = it.field(o.v, *fl).v
                    it.obligation('the qualifier is reported', z3.And(r.null == p.null, z3.Or(p.null, z3.BoolVal(r.cell is p.cell))))
            elif n == 'delimited' and 'identifier_kind' in fields:
                def t(it, c=c, i=m['id'], fields=fields):
                    o, ref = fresh_of(cx, it, c), fresh_of(cx, it, c); r = it.call(i, o, [])
                    it.obligation('delimited() returns its object', z3.BoolVal(r is o))
                    for nm, fl in fields.items():
                        if nm == 'identifier_kind': it.obligation('delimited() makes the name a delimited one', it.field(o.v, *fl).v == dict(P.E[NS + 'name::identifier_kind']['items'])['delimited'])
                        else: it.obligation('delimited() keeps the attribute ' + nm, it.same(it.field(o.v, *fl), it.field(ref.v, *fl)))
            else: continue
            us.append(Unit('DERIVED(%s, %s%s)' % (short(c), n, ' &&' if m.get('rq') == '&&' else ''), f['loc'], t, {}, {}, replay=c))
    for i, f in sorted(P.F.items()):
        if f['qn'] == NS + 'name::name::last_identifier' and 'body' in f:
            def t(it, i=i):
                o = Cell(Rec(NS + 'name::name', z3.Const('a', U)), NS + 'name::name')
                l = Cell(Rec(NS + 'name::simple', z3.Const('last', U), True), NS + 'name::simple')
                it.last = (o, l)
                r = it.call(i, o, [])
                it.obligation('the last identifier is the identifier of the last name', z3.BoolVal(r is it.get_field(l.v, 'identifier_')))
            def virt(it, e, o, args):
                if e['qn'].endswith('::last_name') and o is it.last[0]: return it.last[1]
                return NotImplemented
            us.append(Unit('DERIVED(name::name, last_identifier)', f['loc'], t, {}, {'virtual': virt}, replay=NS + 'name::simple'))
    return us
def attribute_names(cx, c):
    """names of the attributes of a class: its fields, without the trailing underscore"""
    out = []
    for n, ft, dc, nd in cx.P.fields(c):
        nm = n.rstrip('_')
        if accessors(cx, c, nm) != (None, None): out.append(nm)
    return out

# ------------------------------------------------------------------ kinds and dispatch
def category_of(cx, c):
    """most general abstract class of c that declares node_kind()"""
    for b in cx.P.bases(c):
        r = cx.P.R.get(b)
        if r and b != c and any(m['n'] == 'node_kind' for m in r['methods']): return b
    return None
def kind_units(cx):
    us = []; P = cx.P
    cats = {}
    for c in cx.concrete:
        cat = category_of(cx, c)
        if cat: cats.setdefault(cat, []).append(c)
    for cat, cs in sorted(cats.items()):
        for c in cs:
            if c not in cx.tags: continue
            en = ty(P.F[cx.tags[c]]['ret']).base
            def t_kind(it, c=c, en=en):
                a = fresh_of(cx, it, c)
                k = it.call(cx.tags[c], a, [])
                ks = cx.static_tags.get(c) or cx.kinds_of.get(c)
                if not ks: raise Unsupported('class without tags')
                it.obligation('node_kind() is one of the kinds the class declares', z3.Or([k == v for v in ks]))
                for v in ks:
                    t = cx.class_of.get((en, v))
                    if t: it.obligation('the type table maps the kind %d to this class' % v, z3.BoolVal(t == c))
            us.append(Unit('KIND(%s)' % short(c), P.F[cx.tags[c]]['loc'], t_kind, {}, {}, replay=c))
            def t_dist(it, c=c, cs=cs, en=en):
                mine = set(cx.static_tags.get(c, []))
                it.obligation('the class represents some kind', z3.BoolVal(bool(mine)))
                for d in cs:
                    if d != c: it.obligation('no kind is shared with ' + short(d), z3.BoolVal(not (mine & set(cx.static_tags.get(d, [])))))
                for (e, v), t in cx.class_of.items():
                    if t == c and e == en: it.obligation('the class represents kind %d the type table gives it' % v, z3.BoolVal(v in mine))
            us.append(Unit('KIND-DISTINCT(%s)' % short(c), P.R[c].get('loc', ''), t_dist, {}, {}, kind='lemma', replay=c))
    probes = {i: f for i, f in P.F.items() if f['qn'] == 'verif::probe::operator()'}
    con = {}
    for i, f in probes.items():
        def h(it, call, c=ty(f['params'][0]['t']).base, const=ty(f['params'][0]['t']).const):
            it.path.events.append((c, call.args[0])); return bv(0, 32)
        con[i] = h
    for i, f in sorted(P.F.items()):
        if not re.match(r'^drivem?_(?!eq_|ne_)', f['name']): continue
        base = ty(f['params'][0]['t']).base
        def t_disp(it, i=i, base=base, f=f):
            o = Cell(Rec(base, z3.Const('a', U)), base)
            kt = [P.F[cx.tags[c]]['ret'] for c in cats.get(base, []) if c in cx.tags][0]
            kind = it.symval(kt, 'virt.node_kind', z3.Const('a', U))
            claimed = {k: c for c in cats.get(base, []) for k in cx.static_tags.get(c, [])}
            if not claimed: raise Unsupported('no classes in category')
            try: it.call(i, None, [o])
            except sym._Throw as t:
                it.obligation('dispatch handles the kind of every class', z3.And([kind != k for k in claimed])); return
            ev = it.path.events
            it.obligation('dispatch calls back exactly once', z3.BoolVal(len(ev) == 1))
            if len(ev) == 1:
                it.obligation('dispatch calls back with the class of the object (%s)' % short(ev[0][0]), z3.Or([FALSE] + [kind == k for k, c in claimed.items() if c == ev[0][0]]))
                it.obligation('dispatch passes the object itself', z3.BoolVal(ev[0][1] is o))
        us.append(Unit('DISPATCH(%s%s)' % (short(base), '' if ty(f['params'][0]['t']).const else ', mutable'), f['loc'], t_disp, con, {'virtual': kind_virtual}, replay=base))
    return us
def kind_virtual(it, e, o, args):
    return NotImplemented

# ------------------------------------------------------------------ serialization
ACC = 'takatori::serializer::object_acceptor'
def enumname(en, v): return UF('enumname:' + en, v.sort(), U)(v)
def is_enum_name_fn(P, f): return f['name'] == 'to_string_view' and len(f['params']) == 1 and ty(f['params'][0]['t']).base in P.E
def ser_contracts(cx, own):
    con = {}; P = cx.P
    for i, f in P.F.items():
        if i == own: continue
        if is_enum_name_fn(P, f):
            def h(it, call, en=ty(f['params'][0]['t']).base):
                v = call.args[0].v if isinstance(call.args[0], Cell) else call.args[0]
                return Str(enumname(en, v))
            con[i] = h
        if f['name'] == 'operator<<' and f['params'] and ty(f['params'][0]['t']).base == ACC and f['qn'].startswith('mizugaki::'):
            def h(it, call):
                it.path.events.append(('value', call.args[1])); return call.args[0]
            con[i] = h
        if f['name'] == 'operator()' and f.get('cls', '').startswith(NS + 'common::serializers::impl::element_serializer<std::vector<'):
            def h(it, call):
                it.path.events.append(('vec', call.args[1])); return VOID
            con[i] = h
    return con
def ser_virtual(it, e, o, args):
    if e['qn'].startswith(ACC + '::'):
        it.path.events.append((e['qn'].rsplit('::', 1)[1],) + tuple(a.v if isinstance(a, Cell) else a for a in args)); return VOID
    if e['qn'].endswith('::serialize'):
        it.path.events.append(('value', o)); return VOID
    return NotImplemented
def ev_tree(ev):
    """parse an event trace into (list of values); a value is (kind, payload).  Returns None if it is not well nested."""
    pos = [0]
    def value():
        if pos[0] >= len(ev): return None
        k = ev[pos[0]]
        if k[0] == 'struct_begin':
            pos[0] += 1; props = []
            while pos[0] < len(ev) and ev[pos[0]][0] == 'property_begin':
                nm = ev[pos[0]][1]; pos[0] += 1; vs = []
                while pos[0] < len(ev) and ev[pos[0]][0] != 'property_end':
                    v = value()
                    if v is None: return None
                    vs.append(v)
                if pos[0] >= len(ev): return None
                pos[0] += 1; props.append((nm, vs))
            if pos[0] >= len(ev) or ev[pos[0]][0] != 'struct_end': return None
            pos[0] += 1
            return ('struct', props)
        if k[0] == 'array_begin':
            pos[0] += 1; vs = []
            while pos[0] < len(ev) and ev[pos[0]][0] != 'array_end':
                v = value()
                if v is None: return None
                vs.append(v)
            if pos[0] >= len(ev): return None
            pos[0] += 1
            return ('array', vs)
        if k[0] in ('struct_end', 'array_end', 'property_begin', 'property_end'): return None
        pos[0] += 1
        return k
    out = []
    while pos[0] < len(ev):
        v = value()
        if v is None: return None
        out.append(v)
    return out
def content_is(it, vs, v, vt):
    """formula: the emitted values vs are the contents of attribute value v of type vt"""
    if isinstance(v, Cell): v, vt = v.v, vt or v.t
    t = ty(vt)
    none = z3.BoolVal(len(vs) == 0)
    if isinstance(v, Ptr):
        if v.cell is None: return none
        return z3.Or(z3.And(v.null, none), z3.And(z3.Not(v.null), content_is(it, vs, v.cell, t.args[0] if t.args else t.base)))
    if isinstance(v, Opt):
        if v.cell is None: return none
        return z3.Or(z3.And(z3.Not(v.has), none), z3.And(v.has, content_is(it, vs, v.cell, t.args[0])))
    if isinstance(v, Rec) and v.cls.startswith(NS + 'common::regioned<'): return content_is(it, vs, it.get_field(v, 'value_'), t.args[0] if t.args else ty(v.cls).args[0])
    if isinstance(v, Rec) and v.cls.startswith(NS + 'common::clone_wrapper<'): return content_is(it, vs, it.get_field(v, 'element_'), ty(v.cls).args[0])
    if isinstance(v, Rec) and v.cls == REG:
        b, e = it.get_field(v, 'begin').v, it.get_field(v, 'end').v
        if not vs: return z3.Or(b == -1, e == -1)
        if len(vs) != 1 or vs[0][0] != 'struct': return FALSE
        d = {n.lit.rstrip(b'\0'): x for n, x in vs[0][1]}
        if set(d) != {b'begin', b'end'} or len(vs[0][1]) != 2 or any(len(x) != 1 or x[0][0] != 'unsigned_integer' for x in d.values()): return FALSE
        return z3.And(d[b'begin'][0][1] == b, d[b'end'][0][1] == e)
    if len(vs) != 1: return FALSE
    k = vs[0]
    if isinstance(v, Vec): return it.same(k[1], v) if k[0] == 'vec' else FALSE
    if isinstance(v, Rec): return it.same(k[1], v) if k[0] == 'value' else FALSE
    if isinstance(v, Str): return it.same(k[1], v) if k[0] == 'string' else FALSE
    if z3.is_bool(v): return it.tobool(k[1]) == v if k[0] == 'boolean' else FALSE
    if t.base in it.p.E: return k[1].term == enumname(t.base, v) if k[0] == 'string' else FALSE
    if z3.is_bv(v) and v.size() == 64:
        if k[0] == 'string': return z3.And(v == -1, k[1].term == strlit(b'*'))
        return z3.And(v != -1, k[1] == v) if k[0] == 'unsigned_integer' else FALSE
    if z3.is_bv(v): return k[1] == it.icast(v, vt, 'long') if k[0] == 'integer' else FALSE
    raise Unsupported('serialization of ' + vt)
def ser_units(cx):
    us = []; P = cx.P
    roots = []
    for c in cx.concrete:
        ms = [m for m in P.R[c]['methods'] if m['n'] == 'serialize' and len(m['params']) == 1]
        if ms and ms[0]['id'] in P.F and 'body' in P.F[ms[0]['id']]: roots.append((c, ms[0]['id'], True)); continue
        for i, f in P.F.items():
            if f['name'] == 'operator<<' and len(f['params']) == 2 and ty(f['params'][0]['t']).base == ACC and ty(f['params'][1]['t']).base == c and 'body' in f: roots.append((c, i, False))
    for i, f in P.F.items():
        if f['name'] == 'operator<<' and len(f['params']) == 2 and ty(f['params'][0]['t']).base == ACC and ty(f['params'][1]['t']).base == NS + 'compilation_unit' and 'body' in f: roots.append((NS + 'compilation_unit', i, False))
    for c, i, meth in sorted(roots):
        def t_ser(it, c=c, i=i, meth=meth):
            o = fresh_of(cx, it, c) if c in cx._nodeset() else Cell(Rec(c, z3.Const('a', U), True), c)
            acc = Cell(Rec(ACC, z3.Const('acceptor', U)), ACC)
            if meth: it.call(i, o, [acc])
            else:
                r = it.call(i, None, [acc, o])
                it.obligation('operator<< returns its acceptor', z3.BoolVal(r is acc))
            tree = ev_tree(it.path.events)
            ok = tree is not None and len(tree) == 1 and tree[0][0] == 'struct'
            it.obligation('serialization emits one well-nested struct', z3.BoolVal(bool(ok)))
            if not ok: return
            props = [(n.lit.rstrip(b'\0').decode() if isinstance(n, Str) and n.lit is not None else None, vs) for n, vs in tree[0][1]]
            names = [n for n, vs in props]
            it.obligation('every property is written once', z3.BoolVal(len(set(names)) == len(names) and None not in names))
            d = dict(props); known = set()
            if c in cx.tags:
                en = ty(P.F[cx.tags[c]]['ret']).base
                k = it.call(cx.tags[c], o, [])
                it.obligation('the kind of the node is written', content_is(it, d.get('node_kind', []), k, en)); known.add('node_kind')
            for n, ft, dc, nd in P.fields(c):
                if ty(ft).base == REG: known.add(n.rstrip('_')); continue
                nm = n.rstrip('_')
                et = ty(ft).args[0] if ty(ft).name == NS + 'common::regioned' else ty(ft).base
                if c in cx.tags and et == ty(P.F[cx.tags[c]]['ret']).base and nm not in d: nm = 'node_kind'    # the attribute is the kind
                known.add(nm)
                f = z3.And(z3.BoolVal(nm in d), content_is(it, d.get(nm, []), it.field(o.v, n, ft, dc), ft))
                if (dc, n) in CONDITIONAL:
                    kf, en, item = CONDITIONAL[(dc, n)]
                    kv = it.get_field(o.v, kf).v
                    while isinstance(kv, Rec): kv = it.get_field(kv, 'value_').v
                    f = z3.Or(f, z3.And(kv != dict(P.E[en]['items'])[item], z3.BoolVal(not d.get(nm))))
                if (dc, n) in SER_IGNORED: continue
                it.obligation('attribute "%s" is written with its value' % n.rstrip('_'), f)
            it.obligation('nothing but the attributes is written', z3.BoolVal(set(names) <= known))
        us.append(Unit('SER(%s)' % short(c), P.F[i]['loc'], t_ser, ser_contracts(cx, i), {'virtual': ser_virtual}, replay=c))
    for i, f in sorted(P.F.items()):
        if f['name'] == 'operator()' and f.get('cls', '').startswith(NS + 'common::serializers::impl::element_serializer<std::vector<') and 'body' in f:
            vt = ty(f['params'][1]['t']).base; et = ty(vt).args[0]
            def t_vec(it, i=i, vt=vt, et=et, f=f):
                acc = Cell(Rec(ACC, z3.Const('acceptor', U)), ACC)
                src = Cell(Vec(et, z3.Const('src', U)), vt)
                def loop(it, s, r):
                    """invariant: the values of elements 0..k-1 have been written, in order"""
                    k = z3.Const(it.newname('k'), BV64); before = list(it.path.events)
                    it.obligation('loop runs over the whole vector', z3.BoolVal(isinstance(r, Vec) and r.items is None and r.term.eq(src.v.term)))
                    if it.branch(z3.ULT(k, it.vec_len(r))):
                        el = it.vec_at(r, k); ids = written_ids(s['b']); ids.discard(s['var']['id']); lf = it.loop_begin(_havoc(it, ids), k, ('path',))
                        try: it._iter_one(s, el)
                        except sym._Brk: it.obligation('loop visits every element', FALSE)
                        except sym._Ret: it.obligation('loop visits every element', FALSE); raise
                        it.loop_end(lf)
                        t = ev_tree(it.path.events[len(before):])
                        it.obligation('one iteration writes the element, well nested', FALSE if t is None else content_is(it, t, el, et))
                        raise sym._Prune()
                    ids = written_ids(s['b']); ids.discard(s['var']['id']); _havoc(it, ids)
                    it.path.events[:] = before + [('elements', src)]
                it.hooks = dict(it.hooks, loop=loop)
                it.call(i, Cell(Rec(f['cls'], None, True), f['cls']), [acc, src])
                t = ev_tree(it.path.events)
                it.obligation('a vector is written as one array of its elements', z3.BoolVal(t is not None and len(t) == 1 and t[0][0] == 'array' and len(t[0][1]) == 1 and t[0][1][0][0] == 'elements'))
            us.append(Unit('SER-VEC(%s)' % short(vt)[:100], f['loc'], t_vec, ser_contracts(cx, i), {'virtual': ser_virtual}, replay='vector'))
        if f['name'] == 'operator<<' and len(f['params']) == 2 and ty(f['params'][0]['t']).base == ACC and ty(f['params'][1]['t']).base == NS + 'node' and 'body' in f:
            def t_node(it, i=i):
                acc = Cell(Rec(ACC, z3.Const('acceptor', U)), ACC); o = Cell(Rec(NS + 'node', z3.Const('a', U)), NS + 'node')
                r = it.call(i, None, [acc, o])
                it.obligation('writing a node calls its serialize() once', z3.BoolVal(len(it.path.events) == 1 and it.path.events[0][0] == 'value' and it.path.events[0][1] is o))
                it.obligation('operator<< returns its acceptor', z3.BoolVal(r is acc))
            us.append(Unit('SER-NODE', f['loc'], t_node, ser_contracts(cx, i), {'virtual': ser_virtual}, replay='node'))
    return us
SER_IGNORED = {(NS + 'compilation_unit', 'document_')}   # the source text is not part of the tree

# ------------------------------------------------------------------ enumerations
OSTREAM = 'std::basic_ostream<char, std::char_traits<char>>'
def print_units(cx):
    """printing a value to a stream writes its serialization, to that stream"""
    us = []; P = cx.P
    own = set(cx.nodes) | set(cx.units)
    for i, f in sorted(P.F.items()):
        if f['name'] != 'operator<<' or len(f['params']) != 2 or 'body' not in f or ty(f['params'][0]['t']).base != OSTREAM: continue
        c = ty(f['params'][1]['t']).base
        if c not in own: continue
        def t(it, i=i, c=c):
            out = Cell(Opq(z3.Const('out', U), OSTREAM), OSTREAM)
            o = Cell(Rec(c, z3.Const('a', U)), c)
            made = it.printers = []
            r = it.call(i, None, [out, o])
            it.obligation('operator<< returns its stream', z3.BoolVal(r is out))
            it.obligation('one printer writes to the stream', z3.BoolVal(len(made) == 1 and made[0][0] is out))
            ev = it.path.events
            ok = len(ev) == 1 and ev[0][0] == 'value' and len(ev[0]) == 3 and len(made) == 1
            it.obligation('the value itself is serialized, once', z3.BoolVal(ok and ev[0][1] is o))
            it.obligation('the value is serialized by the printer', z3.BoolVal(ok and ev[0][2].v is made[0][1]))
        con = {}
        for j, g in P.F.items():
            if g.get('cls') == 'takatori::serializer::json_printer' and g.get('ctor') and len(g['params']) == 1:
                def h(it, call):
                    r = Rec('takatori::serializer::json_printer', None, True); it.printers.append((call.args[0], r)); return r
                con[j] = h
            if j != i and g['name'] == 'operator<<' and len(g['params']) == 2 and ty(g['params'][0]['t']).base == ACC:
                def h(it, call):
                    it.path.events.append(('value', call.args[1], call.args[0])); return call.args[0]
                con[j] = h
        def virt(it, e, o, args):
            if e['qn'].endswith('::serialize'):
                it.path.events.append(('value', o, args[0])); return VOID
            return ser_virtual(it, e, o, args)
        us.append(Unit('PRINT(%s)' % short(c), f['loc'], t, con, {'virtual': virt}, replay=c))
    for i, f in sorted(P.F.items()):
        if f['name'] == 'operator<<' and len(f['params']) == 2 and 'body' in f and ty(f['params'][0]['t']).base == ACC and ty(f['params'][1]['t']).base == REG:
            def t(it, i=i, f=f):
                a = Cell(Rec(REG, z3.Const('a', U)), REG); acc = Cell(Rec(ACC, z3.Const('acceptor', U)), ACC)
                ref = Cell(Rec(REG, z3.Const('a', U)), REG)
                r = it.call(i, None, [acc, a if ty(f['params'][1]['t']).ref else a.v])
                it.obligation('operator<< returns its acceptor', z3.BoolVal(r is acc))
                tree = ev_tree(it.path.events)
                it.obligation('serialization is well nested', z3.BoolVal(tree is not None))
                if tree is not None: it.obligation('a region is written with both its ends, an unknown one not at all', content_is(it, tree, ref, REG))
            us.append(Unit('SER(node_region)', f['loc'], t, ser_contracts(cx, i), {'virtual': ser_virtual}, replay='region'))
    return us
def norm(x): return x.lower().replace(' ', '_').strip('_')
def enum_units(cx):
    us = []; P = cx.P
    for i, f in sorted(P.F.items()):
        if not is_enum_name_fn(P, f) or 'body' not in f: continue
        en = ty(f['params'][0]['t']).base
        def t_enum(it, i=i, en=en):
            names = {}
            items = P.E[en]['items']
            v = it.symval(en, 'v')
            r = it.call(i, None, [v])
            lit = r.lit.rstrip(b'\0').decode('latin1') if isinstance(r, Str) and r.lit is not None else None
            it.obligation('the name is a fixed text', z3.BoolVal(lit is not None))
            if lit is None: return
            # the value(s) leading here are exactly the one whose enumerator carries this name
            it.obligation('the name "%s" identifies the value' % lit, z3.Or([FALSE] + [v == x for n, x in items if norm(n) == norm(lit)]))
        us.append(Unit('ENUM(%s)' % short(en), f['loc'], t_enum, {}, {}, replay=en))
        def t_inj(it, i=i, en=en):
            names = []
            for n, x in P.E[en]['items']:
                r = it.call(i, None, [bv(x, it.bvw(en)[0])])
                names.append(r.lit)
            it.obligation('different values have different names', z3.BoolVal(len(set(names)) == len(names) and None not in names))
            vals = [x for n, x in P.E[en]['items']]
            it.obligation('enumerators are different values', z3.BoolVal(len(set(vals)) == len(vals)))
            ns = [norm(n) for n, x in P.E[en]['items']]
            it.obligation('enumerators are told apart by name', z3.BoolVal(len(set(ns)) == len(ns)))
        us.append(Unit('ENUM-INJ(%s)' % short(en), f['loc'], t_inj, {}, {}, kind='lemma', replay=en))
    for i, f in sorted(P.F.items()):
        if f['name'] != 'operator<<' or len(f['params']) != 2 or ty(f['params'][0]['t']).name != 'std::basic_ostream' or 'body' not in f: continue
        en = ty(f['params'][1]['t']).base
        if en not in P.E: continue
        def t_out(it, i=i, en=en):
            o = Cell(Opq(z3.Const('out', U), 'std::basic_ostream'), 'std::ostream'); v = it.symval(en, 'v')
            r = it.call(i, None, [o, v])
            ps = o.v.parts
            it.obligation('the enumerator is printed as its name', ps[0].term == enumname(en, v) if len(ps) == 1 and isinstance(ps[0], Str) else FALSE)
            it.obligation('operator<< returns its stream', z3.BoolVal(r is o))
        us.append(Unit('ENUM-OUT(%s)' % short(en), f['loc'], t_out, ser_contracts(cx, i), {}, replay=en))
    return us

# ------------------------------------------------------------------ regions
def region_units(cx):
    us = []; P = cx.P
    NPOS = bv(-1)
    def reg(it, name):
        r = Rec(REG, z3.Const(name, U)); return Cell(r, REG)
    def be(it, c): return it.get_field(c.v, 'begin').v, it.get_field(c.v, 'end').v
    def valid(it, c):
        b, e = be(it, c); return z3.And(b != NPOS, e != NPOS)
    for i, f in sorted(P.F.items()):
        if 'body' not in f: continue
        if f.get('cls') == REG:
            if f['name'] == 'operator bool':
                def t(it, i=i):
                    a = reg(it, 'a'); r = it.tobool(it.call(i, a, []))
                    it.obligation('a region is valid exactly when both ends are known', r == valid(it, a))
                us.append(Unit('REGION(valid)', f['loc'], t, replay='region'))
            elif f['name'] in ('first', 'last'):
                def t(it, i=i, f=f):
                    a = reg(it, 'a'); r = it.val(it.call(i, a, []))
                    it.obligation('%s() is the %s of the region' % (f['name'], 'begin' if f['name'] == 'first' else 'end'), r == be(it, a)[f['name'] == 'last'])
                us.append(Unit('REGION(%s)' % f['name'], f['loc'], t, replay='region'))
            elif f['name'] == 'size' and not f['params']:
                def t(it, i=i):
                    a = reg(it, 'a'); b, e = be(it, a); it.assume(z3.ULE(b, e))
                    it.obligation('size() is the length of the region', it.val(it.call(i, a, [])) == e - b)
                us.append(Unit('REGION(size)', f['loc'], t, replay='region'))
            elif f['name'] == 'operator()':
                def t(it, i=i):
                    a = reg(it, 'a'); b, e = be(it, a)
                    it.assume(z3.ULE(b, e)); it.assume(e != NPOS)
                    off, ln = z3.Const('off', BV64), z3.Const('len', BV64)
                    it.assume(z3.ULE(off, bv(1 << 62))); it.assume(z3.ULE(e, bv(1 << 62))); it.assume(z3.Or(ln == NPOS, z3.ULE(ln, bv(1 << 62))))
                    r = it.call(i, a, [off, ln]); c = Cell(r, REG) if not isinstance(r, Cell) else r
                    rb, re_ = be(it, c)
                    it.obligation('a sub-region lies inside its region', z3.And(z3.ULE(b, rb), z3.ULE(rb, re_), z3.ULE(re_, e)))
                    it.obligation('a sub-region starts at the offset', z3.Implies(z3.ULE(b + off, e), rb == b + off))
                    it.obligation('a sub-region has the requested length, clipped', z3.Implies(z3.And(z3.ULE(b + off, e), ln != NPOS), re_ == z3.If(z3.ULE(b + off + ln, e), b + off + ln, e)))
                    it.obligation('a sub-region without length extends to the end', z3.Implies(z3.And(z3.ULE(b + off, e), ln == NPOS), re_ == e))
                us.append(Unit('REGION(sub-region)', f['loc'], t, replay='region'))
            elif f.get('ctor') and len(f['params']) == 2 and all(ty(p['t']).base == 'unsigned long' for p in f['params']):
                def t(it, i=i):
                    x, y = z3.Const('x', BV64), z3.Const('y', BV64)
                    c = Cell(it.construct_rec(REG, i, [x, y]), REG); b, e = be(it, c)
                    it.obligation('a region has the given ends', z3.And(b == x, e == y))
                us.append(Unit('REGION(ctor)', f['loc'], t, replay='region'))
        if f['qn'].startswith(NS) and len(f['params']) == 2 and all(ty(p['t']).base == REG for p in f['params']):
            if f['name'] in ('operator==', 'operator!='):
                def t(it, i=i, f=f):
                    a, b = reg(it, 'a'), reg(it, 'b'); (ab, ae), (bb, be_) = be(it, a), be(it, b)
                    args = [x if ty(p['t']).ref else x.v for p, x in zip(f['params'], (a, b))]
                    r = it.tobool(it.call(i, None, args)); s = z3.And(ab == bb, ae == be_)
                    it.obligation('regions are equal exactly when both ends are', r == (s if f['name'] == 'operator==' else z3.Not(s)))
                us.append(Unit('REGION(%s)' % f['name'], f['loc'], t, replay='region'))
            if f['name'] == 'operator|':
                def t(it, i=i, f=f):
                    a, b = reg(it, 'a'), reg(it, 'b'); (ab, ae), (bb, be_) = be(it, a), be(it, b)
                    def join(x, y):
                        args = [c if ty(p['t']).ref else it.copyval(c.v) for p, c in zip(f['params'], (x, y))]
                        r = it.call(i, None, args); return r if isinstance(r, Cell) else Cell(r, REG)
                    va, vb = valid(it, a), valid(it, b)
                    rb, re_ = be(it, join(a, b))
                    umin = lambda x, y: z3.If(z3.ULT(x, y), x, y); umax = lambda x, y: z3.If(z3.UGT(x, y), x, y)
                    it.obligation('the union of valid regions is the smallest region covering both', z3.Implies(z3.And(va, vb), z3.And(rb == umin(ab, bb), re_ == umax(ae, be_))))
                    it.obligation('a region without position does not change the union (left)', z3.Implies(z3.And(z3.Not(va), vb), z3.And(rb == bb, re_ == be_)))
                    it.obligation('a region without position does not change the union (right)', z3.Implies(z3.And(va, z3.Not(vb)), z3.And(rb == ab, re_ == ae)))
                    it.obligation('the union of two regions without position has none', z3.Implies(z3.And(z3.Not(va), z3.Not(vb)), z3.Or(rb == NPOS, re_ == NPOS)))
                    cb, ce = be(it, join(b, a))
                    it.obligation('union is commutative on valid regions', z3.Implies(z3.And(va, vb), z3.And(rb == cb, re_ == ce)))
                    ib, ie = be(it, join(a, a))
                    it.obligation('union is idempotent on valid regions', z3.Implies(va, z3.And(ib == ab, ie == ae)))
                us.append(Unit('REGION(union)', f['loc'], t, replay='region'))
                def t2(it, i=i, f=f):
                    a, b, c = reg(it, 'a'), reg(it, 'b'), reg(it, 'c')
                    def join(x, y):
                        args = [k if ty(p['t']).ref else it.copyval(k.v) for p, k in zip(f['params'], (x, y))]
                        r = it.call(i, None, args); return r if isinstance(r, Cell) else Cell(r, REG)
                    for k in (a, b, c): it.assume(valid(it, k))
                    lb, le = be(it, join(join(a, b), c)); rb, re_ = be(it, join(a, join(b, c)))
                    it.obligation('union is associative on valid regions', z3.And(lb == rb, le == re_))
                us.append(Unit('REGION(union associative)', f['loc'], t2, replay='region'))
    for i, f in sorted(P.F.items()):
        if f['name'] == 'operator()' and f.get('cls', '') == 'std::hash<%s>' % REG and 'body' in f:
            def t(it, i=i, f=f):
                def h(n):
                    a = reg(it, n); o = Cell(Rec(f['cls'], None, True), f['cls'])
                    return a, it.val(it.call(i, o, [a if ty(f['params'][0]['t']).ref else a.v]))
                (a, x), (b, y) = h('a'), h('b'); (ab, ae), (bb, be_) = be(it, a), be(it, b)
                it.obligation('equal regions have equal hash codes', z3.Implies(z3.And(ab == bb, ae == be_), x == y))
            us.append(Unit('REGION(hash)', f['loc'], t, replay='region'))
    def tdef(it):
        c = Cell(it.default_construct(REG), REG); b, e = be(it, c)
        it.obligation('a region that was not given has no position', z3.And(b == NPOS, e == NPOS))
    us.append(Unit('REGION(default)', P.R[REG].get('loc', ''), tdef, replay='region'))
    # regioned<T>: the value with its region; comparisons ignore the region
    for c in sorted(P.R):
        if not c.startswith(NS + 'common::regioned<'): continue
        vt = ty(c).args[0]
        for m in P.R[c]['methods']:
            f = P.F.get(m['id'])
            if not f or 'body' not in f: continue
            if f.get('ctor') and f['params'] and not f.get('copy') and not f.get('move') and ty(f['params'][0]['t']).base == vt:
                def t(it, c=c, i=m['id'], f=f, vt=vt):
                    v, v0 = it.symval(vt, 'arg:v'), it.symval(vt, 'arg:v')
                    args = [Cell(v, vt) if ty(f['params'][0]['t']).ref else v]
                    rg = reg(it, 'r')
                    if len(f['params']) > 1: args.append(rg if ty(f['params'][1]['t']).ref else rg.v)
                    r = Rec(c, None, True); it.call(i, Cell(r, c), args)
                    it.obligation('the value is kept', it.same(it.get_field(r, 'value_').v, v0))
                    if len(f['params']) > 1: it.obligation('the region is kept', it.same(it.get_field(r, 'region_').v, reg(it, 'r').v))
                us.append(Unit('REGIONED(%s, ctor %d)' % (short(vt), len(f['params'])), f['loc'], t, replay='region'))
            if f.get('ctor') and not f['params']:
                def t(it, c=c, i=m['id']):
                    r = it.construct_rec(c, i, []); rg = it.get_field(r, 'region_').v
                    it.obligation('a value made without region has no position', z3.Or(it.get_field(rg, 'begin').v == NPOS, it.get_field(rg, 'end').v == NPOS))
                us.append(Unit('REGIONED(%s, default)' % short(vt), f['loc'], t, replay='region'))
            if (f['name'] in ('value', 'operator*', 'region', 'operator->') or f['name'].startswith('operator ') and ty(f['ret']).base == vt) and not f['params']:
                def t(it, c=c, i=m['id'], f=f):
                    o = Cell(Rec(c, z3.Const('a', U), True), c)
                    r = it.call(i, o, [])
                    tgt = it.get_field(o.v, 'region_' if f['name'] == 'region' else 'value_')
                    if isinstance(r, Ptr): r = r.cell
                    it.obligation('%s reaches the %s' % (f['name'], 'region' if f['name'] == 'region' else 'value'), z3.BoolVal(r is tgt) if isinstance(r, Cell) else it.same(r, tgt))
                us.append(Unit('REGIONED(%s, %s%s)' % (short(vt), f['name'], ' const' if m.get('const') else ''), f['loc'], t, replay='region'))
    for i, f in sorted(P.F.items()):
        if f['name'] in ('operator==', 'operator!=') and len(f['params']) == 2 and 'body' in f and f['qn'].startswith(NS + 'common'):
            x, y = [ty(p['t']).base for p in f['params']]
            if not any(z.startswith(NS + 'common::regioned<') for z in (x, y)): continue
            if not (x in P.E or y in P.E or x == y): continue
            def t(it, i=i, x=x, y=y, f=f):
                a, b = Cell(it.symval(x, 'a'), x), Cell(it.symval(y, 'b'), y)
                def pv(c): return it.get_field(c.v, 'value_').v if isinstance(c.v, Rec) else c.v
                if isinstance(pv(a), Rec): raise Unsupported('record value')
                s = it.same(pv(a), pv(b))
                args = [k if ty(p['t']).ref else k.v for p, k in zip(f['params'], (a, b))]
                r = it.tobool(it.call(i, None, args))
                it.obligation('comparison uses the values and ignores the regions', r == (s if f['name'] == 'operator==' else z3.Not(s)))
            us.append(Unit('REGIONED(%s %s %s)' % (short(x), f['name'], short(y)), f['loc'], t, replay='region'))
    return us
