"""Symbolic executor over the clang AST extracted by cx.

Path exploration is by re-execution: `explore` runs a driver function again for
every decision prefix; at a branch whose condition is not decided by the path
condition the other side is queued.  There is no bound on anything except loops,
which need an invariant (see `loops`), a literal trip count, or - only when the
caller asks for it - a bounded unrolling that marks the result as bounded.
"""
import re, sys, z3
sys.setrecursionlimit(20000)

U = z3.DeclareSort('U')
BV64 = z3.BitVecSort(64)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

class Unsupported(Exception):
    pass
class _Abort(Exception):
    def __init__(self, kind, val=None): self.kind, self.val = kind, val
class _Prune(Exception): pass
class _Ret(Exception):
    def __init__(self, v): self.v = v
class _Brk(Exception): pass
class _Cnt(Exception): pass
class _Throw(Exception):
    def __init__(self, t, v): self.t, self.v = t, v
class _Goto(Exception):
    def __init__(self, n): self.n = n

# ------------------------------------------------------------------ types
_tc = {}
def split_targs(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(': d += 1
        if ch in '>)': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
class T:
    """parsed canonical type"""
    __slots__ = ('s', 'ref', 'ptr', 'const', 'base', 'name', 'args', 'arr')
    def __repr__(self): return 'T(%s)' % self.s
def ty(s):
    if isinstance(s, T): return s
    r = _tc.get(s)
    if r: return r
    t = T(); t.s = s; x = s.strip()
    t.ref = ''; t.ptr = 0; t.const = False; t.arr = None
    if x.endswith('&&'): t.ref = '&&'; x = x[:-2].strip()
    elif x.endswith('&'): t.ref = '&'; x = x[:-1].strip()
    m = re.match(r'^(.*?)\s*(\(\*\)|\(&\))?\[(\d*)\]$', x)
    if m and not x.endswith('>'):
        t.arr = m.group(1).strip(); t.name = '[]'; t.args = [t.arr]; t.base = x; 
        _tc[s] = t; return t
    while True:
        if x.endswith('*const'): x = x[:-5]; t.const = True
        elif x.endswith('* const'): x = x[:-6]; t.const = True
        if x.endswith('*'): t.ptr += 1; x = x[:-1].strip()
        else: break
    if x.startswith('const '): x = x[6:]; t.const = True if not t.ptr else t.const
    elif x.endswith(' const'): x = x[:-6]
    if x.startswith('volatile '): x = x[9:]
    t.base = x
    m = re.match(r'^([^<(]*)<(.*)>$', x)
    if m: t.name = m.group(1); t.args = split_targs(m.group(2))
    else:
        t.name = x; t.args = []
    _tc[s] = t
    return t
INTW = {'bool': (1, False), 'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True), 'unsigned short': (16, False),
        'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True),
        'unsigned long long': (64, False), 'char32_t': (32, False), 'wchar_t': (32, True), '__int128': (128, True), 'unsigned __int128': (128, False)}

# ------------------------------------------------------------------ values
_sn = [0]       # order of creation
class Cell:
    __slots__ = ('v', 't', 'nm', 'own', 'sn')
    def __init__(self, v=None, t=None, nm='', own=None): self.v, self.t, self.nm, self.own = v, t, nm, own; _sn[0] += 1; self.sn = _sn[0]
class Rec:
    """class object. `term`: identifies an opaque value (fields are created on demand)."""
    __slots__ = ('cls', 'f', 'term', 'exact', 'dirty', 'own', 'poison', 'view', 'sn')
    def __init__(self, cls, term=None, exact=False):
        self.cls, self.term, self.exact, self.f, self.dirty, self.own, self.poison = cls, term, exact, {}, False, None, False
        self.view = None; _sn[0] += 1; self.sn = _sn[0]
class Ptr:
    __slots__ = ('null', 'cell', 'kind')
    def __init__(self, null, cell, kind='raw'): self.null, self.cell, self.kind = null, cell, kind
class Vec:
    __slots__ = ('et', 'term', 'items', 'cache', 'kind', 'nitems', 'own', 'nn', 'sn')
    def __init__(self, et, term=None, items=None, kind='vector'):
        self.et, self.term, self.items, self.cache, self.kind, self.own = et, term, items if items is not None else ([] if term is None else None), [], kind, None
        _sn[0] += 1; self.sn = _sn[0]
class Opt:
    __slots__ = ('has', 'cell', 'own')
    def __init__(self, has, cell): self.has, self.cell, self.own = has, cell, None
class Str:
    __slots__ = ('term', 'lit', 'nul')
    def __init__(self, term, lit=None): self.term, self.lit, self.nul = term, lit, False
class Opq:
    __slots__ = ('term', 'parts', 't', 'set')
    def __init__(self, term, t=None): self.term, self.parts, self.t, self.set = term, [], t, None
class Fn:
    __slots__ = ('fid', 'node')
    def __init__(self, fid, node=None): self.fid, self.node = fid, node
class Closure:
    __slots__ = ('node', 'env', 'this')
    def __init__(self, node, env, this): self.node, self.env, self.this = node, env, this
class Iter:
    __slots__ = ('vec', 'idx', 'rev')
    def __init__(self, vec, idx, rev=False): self.vec, self.idx, self.rev = vec, idx, rev
class Tup:
    __slots__ = ('cells',)
    def __init__(self, cells): self.cells = cells
class Void: pass
VOID = Void()

def bv(n, w=64): return z3.BitVecVal(n, w)
def is_const_bool(b):
    b = z3.simplify(b)
    if z3.is_true(b): return True
    if z3.is_false(b): return False
    return None
def cint(v):
    v = z3.simplify(v)
    return v.as_long() if z3.is_bv_value(v) else None

class Program:
    def __init__(self, dbs):
        self.F, self.R, self.E, self.V = {}, {}, {}, {}
        for d in dbs:
            for i, f in d['funcs'].items():
                if i not in self.F or ('body' in f and 'body' not in self.F[i]): self.F[i] = f
            for i, r in d['recs'].items():
                if i not in self.R or len(r['methods']) > len(self.R[i]['methods']): self.R[i] = r
            self.E.update(d['enums']); 
            for i, v in d['vars'].items():
                if i not in self.V or 'init' in v: self.V[i] = v
        self.byqn = {}
        for i, f in self.F.items(): self.byqn.setdefault(f['qn'], []).append(i)
        self._fields, self._bases = {}, {}
        self.derived = {}
        for n, r in self.R.items():
            for b in r['bases']: self.derived.setdefault(b, []).append(n)
        self._ov = {}
    def bases(self, cls):
        if cls in self._bases: return self._bases[cls]
        r = self.R.get(cls); out = [cls]
        if r:
            for b in r['bases']: out += self.bases(b)
        self._bases[cls] = out
        return out
    def fields(self, cls):
        """list of (name, type, declaring class, node) base first"""
        if cls in self._fields: return self._fields[cls]
        r = self.R.get(cls); out = []
        if r:
            for b in r['bases']: out += self.fields(b)
            out += [(f['n'], f['t'], cls, f) for f in r['fields']]
        self._fields[cls] = out
        return out
    def find_override(self, cls, fid):
        """most derived override of virtual method `fid` for dynamic class cls"""
        key = (cls, fid)
        if key in self._ov: return self._ov[key]
        res = None
        for c in self.bases(cls):
            r = self.R.get(c)
            if not r: continue
            for m in r['methods']:
                if m['id'] == fid or self._overrides(m, fid): res = m['id']; break
            if res: break
        self._ov[key] = res
        return res
    def _overrides(self, m, fid):
        for o in m.get('over', []):
            if o == fid: return True
            for c, r in self.R.items():
                pass
            mm = self._meth(o)
            if mm and self._overrides(mm, fid): return True
        return False
    def _meth(self, mid):
        if not hasattr(self, '_mi'):
            self._mi = {}
            for r in self.R.values():
                for m in r['methods']: self._mi[m['id']] = m
        return self._mi.get(mid)

class Path:
    def __init__(self): self.pc = []; self.out = None; self.ret = None; self.obls = []; self.bounded = False; self.events = []; self.st = {}; self.guards = []

_ufc = {}
def subterm(t, k):
    todo = [t]; seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(k): return True
        todo += x.children()
    return False
def UF(name, *sorts):
    k = (name,) + tuple(s.name() + (str(s.size()) if isinstance(s, z3.BitVecSortRef) else '') for s in sorts)
    f = _ufc.get(k)
    if f is None:
        f = z3.Function(name, *sorts); _ufc[k] = f
    return f
# string theory (partial): length and bytes are functions of the term
slen = UF('slen', U, BV64); sat = UF('sat', U, BV64, z3.BitVecSort(8))
isnull = UF('isnull', U, z3.BoolSort())
vlen = UF('vlen', U, BV64)
velem = UF('velem', U, BV64, U)
NULLU = z3.Const('nullptr', U)
_lits = {}
LITFACTS = []
def strlit(bs):
    if isinstance(bs, str): bs = bs.encode('latin1')
    if bs in _lits: return _lits[bs]
    c = z3.Const('lit:%s' % bs.decode('latin1'), U)
    LITFACTS.append(slen(c) == len(bs))
    if len(bs) <= 40:
        for i, ch in enumerate(bs): LITFACTS.append(sat(c, bv(i)) == ch)
    for ob, oc in _lits.items():
        if len(ob) == len(bs): LITFACTS.append(oc != c)
    _lits[bs] = c
    return c

_hq = {}
def has_quant(c):
    k = c.get_id()
    r = _hq.get(k)
    if r is not None and r[0].eq(c): return r[1]
    v = z3.is_quantifier(c) or (z3.is_app(c) and z3.is_bool(c) and any(has_quant(x) for x in c.children()))
    _hq[k] = (c, v); return v
class Interp:
    MAXSTEPS = 400000
    def __init__(self, prog, contracts=None, hooks=None):
        self.p = prog
        self.contracts = contracts or {}     # qn or fid -> handler(interp, call) -> value | NotImplemented
        self.hooks = hooks or {}
        self.loopspecs = {}
        self.loop_writes = {}                # persistent: loop key -> set of names
        self.bound = None
        self.assume_facts = []
        self.visited_funcs = set()
        self.trusted_used = set()
        self.solver_checks = 0; self.facts = None
    # ---------------------------------------------------------- exploration
    def explore(self, fn, maxpaths=4000):
        paths = []; work = [[]]
        self.restart = False
        while work:
            pre = work.pop()
            self.dec = list(pre); self.di = 0; self.pc = []; self.path = Path(); self.alts = []
            self.fresh = 0; self.steps = 0; self.globals = {}; self.frames = []; self.writes = None; self.unwinding = 0; self.jw = []
            self.moved_terms = 0
            self.solver = z3.Solver(); self.solver.set('timeout', 10000)
            for a in self.assume_facts: self.solver.add(a)
            self.nlit = 0
            try:
                self.path.ret = fn(self); self.path.out = 'ok'
            except _Prune: self.path.out = 'pruned'
            except _Abort as a: self.path.out = a.kind; self.path.ret = a.val
            except _Throw as t: self.path.out = 'throw'; self.path.ret = (t.t, t.v)
            self.path.pc = list(self.pc)
            for a in self.alts: work.append(a)
            if self.path.out != 'pruned': paths.append(self.path)
            else:
                if self.path.obls: paths.append(self.path)
            if len(paths) > maxpaths: raise Unsupported('too many paths')
        return paths
    def assume(self, c, fact=True):
        if z3.is_true(c): return
        if fact and self.facts is not None: self.facts.append(([x if d else z3.Not(x) for x, d in self.path.guards], c))
        self.pc.append(c)
        if not has_quant(c): self.solver.add(c)     # quantified facts only matter when obligations are discharged
    def feasible(self, c):
        self.solver_checks += 1
        while self.nlit < len(LITFACTS):
            self.solver.add(LITFACTS[self.nlit]); self.nlit += 1
        r = self.solver.check(c)
        return r != z3.unsat
    def branch(self, c):
        if isinstance(c, bool): return c
        k = is_const_bool(c)
        if k is not None: return k
        c = z3.simplify(c)
        if self.di < len(self.dec):
            d = self.dec[self.di]; self.di += 1
            if isinstance(d, tuple): d = d[0]
            else: self.path.guards.append((c, d))
            self.assume(c if d else z3.Not(c), False)
            return d
        ft = self.feasible(c); ff = self.feasible(z3.Not(c))
        if not ft and not ff: raise _Prune()
        if ft and ff:
            self.alts.append(self.dec[:self.di] + [False])
            d = True
            self.dec.append(d); self.path.guards.append((c, d))
        else:
            d = ft; self.dec.append((d,))
        self.di += 1
        self.assume(c if d else z3.Not(c), False)
        return d
    def choose(self, n):
        """nondeterministic choice 0..n-1 (all explored)"""
        if self.di < len(self.dec):
            d = self.dec[self.di]; self.di += 1; return d
        for j in range(1, n): self.alts.append(self.dec[:self.di] + [j])
        self.dec.append(0); self.di += 1
        return 0
    def obligation(self, name, f, loc=''):
        self.path.obls.append((name, list(self.pc), f, loc))
    def newname(self, base='x'):
        self.fresh += 1
        return '%s!%d' % (base, self.fresh)
    # ---------------------------------------------------------- symbolic values
    def is_enum(self, b): return b in self.p.E
    def bvw(self, t):
        t = ty(t)
        if t.ptr or t.ref: return None
        if t.base in INTW: return INTW[t.base]
        if t.base.startswith('std::_Ios_'): return INTW['int']
        e = self.p.E.get(t.base)
        if e: return INTW[e['ut']]
        return None
    def symval(self, t, path, arg=None, own=None):
        """a symbolic value of type t; `path` is a UF name applied to arg (a U term), or a constant name"""
        t = ty(t)
        def mk(sort, suffix=''):
            if arg is None: return z3.Const(path + suffix, sort)
            return UF(path + suffix, *([a.sort() for a in arg] if isinstance(arg, tuple) else [U]), sort)(*(arg if isinstance(arg, tuple) else (arg,)))
        if t.base == 'bool' and not t.ptr: return mk(z3.BoolSort())
        w = self.bvw(t)
        if w: 
            v = mk(z3.BitVecSort(w[0]))
            e = self.p.E.get(t.base)
            if e:
                self.assume(z3.Or([v == it[1] for it in e['items']]))
            return v
        u = mk(U)
        return self.from_term(t, u)
    def from_term(self, t, u):
        t = ty(t)
        if t.base == 'bool' and not t.ptr: return UF('asbool', U, z3.BoolSort())(u)
        w = self.bvw(t)
        if w: return UF('asbv%d' % w[0], U, z3.BitVecSort(w[0]))(u)
        if t.ref or t.ptr:
            pt = t.base if t.ptr <= 1 else t.base + ' *' * (t.ptr - 1)
            return Ptr(isnull(u), Cell(self.from_term(pt, u), pt, 'p'), 'raw')
        n = t.name
        if n in ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'takatori::util::maybe_shared_ptr', 'takatori::util::optional_ptr', 'takatori::util::rvalue_ptr'):
            c = Cell(None, t.args[0], 'pointee'); c.v = self.from_term(t.args[0], u)
            return Ptr(isnull(u), c, n)
        if n == 'std::vector' or n == 'std::array' or n == 'std::initializer_list': return Vec(t.args[0], u, kind=n)
        if n == 'std::optional':
            c = Cell(None, t.args[0], 'optval'); c.v = self.symval(t.args[0], 'optval', u)
            return Opt(UF('opthas', U, z3.BoolSort())(u), c)
        if n in ('std::basic_string', 'std::basic_string_view'): return Str(u)
        if n in ('std::tuple', 'std::pair') and t.args:
            return Tup([Cell(self.symval(a, 'tuple.%d' % i, u), a, 'tuple.%d' % i) for i, a in enumerate(t.args)])
        if n == 'std::nullptr_t': return Ptr(TRUE, None)
        if n == 'takatori::util::rvalue_reference_wrapper' and t.base in self.p.R:
            r = Rec(t.base, u)       # a reference: never null, identified with its referent
            c = Cell(None, t.args[0] + ' *', 'ptr_', r)
            c.v = Ptr(FALSE, Cell(self.from_term(t.args[0], u), t.args[0], 'referent')); r.f['ptr_'] = c
            return r
        if t.base in self.p.R and n != 'takatori::util::enum_set': return Rec(t.base, u)
        return Opq(u, t.base)
    def freshval(self, t, base='fresh'):
        return self.symval(t, self.newname(base))
    def field(self, rec, name, ft, decl_cls=None):
        c = rec.f.get(name)
        if c is None:
            if rec.term is None:
                raise Unsupported('uninitialised field %s of %s' % (name, rec.cls))
            root = decl_cls or rec.cls
            c = Cell(None, ft, name, rec)
            c.v = self.symval(ft, '%s.%s' % (root, name), rec.term)
            self._own(c.v, c)
            rec.f[name] = c
        return c
    def _own(self, v, cell):
        if isinstance(v, (Rec, Vec, Opt)): v.own = cell
    def decl_class_of(self, cls, name):
        for n, t, dc, nd in self.p.fields(cls):
            if n == name: return dc, t
        return None, None
    def mark_dirty(self, cell):
        o = cell.own; k = 0
        while o is not None and k < 50:
            if isinstance(o, Rec): o.dirty = True; o = o.own
            elif isinstance(o, Cell): o = o.own
            else: o = getattr(o, 'own', None)
            k += 1
    def setcell(self, cell, v):
        if self.writes is not None and cell.nm: self.writes.append(cell)
        cell.v = v; self._own(v, cell); self.mark_dirty(cell); self.jw.append(cell)
    # frame of one iteration: what an iteration that goes on changes must be unknown before it
    EFFECTS = ('events', 'acc', 'ev', 'errors', 'appended')
    def loop_begin(self, allowed=(), k=None, effects=()):
        return (_sn[0], len(self.jw), {id(c) for c in allowed}, k, {n: len(self.path.st[n]) for n in self.EFFECTS if n not in effects and isinstance(self.path.st.get(n), list)}, None if 'path' in effects else len(self.path.events), list(allowed))
    def loop_end(self, lf):
        s0, mark, ok, k, eff, pe, keep = lf
        for n, c in eff.items():
            if len(self.path.st[n]) != c: raise Unsupported('loop with effects (%s)' % n)
        if pe is not None and len(self.path.events) != pe: raise Unsupported('loop with effects')
        for c in self.jw[mark:]:
            o = c; old = False; good = False; n = 0
            while o is not None and n < 50:
                if id(o) in ok: good = True
                if getattr(o, 'sn', s0 + 1) <= s0: old = True
                last = o; o = getattr(o, 'own', None); n += 1
            if isinstance(last, Cell) and last.nm in ('pointee', 'p', 'referent') and isinstance(last.v, Rec) and last.v.term is not None:
                if k is None or not subterm(last.v.term, k): old = True
            if old and not good: raise Unsupported('loop modifies %s' % (c.nm or last.nm or '?'))
    def get_field(self, rec, name):
        dc, t = self.decl_class_of(rec.cls, name)
        if dc is None: raise Unsupported('no field %s in %s' % (name, rec.cls))
        return self.field(rec, name, t, dc)
    # default-initialised value
    def zero(self, t):
        t = ty(t)
        if t.ptr: return Ptr(TRUE, None)
        if t.base == 'bool': return FALSE
        w = self.bvw(t)
        if w: return bv(0, w[0])
        n = t.name
        if n in ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'takatori::util::maybe_shared_ptr'): return Ptr(TRUE, None, n)
        if n == 'std::nullptr_t': return Ptr(TRUE, None)
        if n == 'std::vector': return Vec(t.args[0], None, [])
        if n == 'std::optional': return Opt(FALSE, None)
        if n in ('std::basic_string', 'std::basic_string_view'): return Str(strlit(b''), b'')
        if n == 'std::function': return Ptr(TRUE, None, 'function')
        if n == 'takatori::util::enum_set':
            o = Opq(z3.Const(self.newname('enum_set'), U), t.base); o.parts = []; o.set = []; return o
        if t.base in self.p.R: return self.default_construct(t.base)
        if n == 'double' or n == 'float': return Opq(z3.Const('0.0', U))
        if n in ('std::nullopt_t', 'std::in_place_t', 'std::allocator'): return Opq(z3.Const(n, U), n)
        if n == 'std::tuple': return Tup([Cell(self.zero(a), a) for a in t.args])
        return Opq(z3.Const(self.newname('dflt:' + n), U), t.base)
    def default_construct(self, cls):
        # user-provided default ctor?
        r = self.p.R[cls]
        for m in r['methods']:
            if m.get('ctor') and not m['params'] and m['id'] in self.p.F and not m['deleted']:
                return self.construct_rec(cls, m['id'], [])
        rec = Rec(cls)
        for n, t, dc, nd in self.p.fields(cls):
            c = Cell(None, t, n, rec); rec.f[n] = c
            if 'init' in nd: self._init_cell(c, nd['init'], {'this': None, 'rec': rec})
            else: c.v = self.zero(t) if not self._is_pod(t) else self.freshval(t, 'uninit')
            self._own(c.v, c)
        return rec
    def _is_pod(self, t):
        t = ty(t)
        return bool(self.bvw(t)) or t.base == 'bool' or bool(t.ptr)
    def _init_cell(self, c, e, _):
        fr = Frame(self, {}, None); self.frames.append(fr)
        try: c.v = self.init_value(e, c.t)
        finally: self.frames.pop()
    # deep copy
    def copyval(self, v):
        if isinstance(v, Rec):
            r = Rec(v.cls, v.term, v.exact); r.dirty = v.dirty; r.poison = v.poison
            for k, c in v.f.items():
                nc = Cell(self.copyval(c.v), c.t, c.nm, r); self._own(nc.v, nc); r.f[k] = nc
            return r
        if isinstance(v, Vec):
            if v.items is not None:
                n = Vec(v.et, v.term, [Cell(self.copyval(c.v), c.t, c.nm) for c in v.items], v.kind)
            else: n = Vec(v.et, v.term, None, v.kind)
            return n
        if isinstance(v, Opt): return Opt(v.has, Cell(self.copyval(v.cell.v), v.cell.t, v.cell.nm) if v.cell else None)
        if isinstance(v, Ptr): return Ptr(v.null, v.cell, v.kind)
        if isinstance(v, Tup): return Tup([Cell(self.copyval(c.v), c.t) for c in v.cells])
        if isinstance(v, Iter): return Iter(v.vec, v.idx, v.rev)
        return v
    def moveout(self, cell):
        """value moved out of cell; the cell is left in its moved-from state"""
        v = cell.v
        if isinstance(v, Ptr) and v.kind != 'raw' and v.kind not in ('takatori::util::optional_ptr', 'takatori::util::rvalue_ptr'):
            self.setcell(cell, Ptr(TRUE, None, v.kind)); return v
        if isinstance(v, Vec) and v.kind == 'std::initializer_list': return v
        if isinstance(v, Vec):
            self.setcell(cell, Vec(v.et, None, [], v.kind)); return v
        if isinstance(v, Str):
            self.setcell(cell, Str(z3.Const(self.newname('moved'), U))); return v
        if isinstance(v, Opt):
            if v.cell is not None:
                nv = Opt(v.has, Cell(None, v.cell.t, v.cell.nm)); nv.cell.v = self.moveout(v.cell); return nv
            return Opt(v.has, None)
        if isinstance(v, Rec):
            m = self.move_ctor(v.cls)
            if m: return self.construct_rec(v.cls, m, [cell])
            r = Rec(v.cls, v.term, v.exact); r.dirty = v.dirty
            if v.term is not None:
                for n, t, dc, nd in self.p.fields(v.cls): self.field(v, n, t, dc)
            for k, c in list(v.f.items()):
                nc = Cell(None, c.t, c.nm, r); nc.v = self.moveout(c); self._own(nc.v, nc); r.f[k] = nc
            return r
        if isinstance(v, Tup):
            r = Tup([])
            for c in v.cells:
                nc = Cell(None, c.t, c.nm); nc.v = self.moveout(c); r.cells.append(nc)
            return r
        if isinstance(v, Opq) and v.t and not v.t.startswith('takatori::util::enum_set'):
            self.setcell(cell, Opq(z3.Const(self.newname('moved'), U), v.t)); return v
        return self.copyval(v)
    def move_ctor(self, cls):
        r = self.p.R.get(cls)
        if not r: return None
        for m in r['methods']:
            f = self.p.F.get(m['id'])
            if f and f.get('move') and not f.get('defaulted') and 'body' in f: return m['id']
        return None
    def copy_ctor(self, cls):
        r = self.p.R.get(cls)
        if not r: return None
        for m in r['methods']:
            f = self.p.F.get(m['id'])
            if f and f.get('copy') and not f.get('defaulted') and 'body' in f: return m['id']
        return None
    # value equality (identity of value, including regions)
    def same(self, a, b, depth=0):
        if a is b: return TRUE
        if depth > 12: raise Unsupported('same: depth')
        if isinstance(a, Cell): a = a.v
        if isinstance(b, Cell): b = b.v
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.sort() != b.sort(): raise Unsupported('sort mismatch')
            return a == b
        if isinstance(a, Str) and isinstance(b, Str): return a.term == b.term
        if isinstance(a, Opq) and isinstance(b, Opq): return a.term == b.term
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.cell is None and b.cell is None: return z3.And(a.null == b.null)
            if a.cell is None: return z3.And(a.null, b.null)
            if b.cell is None: return z3.And(a.null, b.null)
            if a.cell is b.cell: return a.null == b.null
            if isinstance(a.cell.v, (Rec, Vec, Str, Opt, Opq)) or a.cell.v is None:
                return z3.And(a.null == b.null, z3.Or(a.null, self.same(a.cell, b.cell, depth + 1)))
            return z3.And(a.null == b.null, z3.Or(a.null, self.same(a.cell.v, b.cell.v, depth + 1)))
        if isinstance(a, Opt) and isinstance(b, Opt):
            inner = TRUE
            if a.cell is not None and b.cell is not None: inner = self.same(a.cell, b.cell, depth + 1)
            elif a.cell is None and b.cell is None: inner = TRUE
            else: return z3.And(z3.Not(a.has), z3.Not(b.has))
            return z3.And(a.has == b.has, z3.Or(z3.Not(a.has), inner))
        if isinstance(a, Vec) and isinstance(b, Vec):
            if a.items is None and b.items is None:
                return a.term == b.term
            if a.items is not None and b.items is not None:
                if len(a.items) != len(b.items): return FALSE
                return z3.And([TRUE] + [self.same(x, y, depth + 1) for x, y in zip(a.items, b.items)])
            if a.items is None: a, b = b, a
            # a concrete, b opaque
            return z3.And([vlen(b.term) == len(a.items)] + [self.same(x, self.vec_at(b, bv(i)), depth + 1) for i, x in enumerate(a.items)])
        if isinstance(a, Tup) and isinstance(b, Tup):
            return z3.And([self.same(x, y, depth + 1) for x, y in zip(a.cells, b.cells)])
        if isinstance(a, Rec) and isinstance(b, Rec):
            if a.term is not None and b.term is not None and not a.dirty and not b.dirty and a.term.eq(b.term): return TRUE
            if a.term is not None and b.term is not None and not a.dirty and not b.dirty: return a.term == b.term
            ca = a.cls if a.exact or a.term is None else a.cls
            cb = b.cls
            cls = ca if len(self.p.bases(ca)) >= len(self.p.bases(cb)) else cb
            fs = self.p.fields(cls)
            if ca != cb and not (ca in self.p.bases(cb) or cb in self.p.bases(ca)): return FALSE
            cs = []
            for n, t, dc, nd in fs:
                cs.append(self.same(self.field(a, n, t, dc), self.field(b, n, t, dc), depth + 1))
            return z3.And([TRUE] + cs)
        raise Unsupported('same: %s vs %s' % (type(a).__name__, type(b).__name__))
    # vectors
    def vec_len(self, v):
        return vlen(v.term) if v.items is None else bv(len(v.items))
    def vec_at(self, v, i):
        """Cell of element i (i: BV64)"""
        if v.items is not None:
            k = cint(i)
            if k is None:
                n = len(v.items)
                for j in range(n - 1):
                    if self.branch(i == j): return v.items[j]
                if n == 0: raise _Abort('ub', 'vector index out of range')
                return v.items[n - 1]
            if k >= len(v.items): raise _Abort('ub', 'vector index out of range')
            return v.items[k]
        i = z3.simplify(i)
        for t, c in v.cache:
            if t.eq(i): return c
        c = Cell(None, v.et, 'elem')
        et = ty(v.et)
        w = self.bvw(et)
        if w or et.base == 'bool':
            c.v = self.symval(v.et, 'vec.at', (v.term, i))
        else:
            c.v = self.from_term(v.et, velem(v.term, i))
            if getattr(v, 'nn', False) and isinstance(c.v, Ptr): self.assume(z3.Not(c.v.null)); c.v.null = FALSE
        self._own(c.v, c); c.own = v
        v.cache.append((i, c))
        return c
    # ---------------------------------------------------------- calls
    def frame(self): return self.frames[-1]
    def call(self, fid, this, args, node=None, virt=False):
        """args: Cell for reference parameters, values otherwise"""
        f = self.p.F.get(fid)
        if f is None: raise Unsupported('no body: %s' % fid)
        if len(self.frames) > 120:
            # variant: the same function runs again and again on the same objects under the same path condition
            key = (fid, id(this), tuple(id(a) if isinstance(a, Cell) else None for a in args), len(self.path.pc))
            if all(isinstance(a, Cell) for a in args) and sum(getattr(fr, 'key', None) == key for fr in self.frames[-60:]) >= 10: raise _Abort('ub', 'recursion without progress in ' + f['qn'])
            raise Unsupported('recursion depth in ' + f['qn'])
        self.visited_funcs.add(fid)
        env = {}
        for prm, a in zip(f['params'], args):
            pt = ty(prm['t'])
            if pt.ref:
                if not isinstance(a, Cell): a = Cell(a, prm['t'], prm['n'])
                env[prm['id']] = a
            else:
                c = Cell(a, prm['t'], prm['n']); self._own(a, c); env[prm['id']] = c
        fr = Frame(self, env, this); fr.f = f; fr.key = (fid, id(this), tuple(id(a) if isinstance(a, Cell) else None for a in args), len(self.path.pc))
        self.frames.append(fr)
        try:
            if f.get('ctor'): self.run_inits(f, this)
            if 'body' in f:
                try: self.exec(f['body'])
                except _Ret as r: return r.v
            elif f.get('defaulted'):
                if f.get('ctor') and not f['params']: return VOID
                raise Unsupported('defaulted body ' + f['qn'])
            return VOID
        finally:
            self.frames.pop()
    def run_inits(self, f, this):
        rec = this.v
        for i in f['inits']:
            if 'f' in i:
                c = Cell(None, i['ft'], i['f'], rec)
                t = ty(i['ft'])
                if t.ref: 
                    rec.f[i['f']] = self.eval(i['e'])
                    continue
                v = self.init_value(i['e'], i['ft']) if i.get('e') else self.zero(i['ft'])
                c.v = v; self._own(v, c); rec.f[i['f']] = c
            elif 'base' in i or 'deleg' in i:
                e = i.get('e')
                if e: self.construct_into(rec, e, i.get('base'))
        if 'deleg' not in (f['inits'][0] if f['inits'] else {}):
            for n, t, dc, nd in self.p.fields(f['cls']):
                if n not in rec.f and dc == f['cls']:
                    c = Cell(None, t, n, rec)
                    if 'init' in nd: c.v = self.init_value(nd['init'], t)
                    elif self._is_pod(t): c.v = self.freshval(t, 'uninit')
                    else: c.v = self.zero(t)
                    self._own(c.v, c); rec.f[n] = c
    def construct_into(self, rec, e, cls=None):
        k = e['k']
        if k == 'Con':
            f = self.p.F.get(e['fn'])
            if f is None or (f.get('defaulted') and (f.get('copy') or f.get('move'))):
                if (e.get('copy') or e.get('move')) and e['args']:
                    src = self.eval(e['args'][0])
                    if not isinstance(src, Cell): src = Cell(src)
                    base = ty(e['t']).base
                    for n, t, dc, nd in self.p.fields(base):
                        sc = self.field(src.v, n, t, dc)
                        nc = Cell(None, t, n, rec); nc.v = self.moveout(sc) if e.get('move') else self.copyval(sc.v)
                        self._own(nc.v, nc); rec.f[n] = nc
                    return
                if not e['args']:
                    base = ty(e['t']).base
                    for n, t, dc, nd in self.p.fields(base):
                        if n in rec.f: continue
                        c = Cell(None, t, n, rec)
                        c.v = self.init_value(nd['init'], t) if 'init' in nd else (self.zero(t) if not self._is_pod(t) else self.freshval(t, 'uninit'))
                        self._own(c.v, c); rec.f[n] = c
                    return
                raise Unsupported('base ctor ' + e['qn'])
            args = self.eval_args(e['args'], e['pts'])
            self.call(e['fn'], Cell(rec, rec.cls, 'this'), args, e)
            return
        if k == 'InhCon':
            # inherited constructor: forward our own params
            fr = self.frame(); args = [fr.env[p['id']] if ty(p['t']).ref else fr.env[p['id']].v for p in fr.f['params']]
            self.call(e['fn'], Cell(rec, rec.cls, 'this'), args, e); return
        if k == 'Init' or k == 'Zero':
            v = self.eval(e)
            if isinstance(v, Rec):
                for n, c in v.f.items(): rec.f[n] = c
                return
        v = self.init_value(e, cls or rec.cls)
        if isinstance(v, Rec):
            rec.f.update(v.f); rec.term = v.term; rec.dirty = v.dirty; return
        raise Unsupported('construct_into ' + k)
    def construct_rec(self, cls, fid, args, node=None):
        rec = Rec(cls, None, True)
        self.call(fid, Cell(rec, cls, 'this'), args, node)
        return rec
    def eval_args(self, args, pts):
        out = []
        for i, a in enumerate(args):
            pt = ty(pts[i]) if i < len(pts) else None
            if pt is not None and pt.ref:
                v = self.eval(a)
                if not isinstance(v, Cell): v = Cell(v, pts[i], 'tmp')
                out.append(v)
            else:
                out.append(self.init_value(a, pts[i] if i < len(pts) else a['t']))
        return out
    def lookup_contract(self, fid, qn):
        h = self.contracts.get(fid)
        if h: return h
        return self.contracts.get(qn)
    # ---------------------------------------------------------- statements
    def tick(self):
        self.steps += 1
        if self.steps > self.MAXSTEPS: raise Unsupported('step limit')
    def exec(self, s):
        if s is None: return
        self.tick()
        getattr(self, 's_' + s['k'])(s)
    def run_block(self, stmts):
        fr = self.frame()
        mark = len(fr.locals)
        try:
            for st in stmts: self.exec(st)
        except (_Ret, _Brk, _Cnt, _Goto, _Throw):
            self.unwind(fr, mark); raise
        self.unwind(fr, mark)
    def unwind(self, fr, mark):
        while len(fr.locals) > mark:
            c = fr.locals.pop()
            self.destroy(c)
    def destroy(self, c):
        v = c.v
        if isinstance(v, Rec):
            for cls in self.p.bases(v.cls):
                r = self.p.R.get(cls)
                if not r: continue
                for m in r['methods']:
                    if m.get('dtor') and m['id'] in self.p.F:
                        f = self.p.F[m['id']]
                        if 'body' in f and not f.get('defaulted') and f['body'].get('b'):
                            self.call(m['id'], c, [])
                        return
    def s_Blk(self, s): self.run_block(s['b'])
    def s_E(self, s): self.eval(s['e'])
    def s_Null(self, s): pass
    def s_Decl(self, s):
        for v in s['b']: self.declvar(v)
    def declvar(self, v):
        fr = self.frame()
        t = ty(v['t'])
        if v.get('static'):
            c = self.globalcell(v['id'], v['t'], v.get('init'))
            fr.env[v['id']] = c; return
        if t.ref:
            x = self.eval(v['init'])
            if not isinstance(x, Cell): x = Cell(x, v['t'], v['n']); fr.locals.append(x)
            fr.env[v['id']] = x
        else:
            c = Cell(None, v['t'], v['n'])
            if v.get('init') is not None: c.v = self.init_value(v['init'], v['t'])
            elif self._is_pod(v['t']): c.v = self.freshval(v['t'], 'uninit')
            else: c.v = self.zero(v['t'])
            self._own(c.v, c)
            fr.env[v['id']] = c
            fr.locals.append(c)
        if v.get('decomp') and v.get('holds'):
            for h in v['holds']: self.declvar(h)
    def globalcell(self, gid, t, init):
        c = self.globals.get(gid)
        if c is None:
            c = Cell(None, t, 'global')
            self.globals[gid] = c
            tn = ty(t).name
            if tn in ('std::nullopt_t', 'std::in_place_t'): c.v = Opq(z3.Const(tn, U), tn)
            elif init is not None:
                fr = Frame(self, {}, None); self.frames.append(fr)
                try: c.v = self.init_value(init, t)
                finally: self.frames.pop()
            else: c.v = Opq(z3.Const('global:' + gid, U), t)
        return c
    def s_If(self, s):
        fr = self.frame(); mark = len(fr.locals)
        try:
            if s.get('init'): self.exec(s['init'])
            if s.get('cv'): self.exec(s['cv'])
            c = self.tobool(self.rval(s['c']))
            if self.branch(c): self.exec(s['a'])
            elif s.get('b'): self.exec(s['b'])
        except (_Ret, _Brk, _Cnt, _Goto, _Throw):
            self.unwind(fr, mark); raise
        self.unwind(fr, mark)
    def s_Switch(self, s):
        fr = self.frame(); mark = len(fr.locals)
        try:
            if s.get('init'): self.exec(s['init'])
            if s.get('cv'): self.exec(s['cv'])
            v = self.rval(s['c'])
            body = s['b']['b'] if s['b']['k'] == 'Blk' else [s['b']]
            # flatten to (labels, stmt)
            items = []
            def flat(st, labels):
                while st is not None and st['k'] in ('Case', 'Default'):
                    labels.append(('d', None) if st['k'] == 'Default' else ('c', st))
                    st = st['b']
                items.append((labels, st))
            for st in body: flat(st, [])
            start = None; dflt = None
            for i, (ls, st) in enumerate(items):
                for kind, cs in ls:
                    if kind == 'd': dflt = i
            for i, (ls, st) in enumerate(items):
                for kind, cs in ls:
                    if kind == 'c' and start is None:
                        cv = self.rval(cs['v'])
                        if z3.is_bv(cv) and cv.size() != v.size(): cv = z3.BitVecVal(cv.as_signed_long(), v.size())
                        if cs.get('v2'):
                            hv = self.rval(cs['v2']); cond = z3.And(v >= cv, v <= hv)
                        else: cond = v == cv
                        if self.branch(cond): start = i
                if start is not None: break
            if start is None: start = dflt
            if start is not None:
                try: self.run_block([st for ls, st in items[start:]])
                except _Brk: pass
        except (_Ret, _Cnt, _Goto, _Throw):
            self.unwind(fr, mark); raise
        self.unwind(fr, mark)
    def s_Case(self, s): self.exec(s['b'])
    def s_Default(self, s): self.exec(s['b'])
    def s_Break(self, s): raise _Brk()
    def s_Continue(self, s): raise _Cnt()
    def s_Return(self, s):
        fr = self.frame()
        if s['e'] is None: raise _Ret(VOID)
        rt = ty(fr.ret) if fr.ret else (ty(fr.f['ret']) if fr.f else None)
        if rt is not None and rt.ref:
            v = self.eval(s['e'])
            raise _Ret(v)
        raise _Ret(self.init_value(s['e'], rt.s if rt else s['e']['t']))
    def s_Label(self, s): self.exec(s['b'])
    def s_Goto(self, s): raise _Goto(s['n'])
    def s_UnsupStmt(self, s): raise Unsupported('stmt ' + s['c'])
    def s_Try(self, s):
        try: self.exec(s['b'])
        except _Throw as t:
            for h in s['h']:
                ht = ty(h['t']).base
                if h['t'] == '...' or ht == t.t or self.exc_is(t.t, ht):
                    if h.get('v') and h['v']:
                        self.frame().env[h['v']['id']] = Cell(t.v, h['t'], 'exc')
                    self.exec(h['b']); return
            raise
    EXC = {'std::invalid_argument': ['std::logic_error', 'std::exception'], 'std::out_of_range': ['std::logic_error', 'std::exception'], 'std::domain_error': ['std::logic_error', 'std::exception'], 'std::runtime_error': ['std::exception']}
    def exc_is(self, t, h):
        return h in self.EXC.get(t, []) or (t in self.p.R and h in self.p.bases(t))
    # loops -------------------------------------------------------
    def s_Range(self, s):
        if s.get('init'): self.exec(s['init'])
        r = self.eval(s['r'])
        if isinstance(r, Cell): r = r.v
        hook = self.hooks.get('loop')
        if hook:
            x = hook(self, s, r)
            if x is not NotImplemented: return
        if isinstance(r, Str): return self.bounded_loop_str(s, r)
        if isinstance(r, Rec): raise Unsupported('range over ' + r.cls)
        if not isinstance(r, Vec): raise Unsupported('range over ' + type(r).__name__)
        if r.items is not None:
            self._iter_items(s, r, range(len(r.items)))
            return
        n = self.vec_len(r)
        if self.bound is None: raise Unsupported('loop without invariant at ' + s['l'])
        self.path.bounded = True
        i = 0
        try:
            while self.branch(z3.UGT(n, bv(i))):
                if i >= self.bound: raise _Prune()
                self._iter_one(s, self.vec_at(r, bv(i)))
                i += 1
        except _Brk: return
    def bounded_loop_str(self, s, r): raise Unsupported('range over string')
    def _iter_items(self, s, r, idx):
        try:
            for i in idx: self._iter_one(s, r.items[i])
        except _Brk: return
    def _iter_one(self, s, cell):
        fr = self.frame(); mark = len(fr.locals)
        t = ty(s['var']['t'])
        if t.ref: fr.env[s['var']['id']] = cell
        else:
            c = Cell(self.copyval(cell.v), s['var']['t'], s['var']['n']); self._own(c.v, c); fr.env[s['var']['id']] = c
        if s['var'].get('decomp'):
            for h in s['var'].get('holds', []): self.declvar(h)
        try: self.exec(s['b'])
        except _Cnt: self.unwind(fr, mark)
    def s_For(self, s):
        fr = self.frame(); mark = len(fr.locals)
        if s.get('init'): self.exec(s['init'])
        self.gen_loop(s, s.get('c'), s.get('inc'), s['b'], s.get('cv'))
        self.unwind(fr, mark)
    def s_While(self, s): self.gen_loop(s, s['c'], None, s['b'], s.get('cv'))
    def s_Do(self, s):
        try: self.exec(s['b'])
        except _Cnt: pass
        except _Brk: return
        self.gen_loop(s, s['c'], None, s['b'], None)
    def gen_loop(self, s, c, inc, body, cv):
        hook = self.hooks.get('genloop')
        if hook:
            x = hook(self, s, c, inc, body, cv)
            if x is not NotImplemented: return
        n = 0
        while True:
            if cv: self.exec(cv)
            if c is not None:
                b = self.tobool(self.rval(c))
                k = is_const_bool(b)
                if k is None:
                    if self.bound is None: raise Unsupported('loop without invariant at ' + s['l'])
                    self.path.bounded = True
                    if n >= self.bound:
                        if self.branch(b): raise _Prune()
                        return
                if not self.branch(b): return
            elif n > 5000: raise Unsupported('endless loop')
            try: self.exec(body)
            except _Brk: return
            except _Cnt: pass
            if inc: self.eval(inc)
            n += 1
            if n > 20000: raise Unsupported('loop limit')
    # ---------------------------------------------------------- expressions
    def rval(self, e):
        v = self.eval(e)
        return v.v if isinstance(v, Cell) else v
    def tobool(self, v):
        if isinstance(v, Cell): v = v.v
        if z3.is_bool(v): return v
        if z3.is_bv(v): return v != 0
        if isinstance(v, Ptr): return z3.Not(v.null)
        if isinstance(v, Opt): return v.has
        raise Unsupported('tobool ' + type(v).__name__)
    def init_value(self, e, t):
        """value to initialise an object of (non reference) type t from expression e"""
        v = self.eval(e)
        if isinstance(v, Cell):
            if ty(t).ref: return v
            v = self.copyval(v.v) if e.get('vk') != 'x' else self.moveout(v)
        return self.conv(v, t)
    def conv(self, v, t):
        t = ty(t)
        if t.name == 'std::optional' and not isinstance(v, Opt):
            if isinstance(v, Opq) and v.t == 'std::nullopt_t': return Opt(FALSE, None)
            return Opt(TRUE, Cell(v, t.args[0], 'optval'))
        return v
    def eval(self, e):
        self.tick()
        return getattr(self, 'e_' + e['k'])(e)
    def e_Int(self, e):
        if e['t'] == 'bool': return TRUE if e['v'] != '0' else FALSE
        w = self.bvw(e['t'])
        if not w: raise Unsupported('int type ' + e['t'])
        return bv(int(e['v']), w[0])
    def e_Float(self, e): return Opq(z3.Const('float:%r' % e['v'], U))
    def e_Str(self, e):
        return Cell(Str(strlit(bytes.fromhex(e['hex'])), bytes.fromhex(e['hex'])), e['t'], 'lit')
    def e_Null(self, e): return Ptr(TRUE, None)
    def e_This(self, e): return Ptr(FALSE, self.frame().this)
    def e_Zero(self, e): return self.zero(e['t'])
    def e_Mat(self, e):
        v = self.eval(e['e'])
        if isinstance(v, Cell): return v
        c = Cell(v, e['t'], 'tmp'); self._own(v, c)
        return c
    def e_Ref(self, e):
        d = e['d']; dk = e.get('dk')
        if dk == 'fn': return Fn(d, e)
        if dk == 'enumc': raise Unsupported('enum const')
        for fr in (self.frame(),):
            c = fr.env.get(d)
            if c is not None: return c
        if dk == 'global':
            g = self.p.V.get(d)
            return self.globalcell(d, e.get('vt', e['t']), g.get('init') if g else None)
        h = self.hooks.get('ref')
        if h:
            x = h(self, e)
            if x is not NotImplemented: return x
        raise Unsupported('unbound ' + e['n'])
    def e_Mem(self, e):
        b = self.eval(e['b'])
        if e['arrow']:
            if isinstance(b, Cell): b = b.v
            b = self.deref(b)
        if not isinstance(b, Cell): b = Cell(b, e['b']['t'], 'tmp')
        v = b.v
        if isinstance(v, Tup) or not isinstance(v, Rec):
            raise Unsupported('member %s of %s' % (e['f'], type(v).__name__))
        bt = ty(e['b']['t']); cls = bt.base
        c = v.f.get(e['f'])
        if c is not None: return c
        dc, _t = self.decl_class_of(cls, e['f'])
        if dc is None: dc = cls
        return self.field(v, e['f'], e['ft'], dc)
    def deref(self, p, what='dereference'):
        if isinstance(p, Cell): p = p.v
        if isinstance(p, Iter): return self.iter_deref(p)
        if not isinstance(p, Ptr): raise Unsupported('deref ' + type(p).__name__)
        k = is_const_bool(p.null)
        if k is True: raise _Abort('ub', 'null ' + what)
        if k is None:
            if self.branch(p.null): raise _Abort('ub', 'null ' + what)
        if p.cell is None: raise Unsupported('deref of unknown pointer')
        return p.cell
    def iter_deref(self, it):
        i = it.idx if not it.rev else it.idx - 1
        if isinstance(it.vec.v, Str): return Cell(sat(it.vec.v.term, i), 'char', 'ch')
        return self.vec_at(it.vec.v, i)
    def e_Cast(self, e):
        ck = e['ck']
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'UserDefinedConversion', 'ConstructorConversion', 'FunctionToPointerDecay', 'BitCast', 'LValueBitCast'):
            v = self.eval(e['e'])
            if ck == 'BaseToDerived':
                tgt = v
                if isinstance(tgt, Ptr): tgt = tgt.cell
                if isinstance(tgt, Cell) and isinstance(tgt.v, Rec):
                    r = tgt.v
                    cls = ty(e['t']).base
                    if r.term is not None and not r.exact and cls in self.p.R and r.cls in self.p.bases(cls):
                        h = self.hooks.get('downcast')
                        if h: h(self, r, cls)
                        r.cls = cls
            return v
        if ck == 'LValueToRValue':
            v = self.eval(e['e'])
            if isinstance(v, Cell):
                if v.v is None: raise Unsupported('read of uninitialised ' + (v.nm or ''))
                return self.copyval(v.v) if isinstance(v.v, (Rec,)) else v.v
            return v
        if ck == 'ArrayToPointerDecay': 
            v = self.eval(e['e'])
            if isinstance(v, Cell) and isinstance(v.v, Str): return v.v
            return Ptr(FALSE, v) if isinstance(v, Cell) else v
        if ck in ('IntegralCast', 'BooleanToSignedIntegral', 'IntegralToBoolean', 'PointerToBoolean'):
            v = self.rval(e['e'])
            return self.icast(v, e['e']['t'], e['t'])
        if ck == 'NullToPointer':
            return Ptr(TRUE, None)
        if ck == 'ToVoid':
            self.eval(e['e']); return VOID
        if ck == 'Dynamic':
            h = self.hooks.get('dyncast')
            if h: return h(self, e)
            raise Unsupported('dynamic_cast')
        raise Unsupported('cast ' + ck)
    def icast(self, v, ft, tt):
        tt = ty(tt); ft = ty(ft)
        if tt.base == 'bool': return self.tobool(v)
        w = self.bvw(tt)
        if not w: raise Unsupported('icast to ' + tt.s)
        if z3.is_bool(v): return z3.If(v, bv(1, w[0]), bv(0, w[0]))
        if not z3.is_bv(v): raise Unsupported('icast of ' + type(v).__name__)
        s = v.size()
        if s == w[0]: return v
        if s > w[0]: return z3.simplify(z3.Extract(w[0] - 1, 0, v))
        fw = self.bvw(ft)
        return z3.simplify(z3.SignExt(w[0] - s, v) if fw and fw[1] else z3.ZeroExt(w[0] - s, v))
    def signed(self, t):
        w = self.bvw(t)
        return w[1] if w else False
    def binop(self, op, a, b, t):
        if isinstance(a, Cell): a = a.v
        if isinstance(b, Cell): b = b.v
        if op in ('==', '!='):
            r = self.valeq(a, b)
            return r if op == '==' else z3.Not(r)
        if z3.is_bool(a): a = z3.If(a, bv(1, 32), bv(0, 32))
        if z3.is_bool(b): b = z3.If(b, bv(1, 32), bv(0, 32))
        if not (z3.is_bv(a) and z3.is_bv(b)):
            if isinstance(a, Ptr) and op in ('+',) : raise Unsupported('pointer arithmetic')
            raise Unsupported('binop %s on %s,%s' % (op, type(a).__name__, type(b).__name__))
        sg = self.signed(t)
        if op == '+': return a + b
        if op == '-': return a - b
        if op == '*': return a * b
        if op == '/':
            if self.branch(b == 0): raise _Abort('ub', 'division by zero')
            return a / b if sg else z3.UDiv(a, b)
        if op == '%':
            if self.branch(b == 0): raise _Abort('ub', 'division by zero')
            return z3.SRem(a, b) if sg else z3.URem(a, b)
        if op == '&': return a & b
        if op == '|': return a | b
        if op == '^': return a ^ b
        if op == '<<': return a << (b if b.size() == a.size() else (z3.ZeroExt(a.size() - b.size(), b) if b.size() < a.size() else z3.Extract(a.size() - 1, 0, b)))
        if op == '>>':
            if b.size() != a.size(): b = z3.ZeroExt(a.size() - b.size(), b) if b.size() < a.size() else z3.Extract(a.size() - 1, 0, b)
            return a >> b if sg else z3.LShR(a, b)
        if op == '<': return a < b if sg else z3.ULT(a, b)
        if op == '<=': return a <= b if sg else z3.ULE(a, b)
        if op == '>': return a > b if sg else z3.UGT(a, b)
        if op == '>=': return a >= b if sg else z3.UGE(a, b)
        raise Unsupported('binop ' + op)
    def valeq(self, a, b):
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): 
            if z3.is_bool(a) != z3.is_bool(b) :
                a = z3.If(a, bv(1, b.size()), bv(0, b.size())) if z3.is_bool(a) else a
                b = z3.If(b, bv(1, a.size()), bv(0, a.size())) if z3.is_bool(b) else b
            return a == b
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.cell is None or b.cell is None:
                return z3.And(a.null, b.null) if (a.cell is None and is_const_bool(a.null)) or (b.cell is None and is_const_bool(b.null)) else a.null == b.null
            if a.cell is b.cell: return TRUE if True else None
            return z3.And(a.null, b.null)
        if isinstance(a, Iter) and isinstance(b, Iter):
            if a.vec is not b.vec: raise Unsupported('iterators of different containers')
            return a.idx == b.idx
        if isinstance(a, Str) and isinstance(b, Str):
            if a.lit is not None and b.lit is not None: return TRUE if a.lit == b.lit else FALSE
            return a.term == b.term
        if isinstance(a, Opq) and isinstance(b, Opq): return a.term == b.term
        raise Unsupported('== on %s,%s' % (type(a).__name__, type(b).__name__))
    def e_Bin(self, e):
        op = e['op']
        if op == '=':
            b = self.init_value(e['b'], e['b']['t'])
            a = self.eval(e['a'])
            self.setcell(a, b); return a
        if op == ',':
            self.eval(e['a']); return self.eval(e['b'])
        if op == '&&':
            a = self.tobool(self.rval(e['a']))
            return self.lazy_and(a, e['b'])
        if op == '||':
            a = self.tobool(self.rval(e['a']))
            k = is_const_bool(a)
            if k is True: return TRUE
            if k is False: return self.tobool(self.rval(e['b']))
            if self.branch(a): return TRUE
            return self.tobool(self.rval(e['b']))
        a = self.rval(e['a']); b = self.rval(e['b'])
        return self.binop(op, a, b, e['a']['t'])
    def lazy_and(self, a, be):
        k = is_const_bool(a)
        if k is False: return FALSE
        if k is True: return self.tobool(self.rval(be))
        if not self.branch(a): return FALSE
        return self.tobool(self.rval(be))
    def e_Un(self, e):
        op = e['op']
        if op == '*':
            p = self.rval(e['e']); return self.deref(p)
        if op == '&':
            c = self.eval(e['e'])
            if isinstance(c, Cell): return Ptr(FALSE, c)
            return c
        if op == '!': return z3.Not(self.tobool(self.rval(e['e'])))
        if op in ('++', '--'):
            c = self.eval(e['e'])
            old = c.v
            if isinstance(old, Iter): nv = Iter(old.vec, old.idx + (1 if (op == '++') != old.rev else -1), old.rev)
            else: nv = old + 1 if op == '++' else old - 1
            self.setcell(c, nv)
            return old if e['post'] else c
        v = self.rval(e['e'])
        if op == '-': return -v
        if op == '+': return v
        if op == '~': return ~v
        raise Unsupported('unop ' + op)
    def e_CAsg(self, e):
        b = self.rval(e['b']); c = self.eval(e['a'])
        a = c.v
        op = e['op'][:-1]
        if z3.is_bv(a) and z3.is_bv(b):
            ca = self.icast(a, e['a']['t'], e['clt']); 
            if op in ('<<', '>>'): cb = b
            else: cb = self.icast(b, e['b']['t'], e['ct'])
            r = self.icast(self.binop(op, ca, cb, e['ct']), e['ct'], e['a']['t'])
        elif z3.is_bool(a): 
            bb = self.tobool(b)
            r = {'|': z3.Or(a, bb), '&': z3.And(a, bb), '^': z3.Xor(a, bb)}[op]
        else: raise Unsupported('compound assign on ' + type(a).__name__)
        self.setcell(c, r); return c
    def e_Cond(self, e):
        c = self.tobool(self.rval(e['c']))
        if e.get('vk') == 'p' and (e['t'] == 'bool' or self.bvw(e['t'])) and self.pure(e['a']) and self.pure(e['b']):
            a, b = self.rval(e['a']), self.rval(e['b'])
            return z3.If(c, a, b)
        return self.eval(e['a'] if self.branch(c) else e['b'])
    def pure(self, e): return e['k'] == 'Int' or (e['k'] == 'Cast' and e['ck'] == 'LValueToRValue' and e['e']['k'] == 'Ref')
    def e_Idx(self, e):
        a = self.eval(e['a']); i = self.rval(e['i'])
        if isinstance(a, Cell): a = a.v
        if isinstance(a, Ptr): a = self.deref(a).v
        if z3.is_bv(i) and i.size() != 64: i = self.icast(i, e['i']['t'], 'unsigned long')
        if isinstance(a, Vec): return self.vec_at(a, i)
        if isinstance(a, Str): return Cell(sat(a.term, i), 'char', 'ch')
        raise Unsupported('index into ' + type(a).__name__)
    def e_Throw(self, e):
        v = self.rval(e['e']) if e['e'] else None
        t = ty(e['e']['t']).base if e['e'] else '?'
        raise _Throw(t, v)
    def e_Unsup(self, e): raise Unsupported('expr ' + e['c'])
    def e_Dependent(self, e): raise Unsupported('dependent')
    def e_Delete(self, e): return VOID
    def e_Lambda(self, e):
        env = {}; this = None
        for c in e['caps']:
            if c.get('this'): this = self.frame().this; continue
            src = self.eval(c['e']) if c.get('e') else self.frame().env.get(c.get('v'))
            if c['byref']:
                env[c['v']] = src if isinstance(src, Cell) else Cell(src)
            else:
                v = self.copyval(src.v) if isinstance(src, Cell) else src
                env[c['v']] = Cell(v, c.get('ft'), c.get('n', ''))
        return Closure(e, env, this)
    def call_closure(self, cl, args, fn=None):
        fid = fn or cl.node.get('fn')
        if fid is None and cl.node.get('fns'): fid = cl.node['fns'][0]
        f = self.p.F.get(fid)
        if f is None: raise Unsupported('lambda body')
        self.visited_funcs.add(fid)
        env = dict(cl.env)
        for prm, a in zip(f['params'], args):
            pt = ty(prm['t'])
            if pt.ref: env[prm['id']] = a if isinstance(a, Cell) else Cell(a, prm['t'], prm['n'])
            else:
                if isinstance(a, Cell): a = self.copyval(a.v)
                env[prm['id']] = Cell(a, prm['t'], prm['n'])
        fr = Frame(self, env, cl.this); fr.f = f
        self.frames.append(fr)
        try:
            try: self.exec(f['body'])
            except _Ret as r: return r.v
            return VOID
        finally: self.frames.pop()
    def e_Init(self, e):
        t = ty(e['t'])
        if t.base in self.p.R and not t.arr:
            rec = Rec(t.base, None, True)
            fs = self.p.fields(t.base)
            for i, (n, ft, dc, nd) in enumerate(fs):
                c = Cell(None, ft, n, rec)
                if i < len(e['inits']) and e['inits'][i] is not None:
                    if ty(ft).ref: c = self.eval(e['inits'][i])
                    else: c.v = self.init_value(e['inits'][i], ft)
                elif 'init' in nd: c.v = self.init_value(nd['init'], ft)
                else: c.v = self.zero(ft)
                self._own(c.v, c); rec.f[n] = c
            return rec
        if t.arr is not None or t.name == '[]':
            et = t.args[0]
            items = [Cell(self.init_value(x, et), et, 'elem') for x in e['inits']]
            n = e.get('n', len(items))
            while len(items) < n and n <= 4096: items.append(Cell(self.zero(et), et, 'elem'))
            return Vec(et, None, items, '[]')
        if t.name == 'std::array':
            inner = self.eval(e['inits'][0]) if e['inits'] else Vec(t.args[0], None, [])
            if not isinstance(inner, Vec): inner = Vec(t.args[0], None, [])
            items = list(inner.items)
            n = int(re.sub(r'\D', '', t.args[1]) or 0) if len(t.args) > 1 else len(items)
            if n > 4096: raise Unsupported('large array')
            while len(items) < n: items.append(Cell(self.zero(t.args[0]), t.args[0], 'elem'))
            return Vec(t.args[0], None, items, 'std::array')
        if len(e['inits']) == 1: return self.eval(e['inits'][0])
        if not e['inits']: return self.zero(e['t'])
        raise Unsupported('init list of ' + e['t'])
    def e_StdInit(self, e):
        v = self.eval(e['e'])
        if isinstance(v, Cell): v = v.v
        return Vec(v.et, None, v.items, 'std::initializer_list')
    def e_New(self, e):
        v = self.init_value(e['init'], e['at']) if e.get('init') else self.zero(e['at'])
        if e.get('pl'):
            p = self.rval(e['pl'][0]); c = self.deref(p); self.setcell(c, v); return Ptr(FALSE, c)
        c = Cell(v, e['at'], 'heap'); self._own(v, c)
        return Ptr(FALSE, c)
    def e_Opaque(self, e): raise Unsupported('opaque')
    def e_Con(self, e):
        t = ty(e['t'])
        if t.name == 'takatori::util::optional_ptr':
            args = [self.eval(a) for a in e['args']]
            if not args: return Ptr(TRUE, None, t.name)
            x = self.val(args[0])
            if isinstance(x, Ptr): return Ptr(x.null, x.cell, t.name)
            if isinstance(args[0], Cell): return Ptr(FALSE, args[0], t.name)
            return Ptr(TRUE, None, t.name)
        if t.name == 'takatori::util::maybe_shared_ptr' and not e['args']: return Ptr(TRUE, None, t.name)
        if e['fn'] in self.p.F and t.base in self.p.R and t.name != 'takatori::util::enum_set':
            h = self.lookup_contract(e['fn'], e['qn'])
            if h:
                args = self.eval_args(e['args'], e['pts'])
                r = h(self, Call(e, None, args))
                if r is not NotImplemented: return r
                f = self.p.F[e['fn']]
                return self.construct_rec(t.base, e['fn'], args, e)
            f = self.p.F[e['fn']]
            if not ((f.get('copy') or f.get('move')) and f.get('defaulted')):
                args = self.eval_args(e['args'], e['pts'])
                return self.construct_rec(t.base, e['fn'], args, e)
        if t.base in self.p.R and t.name != 'takatori::util::enum_set':
            if (e.get('copy') or e.get('move')) and len(e['args']) >= 1:
                src = self.eval(e['args'][0])
                if not isinstance(src, Cell): return src
                if e.get('move'): return self.moveout(src)
                return self.copyval(src.v)
            if not e['args']:
                return self.default_construct(t.base)
            h = self.lookup_contract(e['fn'], e['qn'])
            if h: return h(self, Call(e, None, self.eval_args(e['args'], e['pts'])))
            raise Unsupported('ctor without body ' + e['qn'] + ' ' + e['fn'])
        args = []
        for i, a in enumerate(e['args']):
            v = self.eval(a)
            args.append((v, a))
        return self.construct_lib(t, args, e)
    # ---------------------------------------------------------- library
    def val(self, x):
        return x.v if isinstance(x, Cell) else x
    def take(self, x, a):
        """value from evaluated arg x with expr a: copy (lvalue) or move (xvalue)"""
        if isinstance(x, Cell):
            return self.moveout(x) if a.get('vk') == 'x' else self.copyval(x.v)
        return x
    def construct_lib(self, t, args, e):
        n = t.name
        h = self.hooks.get('construct')
        if h:
            r = h(self, t, args, e)
            if r is not NotImplemented: return r
        if n in ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr'):
            if not args: return Ptr(TRUE, None, n)
            v = self.take(*args[0])
            if isinstance(v, Ptr): return Ptr(v.null, v.cell, n)
            raise Unsupported('unique_ptr from ' + type(v).__name__)
        if n in ('std::vector',):
            if not args or (len(args) == 1 and isinstance(args[0][0], Opq)): return Vec(t.args[0], None, [])
            x = self.val(args[0][0])
            if isinstance(x, Vec) and len(args) <= 2:
                if x.kind == 'std::initializer_list':
                    return Vec(t.args[0], x.term, [Cell(self.copyval(c.v), t.args[0], 'elem') for c in x.items] if x.items is not None else None)
                return self.take(*args[0])
            if isinstance(x, Iter) and len(args) >= 2:
                return self.range_vec(t, x, self.val(args[1][0]))
            raise Unsupported('vector ctor')
        if n == 'std::optional':
            if not args: return Opt(FALSE, None)
            x = self.val(args[0][0])
            if isinstance(x, Opq) and x.t == 'std::nullopt_t': return Opt(FALSE, None)
            if isinstance(x, Opq) and x.t == 'std::in_place_t':
                v = self.build(t.args[0], args[1:])
                return Opt(TRUE, Cell(v, t.args[0], 'optval'))
            if isinstance(x, Opt) and ty(t.args[0]).name != 'std::optional':
                return self.take(*args[0])
            v = self.build(t.args[0], args[:1])
            return Opt(TRUE, Cell(v, t.args[0], 'optval'))
        if n in ('std::basic_string', 'std::basic_string_view'):
            if not args: return Str(strlit(b''), b'')
            x = self.val(args[0][0])
            if isinstance(x, Opq) and x.t == 'std::allocator': return Str(strlit(b''), b'')
            if isinstance(x, Str):
                if len(args) >= 2 and z3.is_bv(self.val(args[1][0])):
                    k = cint(self.val(args[1][0]))
                    if x.lit is not None and k is not None: return Str(strlit(x.lit[:k]), x.lit[:k])
                    if x.lit is None and z3.is_true(z3.simplify(self.val(args[1][0]) == slen(x.term))): return Str(x.term)
                    return Str(UF('sprefix', U, BV64, U)(x.term, self.val(args[1][0])))
                if getattr(x, 'nul', False): return Str(UF('cstring', U, U)(x.term))
                v = self.take(*args[0])
                if n == 'std::basic_string' and v.lit is not None and ty(args[0][1]['t']).ptr and v.lit.endswith(b'\0'): v = Str(strlit(v.lit[:-1]), v.lit[:-1])
                return v
            raise Unsupported('string ctor from ' + type(x).__name__)
        if n == 'std::function':
            if not args: return Ptr(TRUE, None, 'function')
            x = self.take(*args[0])
            if isinstance(x, Closure): return Ptr(FALSE, Cell(x), 'function')
            if isinstance(x, Ptr): return x
            raise Unsupported('function ctor')
        if n == 'std::initializer_list':
            return self.take(*args[0])
        if n in ('std::nullopt_t', 'std::in_place_t', 'std::allocator', 'std::default_delete'): return Opq(z3.Const(n, U), n)
        if n == 'std::tuple' or n == 'std::pair':
            if len(args) == 1 and isinstance(self.val(args[0][0]), Tup): return self.take(*args[0])
            if not args: return Tup([Cell(self.zero(a), a) for a in t.args])
            return Tup([Cell(self.conv(self.take(*a), tt), tt) if not ty(tt).ref else a[0] for a, tt in zip(args, t.args)])
        if n == '__gnu_cxx::__normal_iterator' or n == 'std::reverse_iterator': return self.take(*args[0])
        if n.startswith('std::') and ('error' in n or n in ('std::invalid_argument', 'std::out_of_range', 'std::exception')):
            o = Opq(z3.Const(self.newname('exc'), U), n); o.parts = [self.val(a[0]) for a in args]; return o
        if len(args) == 1 and (e.get('copy') or e.get('move')): return self.take(*args[0])
        if n == 'takatori::util::enum_set':
            o = Opq(z3.Const(self.newname('enum_set'), U), t.base); o.parts = []; o.set = []
            for a in args:
                x = self.val(a[0])
                if isinstance(x, Vec) and x.items is not None: o.set += [self.val(c) for c in x.items]
                elif z3.is_bv(x): o.set.append(x)
                elif isinstance(x, Opq) and x.t == t.base: return x
                else: raise Unsupported('enum_set from ' + type(x).__name__)
            return o
        o = Opq(z3.Const(self.newname('lib:' + n), U), t.base)
        o.parts = [self.val(a[0]) for a in args]
        self.trusted_used.add(n)
        return o
    def range_vec(self, t, a, b):
        k0, k1 = cint(a.idx), cint(b.idx)
        v = a.vec.v
        if k0 is not None and k1 is not None and v.items is not None: return Vec(t.args[0], None, [Cell(self.copyval(c.v), c.t, 'elem') for c in v.items[k0:k1]])
        tm = self.vec_term(v)
        r = UF('subvec', U, BV64, BV64, U)(tm, a.idx, b.idx)
        self.assume(vlen(r) == b.idx - a.idx)
        if getattr(self, 'vec_quant', False):
            k = z3.Const('k!rv', BV64); w = self.bvw(t.args[0])
            if w: at = lambda q, i: UF('vec.at', U, BV64, z3.BitVecSort(w[0]))(q, i)
            else: at = velem
            self.assume(z3.ForAll([k], z3.Implies(z3.ULT(k, b.idx - a.idx), at(r, k) == at(tm, a.idx + k))))
        return Vec(t.args[0], r, None)
    def vec_term(self, v):
        if v.items is None: return v.term
        c = z3.Const(self.newname('vecterm'), U)
        self.assume(vlen(c) == len(v.items))
        n = Vec(v.et, c, None)
        for i, it in enumerate(v.items): self.assume(self.same(it, self.vec_at(n, bv(i))))
        return c
    def build(self, t, args):
        """construct T from already evaluated args [(v, expr)] (make_unique, emplace_back, in_place ...)"""
        tt = ty(t)
        if tt.base in self.p.R and tt.name != 'takatori::util::enum_set' and not tt.ptr:
            if len(args) == 1:
                x = self.val(args[0][0])
                if isinstance(x, Rec) and (x.cls == tt.base):
                    f = self.find_ctor(tt.base, args)
                    if f is None or (self.p.F.get(f, {}).get('defaulted')) or f not in self.p.F: return self.take(*args[0])
            f = self.find_ctor(tt.base, args)
            if f is None: 
                if not args: return self.default_construct(tt.base)
                raise Unsupported('no ctor for build ' + t)
            return self.construct_with(tt.base, f, args)
        if not args: return self.zero(t)
        return self.construct_lib(tt, args, {}) if not (self.bvw(tt) or tt.base == 'bool' or tt.ptr) else self.take(*args[0])
    def construct_with(self, cls, fid, args):
        f = self.p.F[fid]
        h = self.lookup_contract(fid, f['qn'])
        av = []
        for i, prm in enumerate(f['params']):
            pt = ty(prm['t'])
            if i < len(args):
                v, ex = args[i]
                if pt.ref:
                    if pt.name == 'std::initializer_list' or not self.compatible(self.val(v), pt, ex): v = self.implicit(v, ex, pt)
                    av.append(v if isinstance(v, Cell) else Cell(v, prm['t'], 'tmp'))
                else:
                    val = self.val(v)
                    if self.compatible(val, pt, ex): av.append(self.conv(self.take(v, ex), prm['t']))
                    else: av.append(self.implicit(v, ex, pt))
            else:
                m = self.default_arg(fid, i)
                av.append(m)
        if h:
            r = h(self, Call({'fn': fid, 'qn': f['qn'], 't': cls}, None, av))
            if r is not NotImplemented: return r
        return self.construct_rec(cls, fid, av)
    def default_arg(self, fid, i):
        d = self.p.F[fid]['params'][i].get('dflt')
        f = self.p.F[fid]
        t = ty(f['params'][i]['t'])
        # default arguments in this code base are `{}` or nullptr
        return self.zero(t.s)
    def compatible(self, v, pt, ex):
        if isinstance(v, Rec):
            return pt.base in self.p.bases(v.cls) or v.cls == pt.base
        if isinstance(v, Opt): return pt.name == 'std::optional'
        if isinstance(v, Vec): return pt.name in ('std::vector', 'std::array', 'std::initializer_list')
        if isinstance(v, Str): return pt.name in ('std::basic_string', 'std::basic_string_view')
        if isinstance(v, Ptr): return bool(pt.ptr) or pt.name in ('std::unique_ptr', 'std::shared_ptr') or (pt.name == 'takatori::util::maybe_shared_ptr' and v.kind == pt.name)
        if z3.is_expr(v): return bool(self.bvw(pt)) or pt.base == 'bool'
        return True
    def implicit(self, v, ex, pt):
        """implicit conversion of an evaluated arg to type pt through a converting ctor"""
        if pt.base in self.p.R:
            f = self.find_ctor(pt.base, [(v, ex)])
            if f: return self.construct_with(pt.base, f, [(v, ex)])
        if pt.name == 'std::optional':
            inner = self.build(pt.args[0], [(v, ex)])
            return Opt(TRUE, Cell(inner, pt.args[0], 'optval'))
        return self.construct_lib(pt, [(v, ex)], {})
    def find_ctor(self, cls, args):
        """overload resolution over constructors on evaluated arguments (exact > implicit conversion)"""
        best = None; bs = -1; tie = False
        for m in self.p.R[cls]['methods']:
            if not m.get('ctor') or m['deleted']: continue
            ps = m['params']
            f = self.p.F.get(m['id'])
            if len(ps) < len(args): continue
            if len(ps) > len(args):
                # remaining must have defaults; only region-like / nullable tails are accepted
                if not all(self.has_default(m['id'], j, ps[j]) for j in range(len(args), len(ps))): continue
            sc = 0; ok = True
            for (v, ex), p in zip(args, ps):
                s = self.argscore(self.val(v), ex, ty(p))
                if s <= 0: ok = False; break
                sc += s
            if ok:
                sc = sc * 10 - (len(ps) - len(args))
                if sc > bs: best, bs, tie = m['id'], sc, False
                elif sc == bs: tie = True
        if best is not None and best not in self.p.F: 
            f = None
        return best
    def has_default(self, mid, j, pt):
        t = ty(pt)
        return t.base == 'mizugaki::ast::node_region' or t.name in ('std::optional', 'takatori::util::rvalue_ptr', 'std::unique_ptr', 'std::vector', 'takatori::util::maybe_shared_ptr', 'std::basic_string') or t.base == 'bool' or bool(self.bvw(t))
    def argscore(self, v, ex, pt):
        et = ty(ex['t']) if ex.get('t') else None
        if et is not None and et.base == pt.base and et.ptr == pt.ptr:
            if pt.ref == '&&' and ex.get('vk') == 'l': return 0
            if pt.ref == '&' and not pt.const and ex.get('vk') != 'l': return 0
            return 6 if (pt.ref == '&&') == (ex.get('vk') in ('x', 'p')) else 5
        if isinstance(v, Rec):
            if pt.base in self.p.bases(v.cls):
                if pt.ref == '&&' and ex.get('vk') == 'l': return 0
                if pt.ref == '&' and not pt.const and ex.get('vk') != 'l': return 0
                return 4
            if pt.name == 'std::optional': return 2 if ty(pt.args[0]).base == v.cls else 0
            return self.convertible(v, ex, pt)
        if isinstance(v, Ptr):
            if v.kind in ('std::unique_ptr', 'std::shared_ptr'): 
                if pt.name == v.kind: return 4 if self.ptr_ok(et, pt) else 0
                return self.convertible(v, ex, pt)
            if et is not None and et.base == 'std::nullptr_t': return 3 if pt.ptr or pt.name in ('std::unique_ptr', 'std::shared_ptr', 'takatori::util::rvalue_ptr') else 0
            if pt.ptr: return 3
            return self.convertible(v, ex, pt)
        if isinstance(v, Vec):
            if pt.name == 'std::vector' and v.kind != 'std::initializer_list': return 0 if et is not None and et.base != pt.base and et.name == 'std::vector' else 4
            return 3 if v.kind == 'std::initializer_list' and pt.name in ('std::initializer_list', 'std::vector') else 0
        if isinstance(v, Str): return 4 if pt.name in ('std::basic_string', 'std::basic_string_view') else self.convertible(v, ex, pt)
        if isinstance(v, Opt): return 0
        if isinstance(v, Opq):
            if v.t == 'std::nullopt_t' and pt.name == 'std::optional': return 4
            return 4 if v.t == pt.base else self.convertible(v, ex, pt)
        if z3.is_expr(v):
            if et is not None and et.base in self.p.E:
                if pt.base in self.p.E: return 0
                if pt.name == 'std::optional' and ty(pt.args[0]).base == et.base: return 2
                return self.convertible(v, ex, pt)
            if self.bvw(pt) and pt.base not in self.p.E or pt.base == 'bool': return 3
            return self.convertible(v, ex, pt)
        return 0
    def ptr_ok(self, et, pt):
        if et is None: return True
        a, b = ty(et.args[0]).base, ty(pt.args[0]).base
        return a == b or b in self.p.bases(a)
    def convertible(self, v, ex, pt):
        if pt.base not in self.p.R or pt.ref == '&' and not pt.const: return 0
        if getattr(self, '_cv', 0) > 1: return 0
        self._cv = getattr(self, '_cv', 0) + 1
        try:
            for m in self.p.R[pt.base]['methods']:
                if m.get('ctor') and not m['deleted'] and m['params']:
                    p0 = ty(m['params'][0])
                    if p0.base == pt.base: continue
                    if all(self.has_default(m['id'], j, m['params'][j]) for j in range(1, len(m['params']))) and self.argscore(v, ex, p0) >= 3: return 1
        finally: self._cv -= 1
        return 0

    # ---- method calls
    def e_MCall(self, e):
        o = self.eval(e['obj'])
        if e.get('arrow'):
            o = self.deref(self.val(o), 'receiver of ' + e['qn'])
        if not isinstance(o, Cell):
            o = Cell(o, e['obj']['t'], 'tmp'); self._own(o.v, o)
        v = o.v
        fid = e['fn']
        if isinstance(v, Closure):
            args = []
            f = self.p.F.get(fid)
            args = self.eval_args(e['args'], e['pts'])
            return self.call_closure(v, args, fid if fid in self.p.F else None)
        h = self.lookup_contract(fid, e['qn'])
        if h:
            args = self.eval_args(e['args'], e['pts'])
            r = h(self, Call(e, o, args))
            if r is not NotImplemented: return r
            return self.dispatch(e, fid, o, args)
        if isinstance(v, Rec) and (fid in self.p.F or e.get('virt') or ty(e['cls']).base in self.p.R) and not e['cls'].startswith('std::'):
            f = self.p.F.get(fid)
            m = self.p._meth(fid)
            if f is not None and f.get('defaulted') or (f is None and e['qn'].endswith('operator=')):
                args = [self.eval(a) for a in e['args']]
                return self.default_assign(o, args[0], e)
            args = self.eval_args(e['args'], e['pts'])
            return self.dispatch(e, fid, o, args)
        args = [(self.eval(a), a) for a in e['args']]
        return self.libmethod(e, o, args)
    def default_assign(self, o, src, e):
        xv = e['args'][0].get('vk') in ('x', 'p')
        if not isinstance(src, Cell): src = Cell(src)
        nv = self.moveout(src) if xv else self.copyval(src.v)
        self.setcell(o, nv)
        return o
    def dispatch(self, e, fid, o, args):
        v = o.v
        if e.get('virt') and isinstance(v, Rec):
            r = self.p.R.get(v.cls)
            if v.exact or (r and r['final']):
                ov = self.p.find_override(v.cls, fid)
                if ov and ov in self.p.F: return self.call(ov, o, args, e)
                raise Unsupported('no override body for %s in %s' % (e['qn'], v.cls))
            h = self.hooks.get('virtual')
            if h:
                x = h(self, e, o, args)
                if x is not NotImplemented: return x
            # accessor-like virtual of an opaque object: uninterpreted function of the object
            name = e['qn'].split('::')[-1]
            if not args and v.term is not None:
                return self.symval(e['t'], 'virt.' + name, v.term)
            raise Unsupported('virtual call %s on opaque object' % e['qn'])
        if fid in self.p.F: return self.call(fid, o, args, e)
        m = self.p._meth(fid)
        raise Unsupported('no body for ' + e['qn'])
    def libmethod(self, e, o, args):
        v = o.v
        name = e['qn'].split('::')[-1]
        if name.startswith('operator'): name = e['qn'][e['qn'].rindex('operator'):]
        h = self.hooks.get('libmethod')
        if h:
            x = h(self, e, o, args, name)
            if x is not NotImplemented: return x
        fn = getattr(self, 'm_' + type(v).__name__, None)
        if fn: return fn(e, o, v, name, args)
        raise Unsupported('method %s on %s' % (e['qn'], type(v).__name__))
    def m_Ptr(self, e, o, v, name, args):
        if name == 'operator bool': return z3.Not(v.null)
        if name == 'operator*' or name == 'operator->' or name == 'get':
            if name == 'operator*': return self.deref(v)
            return Ptr(v.null, v.cell)
        if name == 'operator=':
            x = self.take(*args[0])
            if not isinstance(x, Ptr):
                if isinstance(x, Closure): self.setcell(o, Ptr(FALSE, Cell(x), v.kind)); return o
                raise Unsupported('ptr assign')
            self.setcell(o, Ptr(x.null, x.cell, v.kind)); return o
        if name == 'reset':
            if args:
                x = self.val(args[0][0]); self.setcell(o, Ptr(x.null, x.cell, v.kind))
            else: self.setcell(o, Ptr(TRUE, None, v.kind))
            return VOID
        if name == 'release':
            self.setcell(o, Ptr(TRUE, None, v.kind)); return Ptr(v.null, v.cell)
        if name == 'operator()':   # std::function
            c = self.deref(v)
            return self.call_closure(c.v, [self.val(a[0]) for a in args])
        raise Unsupported('Ptr.' + name)
    def m_Opt(self, e, o, v, name, args):
        if name in ('operator bool', 'has_value'): return v.has
        if name in ('operator*', 'operator->', 'value'):
            k = is_const_bool(v.has)
            if k is None:
                if not self.branch(v.has):
                    if name == 'value': raise _Throw('std::bad_optional_access', None)
                    raise _Abort('ub', 'deref of empty optional')
            elif k is False:
                if name == 'value': raise _Throw('std::bad_optional_access', None)
                raise _Abort('ub', 'deref of empty optional')
            return Ptr(FALSE, v.cell) if name == 'operator->' else v.cell
        if name == 'operator=':
            et = ty(o.t).args[0] if o.t and ty(o.t).name == 'std::optional' else ty(e['cls']).args[0]
            x = self.val(args[0][0])
            if isinstance(x, Opq) and x.t == 'std::nullopt_t': self.setcell(o, Opt(FALSE, None)); return o
            x = self.take(*args[0])
            if not isinstance(x, Opt): x = Opt(TRUE, Cell(x, et, 'optval'))
            self.setcell(o, x); return o
        if name == 'reset': self.setcell(o, Opt(FALSE, None)); return VOID
        if name == 'emplace':
            et = ty(e['cls']).args[0]
            self.setcell(o, Opt(TRUE, Cell(self.build(et, args), et, 'optval'))); return o.v.cell
        if name == 'value_or':
            if self.branch(v.has): return self.copyval(v.cell.v)
            return self.take(*args[0])
        raise Unsupported('Opt.' + name)
    def m_Vec(self, e, o, v, name, args):
        if name == 'size': return self.vec_len(v)
        if name == 'empty': return self.vec_len(v) == 0
        if name == 'reserve': return VOID
        if name in ('operator[]', 'at'):
            i = self.val(args[0][0])
            if i.size() != 64: i = self.icast(i, args[0][1]['t'], 'unsigned long')
            n = self.vec_len(v)
            if not self.branch(z3.ULT(i, n)): raise _Abort('ub', 'vector index out of range')
            return self.vec_at(v, i)
        if name == 'front': 
            if not self.branch(z3.ULT(bv(0), self.vec_len(v))): raise _Abort('ub', 'front of empty')
            return self.vec_at(v, bv(0))
        if name == 'back':
            if not self.branch(z3.ULT(bv(0), self.vec_len(v))): raise _Abort('ub', 'back of empty')
            return self.vec_at(v, self.vec_len(v) - 1)
        if name in ('emplace_back', 'push_back'):
            if v.kind not in ('vector', 'std::vector'): raise Unsupported('push to ' + v.kind)
            nv = self.build(v.et, args)
            c = Cell(nv, v.et, 'elem'); self._own(nv, c); c.own = v
            if v.items is not None:
                v.items.append(c); self.mark_dirty(o); self.note_write(o); self.jw.append(o)
            else:
                et_ = self.elem_term(c)
                r = UF('vappend', U, U, U)(v.term, et_)
                self.assume(vlen(r) == vlen(v.term) + 1)
                if getattr(self, 'vec_quant', False):
                    j = z3.Const('j!va', BV64)
                    if z3.is_bv(c.v):
                        at = lambda q, k: UF('vec.at', U, BV64, c.v.sort())(q, k)
                        self.assume(at(r, vlen(v.term)) == c.v)
                        self.assume(z3.ForAll([j], z3.Implies(z3.ULT(j, vlen(v.term)), at(r, j) == at(v.term, j))))
                    self.assume(velem(r, vlen(v.term)) == et_)
                    self.assume(z3.ForAll([j], z3.Implies(z3.ULT(j, vlen(v.term)), velem(r, j) == velem(v.term, j))))
                self.path.st.setdefault('app', {})[r.get_id()] = (r, c)
                nn = Vec(v.et, r, None); self.setcell(o, nn)
                nn.cache.append((z3.simplify(vlen(v.term)), c))
            return c
        if name == 'pop_back':
            if v.items is not None:
                if not v.items: raise _Abort('ub', 'pop_back of empty')
                v.items.pop(); self.mark_dirty(o); self.jw.append(o); return VOID
            if not self.branch(z3.ULT(bv(0), vlen(v.term))): raise _Abort('ub', 'pop_back of empty')
            r = UF('vpop', U, U)(v.term)
            if getattr(self, 'vec_quant', False):
                k = z3.Const('k!vp', BV64)
                self.assume(z3.ForAll([k], z3.Implies(z3.ULT(k, vlen(v.term) - 1), velem(r, k) == velem(v.term, k)), patterns=[velem(r, k)]))
            self.assume(vlen(r) == vlen(v.term) - 1)
            nn = Vec(v.et, r, None)
            self.setcell(o, nn); return VOID
        if name == 'clear': self.setcell(o, Vec(v.et, None, [], v.kind)); return VOID
        if name == 'operator=':
            x = self.take(*args[0])
            if isinstance(x, Vec):
                self.setcell(o, Vec(v.et, x.term, x.items, v.kind)); o.v.cache = x.cache if x.items is None else []
                return o
            raise Unsupported('vec assign')
        if name in ('begin', 'cbegin'): return Iter(o, bv(0))
        if name in ('end', 'cend'): return Iter(o, self.vec_len(v))
        if name in ('rbegin', 'crbegin'): return Iter(o, self.vec_len(v), True)
        if name in ('rend', 'crend'): return Iter(o, bv(0), True)
        if name == 'resize' and isinstance(o, Cell):
            n = self.val(args[0][0]); r = z3.Const(self.newname('resized'), U)
            self.assume(vlen(r) == n); self.setcell(o, Vec(v.et, r, None, v.kind)); return VOID     # elements: any
        if name == 'data':
            x = Opq(z3.Const(self.newname('data'), U), 'data'); x.parts.append(o)
            return Ptr(FALSE, Cell(x, v.et, 'data'))
        raise Unsupported('Vec.' + name)
    def note_write(self, o):
        if self.writes is not None and o.nm: self.writes.append(o)
    def elem_term(self, c):
        v = c.v
        if isinstance(v, (Str, Opq)): return v.term
        if isinstance(v, Rec) and v.term is not None and not v.dirty: return v.term
        if isinstance(v, Ptr) and v.cell is not None and isinstance(v.cell.v, Rec) and v.cell.v.term is not None and not v.cell.v.dirty and is_const_bool(v.null) is False: return v.cell.v.term
        if isinstance(v, Ptr) and is_const_bool(v.null) is True: return NULLU
        if isinstance(v, Rec):
            t = self.projection_of(v)
            if t is not None: return t
        k = z3.Const(self.newname('elem'), U)
        n = Cell(None, c.t)
        try:
            n.v = self.from_term(c.t, k); self.assume(self.same(c, n))
        except Unsupported: pass
        return k
    def projection_of(self, v):
        """term t such that every attribute of record value v is the one of t (a value is determined by its attributes)"""
        cand = None
        for n, t, dc, nd in self.p.fields(v.cls):
            x = v.f[n].v if n in v.f else None
            tm = x if z3.is_expr(x) else getattr(x, 'term', None)
            if tm is not None and z3.is_app(tm) and tm.num_args() == 1 and tm.decl().name() == '%s.%s' % (dc, n): cand = tm.arg(0); break
        if cand is None: return None
        r = Rec(v.cls, cand)
        try:
            for n, t, dc, nd in self.p.fields(v.cls):
                if n not in v.f or not z3.is_true(z3.simplify(self.same(v.f[n], self.field(r, n, t, dc)))): return None
        except Unsupported: return None
        return cand
    def m_Str(self, e, o, v, name, args):
        if name in ('size', 'length'): return slen(v.term) if v.lit is None else bv(len(v.lit))
        if name == 'empty': return (slen(v.term) if v.lit is None else bv(len(v.lit))) == 0
        if name == 'operator basic_string_view' or name.startswith('operator '): return v
        if name in ('data', 'c_str'):
            r = Str(v.term, v.lit)
            r.nul = v.lit is None   # read back without a length it ends at the first NUL
            return r
        if name == 'reserve': return VOID
        if name in ('operator[]', 'at', 'front', 'back'):
            n = slen(v.term) if v.lit is None else bv(len(v.lit))
            i = bv(0) if name == 'front' else (n - 1 if name == 'back' else self.val(args[0][0]))
            if not self.branch(z3.ULT(i, n)): raise _Abort('ub', 'string index out of range')
            k = cint(i)
            if v.lit is not None and k is not None: return Cell(bv(v.lit[k], 8), 'char', 'ch')
            return Cell(sat(v.term, i), 'char', 'ch')
        if name == 'operator=':
            x = self.take(*args[0])
            self.setcell(o, Str(x.term, x.lit)); return o
        if name in ('substr',):
            n = slen(v.term)
            p = self.val(args[0][0]); l = self.val(args[1][0]) if len(args) > 1 else bv(-1)
            r = UF('ssub', U, BV64, BV64, U)(v.term, p, l)
            if getattr(self, 'str_ext', False):
                if self.branch(z3.UGT(p, n)): raise _Throw('std::out_of_range', None)
                j = z3.Const('j!ss', BV64)
                self.assume(slen(r) == z3.If(z3.ULT(n - p, l), n - p, l)); self.assume(z3.ForAll([j], z3.Implies(z3.ULT(j, slen(r)), sat(r, j) == sat(v.term, p + j))))
            return Str(r)
        if name in ('push_back', 'append', 'operator+='):
            a = [self.val(x[0]) for x in args]
            ch = None
            if name == 'append' and len(a) == 2 and cint(a[0]) == 1: ch = a[1]
            elif len(a) == 1 and z3.is_bv(a[0]): ch = a[0]
            if ch is not None:
                r = UF('spush', U, z3.BitVecSort(8), U)(v.term, ch)
                n = slen(v.term)
                self.assume(slen(r) == n + 1); self.assume(sat(r, n) == ch)
                j = z3.Const('j!sp', BV64)
                self.assume(z3.ForAll([j], z3.Implies(z3.ULT(j, n), sat(r, j) == sat(v.term, j))))
                self.setcell(o, Str(r)); return o
            if len(a) == 1 and isinstance(a[0], Str):
                self.setcell(o, Str(UF('scat', U, U, U)(v.term, a[0].term))); return o
        if name in ('begin', 'cbegin'): return Iter(o, bv(0))
        if name in ('end', 'cend'): return Iter(o, slen(v.term))
        if name == 'clear': self.setcell(o, Str(strlit(b''), b'')); return VOID
        raise Unsupported('Str.' + name)
    def m_Iter(self, e, o, v, name, args):
        if name == 'operator*': return self.iter_deref(v)
        if name == 'operator->': return Ptr(FALSE, self.iter_deref(v))
        if name in ('operator++', 'operator--'):
            d = 1 if (name == 'operator++') != v.rev else -1
            nv = Iter(v.vec, v.idx + d, v.rev); self.setcell(o, nv)
            return o if not args else v
        if name in ('operator+', 'operator-'):
            d = self.val(args[0][0])
            if (name == 'operator-') != v.rev: d = -d
            return Iter(v.vec, v.idx + d, v.rev)
        if name in ('operator+=', 'operator-='):
            d = self.val(args[0][0])
            if (name == 'operator-=') != v.rev: d = -d
            self.setcell(o, Iter(v.vec, v.idx + d, v.rev)); return o
        if name == 'base': return Iter(v.vec, v.idx, False)
        raise Unsupported('Iter.' + name)
    def m_Tup(self, e, o, v, name, args):
        if name == 'operator=':
            x = self.val(args[0][0])
            for c, s in zip(v.cells, x.cells): self.setcell(c, self.copyval(s.v))
            return o
        raise Unsupported('Tup.' + name)
    def m_Opq(self, e, o, v, name, args):
        if name == 'operator=':
            x = self.take(*args[0]); self.setcell(o, x); return o
        # streams, builders: record
        if name == 'operator<<':
            v.parts.append(self.snapshot(args[0])); self.jw.append(o); return o
        if name in ('what', 'str'): return Str(z3.Const(self.newname('text'), U))
        if v.t and v.t.startswith('takatori::util::enum_set'):
            if name in ('contains', 'operator[]') and v.set is not None:
                x = self.val(args[0][0]); return z3.Or([FALSE] + [x == k for k in v.set])
            if name in ('empty', 'operator bool') and v.set is not None: return z3.BoolVal((len(v.set) == 0) == (name == 'empty'))
            has = lambda x: z3.Or([UF('enumset.has', U, z3.BitVecSort(32), z3.BoolSort())(v.term, x)] + [x == k for k in v.parts])
            if name in ('contains', 'operator[]'): return has(self.val(args[0][0]))
            if name in ('insert', 'operator+=') and isinstance(o, Cell):
                x = self.val(args[0][0]); was = has(x)
                n = Opq(v.term, v.t); n.parts = v.parts + [x]
                if v.set is not None: n.parts = []; n.set = v.set + [x]; was = z3.Or([FALSE] + [x == k for k in v.set])
                self.setcell(o, n); return z3.Not(was) if name == 'insert' else o
        raise Unsupported('method %s of opaque %s' % (name, v.t))
    def m_Rec(self, e, o, v, name, args): raise Unsupported('method %s on record %s' % (e['qn'], v.cls))
    def m_Fn(self, e, o, v, name, args): raise Unsupported('method on function')
    def snapshot(self, a):
        v = self.val(a[0])
        return v
    # ---- free calls
    def e_ICall(self, e):
        c = self.eval(e['callee'])
        if isinstance(c, Cell): c = c.v
        args = [self.eval(a) for a in e['args']]
        if isinstance(c, Closure): return self.call_closure(c, args)
        if isinstance(c, Fn): return self.call(c.fid, None, args)
        raise Unsupported('indirect call')
    def e_Call(self, e):
        fid, qn = e['fn'], e['qn']
        h = self.lookup_contract(fid, qn)
        if h:
            args = self.eval_args(e['args'], e['pts'])
            r = h(self, Call(e, None, args))
            if r is not NotImplemented: return r
            if fid in self.p.F: return self.call(fid, None, args, e)
            raise Unsupported('contract fell through ' + qn)
        if fid in self.p.F and not qn.startswith('std::') and not qn.startswith('takatori::util::string_builder'):
            if 'string_builder' in fid and qn.endswith('operator<<'): return self.sb_shift(e)
            args = self.eval_args(e['args'], e['pts'])
            return self.call(fid, None, args, e)
        n = qn.replace('std::__cxx11::', 'std::')
        k = 'f_' + re.sub(r'\W+', '_', n)
        if 'operator""sv' in n: k = 'f_std_operator_sv'
        fn = getattr(self, k, None)
        if fn: return fn(e)
        h = self.hooks.get('call')
        if h:
            x = h(self, e)
            if x is not NotImplemented: return x
        raise Unsupported('call ' + qn)
    def sb_shift(self, e):
        a = self.eval(e['args'][0]); b = self.eval(e['args'][1])
        ac = a if isinstance(a, Cell) else Cell(a)
        bt = ty(e['pts'][1]).base
        if bt.endswith('to_string_t'):
            r = Str(z3.Const(self.newname('msg'), U))
            parts = ac.v.parts if isinstance(ac.v, Opq) else self.path.st.get('sb', {}).get(id(ac.v), (0, []))[1]
            self.path.st.setdefault('msgs', []).append((r.term, list(parts)))
            return r
        x = self.val(b)
        self.jw.append(ac)
        if isinstance(ac.v, Opq): ac.v.parts.append(x)
        else: self.path.st.setdefault('sb', {}).setdefault(id(ac.v), (ac.v, []))[1].append(x)
        return ac
    def f_std_move(self, e):
        v = self.eval(e['args'][0])
        return v
    def f_std_forward(self, e): return self.eval(e['args'][0])
    def f_std_setw(self, e): return Opq(z3.Const(self.newname('manip'), U), 'manip')
    f_std_setfill = f_std_setprecision = f_std_setw
    def f_std_as_const(self, e): return self.eval(e['args'][0])
    def f_std_addressof(self, e):
        c = self.eval(e['args'][0])
        if isinstance(c, Cell): return Ptr(FALSE, c)
        raise Unsupported('addressof')
    def f___assert_fail(self, e): raise _Abort('assert', e.get('l'))
    def f_abort(self, e): raise _Abort('abort', e.get('l'))
    def f_std_abort(self, e): raise _Abort('abort', e.get('l'))
    def f_std_operator_sv(self, e):
        v = self.val(self.eval(e['args'][0])); n = cint(self.rval(e['args'][1]))
        lit = v.lit[:n]
        return Str(strlit(lit), lit)
    def f_std_make_unique(self, e):
        t = e['targs'][0]
        args = [(self.eval(a), a) for a in e['args']]
        v = self.build(t, args)
        c = Cell(v, t, 'heap'); self._own(v, c)
        return Ptr(FALSE, c, 'std::unique_ptr')
    def f_std_make_shared(self, e):
        p = self.f_std_make_unique(e); p.kind = 'std::shared_ptr'; return p
    def f_std_exchange(self, e):
        c = self.eval(e['args'][0]); old = self.moveout(c) if not z3.is_expr(c.v) else c.v
        nv = self.eval(e['args'][1])
        nv = self.take(nv, e['args'][1])
        if isinstance(old, Ptr) and isinstance(nv, Ptr): nv = Ptr(nv.null, nv.cell, old.kind)
        self.setcell(c, nv); return old
    def f_std_swap(self, e):
        a = self.eval(e['args'][0]); b = self.eval(e['args'][1])
        x, y = a.v, b.v
        self.setcell(a, y); self.setcell(b, x); return VOID
    def _minmax(self, e, mx):
        if len(e['args']) == 1:
            v = self.val(self.eval(e['args'][0])); vals = [c.v for c in v.items]
            t = v.et
        else:
            cs = [self.eval(a) for a in e['args'][:2]]; vals = [self.val(c) for c in cs]; t = e['args'][0]['t']
        sg = self.signed(t)
        r = vals[0]
        for x in vals[1:]:
            c = (x > r if sg else z3.UGT(x, r)) if mx else (x < r if sg else z3.ULT(x, r))
            r = z3.If(c, x, r)
        return Cell(r, t, 'tmp') if e.get('vk') == 'l' else r
    def f_std_min(self, e): return self._minmax(e, False)
    def f_std_max(self, e): return self._minmax(e, True)
    def f_std_make_tuple(self, e):
        return Tup([Cell(self.take(self.eval(a), a), a['t']) for a in e['args']])
    def f_std_make_pair(self, e): return self.f_std_make_tuple(e)
    def f_std_tie(self, e): return Tup([self.eval(a) for a in e['args']])
    def f_std_get(self, e):
        v = self.val(self.eval(e['args'][0]))
        m = re.search(r'get<#?V?(\w*?)(\d+)', e['fn'])
        if isinstance(v, Tup) and m: return v.cells[int(m.group(2))]
        if isinstance(v, Opq) and v.t and v.t.startswith('std::variant<') and len(v.parts) == 1:
            c = v.parts[0]
            if not isinstance(c, Cell): raise Unsupported('std::get')
            if ty(e['t']).base != ty(c.t).base: raise _Throw('std::bad_variant_access', None)
            return c
        raise Unsupported('std::get')
    def f_std_destroy_at(self, e): self.eval(e['args'][0]); return VOID
    def f_std_operator_(self, e):
        """std::operator==, <<, !=, ... on library values (name mangled to same key)"""
        op = e['qn'][len('std::operator'):]
        a = self.eval(e['args'][0]); b = self.eval(e['args'][1])
        if op == '<<':
            ac = a if isinstance(a, Cell) else Cell(a)
            self.jw.append(ac)
            if isinstance(ac.v, Opq): ac.v.parts.append(self.val(b))
            return ac
        return self.lib_cmp(op, self.val(a), self.val(b), e)
    f_std_operator = f_std_operator_
    def f___gnu_cxx_operator_(self, e):
        op = e['qn'][len('__gnu_cxx::operator'):]
        a = self.rval(e['args'][0]); b = self.rval(e['args'][1])
        return self.lib_cmp(op, a, b, e)
    def lib_cmp(self, op, a, b, e):
        if isinstance(a, Iter) and isinstance(b, Iter):
            if op == '==': return a.idx == b.idx
            if op == '!=': return a.idx != b.idx
            x, y = (a.idx, b.idx) if not a.rev else (b.idx, a.idx)
            if op == '-': return x - y
            return {'<': z3.ULT(x, y), '<=': z3.ULE(x, y), '>': z3.UGT(x, y), '>=': z3.UGE(x, y)}[op]
        if op in ('==', '!='):
            r = self.libeq(a, b, e)
            return r if op == '==' else z3.Not(r)
        raise Unsupported('operator%s on %s' % (op, type(a).__name__))
    def libeq(self, a, b, e):
        if isinstance(a, Ptr) or isinstance(b, Ptr): return self.valeq(a, b)
        if isinstance(a, Str) and isinstance(b, Str): 
            if (a.lit and a.lit.endswith(b'\0')): a = Str(strlit(a.lit[:-1]), a.lit[:-1])
            if (b.lit and b.lit.endswith(b'\0')): b = Str(strlit(b.lit[:-1]), b.lit[:-1])
            if getattr(self, 'str_ext', False):
                if a.lit is not None: a, b = b, a
                if b.lit is not None and a.lit is None and len(b.lit) <= 16:
                    return z3.And([slen(a.term) == len(b.lit)] + [sat(a.term, bv(i)) == ch for i, ch in enumerate(b.lit)])
            return self.valeq(a, b)
        if isinstance(a, Opq) and a.t == 'std::nullopt_t': a, b = b, a
        if isinstance(a, Opt):
            if isinstance(b, Opq) and b.t == 'std::nullopt_t': return z3.Not(a.has)
            if not isinstance(b, Opt): b = Opt(TRUE, Cell(b))
            if a.cell is None or b.cell is None: return z3.And(z3.Not(a.has), z3.Not(b.has))
            if not self.branch(a.has == b.has): return FALSE
            if not self.branch(a.has): return TRUE
            return self.opeq(a.cell, b.cell)
        if isinstance(b, Opt): return self.libeq(b, a, e)
        if isinstance(a, Vec) and isinstance(b, Vec): 
            raise Unsupported('vector ==')
        return self.valeq(a, b)
    def opeq(self, a, b):
        """a == b as C++ would call it for the element type"""
        x, y = self.val(a), self.val(b)
        if isinstance(x, Rec) or isinstance(y, Rec):
            h = self.hooks.get('receq')
            if h: 
                r = h(self, a, b)
                if r is not NotImplemented: return r
            # the operator== the program declares for the two types
            def fits(p, v):
                t = ty(p['t'])
                return t.base == v.cls if isinstance(v, Rec) else (z3.is_bv(v) and not t.ptr and bool(self.bvw(t.base)) and self.bvw(t.base)[0] == v.size() or z3.is_bool(v) and t.base == 'bool')
            c = [i for i, f in self.p.F.items() if f['name'] == 'operator==' and len(f['params']) == 2 and 'body' in f and fits(f['params'][0], x) and fits(f['params'][1], y)]
            if len(c) == 1: return self.call(c[0], None, [a, b])
            raise Unsupported('record == in library')
        return self.libeq(x, y, None)
    def ptrarg(self, c): return c
    # ---- <algorithm> on ranges, by their contracts
    def formula_of(self, cl, args, pre, bound=()):
        """truth value of a pure closure on args under the conditions pre, as one formula (over the bound variables)"""
        sub = Interp(self.p, self.contracts, self.hooks); sub.facts = []
        sub.vec_quant = getattr(self, 'vec_quant', False); sub.str_ext = getattr(self, 'str_ext', False)
        sub.assume_facts = list(self.assume_facts) + list(self.pc) + list(pre)
        r = []
        def th(it):
            it.frames.append(self.frames[-1])
            return it.tobool(it.val(it.call_closure(cl, args)))
        for p in sub.explore(th, 200):
            if p.out == 'pruned': continue
            if p.out != 'ok': raise _Abort(p.out, 'in predicate: %s' % (p.ret,))
            for nm, pc, f, l in p.obls: self.obligation(nm, z3.Implies(z3.And([TRUE] + list(pre) + pc), f), l)
            r.append(z3.And([TRUE] + [x if d else z3.Not(x) for x, d in p.guards] + [p.ret if z3.is_expr(p.ret) else z3.BoolVal(p.ret)]))
        self.visited_funcs |= sub.visited_funcs
        for g, c in sub.facts:
            f = z3.Implies(z3.And([TRUE] + list(pre) + g), c)
            self.assume(z3.ForAll(list(bound), f) if bound else f)
        return z3.simplify(z3.Or([FALSE] + r))
    def _elem_lt(self, e, k):
        """comparison of an element cell and a key as the call e says (4th argument: comparator)"""
        cl = self.val(self.eval(e['args'][k])) if len(e['args']) > k else None
        def lt(a, b, pre=(), bound=()):
            if cl is not None: return self.formula_of(cl, [a, b], list(pre), bound)
            x, y = self.val(a), self.val(b)
            if z3.is_bv(x) and z3.is_bv(y): return z3.ULT(x, y)
            raise Unsupported('order on ' + type(x).__name__)
        return lt
    def _bound_range(self, e):
        a = self.val(self.eval(e['args'][0])); b = self.val(self.eval(e['args'][1]))
        if not isinstance(a, Iter) or not isinstance(b, Iter) or a.vec is not b.vec: raise Unsupported('range')
        return a, b
    def _bound(self, e, upper):
        a, b = self._bound_range(e)
        if a.rev: raise Unsupported('reverse range')
        key = self.eval(e['args'][2]); lt = self._elem_lt(e, 3)
        v = a.vec.v
        i, j = z3.Const(self.newname('i'), BV64), z3.Const(self.newname('j'), BV64)
        ini, inj = z3.And(z3.ULE(a.idx, i), z3.ULT(i, b.idx)), z3.And(z3.ULE(a.idx, j), z3.ULT(j, b.idx))
        f = (lambda x, pre, bd: z3.Not(lt(key, x, pre, bd))) if upper else (lambda x, pre, bd: lt(x, key, pre, bd))
        fi = f(self.vec_at(v, i), [ini], [i]); fj = f(self.vec_at(v, j), [inj], [j])
        self.obligation('the range searched by binary search is partitioned by the key', z3.ForAll([i, j], z3.Implies(z3.And(ini, inj, z3.ULE(i, j), fj), fi)))
        r = z3.Const(self.newname('bound'), BV64)
        self.assume(z3.ULE(a.idx, r)); self.assume(z3.ULE(r, b.idx))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(ini, z3.ULT(i, r)), fi)))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(ini, z3.UGE(i, r)), z3.Not(fi))))
        self.trusted_used.add('std::%s_bound' % ('upper' if upper else 'lower'))
        return Iter(a.vec, r)
    def f_std_lower_bound(self, e): return self._bound(e, False)
    def f_std_upper_bound(self, e): return self._bound(e, True)
    def f_std_distance(self, e):
        a, b = self._bound_range(e)
        return b.idx - a.idx if not a.rev else a.idx - b.idx
    def _step(self, e, d):
        a = self.val(self.eval(e['args'][0])); n = self.rval(e['args'][1]) if len(e['args']) > 1 and e['args'][1]['k'] != 'DefArg' else bv(1)
        if not isinstance(a, Iter): raise Unsupported('step of ' + type(a).__name__)
        return Iter(a.vec, a.idx + (n if d != a.rev else -n), a.rev)
    def f_std_prev(self, e): return self._step(e, False)
    def f_std_next(self, e): return self._step(e, True)
    def f_std_find_if(self, e): return self._find(e, False)
    def _find(self, e, neg):
        a, b = self._bound_range(e); cl = self.val(self.eval(e['args'][2]))
        v = a.vec.v; i = z3.Const(self.newname('i'), BV64)
        r = z3.Const(self.newname('found'), BV64)
        if v.items is not None: raise Unsupported('find_if in a known list')
        lo, hi = (a.idx, b.idx) if not a.rev else (b.idx, a.idx)
        ini = z3.And(z3.ULE(lo, i), z3.ULT(i, hi))
        fi = self.formula_of(cl, [self.vec_at(v, i)], [ini], [i])
        if neg: fi = z3.Not(fi)
        self.assume(z3.ULE(lo, r)); self.assume(z3.ULE(r, hi))
        self.trusted_used.add('std::find_if')
        if not a.rev:
            self.assume(z3.ForAll([i], z3.Implies(z3.And(ini, z3.ULT(i, r)), z3.Not(fi))))
            self.assume(z3.Implies(r != hi, z3.substitute(fi, (i, r))))
            return Iter(a.vec, r)
        self.assume(z3.ForAll([i], z3.Implies(z3.And(ini, z3.UGE(i, r)), z3.Not(fi))))
        self.assume(z3.Implies(r != lo, z3.substitute(fi, (i, r - 1))))
        return Iter(a.vec, r, True)
    def _quant(self, e, kind):
        a, b = self._bound_range(e); cl = self.val(self.eval(e['args'][2])); v = a.vec.v
        if v.items is not None:
            r = []
            for c in v.items[cint(a.idx):cint(b.idx)]: r.append(self.formula_of(cl, [c], []))
            return {'any': z3.Or([FALSE] + r), 'all': z3.And([TRUE] + r), 'none': z3.Not(z3.Or([FALSE] + r))}[kind]
        i = z3.Const(self.newname('i'), BV64)
        ini = z3.And(z3.ULE(a.idx, i), z3.ULT(i, b.idx)); fi = self.formula_of(cl, [self.vec_at(v, i)], [ini], [i])
        self.trusted_used.add('std::%s_of' % kind)
        return {'any': z3.Exists([i], z3.And(ini, fi)), 'all': z3.ForAll([i], z3.Implies(ini, fi)), 'none': z3.ForAll([i], z3.Implies(ini, z3.Not(fi)))}[kind]
    def f_std_any_of(self, e): return self._quant(e, 'any')
    def f_std_all_of(self, e): return self._quant(e, 'all')
    def f_std_none_of(self, e): return self._quant(e, 'none')
    def f_std_find(self, e):
        a, b = self._bound_range(e); key = self.val(self.eval(e['args'][2])); v = a.vec.v
        if not z3.is_bv(key) or a.rev: raise Unsupported('std::find')
        if v.items is not None:
            lo, hi = cint(a.idx), cint(b.idx)
            r = bv(hi)
            for k in range(hi - 1, lo - 1, -1): r = z3.If(v.items[k].v == key, bv(k), r)
            return Iter(a.vec, z3.simplify(r))
        i = z3.Const(self.newname('i'), BV64); r = z3.Const(self.newname('found'), BV64)
        ini = z3.And(z3.ULE(a.idx, i), z3.ULT(i, b.idx)); x = self.val(self.vec_at(v, i))
        self.assume(z3.ULE(a.idx, r)); self.assume(z3.ULE(r, b.idx)); self.trusted_used.add('std::find')
        self.assume(z3.ForAll([i], z3.Implies(z3.And(ini, z3.ULT(i, r)), x != key)))
        self.assume(z3.Implies(r != b.idx, z3.substitute(x, (i, r)) == key))
        return Iter(a.vec, r)

class Frame:
    __slots__ = ('env', 'this', 'f', 'locals', 'ret', 'key')
    def __init__(self, it, env, this): self.env, self.this, self.f, self.locals, self.ret = env, this, None, [], None
class Call:
    __slots__ = ('e', 'this', 'args')
    def __init__(self, e, this, args): self.e, self.this, self.args = e, this, args
