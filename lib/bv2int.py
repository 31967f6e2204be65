"""Exact translation of unsigned bit-vector formulas (+, -, comparisons, uninterpreted functions, quantifiers) to integers:
a w-bit value becomes an integer in [0, 2^w), addition and subtraction wrap explicitly.  Anything else raises No."""
import z3
class No(Exception): pass
class Tr:
    def __init__(self):
        self.memo = {}; self.facts = []; self.funs = {}; self.keep = []
    def sort(self, s): return z3.IntSort() if isinstance(s, z3.BitVecSortRef) else s
    def rng(self, x, w): return z3.And(x >= 0, x < 2 ** w)
    def fun(self, d):
        k = (d.name(), tuple(str(d.domain(i)) for i in range(d.arity())), str(d.range()))
        f = self.funs.get(k)
        if f is not None: return f
        dom = [self.sort(d.domain(i)) for i in range(d.arity())]; r = self.sort(d.range())
        name = d.name() + '#i'
        if not dom:
            f = z3.Const(name, r)
            if isinstance(d.range(), z3.BitVecSortRef): self.facts.append(self.rng(f, d.range().size()))
        else:
            f = z3.Function(name + ''.join('_' + str(x) for x in dom), *dom, r)
            if isinstance(d.range(), z3.BitVecSortRef):
                vs = [z3.Const('r!%d' % i, s) for i, s in enumerate(dom)]
                self.facts.append(z3.ForAll(vs, self.rng(f(*vs), d.range().size()), patterns=[f(*vs)]))
        self.funs[k] = f; return f
    def tr(self, e):
        k = e.get_id()
        if k in self.memo: return self.memo[k]
        r = self._tr(e); self.memo[k] = r; self.keep.append(e); return r
    def _tr(self, e):
        if z3.is_quantifier(e):
            if e.is_lambda(): raise No('lambda')
            n = e.num_vars()
            names = ['%s!q%d' % (e.var_name(i), len(self.keep)) for i in range(n)]
            old = [z3.Const(nm, e.var_sort(i)) for i, nm in enumerate(names)]
            new = [z3.Const(nm + '#i', self.sort(e.var_sort(i))) for i, nm in enumerate(names)]
            body = z3.substitute_vars(e.body(), *reversed(old))
            rs = []
            for o, w in zip(old, new):
                self.memo[o.get_id()] = w; self.keep.append(o)
                if z3.is_bv(o): rs.append(self.rng(w, o.size()))
            b = self.tr(body)
            if e.is_forall(): return z3.ForAll(new, z3.Implies(z3.And([z3.BoolVal(True)] + rs), b))
            return z3.Exists(new, z3.And(rs + [b]))
        if not z3.is_app(e): raise No('term')
        d = e.decl(); kd = d.kind(); ch = e.children()
        if z3.is_bv_value(e): return z3.IntVal(e.as_long())
        if kd == z3.Z3_OP_UNINTERPRETED:
            f = self.fun(d)
            return f(*[self.tr(c) for c in ch]) if ch else f
        c = [self.tr(x) for x in ch]
        if kd in (z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ):
            a, b = c
            return {z3.Z3_OP_ULT: a < b, z3.Z3_OP_ULEQ: a <= b, z3.Z3_OP_UGT: a > b, z3.Z3_OP_UGEQ: a >= b}[kd]
        if kd == z3.Z3_OP_BADD:
            r = c[0]
            for x in c[1:]: r = self.wrap(r + x, e.size())
            return r
        if kd == z3.Z3_OP_BSUB:
            r = c[0]
            for x in c[1:]: r = self.wrap(r - x, e.size())
            return r
        if kd == z3.Z3_OP_BNEG: return self.wrap(-c[0], e.size())
        if kd == z3.Z3_OP_BMUL and len(ch) == 2 and z3.is_bv_value(ch[0]) and ch[0].as_long() == 2 ** e.size() - 1: return self.wrap(-c[1], e.size())
        if kd == z3.Z3_OP_BNOT: return 2 ** e.size() - 1 - c[0]
        if kd == z3.Z3_OP_EQ: return c[0] == c[1]
        if kd == z3.Z3_OP_DISTINCT: return z3.Distinct(*c)
        if kd == z3.Z3_OP_ITE: return z3.If(c[0], c[1], c[2])
        if kd == z3.Z3_OP_AND: return z3.And(c)
        if kd == z3.Z3_OP_OR: return z3.Or(c)
        if kd == z3.Z3_OP_NOT: return z3.Not(c[0])
        if kd == z3.Z3_OP_IMPLIES: return z3.Implies(c[0], c[1])
        if kd == z3.Z3_OP_XOR: return z3.Xor(c[0], c[1])
        if kd in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE): return e
        if kd == z3.Z3_OP_IFF: return c[0] == c[1]
        raise No(d.name())
    def wrap(self, x, w):
        m = 2 ** w
        return z3.If(x >= m, x - m, z3.If(x < 0, x + m, x))
def translate(hyps, goal):
    t = Tr()
    hs = [t.tr(h) for h in hyps]; g = t.tr(goal)
    return t.facts + hs, g
