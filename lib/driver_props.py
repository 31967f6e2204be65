"""P03, P08-P14: contracts of the functions of sql_driver, sequence options, parser options, result and entry point."""
import os, re
from gram import *
import gram
DRVC = PN + 'sql_driver'
ULT, ULE, UGT, UGE = z3.ULT, z3.ULE, z3.UGT, z3.UGE
def at64(t, i): return UF('vec.at', U, BV64, BV64)(t, i)
def q(vs, f): return z3.ForAll(vs, f)
I_, J_ = z3.Const('qi', BV64), z3.Const('qj', BV64)
def find(cx, qn, n=None, pred=None):
    """the functions with that qualified name that have a body"""
    r = [i for i, f in cx.P.F.items() if f['qn'] == qn and 'body' in f and (n is None or len(f['params']) == n)]
    if pred: r = [i for i in r if pred(cx.P.F[i])]
    return sorted(r)
def one(cx, rep, qn, n=None, pred=None):
    r = find(cx, qn, n, pred)
    if len(r) == 1: return r[0]
    rep.undecided.append('%s: %s' % (qn, 'not found' if not r else 'several definitions'))
    return None
def driver(it, name='drv'):
    return Cell(Rec(DRVC, z3.Const(name, U)), DRVC, 'this')
def region(it, name, valid=None):
    r = Rec(REG); r.exact = True
    for n in ('begin', 'end'): r.f[n] = Cell(z3.Const('%s.%s' % (name, n), BV64), 'unsigned long', n, r)
    c = Cell(r, REG, name)
    if valid: it.assume(rb(r) != NPOS); it.assume(re_(r) != NPOS); it.assume(ULE(rb(r), re_(r)))
    return c
def bv64(it, n): return z3.Const(n, BV64)
def fld(it, c, n): return it.get_field(c.v, n)
def incr(t): return q([I_, J_], z3.Implies(z3.And(ULT(I_, J_), ULT(J_, vlen(t))), ULT(at64(t, I_), at64(t, J_))))

# ------------------------------------------------------------------ P09
def p09_driver(cx, gold, rep):
    us = []
    f = one(cx, rep, DRVC + '::add_placeholder_mark')
    if f:
        def th(it, f=f):
            it.vec_quant = True
            d = driver(it); m = fld(it, d, 'placeholder_marks_'); t0 = m.v.term; l = region(it, 'token')
            b, e = rb(l.v), re_(l.v); ok = z3.And(b != NPOS, e != NPOS)
            it.assume(ULT(vlen(t0), bv(1 << 60))); it.assume(incr(t0))
            it.assume(z3.Implies(z3.And(ok, UGT(vlen(t0), bv(0))), ULT(at64(t0, vlen(t0) - 1), b)))
            it.call(f, d, [l.v])
            t1 = fld(it, d, 'placeholder_marks_').v.term; n = vlen(t0)
            it.obligation('a mark without position is not recorded', z3.Implies(z3.Not(ok), t1 == t0))
            it.obligation('a mark is recorded once, at its begin, after all earlier ones', z3.Implies(ok, z3.And(vlen(t1) == n + 1, at64(t1, n) == b, q([I_], z3.Implies(ULT(I_, n), at64(t1, I_) == at64(t0, I_))))))
            it.obligation('the marks stay in increasing order', incr(t1))
            frame(it, d, {'placeholder_marks_'})
        us.append(Unit('P09: add_placeholder_mark', cx.P.F[f]['loc'], th, replay='sql text'))
    f = one(cx, rep, DRVC + '::find_placeholder_mark')
    if f:
        def th(it, f=f):
            d = driver(it); t0 = fld(it, d, 'placeholder_marks_').v.term; l = region(it, 'token')
            b, e = rb(l.v), re_(l.v); ok = z3.And(b != NPOS, e != NPOS)
            it.assume(ULT(vlen(t0), bv(1 << 60))); it.assume(incr(t0))
            r = it.val(it.call(f, d, [l.v]))
            it.obligation('the number of a mark is its place in the text, counted from one', q([I_], z3.Implies(z3.And(ok, ULT(I_, vlen(t0)), at64(t0, I_) == b), r == I_ + 1)))
            it.obligation('a position without a mark has number zero', z3.Implies(z3.Or(z3.Not(ok), q([I_], z3.Implies(ULT(I_, vlen(t0)), at64(t0, I_) != b))), r == bv(0)))
            frame(it, d, ())
        us.append(Unit('P09: find_placeholder_mark', cx.P.F[f]['loc'], th, replay='sql text'))
    return us
def frame(it, d, changed):
    """no field of the driver other than `changed` is written"""
    o = Rec(d.v.cls, d.v.term); bad = []
    for n, t, dc, nd in it.p.fields(d.v.cls):
        if n in changed or n not in d.v.f: continue
        try: it.obligation('%s is not changed' % n.rstrip('_'), it.same(d.v.f[n], it.field(o, n, t, dc)))
        except Unsupported: 
            if getattr(d.v.f[n].v, 'dirty', False): raise

# ------------------------------------------------------------------ P03
RB = lambda u: UF('%s.begin' % REG, U, BV64)(u)
RE = lambda u: UF('%s.end' % REG, U, BV64)(u)
TOK = UF('tok', BV64, z3.BoolSort())
BIG = bv(1 << 60)
def cb(t, i): return RB(velem(t, i))
class Comments:
    """the comment bookkeeping of a driver, and what it means: tok(p) holds for the begin positions of the tokens seen so far"""
    def __init__(self, it, d):
        self.S = fld(it, d, 'comment_separators_').v.term; self.C = fld(it, d, 'comments_').v.term
        self.saw = fld(it, d, 'saw_comments_').v
        l = fld(it, d, 'last_comment_separator_').v
        self.lb, self.le = it.get_field(l, 'begin').v, it.get_field(l, 'end').v
        self.lok = z3.And(self.lb != NPOS, self.le != NPOS)
        self.last = z3.If(self.lok, self.lb, bv(0))
        self.n, self.m = vlen(self.S), vlen(self.C)
def notok(tok, a, b):
    """no token begins strictly between a and b"""
    p = z3.Const('p!nt', BV64)
    return q([p], z3.Implies(z3.And(tok(p), ULT(a, p)), z3.Not(ULT(p, b))))
def comments_inv(c, tok):
    i, j, p = z3.Const('i!ci', BV64), z3.Const('j!ci', BV64), z3.Const('p!ci', BV64)
    S, C, n, m = c.S, c.C, c.n, c.m
    return [('separators are increasing', incr(S)),
        ('comments are in source order', q([i, j], z3.Implies(z3.And(ULT(i, j), ULT(j, m)), ULT(cb(C, i), cb(C, j))))),
        ('no token begins after the last one', z3.And(q([p], z3.Implies(tok(p), z3.And(c.lok, ULE(p, c.last)))), z3.Implies(c.lok, tok(c.last)))),
        ('separators are token begins, or the start of the text', q([i], z3.Implies(ULT(i, n), z3.And(ULE(at64(S, i), c.last), z3.Or(tok(at64(S, i)), z3.And(i == 0, at64(S, i) == bv(0))))))),
        ('the group of the last comments is open exactly after the last token', z3.Implies(c.saw, z3.And(UGT(n, bv(0)), at64(S, n - 1) == c.last))),
        ('the token before each comment is a separator', q([j], z3.Implies(ULT(j, m), z3.Exists([i], z3.And(ULT(i, n), ULE(at64(S, i), cb(C, j)), notok(tok, at64(S, i), cb(C, j))))))),
        ('the token after each comment is a separator', q([j], z3.Implies(ULT(j, m), z3.Or(z3.And(c.saw, q([p], z3.Implies(tok(p), ULE(p, cb(C, j))))), z3.Exists([i], z3.And(ULT(i, n), ULT(cb(C, j), at64(S, i)), notok(tok, cb(C, j), at64(S, i)))))))),
        ('no token begins where a comment begins', q([j], z3.Implies(ULT(j, m), z3.And(z3.Not(tok(cb(C, j))), ULT(cb(C, j), BIG)))))]
def p03_driver(cx, gold, rep):
    us = []
    def start(it):
        it.vec_quant = True
        d = driver(it); c = Comments(it, d)
        it.assume(ULT(c.n, BIG)); it.assume(ULT(c.m, BIG))
        for nm, f in comments_inv(c, TOK): it.assume(f)
        return d, c
    f = one(cx, rep, DRVC + '::add_comment')
    if f:
        def th(it, f=f):
            d, c = start(it); l = region(it, 'comment', True); b = rb(l.v); j = z3.Const('j!q', BV64)
            it.assume(ULT(b, BIG)); it.assume(z3.Or(UGT(b, c.last), z3.Not(c.lok)))
            it.assume(q([j], z3.Implies(ULT(j, c.m), ULT(cb(c.C, j), b))))
            it.call(f, d, [l.v])
            k = Comments(it, d)
            it.obligation('the comment is recorded once, after the earlier ones, with its range', z3.And(k.m == c.m + 1, RB(velem(k.C, c.m)) == b, RE(velem(k.C, c.m)) == re_(l.v), q([j], z3.Implies(ULT(j, c.m), velem(k.C, j) == velem(c.C, j)))))
            for nm, g in comments_inv(k, TOK): it.obligation('after a comment: ' + nm, g)
            frame(it, d, {'comments_', 'comment_separators_', 'saw_comments_'})
        us.append(Unit('P03: add_comment', cx.P.F[f]['loc'], th, replay='comments'))
    f = one(cx, rep, DRVC + '::add_comment_separator')
    if f:
        def th(it, f=f):
            d, c = start(it); l = region(it, 'token', True); b = rb(l.v); j, p = z3.Const('j!q', BV64), z3.Const('p!q', BV64)
            it.assume(ULT(b, BIG)); it.assume(z3.Or(UGT(b, c.last), z3.Not(c.lok)))
            it.assume(q([j], z3.Implies(ULT(j, c.m), ULT(cb(c.C, j), b))))
            it.call(f, d, [l.v])
            k = Comments(it, d); tok2 = lambda x: z3.Or(TOK(x), x == b)
            it.obligation('a token does not change the comments', k.C == c.C)
            for nm, g in comments_inv(k, tok2): it.obligation('after a token: ' + nm, g)
            frame(it, d, {'comment_separators_', 'saw_comments_', 'last_comment_separator_'})
        us.append(Unit('P03: add_comment_separator', cx.P.F[f]['loc'], th, replay='comments'))
    def slice_(it, c, r, lo, hi, what, j):
        """vector r is exactly the comments j with lo <= ... as given by predicate what(j)"""
        n = vlen(r); o = z3.Const('o!sl', BV64); i = z3.Const('i!sl', BV64)
    def ranged(it, d, call=None):
        pass
    # comments_in_range: the comments that begin in [from, to]
    g = one(cx, rep, DRVC + '::comments_in_range')
    inr = lambda c, j, a, b: z3.And(ULT(j, c.m), ULE(a, cb(c.C, j)), ULE(cb(c.C, j), b))
    def is_slice(it, v, c, pred, nm):
        """v lists exactly the comments satisfying pred, in order: they are consecutive, and v is that run of them"""
        i, j = z3.Const('i!s', BV64), z3.Const('j!s', BV64)
        n = it.vec_len(v)
        if v.items is not None:
            if v.items: raise Unsupported('known list of comments')
            it.obligation(nm + ': none is left out', q([j], z3.Implies(ULT(j, c.m), z3.Not(pred(j))))); return
        lo = v.term.arg(1) if z3.is_app(v.term) and v.term.decl().name() == 'subvec' else z3.Const('lo:%s' % v.term, BV64)
        it.obligation(nm + ': the result is part of the comments', z3.And(ULE(lo, c.m), ULE(n, c.m - lo), q([i], z3.Implies(ULT(i, n), velem(v.term, i) == velem(c.C, lo + i)))))
        pr = pred(lo + i)
        for k, x in enumerate(pr.children() if z3.is_and(pr) else [pr]): it.obligation(nm + ': every one listed belongs there (%d)' % (k + 1), q([i], z3.Implies(ULT(i, n), x)))
        it.obligation(nm + ': none is left out', q([j], z3.Implies(z3.And(ULT(j, c.m), pred(j)), z3.And(ULE(lo, j), ULT(j, lo + n)))))
    if g:
        def th(it, g=g):
            d, c = start(it); a, b = bv64(it, 'from'), bv64(it, 'to')
            it.assume(ULT(a, BIG)); it.assume(ULT(b, BIG))
            r = it.val(it.call(g, d, [a, b]))
            is_slice(it, r, c, lambda j: z3.And(ULE(a, cb(c.C, j)), ULE(cb(c.C, j), b)), 'comments in a range')
            frame(it, d, ())
        us.append(Unit('P03: comments_in_range', cx.P.F[g]['loc'], th, replay='comments'))
    def c_range(it, call):
        a, b = [x.v if isinstance(x, Cell) else x for x in call.args]
        d = call.this; c = Comments(it, d)
        r = z3.Const(it.newname('inrange'), U); lo = z3.Const('lo:%s' % r, BV64); n = vlen(r); i, j = z3.Const('i!s', BV64), z3.Const('j!s', BV64)
        it.assume(ULE(lo, c.m)); it.assume(ULE(n, c.m - lo)); it.assume(q([i], z3.Implies(ULT(i, n), velem(r, i) == velem(c.C, lo + i))))
        it.assume(q([i], z3.Implies(ULT(i, n), inr(c, lo + i, a, b)))); it.assume(q([j], z3.Implies(inr(c, j, a, b), z3.And(ULE(lo, j), ULT(j, lo + n)))))
        return Vec(REG, r)
    con = {DRVC + '::comments_in_range': c_range}
    for nm, before in (('leading_comments', True), ('following_comments', False)):
        f = one(cx, rep, DRVC + '::' + nm)
        if not f: continue
        def th(it, f=f, before=before, nm=nm):
            d, c = start(it); l = region(it, 'token'); t = rb(l.v); p = z3.Const('p!q', BV64)
            doc = fld(it, d, 'document_').v; size = UF('docsize', U, BV64)(doc.cell.v.term)
            it.assume(z3.Not(doc.null)); j = z3.Const('j!q', BV64)
            it.assume(ULT(size, BIG)); it.assume(q([j], z3.Implies(ULT(j, c.m), ULE(cb(c.C, j), size))))
            ok = z3.And(rb(l.v) != NPOS, re_(l.v) != NPOS)
            it.assume(z3.Implies(ok, z3.And(TOK(t), ULT(t, BIG))))
            r = it.val(it.call(f, d, [l.v]))
            if before: pr = lambda j: z3.And(ok, ULT(cb(c.C, j), t), notok(TOK, cb(c.C, j), t))
            else: pr = lambda j: z3.And(ok, ULT(t, cb(c.C, j)), notok(TOK, t, cb(c.C, j)))
            is_slice(it, r, c, pr, 'comments %s a token' % ('before' if before else 'after'))
            frame(it, d, ())
        us.append(Unit('P03: ' + nm, cx.P.F[f]['loc'], th, {**con, 'takatori::document::document::size': lambda it, call: UF('docsize', U, BV64)(call.this.v.term)}, replay='comments'))
    return us

def docbyte(u, p): return UF('docbyte', U, BV64, z3.BitVecSort(8))(u, p)
def doc_contracts():
    def contents(it, call):
        off, n = [x.v if isinstance(x, Cell) else x for x in call.args]
        u = call.this.v.term; r = UF('doccontents', U, BV64, BV64, U)(u, off, n); k = z3.Const('k!dc', BV64)
        it.assume(slen(r) == n); it.assume(q([k], z3.Implies(ULT(k, n), sat(r, k) == docbyte(u, off + k))))
        it.obligation('text is only read inside the document', z3.And(ULE(off, UF('docsize', U, BV64)(u)), ULE(n, UF('docsize', U, BV64)(u) - off)))
        return Str(r)
    return {'takatori::document::document::size': lambda it, call: UF('docsize', U, BV64)(call.this.v.term), 'takatori::document::document::contents': contents}
def p03_description(cx, gold, rep):
    us = []
    f = one(cx, rep, DRVC + '::leading_description_comment')
    if f:
        def lead(it, call):
            d = call.this; r = z3.Const('leading', U); n = vlen(r); i = z3.Const('i!ld', BV64)
            u = it.get_field(d.v, 'document_').v.cell.v.term
            it.assume(ULT(n, BIG)); it.assume(q([i], z3.Implies(ULT(i, n), z3.And(ULT(cb(r, i), RE(velem(r, i))), ULE(RE(velem(r, i)), UF('docsize', U, BV64)(u))))))
            it.path.st['tok'] = call.args[0]
            return Vec(REG, r)
        def th(it, f=f):
            it.vec_quant = it.str_ext = True
            d = driver(it); l = region(it, 'token', True); doc = fld(it, d, 'document_').v; it.assume(z3.Not(doc.null))
            u = doc.cell.v.term; it.assume(ULT(UF('docsize', U, BV64)(u), BIG))
            en = fld(it, d, 'enable_description_comments_').v
            v = it.val(it.call(f, d, [l.v])); b, e = it.get_field(v, 'begin').v, it.get_field(v, 'end').v
            r = z3.Const('leading', U); n = vlen(r); ok = z3.And(b != NPOS, e != NPOS)
            def isdoc(i):
                x, y = cb(r, i), RE(velem(r, i)); D = lambda p, ch: docbyte(u, p) == ord(ch)
                return z3.And(UGE(y - x, bv(5)), D(x, '/'), D(x + 1, '*'), D(x + 2, '*'), D(y - 2, '*'), D(y - 1, '/'))
            i, j = z3.Const('i!q', BV64), z3.Const('j!q', BV64)
            if 'tok' in it.path.st:
                t = it.path.st['tok']; t = t.v if isinstance(t, Cell) else t
                it.obligation('the comments examined are those before the token', z3.And(rb(t) == rb(l.v), re_(t) == re_(l.v)))
                it.obligation('no description if descriptions are disabled', z3.Implies(z3.Not(en), z3.Not(ok)))
                it.obligation('the description is the last documentation comment before the token', z3.Implies(z3.And(en, ok), z3.Exists([i], z3.And(ULT(i, n), b == cb(r, i), e == RE(velem(r, i)), isdoc(i), q([j], z3.Implies(z3.And(ULT(i, j), ULT(j, n)), z3.Not(isdoc(j))))))))
                it.obligation('a documentation comment before the token is not missed', z3.Implies(z3.And(en, z3.Not(ok)), q([i], z3.Implies(ULT(i, n), z3.Not(isdoc(i))))))
            else:
                it.obligation('no description without looking only if descriptions are disabled', z3.And(z3.Not(en), z3.Not(ok)))
            frame(it, d, ())
        us.append(Unit('P03: leading_description_comment', cx.P.F[f]['loc'], th, {**doc_contracts(), DRVC + '::leading_comments': lead}, replay='comments'))
    # a new driver has seen nothing
    ct = [i for i in find(cx, DRVC + '::sql_driver')]
    for f in ct:
        if len(cx.P.F[f]['params']) != 1: continue
        def th(it, f=f):
            it.vec_quant = True
            doc = it.symval(cx.P.F[f]['params'][0]['t'], 'doc')
            d = Cell(it.construct_rec(DRVC, f, [doc]), DRVC)
            for n in ('comments_', 'comment_separators_', 'placeholder_marks_'): it.obligation('a new driver has no %s' % n.rstrip('_').replace('_', ' '), it.vec_len(fld(it, d, n).v) == 0)
            it.obligation('a new driver is not in a group of comments', z3.Not(fld(it, d, 'saw_comments_').v))
            l = fld(it, d, 'last_comment_separator_').v
            it.obligation('a new driver has seen no token', z3.Or(it.get_field(l, 'begin').v == NPOS, it.get_field(l, 'end').v == NPOS))
            it.obligation('a new driver has neither tree nor diagnostic', it.get_field(fld(it, d, 'result_').v, 'value_').v.null)
            it.obligation('a new driver keeps its document', it.same(fld(it, d, 'document_'), Cell(doc)))
        us.append(Unit('P03: sql_driver()', cx.P.F[f]['loc'], th, replay='comments'))
    return us

# ------------------------------------------------------------------ P10
CH = lambda s: z3.BitVecVal(ord(s), 8)
def strparam(it, cx, f, k=0, name='s'):
    """argument for a string parameter, by value or reference"""
    v = Str(z3.Const(name, U)); p = ty(cx.P.F[f]['params'][k]['t'])
    return Cell(v, p.base, name) if p.ref else v
def p10_driver(cx, gold, rep):
    us = []
    for nm, off, least in (('check_regular_identifier', 0, 1), ('check_delimited_identifier', 1, 3)):
        f = one(cx, rep, DRVC + '::' + nm)
        if not f: continue
        def th(it, f=f, off=off, least=least):
            d = driver(it); s = z3.Const('s', U); n = slen(s)
            it.assume(ULT(n, BIG)); it.assume(UGE(n, bv(least)))
            if off: it.assume(sat(s, bv(0)) == CH('"')); it.assume(sat(s, n - 1) == CH('"'))
            r = it.tobool(it.val(it.call(f, d, [strparam(it, cx, f)])))
            und = z3.And(UGE(n, bv(2 + 2 * off)), sat(s, bv(off)) == CH('_'), sat(s, bv(off + 1)) == CH('_'))
            it.obligation('a name is rejected exactly when it begins with two underscores', r == z3.Not(und))
            frame(it, d, ())
        us.append(Unit('P10: ' + nm, cx.P.F[f]['loc'], th, replay='names'))
    f = one(cx, rep, DRVC + '::parse_regular_identifier')
    if f:
        def th(it, f=f):
            d = driver(it); s = z3.Const('s', U)
            r = it.val(it.call(f, d, [strparam(it, cx, f)]))
            it.obligation('a regular name keeps its spelling', it.valeq(r, Str(s)))
        us.append(Unit('P10: parse_regular_identifier', cx.P.F[f]['loc'], th, replay='names'))
    f = one(cx, rep, DRVC + '::parse_delimited_identifier')
    if f:
        esc = UF('esc', BV64, z3.BoolSort()); cnt = UF('cnt', BV64, BV64)
        def pre(it, s):
            """s is quote (other | quote quote)+ quote: esc(i) - position i is the second quote of a pair; cnt(i) - number of
            characters of the name denoted by the text before position i"""
            n = slen(s); i = z3.Const('i!pd', BV64)
            it.assume(ULT(n, BIG)); it.assume(UGE(n, bv(3)))
            it.assume(sat(s, bv(0)) == CH('"')); it.assume(sat(s, n - 1) == CH('"'))
            it.assume(z3.Not(esc(bv(1)))); it.assume(z3.Not(esc(n - 1))); it.assume(cnt(bv(1)) == 0)
            ins = z3.And(UGE(i, bv(1)), ULT(i, n - 1))
            it.assume(z3.ForAll([i], z3.Implies(ins, esc(i + 1) == z3.And(sat(s, i) == CH('"'), z3.Not(esc(i)))), patterns=[esc(i + 1), sat(s, i)]))
            it.assume(z3.ForAll([i], z3.Implies(z3.And(ins, esc(i)), sat(s, i) == CH('"')), patterns=[esc(i)]))
            it.assume(z3.ForAll([i], z3.Implies(ins, cnt(i + 1) == z3.If(esc(i + 1), cnt(i), cnt(i) + 1)), patterns=[cnt(i + 1), sat(s, i)]))
            it.assume(z3.ForAll([i], z3.Implies(z3.And(UGE(i, bv(1)), ULT(i, n)), ULT(cnt(i), i)), patterns=[cnt(i)]))   # the lemma below
        def post(it, s, r):
            n = slen(s); k = z3.Const('k!pd', BV64)
            it.obligation('the name has one character for each character, or pair of quotes, between the quotes', slen(r) == cnt(n - 1))
            it.obligation('each character of the name is the one denoted in its place', q([k], z3.Implies(z3.And(UGE(k, bv(1)), ULT(k, n - 1), z3.Not(esc(k + 1))), sat(r, cnt(k)) == sat(s, k))))
        def loop(it, s, c, inc, body, cv):
            fr = it.frame(); t = z3.Const('s', U); n = slen(t)
            # the loop's own variables, by type: position, pending quote, text so far
            loc = {}
            for i_, cell in fr.env.items():
                b = ty(cell.t).base if cell.t else None
                if cell.v is None: continue
                if isinstance(cell.v, Str) and cell.nm != 's' and cell.v.lit == b'': loc['r'] = cell
                elif z3.is_bool(cell.v) and b == 'bool': loc['e'] = cell
                elif z3.is_bv(cell.v) and cell.v.size() == 64 and cint(cell.v) == 1: loc['i'] = cell
            if set(loc) != {'r', 'e', 'i'}: raise Unsupported('loop shape')
            def inv(i, e, r):
                k = z3.Const('k!li', BV64)
                return [('position in range', z3.And(UGE(i, bv(1)), ULE(i, n - 1))), ('pending quote', e == esc(i)), ('length so far', slen(r) == cnt(i)),
                    ('text so far', q([k], z3.Implies(z3.And(UGE(k, bv(1)), ULT(k, i), z3.Not(esc(k + 1))), sat(r, cnt(k)) == sat(t, k)))),
                    ('places before', q([k], z3.Implies(z3.And(UGE(k, bv(1)), ULT(k, i), z3.Not(esc(k + 1))), ULT(cnt(k), cnt(i)))))]
            for nm, g in inv(loc['i'].v, loc['e'].v, loc['r'].v.term): it.obligation('loop invariant (entry): ' + nm, g)
            i0, e0, r0 = z3.Const(it.newname('i'), BV64), z3.Bool(it.newname('pending')), z3.Const(it.newname('text'), U)
            it.setcell(loc['i'], i0); it.setcell(loc['e'], e0); it.setcell(loc['r'], Str(r0))
            for nm, g in inv(i0, e0, r0): it.assume(g)
            if it.branch(it.tobool(it.rval(c))):
                lf = it.loop_begin([loc['i'], loc['e'], loc['r']])
                it.exec(body)
                if inc: it.eval(inc)
                it.loop_end(lf)
                for nm, g in inv(loc['i'].v, loc['e'].v, loc['r'].v.term): it.obligation('loop invariant (step): ' + nm, g)
                it.obligation('the loop makes progress', UGT(loc['i'].v, i0))
                raise sym_Prune()
            return True
        def th(it, f=f):
            d = driver(it); s = z3.Const('s', U); pre(it, s)
            r = it.val(it.call(f, d, [strparam(it, cx, f)]))
            post(it, s, r.term)
            frame(it, d, ())
        def bounded(it, f=f):
            d = driver(it); s = z3.Const('s', U); pre(it, s); it.assume(ULE(slen(s), bv(7)))
            r = it.val(it.call(f, d, [strparam(it, cx, f)]))
            post(it, s, r.term)
        def lemma(it):
            # fewer than i characters are denoted before position i (1 <= i < n): induction over i from the definition of cnt
            s = z3.Const('s', U); n = slen(s); i = z3.BitVec('i', 64)
            it.assume(ULT(n, BIG)); it.assume(UGE(n, bv(3))); it.assume(cnt(bv(1)) == 0)
            it.obligation('characters before a position, first position', ULT(cnt(bv(1)), bv(1)))
            it.assume(cnt(i + 1) == z3.If(esc(i + 1), cnt(i), cnt(i) + 1))
            it.obligation('characters before a position, next position', z3.Implies(z3.And(UGE(i, bv(1)), ULT(i, n - 1), ULT(cnt(i), i)), ULT(cnt(i + 1), i + 1)))
        us.append(Unit('P10: fewer characters than positions', '', lemma, kind='lemma', replay='names'))
        u = Unit('P10: parse_delimited_identifier', cx.P.F[f]['loc'], th, hooks={'genloop': loop}, replay='names')
        u.soft = Unit('P10: parse_delimited_identifier (names up to 5 characters)', cx.P.F[f]['loc'], bounded, replay='names', bound=6)
        us.append(u)
    return us
from sym import _Prune as sym_Prune
from ast_props import written_ids, _havoc
EXPR = NS + 'scalar::expression'; VREF = NS + 'scalar::variable_reference'; BFI = NS + 'scalar::builtin_function_invocation'
def actx(cx):
    if not hasattr(cx, '_actx'):
        import ast_props
        cx._actx = ast_props.Ctx(cx.P)
    return cx._actx
def is_a(it, cx, u, cls):
    """the object u is a cls, by its node_kind()"""
    a = actx(cx)
    if cls not in a.tags or cls not in a.kinds_of: raise Unsupported('kinds of ' + cls)
    k = it.symval(cx.P.F[a.tags[cls]]['ret'], 'virt.node_kind', u)
    return z3.Or([k == x for x in a.kinds_of[cls]])
def cast_hook(cx):
    def h(it, r, cls):
        it.obligation('an object used as a %s is one' % cls.split('::')[-1], is_a(it, cx, r.term, cls))
    return h
def uptr(it, cls, name, null=False):
    u = z3.Const(name, U)
    return Cell(Ptr(FALSE, Cell(Rec(cls, u), cls, name), 'std::unique_ptr'), 'std::unique_ptr<%s>' % cls, name)
def orig(it, cls, u, f):
    """value of a field of the object u before the call"""
    return it.get_field(Rec(cls, u), f)
def isnull_(it, c): return c.v.null if isinstance(c, Cell) else c.null
def untouched(it, c, cls, u):
    """the pointer still holds the object u, unchanged"""
    v = c.v if isinstance(c, Cell) else c
    if is_const_bool(v.null) is not False or v.cell is None: return FALSE
    r = v.cell.v
    if not isinstance(r, Rec) or r.term is None or not r.term.eq(u): return FALSE
    return FALSE if r.dirty else TRUE
def regeq(it, cell, b, e):
    v = cell.v
    x, y = it.get_field(v, 'begin').v, it.get_field(v, 'end').v
    # unknown positions count as one
    return z3.Or(z3.And(x == b, y == e), z3.And(z3.Or(x == NPOS, y == NPOS), z3.Or(b == NPOS, e == NPOS)))
def regof(it, u, cls):
    r = orig(it, cls, u, 'region_').v
    return it.get_field(r, 'begin').v, it.get_field(r, 'end').v
def union(a, b):
    va, vb = z3.And(a[0] != NPOS, a[1] != NPOS), z3.And(b[0] != NPOS, b[1] != NPOS)
    return z3.If(va, z3.If(vb, umin(a[0], b[0]), a[0]), b[0]), z3.If(va, z3.If(vb, umax(a[1], b[1]), a[1]), b[1])
UNION = {NS + 'operator|': lambda it, call: c_union(it, call) if ty(call.e['t']).base == REG else NotImplemented}
def p10_chain(cx, gold, rep):
    us = []; QN = NS + 'name::qualified'; SIMPLE = NS + 'name::simple'
    q_, i_ = z3.Const('qualifier', U), z3.Const('identifier', U)
    H = {'downcast': cast_hook(cx)}
    def result_ptr(it, r): return r.v if isinstance(r, Cell) else r
    f = one(cx, rep, DRVC + '::try_build_identifier_chain')
    def chain_post(it, n, what):
        """n: the built name"""
        it.obligation(what + ': the name is a qualified name', z3.BoolVal(isinstance(n, Rec) and n.cls == QN))
        if not (isinstance(n, Rec) and n.cls == QN): return
        it.obligation(what + ': the names before come first', it.same(it.get_field(n, 'qualifier_'), orig(it, VREF, q_, 'name_')))
        last = it.get_field(n, 'last_').v
        it.obligation(what + ': the added name comes last', untouched(it, last, SIMPLE, i_))
        it.obligation(what + ': the position spans the whole name', regeq(it, it.get_field(n, 'region_'), *union(regof(it, q_, EXPR), regof(it, i_, SIMPLE))))
    if f:
        def th(it, f=f):
            d = driver(it); a, b = uptr(it, EXPR, 'qualifier'), uptr(it, SIMPLE, 'identifier')
            ok = is_a(it, cx, q_, VREF)
            r = result_ptr(it, it.call(f, d, [a, b]))
            it.obligation('a chain is built exactly when a name comes before', z3.Not(r.null) == ok)
            if is_const_bool(r.null) is False: chain_post(it, r.cell.v, 'chain')
            else: it.obligation('otherwise nothing is taken', z3.And(untouched(it, a, EXPR, q_), untouched(it, b, SIMPLE, i_)))
            frame(it, d, ())
        us.append(Unit('P10: try_build_identifier_chain', cx.P.F[f]['loc'], th, UNION, H, replay='names'))
    f = one(cx, rep, DRVC + '::try_merge_identifier_chain')
    if f:
        SUB = z3.Bool('inner#ok'); m_ = z3.Const('merged', U)
        def rec(it, call):
            a, b = call.args
            st = it.path.st
            if 'inner' in st: raise Unsupported('second inner merge')
            x = a.v.cell.v if isinstance(a, Cell) and isinstance(a.v, Ptr) and a.v.cell else None
            st['inner'] = x.term if isinstance(x, Rec) else None
            st['innerid'] = b.v
            if it.branch(SUB):
                it.setcell(a, Ptr(TRUE, None, 'std::unique_ptr')); it.setcell(b, Ptr(TRUE, None, 'std::unique_ptr'))
                return Ptr(FALSE, Cell(Rec(EXPR, m_), EXPR, 'merged'), 'std::unique_ptr')
            return Ptr(TRUE, None, 'std::unique_ptr')
        def th(it, f=f):
            it.path.st['top'] = f
            d = driver(it); a, b = uptr(it, EXPR, 'qualifier'), uptr(it, SIMPLE, 'identifier')
            arg = orig(it, BFI, q_, 'arguments_').v.term
            nv = is_a(it, cx, q_, BFI); fn = orig(it, BFI, q_, 'function_').v
            et = ty(fn.cls).args[0] if isinstance(fn, Rec) else None
            val = it.get_field(fn, 'value_').v; nxt = dict(map(tuple, cx.P.E[et]['items']))['next_value_for']
            inner = z3.And(nv, val == nxt, vlen(arg) == 1)
            isv = is_a(it, cx, q_, VREF)
            it.assume(z3.Implies(vlen(arg) == 1, z3.Not(isnull(velem(arg, bv(0))))))
            r = result_ptr(it, it.call(f, d, [a, b]))
            st = it.path.st
            it.obligation('a name is continued exactly when the expression ends with a name', z3.Not(r.null) == z3.Or(isv, z3.And(inner, SUB if 'inner' in st else FALSE)))
            it.obligation('the argument of NEXT VALUE FOR is looked into', z3.Implies(z3.And(inner, z3.Not(isv)), z3.BoolVal('inner' in st)))
            if 'inner' in st:
                it.obligation('only the single argument of NEXT VALUE FOR is looked into', z3.And(inner, z3.Not(isv), z3.BoolVal(st['inner'] is not None) if st['inner'] is None else st['inner'] == velem(arg, bv(0))))
                it.obligation('the added name is handed over', untouched(it, st['innerid'], SIMPLE, i_))
            if is_const_bool(r.null) is False:
                x = r.cell.v
                if isinstance(x, Rec) and x.term is not None and x.term.eq(q_):
                    it.obligation('the expression keeps its kind', z3.BoolVal('inner' in st))
                    it.obligation('the function and everything else stay', same_except(it, x, BFI, q_, {'arguments_', 'region_'}))
                    v = it.get_field(x, 'arguments_').v
                    e0 = it.vec_at(v, bv(0)).v
                    it.obligation('the continued name takes the place of the argument', z3.And(it.vec_len(v) == 1, untouched(it, e0, EXPR, m_)))
                    it.obligation('the position is extended by the continued name', regeq(it, it.get_field(x, 'region_'), *union(regof(it, q_, EXPR), regof(it, m_, EXPR))))
                else:
                    it.obligation('the result is a reference to the name', z3.And(isv, z3.BoolVal(isinstance(x, Rec) and x.cls == VREF)))
                    n = it.get_field(x, 'name_').v; n = n.cell.v
                    chain_post(it, n, 'continued name')
                    it.obligation('the position of the reference is that of the name', regeq(it, it.get_field(x, 'region_'), *union(regof(it, q_, EXPR), regof(it, i_, SIMPLE))))
            else:
                it.obligation('otherwise nothing is taken', z3.And(untouched(it, a, EXPR, q_), untouched(it, b, SIMPLE, i_)))
            frame(it, d, ())
        us.append(Unit('P10: try_merge_identifier_chain', cx.P.F[f]['loc'], th, {**UNION, DRVC + '::try_merge_identifier_chain': rec}, H, replay='names'))
    f = one(cx, rep, DRVC + '::try_build_type')
    if f:
        UT = NS + 'type::user_defined'
        def th(it, f=f):
            d = driver(it); a = uptr(it, EXPR, 'qualifier'); ok = is_a(it, cx, q_, VREF)
            r = result_ptr(it, it.call(f, d, [a]))
            it.obligation('a type is named exactly by a name', z3.Not(r.null) == ok)
            if is_const_bool(r.null) is False:
                x = r.cell.v
                it.obligation('the type is a user defined type', z3.BoolVal(isinstance(x, Rec) and x.cls == UT))
                it.obligation('the type has the name', it.same(it.get_field(x, 'name_'), orig(it, VREF, q_, 'name_')))
                it.obligation('the type has the position of the name', regeq(it, it.get_field(x, 'region_'), *regof(it, q_, EXPR)))
            else: it.obligation('otherwise nothing is taken', untouched(it, a, EXPR, q_))
            frame(it, d, ())
        us.append(Unit('P10: try_build_type', cx.P.F[f]['loc'], th, UNION, H, replay='names'))
    for nm, kind in (('to_regular_identifier', 'regular'), ('to_delimited_identifier', 'delimited')):
        f = one(cx, rep, DRVC + '::' + nm)
        if not f: continue
        def th(it, f=f, kind=kind):
            d = driver(it); l = region(it, 'at', True)
            r = result_ptr(it, it.call(f, d, [strparam(it, cx, f), l.v])); x = r.cell.v
            k = it.get_field(x, 'identifier_kind_').v; et = it.decl_class_of(x.cls, 'identifier_kind_')[1]
            it.obligation('a name node has its kind', k == dict(map(tuple, cx.P.E[ty(et).base]['items']))[kind])
            want = Str(z3.Const('s', U)) if kind == 'regular' else Str(UF('unquote', U, U)(z3.Const('s', U)))
            it.obligation('a name node has the name', it.valeq(it.get_field(x, 'identifier_').v, want))
            it.obligation('a name node has the position', regeq(it, it.get_field(x, 'region_'), rb(l.v), re_(l.v)))
        us.append(Unit('P10: ' + nm, cx.P.F[f]['loc'], th, {DRVC + '::parse_delimited_identifier': lambda it, call: Str(UF('unquote', U, U)(it.val(call.args[0]).term)), DRVC + '::parse_regular_identifier': lambda it, call: it.val(call.args[0])}, replay='names'))
    return us
def same_except(it, rec, cls, u, names):
    o = Rec(cls, u); cs = []
    for n, t, dc, nd in it.p.fields(cls):
        if n in names or n not in rec.f: continue
        cs.append(it.same(rec.f[n], it.field(o, n, t, dc)))
    return z3.And([TRUE] + cs)

# ------------------------------------------------------------------ P11
def enum_items(cx, t):
    return {n: x for n, x in cx.P.E[t]['items']}
def p11_driver(cx, gold, rep):
    us = []
    UN, LE, LIT, NUM = NS + 'scalar::unary_expression', NS + 'scalar::literal_expression', NS + 'literal::literal', NS + 'literal::numeric'
    e_ = z3.Const('expression', U)
    f = one(cx, rep, DRVC + '::try_fold_literal')
    if f:
        def th(it, f=f):
            d = driver(it); a = uptr(it, EXPR, 'expression')
            un = is_a(it, cx, e_, UN)
            op = orig(it, UN, e_, 'operand_').v; o_ = op.cell.v.term; it.assume(z3.Implies(un, z3.Not(op.null)))
            le = is_a(it, cx, o_, LE); lp = orig(it, LE, o_, 'value_').v; l_ = lp.cell.v.term; it.assume(z3.Implies(le, z3.Not(lp.null)))
            num = is_a(it, cx, l_, NUM); sg = orig(it, NUM, l_, 'sign_').v; val0 = it.val(orig(it, NUM, l_, 'unsigned_value_'))
            ok = orig(it, UN, e_, 'operator_kind_').v; opk = it.get_field(ok, 'value').v if any(x[0] == 'value' for x in it.p.fields(ok.cls)) else it.get_field(ok, 'value_').v
            et = ty(ok.cls).args[0]; E = enum_items(cx, et)
            plus, minus = opk == E['plus'], opk == E['minus']
            opr = it.get_field(ok, 'region_').v; ob, oe = it.get_field(opr, 'begin').v, it.get_field(opr, 'end').v
            er = regof(it, e_, EXPR)
            fold = z3.And(un, z3.Or(plus, minus), le, num, z3.Not(sg.has))
            r = it.call(f, d, [a if ty(cx.P.F[f]['params'][0]['t']).ref else a.v]); r = r.v if isinstance(r, Cell) else r
            it.obligation('the result is an expression', z3.Not(r.null))
            if r.cell is None: return
            x = r.cell.v
            same = x.term is not None and x.term.eq(e_)
            isop = x.term is not None and x.term.eq(o_)
            if not (same or isop): it.obligation('the result is the expression or its operand', FALSE); return
            if same:
                it.obligation('an expression stays exactly when its operator is not a sign of an unsigned number', z3.Not(fold))
                it.obligation('an expression that stays is not changed', untouched(it, r, EXPR, e_))
                return
            it.obligation('an operand takes the place of its expression exactly when the operator is a sign of an unsigned number', fold)
            if x.cls != LE: x = Rec(LE, x.term) if not x.dirty else x
            it.obligation('the literal takes the position of the whole expression', regeq(it, it.get_field(x, 'region_'), *er))
            it.obligation('the literal expression is otherwise not changed', same_except(it, x, LE, o_, {'region_', 'value_'}))
            lv = it.get_field(x, 'value_').v; n = lv.cell.v
            it.obligation('the literal stays the same object', z3.And(z3.Not(lv.null), z3.BoolVal(n.term is not None and n.term.eq(l_))))
            s = it.get_field(n, 'sign_').v
            it.obligation('the literal gets a sign', s.has)
            sv = s.cell.v; SE = enum_items(cx, ty(sv.cls).args[0]) if isinstance(sv, Rec) else None
            k = it.get_field(sv, [f_[0] for f_ in it.p.fields(sv.cls) if f_[0] in ('value', 'value_')][0]).v
            it.obligation('the sign is that of the operator', z3.And(z3.Implies(plus, k == SE['plus']), z3.Implies(minus, k == SE['minus'])))
            it.obligation('the sign has the position of the operator', regeq(it, it.get_field(sv, 'region_'), ob, oe))
            it.obligation('the digits and everything else of the literal stay', same_except(it, n, NUM, l_, {'sign_'}))
            frame(it, d, ())
        us.append(Unit('P11: try_fold_literal', cx.P.F[f]['loc'], th, {}, {'downcast': cast_hook(cx)}, replay='numbers'))
    f = one(cx, rep, DRVC + '::to_size')
    if f:
        # numeral(s): s is a non-empty sequence of decimal digits; value(s): the number it denotes (unbounded)
        fits = UF('numeral#fits', U, z3.BoolSort()); value = UF('numeral#value', U, BV64); ERANGE = 34
        def strtoull(it, call):
            """C11 7.22.1.4: for a subject sequence that is a whole digit string in base 10: its value, or ULLONG_MAX with errno = ERANGE"""
            s = it.path.st['s']; p = call.args[0]; p = p.v if isinstance(p, Cell) else p
            st = it.path.st; st['strtoull'] = st.get('strtoull', 0) + 1
            if not (isinstance(p, (Opq, Str)) or getattr(p, 'cell', None) is not None): raise Unsupported('strtoull argument')
            src = strtoull_src(p)
            if src is None or not src.eq(s): raise Unsupported('strtoull of something else')
            base = it.val(call.args[2])
            it.obligation('digits are read in base ten', base == z3.BitVecVal(10, base.size()))
            if it.branch(fits(s)): return value(s)
            it.setcell(it.path.st['errno'], z3.BitVecVal(ERANGE, 32))
            return z3.BitVecVal(-1, 64)
        def strtoull_src(p):
            for a in ('term',):
                if isinstance(p, Str): return p.term
            c = getattr(p, 'cell', None)
            if c is not None and isinstance(c.v, Str): return c.v.term
            return getattr(p, 'src', None)
        def errno(it, call):
            if 'errno' not in it.path.st: it.path.st['errno'] = Cell(z3.BitVec('errno@call', 32), 'int', 'errno')
            return Ptr(FALSE, it.path.st['errno'])
        def th(it, f=f):
            d = driver(it); s = z3.Const('s', U); it.path.st['s'] = s
            errno(it, None)
            r = it.val(it.call(f, d, [strparam(it, cx, f)]))
            it.obligation('a size has a value exactly if it can be represented', r.has == fits(s))
            if is_const_bool(r.has) is not False: it.obligation('a size has the value its digits denote', z3.Implies(r.has, it.val(r.cell) == value(s)))
            frame(it, d, ())
        us.append(Unit('P11: to_size', cx.P.F[f]['loc'], th, {'strtoull': strtoull, '__errno_location': errno, 'std::strtoull': strtoull}, replay='numbers'))
    return us

# ------------------------------------------------------------------ P08
def c_error(it, call):
    """driver.error(code, location, message): recorded"""
    a = [x.v if isinstance(x, Cell) else x for x in call.args]
    it.path.st.setdefault('errors', []).append(a); return VOID
def errors(it): return it.path.st.get('errors', [])
def msgparts(it, m):
    for t, parts in it.path.st.get('msgs', []):
        if isinstance(m, Str) and m.term is not None and t.eq(m.term): return parts
    return None
def code(cx, n): return enum_items(cx, PN + 'sql_parser_code')[n]
EMAP = PN + 'sql_parser_element_map<unsigned long>'
def p08_driver(cx, gold, rep):
    us = []
    KIND = PN + 'sql_parser_element_kind'
    def limit_unit(f, name):
        def th(it, f=f):
            it.vec_quant = True
            d = driver(it); l = region(it, 'at'); n = z3.Const('size', BV64); k = z3.Const('kind', BV64)
            items = sorted(set(enum_items(cx, KIND).values()))
            it.assume(z3.Or([k == x for x in items]))
            p = fld(it, d, 'element_limits_').v; lim = UF('limit', U, BV64, BV64)
            def at(it, call):
                o = call.this.v; i = call.args[0]; i = i.v if isinstance(i, Cell) else i
                if not isinstance(o, Rec) or o.term is None or o.dirty: raise Unsupported('limits')
                it.path.st['map'] = o.term
                return Cell(lim(o.term, i), 'unsigned long', 'limit')
            it.path.st['at'] = at
            it.contracts = {**it.contracts, EMAP + '::operator[]': at, DRVC + '::error': c_error}
            m0 = p.cell.v.term
            r = it.tobool(it.val(it.call(f, d, [l.v, n, k])))
            L = lim(m0, k)
            rej = z3.And(z3.Not(p.null), L != 0, UGT(n, L))
            it.obligation('a list is rejected exactly when its kind has a limit and it is longer', r == z3.Not(rej))
            es = errors(it)
            it.obligation('a rejected list, and no other, is reported once', z3.If(rej, z3.BoolVal(len(es) == 1), z3.BoolVal(not es)))
            if len(es) == 1:
                c, at_, msg = es[0]
                it.obligation('it is reported as too many elements', c == code(cx, 'exceed_number_of_elements'))
                it.obligation('it is reported at the list', z3.And(it.get_field(at_, 'begin').v == rb(l.v), it.get_field(at_, 'end').v == re_(l.v)))
                ps = msgparts(it, msg)
                if ps is None: raise Unsupported('message')
                bvs = [x for x in ps if z3.is_bv(x) and x.size() == 64]
                names = [x for x in ps if isinstance(x, Str) and x.lit is None]
                it.obligation('the message names the limit', z3.Or([FALSE] + [x == L for x in bvs if not x.eq(k)]))
                if names: raise Unsupported('text of the message')
                it.obligation('the message names the kind of list', z3.BoolVal(any(x.eq(k) for x in bvs)))
            frame(it, d, ())
        return Unit('P08: ' + name, cx.P.F[f]['loc'], th, replay='limit')
    f = one(cx, rep, DRVC + '::validate_count', 3, lambda f: 'long' in f['params'][1]['t'] or 'size' in f['params'][1]['t'])
    if f: us.append(limit_unit(f, 'validate_count'))
    for g in find(cx, EMAP + '::operator[]') + [i for i in find(cx, EMAP + '::get')]:
        fn = cx.P.F[g]
        if len(fn['params']) != 1: continue
        def th(it, g=g):
            it.vec_quant = True
            mc = Cell(Rec(EMAP, z3.Const('map', U)), EMAP, 'this')
            items = sorted(set(enum_items(cx, KIND).values())); k = z3.Const('kind', BV64); it.assume(z3.Or([k == x for x in items]))
            en = it.get_field(mc.v, 'entries_'); cap = None
            m = re.search(r'array<unsigned long, (\d+)', en.t)
            if not m: raise Unsupported('table type ' + en.t)
            it.obligation('the table has a place for each kind', z3.BoolVal(int(m.group(1)) >= len(items)))
            it.assume(vlen(en.v.term) == bv(int(m.group(1))))
            r = it.call(g, mc, [k])
            v = r.v if isinstance(r, Cell) else r
            # the place of a kind is its own: it depends on the kind injectively, and is inside the table
            w = z3.simplify(v)
            if not (z3.is_app(w) and w.decl().name() == 'vec.at'): raise Unsupported('place of a kind: %s' % w)
            ix = w.arg(1)
            it.obligation('the place of a kind is inside the table', ULT(ix, bv(int(m.group(1)))))
            k2 = z3.Const('kind2', BV64)
            it.obligation('different kinds have different places', z3.Implies(k2 != k, z3.substitute(ix, (k, k2)) != ix))
        us.append(Unit('P08: %s%s' % (fn['qn'].split('::')[-1], ' const' if fn.get('const') else ''), fn['loc'], th, replay='limit'))
    for g in find(cx, EMAP + '::get'):
        m = re.search(r'sql_parser_element_kind(\d+)>', g)
        if not m: continue
        def th(it, g=g, k=int(m.group(1))):
            it.vec_quant = True
            mc = Cell(Rec(EMAP, z3.Const('map', U)), EMAP, 'this'); en = it.get_field(mc.v, 'entries_')
            m = re.search(r'array<unsigned long, (\d+)', en.t); it.assume(vlen(en.v.term) == bv(int(m.group(1))))
            a = it.val(it.call(g, mc, []))
            op = [i for i in find(cx, EMAP + '::operator[]') if len(cx.P.F[i]['params']) == 1][0]
            b = it.val(it.call(op, mc, [bv(k)]))
            it.obligation('both ways to reach the limit of a kind agree', a == b)
        us.append(Unit('P08: get', cx.P.F[g]['loc'], th, replay='limit'))
    ts = [i for i in find(cx, PN + 'to_string_view') if ty(cx.P.F[i]['params'][0]['t']).base == KIND]
    for g in ts:
        for nme, val in cx.P.E[KIND]['items']:
            def th(it, g=g, nme=nme, val=val):
                r = it.val(it.call(g, None, [bv(val)]))
                it.obligation('the name of the kind %s' % nme, z3.BoolVal(r.lit is not None and (r.lit if isinstance(r.lit, bytes) else r.lit.encode()) == nme.encode()))
            us.append(Unit('P08: name of ' + nme, cx.P.F[g]['loc'], th, replay='limit'))
    return us

# ------------------------------------------------------------------ P14
SOPT, SFIELD = PN + 'details::sequence_options', PN + 'details::sequence_option_field'
def p14_driver(cx, gold, rep):
    us = []
    f = one(cx, rep, PN + 'details::set')
    K = enum_items(cx, PN + 'details::sequence_option_field_kind') if PN + 'details::sequence_option_field_kind' in cx.P.E else {}
    if not f or not K: rep.undecided.append('sequence options not found'); return us
    for kn, kv in sorted(K.items(), key=lambda x: x[1]):
        def th(it, kn=kn, kv=kv):
            d = driver(it, 'drv'); o = Cell(Rec(SOPT, z3.Const('options', U)), SOPT, 'options')
            fs = {n: (t, dc) for n, t, dc, nd in it.p.fields(SOPT)}
            if kn not in fs: raise Unsupported('no option field ' + kn)
            t = fs[kn][0]; vt = t
            if ty(t).name == 'std::optional': vt = ty(t).args[0]
            fl = Rec(SFIELD); fl.exact = True
            for n, ft, dc, nd in it.p.fields(SFIELD):
                if n == 'kind': c = Cell(z3.BitVecVal(kv, 32), ft, n, fl)
                elif n == 'value':
                    x = Opq(z3.Const('value', U), ty(ft).base)
                    x.parts = [Cell(it.symval(vt, 'given'), vt, 'given')]
                    it._own(x.parts[0].v, x.parts[0])
                    c = Cell(x, ft, n, fl)
                else: c = Cell(region(it, 'at').v, ft, n, fl)
                fl.f[n] = c
            given = Rec(SFIELD); gv = it.symval(vt, 'given')
            saw = it.get_field(o.v, 'saw').v
            dup = UF('enumset.has', U, z3.BitVecSort(32), z3.BoolSort())(saw.term, z3.BitVecVal(kv, 32))
            it.contracts = {**it.contracts, DRVC + '::error': c_error}
            b, e = rb(fl.f['region'].v), re_(fl.f['region'].v)
            r = it.tobool(it.val(it.call(f, None, [d, o, Cell(fl, SFIELD, 'field')])))
            es = errors(it)
            it.obligation('an option is rejected exactly when it was given before', r == z3.Not(dup))
            it.obligation('a repeated option, and no other, is reported once', z3.If(dup, z3.BoolVal(len(es) == 1), z3.BoolVal(not es)))
            for c, at_, msg in es:
                it.obligation('it is reported as a syntax error at the option', z3.And(c == code(cx, 'syntax_error'), it.get_field(at_, 'begin').v == b, it.get_field(at_, 'end').v == e))
            rej = is_const_bool(z3.simplify(r)) is False
            keep = set() if rej else {kn, 'saw'}
            it.obligation('no other option is changed', same_except(it, o.v, SOPT, z3.Const('options', U), keep | {'saw'}))
            nv = it.get_field(o.v, 'saw').v; x = z3.BitVec('other', 32)
            has = lambda s, y: z3.Or([UF('enumset.has', U, z3.BitVecSort(32), z3.BoolSort())(s.term, y)] + [y == p for p in s.parts])
            it.obligation('exactly this option is noted as given', z3.If(r, has(nv, x) == z3.Or(x == z3.BitVecVal(kv, 32), has(saw0(it), x)), has(nv, x) == has(saw0(it), x)))
            if not rej:
                got = it.get_field(o.v, kn)
                if ty(t).name == 'std::optional':
                    it.obligation('the option takes effect with its own value', z3.And(got.v.has, it.same(got.v.cell, Cell(gv, vt)) if not isinstance(gv, Rec) else samerec(it, got.v.cell.v, gv)))
                else: it.obligation('the option takes effect with its own value', it.same(got, Cell(gv, vt)))
        def saw0(it): return it.get_field(Rec(SOPT, z3.Const('options', U)), 'saw').v
        def samerec(it, a, b):
            return z3.And([TRUE] + [it.same(it.field(a, n, t, dc), it.field(b, n, t, dc)) if ty(t).base != REG else regeq(it, it.field(a, n, t, dc), it.get_field(it.field(b, n, t, dc).v, 'begin').v, it.get_field(it.field(b, n, t, dc).v, 'end').v) for n, t, dc, nd in it.p.fields(b.cls)])
        us.append(Unit('P14: option ' + kn, cx.P.F[f]['loc'], th, replay='sequence options'))
    # an option list starts with no option
    def th(it):
        v = it.zero(SOPT)
        for n, t, dc, nd in it.p.fields(SOPT):
            x = v.f[n].v if n in v.f else it.field(v, n, t, dc).v
            if isinstance(x, Ptr): it.obligation('an option not written is absent: ' + n, x.null)
            elif isinstance(x, Opt): it.obligation('an option not written is absent: ' + n, z3.Not(x.has))
            elif isinstance(x, Opq) and x.t and 'enum_set' in x.t:
                if x.set is None: raise Unsupported('initial value of %s: %s' % (n, type(x).__name__ + str(getattr(x, 't', '')) + str(getattr(x, 'cls', ''))))
                it.obligation('no option is noted as given', z3.BoolVal(not x.set))
            else: raise Unsupported('initial value of %s: %s' % (n, type(x).__name__ + str(getattr(x, 't', '')) + str(getattr(x, 'cls', ''))))
    us.append(Unit('P14: no options', 'src/mizugaki/parser/details/sequence_options.h', th, replay='sequence options'))
    return us

# ------------------------------------------------------------------ P13
OPTS = PN + 'sql_parser_options'
DEFAULTS = {'max_expected_candidates': 5, 'tree_node_limit': 0, 'tree_depth_limit': 0, 'enable_description_comments': 1, 'debug': 0}
def scal(it, v):
    return z3.If(v, bv(1), bv(0)) if z3.is_bool(v) else z3.SignExt(64 - v.size(), v) if z3.is_bv(v) and v.size() < 64 else v
def p13_driver(cx, gold, rep):
    us = []
    ct = [i for i in find(cx, OPTS + '::sql_parser_options') if not cx.P.F[i]['params']]
    acc = {}
    for i, f in cx.P.F.items():
        if f.get('cls') == OPTS and 'body' in f and not f['params'] and f['name'] not in ('sql_parser_options', '~sql_parser_options'): acc.setdefault(f['name'], []).append(i)
    for n in list(DEFAULTS) + ['element_limits']:
        if n not in acc: rep.undecided.append('accessor %s of the options not found' % n)
    def defaults(it):
        return Cell(it.construct_rec(OPTS, ct[0], []) if ct else it.zero(OPTS), OPTS, 'options')
    def th(it):
        it.vec_quant = True
        o = defaults(it)
        for n, want in DEFAULTS.items():
            for g in acc.get(n, ()): it.obligation('default of ' + n, scal(it, it.val(it.call(g, o, []))) == bv(want, 64))
        k = z3.Const('kind', BV64); K = sorted(set(enum_items(cx, PN + 'sql_parser_element_kind').values())); it.assume(z3.Or([k == x for x in K]))
        for g in acc.get('element_limits', ()):
            m = it.call(g, o, [])
            en = it.get_field(m.v, 'entries_').v
            if en.items is None: raise Unsupported('initial limits')
            it.obligation('no kind of list is limited by default', z3.And([TRUE] + [it.val(c) == 0 for c in en.items] + [z3.BoolVal(len(en.items) >= len(K))]))
    us.append(Unit('P13: defaults', (cx.P.F[ct[0]]['loc'] if ct else 'include/mizugaki/parser/sql_parser_options.h'), th, replay='options'))
    # an option returns the last value set; setting one changes no other
    for n in DEFAULTS:
        muts = [g for g in acc.get(n, ()) if ty(cx.P.F[g]['ret']).ref and 'const' not in cx.P.F[g]['ret']]
        for g in muts:
            def th(it, n=n, g=g):
                o = Cell(Rec(OPTS, z3.Const('options', U)), OPTS, 'options'); o0 = Cell(Rec(OPTS, z3.Const('options', U)), OPTS, 'before')
                it.assume(z3.Not(it.get_field(o.v, 'element_limits_').v.null))
                c = it.call(g, o, [])
                if not isinstance(c, Cell): raise Unsupported('accessor')
                x = it.symval(c.t, 'given') if not z3.is_bool(c.v) else z3.Bool('given')
                if z3.is_bv(c.v): x = z3.BitVec('given', c.v.size())
                it.setcell(c, x)
                for m, gs in acc.items():
                    for h in gs:
                        v = it.call(h, o, [])
                        if m == n: it.obligation('%s returns the value set' % n, it.val(v) == x)
                        elif m in DEFAULTS: it.obligation('setting %s does not change %s' % (n, m), it.val(v) == it.val(it.call(h, o0, [])))
                        elif m == 'element_limits': it.obligation('setting %s does not change the list limits' % n, z3.BoolVal(not v.v.dirty))
            us.append(Unit('P13: ' + n, cx.P.F[g]['loc'], th, replay='options'))
    muts = [g for g in acc.get('element_limits', ()) if ty(cx.P.F[g]['ret']).ref and 'const' not in cx.P.F[g]['ret']]
    for g in muts:
        def th(it, g=g):
            o = Cell(Rec(OPTS, z3.Const('options', U)), OPTS, 'options'); p = it.get_field(o.v, 'element_limits_').v; it.assume(z3.Not(p.null))
            c = it.call(g, o, [])
            it.obligation('the list limits are the table of these options', z3.BoolVal(isinstance(c, Cell) and c is p.cell))
            for h in acc['element_limits']: it.obligation('both accessors give the same table', z3.BoolVal(it.call(h, o, []) is c))
        us.append(Unit('P13: element_limits', cx.P.F[g]['loc'], th, replay='options'))
    if ct:
        def th(it):
            a, b = defaults(it), defaults(it)
            x, y = it.get_field(a.v, 'element_limits_').v, it.get_field(b.v, 'element_limits_').v
            it.obligation('each options object has a table of its own', z3.And(z3.Not(x.null), z3.Not(y.null), z3.BoolVal(x.cell is not y.cell)))
        us.append(Unit('P13: tables are independent', cx.P.F[ct[0]]['loc'], th, replay='options'))
    # the parser keeps its options
    PRS_ = PN + 'sql_parser'
    ctor = [i for i in find(cx, PRS_ + '::sql_parser') if len(cx.P.F[i]['params']) == 1 and ty(cx.P.F[i]['params'][0]['t']).base == OPTS]
    opt = find(cx, PRS_ + '::options', 0)
    for f in ctor:
        def th(it, f=f):
            v = Rec(OPTS, z3.Const('options', U)); o0 = Rec(OPTS, z3.Const('options', U))
            p = Cell(it.construct_rec(PRS_, f, [v]), PRS_, 'parser')
            for g in opt:
                o = it.call(g, p, [])
                for n, t, dc, nd in it.p.fields(OPTS):
                    a, b = it.field(o.v, n, t, dc), it.field(o0, n, t, dc)
                    if isinstance(a.v, Ptr): it.obligation('the parser has the table given', z3.And(a.v.null == b.v.null, z3.BoolVal(a.v.cell is not None and getattr(a.v.cell.v, 'term', None) is not None and a.v.cell.v.term.eq(b.v.cell.v.term) and not a.v.cell.v.dirty)))
                    else: it.obligation('the parser has the option given: ' + n.rstrip('_'), a.v == b.v)
        us.append(Unit('P13: sql_parser(options)', cx.P.F[f]['loc'], th, replay='options'))
    us += [u for u in p08_driver(cx, gold, rep) if re.match(r'P08: (operator|get)', u.name)]
    return us

# ------------------------------------------------------------------ P12
RES, DIAG, VALID = PN + 'sql_parser_result', PN + 'sql_parser_diagnostic', PN + 'sql_tree_validator'
CU = NS + 'compilation_unit'
def p12_driver(cx, gold, rep):
    us = []
    PRS_ = PN + 'sql_parser'
    # the diagnostic and result objects
    def diag(it, name='diag'): return Cell(Rec(DIAG, z3.Const(name, U)), DIAG, name)
    f = one(cx, rep, DIAG + '::is_valid', 0)
    ob = [i for i in find(cx, DIAG + '::operator bool', 0)]
    for g in [f] * bool(f) + ob:
        def th(it, g=g):
            d = diag(it); r = it.tobool(it.val(it.call(g, d, [])))
            c = it.get_field(d.v, 'code_').v; m = it.get_field(d.v, 'message_').v
            it.obligation('a diagnostic is empty exactly when it has neither code nor message', r == z3.Not(z3.And(c == code(cx, 'unknown'), slen(m.term) == 0)))
        us.append(Unit('P12: %s' % cx.P.F[g]['qn'].replace(PN, ''), cx.P.F[g]['loc'], th, replay='P12'))
    for cls, names in ((DIAG, ('code', 'message', 'document', 'region')), (RES, ('value', 'diagnostic', 'tree_node_count', 'max_tree_depth'))):
        for n in names:
            for g in find(cx, cls + '::' + n, 0):
                def th(it, g=g, cls=cls, n=n):
                    o = Cell(Rec(cls, z3.Const('object', U)), cls, 'object')
                    c = it.call(g, o, []); want = it.get_field(o.v, n + '_')
                    if ty(cx.P.F[g]['ret']).ref: it.obligation('the accessor gives the attribute itself', z3.BoolVal(c is want))
                    else: it.obligation('the accessor gives the attribute', it.valeq(it.val(c), want.v))
                us.append(Unit('P12: %s::%s' % (cls.split('::')[-1], n), cx.P.F[g]['loc'], th, replay='P12'))
    for nm in ('has_value', 'operator bool', 'has_diagnostic'):
        for g in find(cx, RES + '::' + nm, 0):
            def th(it, g=g, nm=nm):
                o = Cell(Rec(RES, z3.Const('object', U)), RES, 'object'); r = it.tobool(it.val(it.call(g, o, [])))
                if nm == 'has_diagnostic':
                    d = it.get_field(o.v, 'diagnostic_').v
                    it.obligation('a result has a diagnostic exactly when it is not empty', r == z3.Not(z3.And(it.get_field(d, 'code_').v == code(cx, 'unknown'), slen(it.get_field(d, 'message_').v.term) == 0)))
                else: it.obligation('a result has a value exactly when it holds a tree', r == z3.Not(it.get_field(o.v, 'value_').v.null))
            us.append(Unit('P12: sql_parser_result::' + nm, cx.P.F[g]['loc'], th, replay='P12'))
    def empty_diag(it, d):
        return z3.And(it.get_field(d, 'code_').v == code(cx, 'unknown'), slen(it.get_field(d, 'message_').v.term) == 0)
    for g in find(cx, RES + '::sql_parser_result', 1):
        pt = ty(cx.P.F[g]['params'][0]['t'])
        if pt.base == RES: continue
        def th(it, g=g, pt=pt):
            isd = pt.base == DIAG
            v = Rec(DIAG, z3.Const('diag', U)) if isd else it.symval(cx.P.F[g]['params'][0]['t'], 'value')
            o = Cell(it.construct_rec(RES, g, [v if not pt.ref else Cell(v, pt.base)]), RES)
            if isd:
                it.obligation('a result made from a diagnostic has no tree', it.get_field(o.v, 'value_').v.null)
                d = it.get_field(o.v, 'diagnostic_').v; d0 = Rec(DIAG, z3.Const('diag', U))
                it.obligation('and has that diagnostic', z3.And(it.get_field(d, 'code_').v == it.get_field(d0, 'code_').v, it.valeq(it.get_field(d, 'message_').v, it.get_field(d0, 'message_').v), regeq(it, it.get_field(d, 'region_'), *[it.get_field(it.get_field(d0, 'region_').v, k).v for k in ('begin', 'end')])))
            else:
                it.obligation('a result made from a tree has that tree', it.same(it.get_field(o.v, 'value_'), Cell(it.symval(cx.P.F[g]['params'][0]['t'], 'value'))))
                it.obligation('and no diagnostic', empty_diag(it, it.get_field(o.v, 'diagnostic_').v))
        us.append(Unit('P12: sql_parser_result(%s)' % ('diagnostic' if pt.base == DIAG else 'tree'), cx.P.F[g]['loc'], th, replay='P12'))
    # the driver
    f = one(cx, rep, DRVC + '::error')
    if f:
        def th(it, f=f):
            d = driver(it); l = region(it, 'at'); c = z3.BitVec('code', 32); m = Str(z3.Const('message', U))
            it.assume(c != code(cx, 'unknown')); doc0 = it.same
            it.call(f, d, [c, l.v, m])
            r = fld(it, d, 'result_').v; g = it.get_field(r, 'diagnostic_').v
            it.obligation('an error leaves no tree', it.get_field(r, 'value_').v.null)
            it.obligation('an error leaves its code', it.get_field(g, 'code_').v == c)
            it.obligation('an error leaves its message', it.valeq(it.get_field(g, 'message_').v, Str(z3.Const('message', U))))
            it.obligation('an error leaves its position', regeq(it, it.get_field(g, 'region_'), rb(l.v), re_(l.v)))
            it.obligation('an error names its document', it.same(it.get_field(g, 'document_'), it.get_field(Rec(DRVC, z3.Const('drv', U)), 'document_')))
            frame(it, d, {'result_'})
        us.append(Unit('P12: error', cx.P.F[f]['loc'], th, replay='P12'))
    f = one(cx, rep, DRVC + '::success')
    if f:
        def th(it, f=f):
            it.vec_quant = True
            d = driver(it); t = z3.Const('statements', U); n = vlen(t); it.assume(ULT(n, BIG)); i = z3.Const('i!su', BV64)
            et = ty(cx.P.F[f]['params'][0]['t']).args[0]
            it.assume(q([i], z3.Implies(ULT(i, n), z3.Not(isnull(velem(t, i))))))
            it.assume(z3.Implies(UGT(n, bv(0)), z3.Not(isnull(velem(t, n - 1)))))
            v = Vec(et, t, None, 'std::vector')
            r0 = fld(it, d, 'result_').v; c0 = fld(it, d, 'comments_').v.term
            it.call(f, d, [v if not ty(cx.P.F[f]['params'][0]['t']).ref else Cell(v, cx.P.F[f]['params'][0]['t'])])
            p = it.get_field(fld(it, d, 'result_').v, 'value_').v
            it.obligation('success leaves a tree', z3.Not(p.null))
            if p.cell is None: return
            u = p.cell.v
            s = it.get_field(u, 'statements_').v; m = it.vec_len(s)
            a = actx(cx); ES = NS + 'statement::empty_statement'
            last = velem(t, n - 1)
            blank = z3.And(UGT(n, bv(0)), is_a(it, cx, last, ES))
            it.obligation('only a trailing blank statement is left out', m == z3.If(blank, n - 1, n))
            if s.items is not None: it.obligation('no statement is left out', m == z3.If(blank, n - 1, n))
            else: it.obligation('the statements are in order', q([i], z3.Implies(ULT(i, m), velem(s.term, i) == velem(t, i))))
            cm = it.get_field(u, 'comments_').v
            it.obligation('the tree has the comments', z3.BoolVal(cm.term is not None and cm.term.eq(c0)))
            it.obligation('the tree names its document', it.same(it.get_field(u, 'document_'), it.get_field(Rec(DRVC, z3.Const('drv', U)), 'document_')))
            frame(it, d, {'result_', 'comments_'})
        us.append(Unit('P12: success', cx.P.F[f]['loc'], th, replay='P12'))
    # the entry points
    f = one(cx, rep, PRS_ + '::operator()', 1)
    if f:
        def th(it, f=f):
            it.vec_quant = True
            o = Cell(Rec(PRS_, z3.Const('parser', U)), PRS_, 'this')
            pt = cx.P.F[f]['params'][0]['t']
            doc = it.symval(pt, 'document'); it.assume(z3.Not(doc.null)); doc0 = doc.cell.v.term
            opts = it.get_field(o.v, 'options_').v; it.assume(z3.Not(it.get_field(opts, 'element_limits_').v.null))
            st = it.path.st; OK, BAD = z3.Bool('parsed'), z3.Bool('too large')
            op = lambda n: it.get_field(opts, n + '_').v
            def parse(it, call):
                it.obligation('a text is parsed once', z3.BoolVal('parse' not in st)); st['parse'] = 1
                d = st['drv']
                it.obligation('the driver has the option max_expected_candidates', fld(it, d, 'max_expected_candidates_').v == op('max_expected_candidates'))
                it.obligation('the driver has the option enable_description_comments', fld(it, d, 'enable_description_comments_').v == op('enable_description_comments'))
                l = fld(it, d, 'element_limits_').v; l0 = it.get_field(opts, 'element_limits_').v
                it.obligation('the driver has the list limits', z3.And(z3.Not(l.null), z3.BoolVal(l.cell is not None and isinstance(l.cell.v, Rec) and l.cell.v.term is not None and l.cell.v.term.eq(l0.cell.v.term) and not l.cell.v.dirty)))
                dd = fld(it, d, 'document_').v
                it.obligation('the driver has the document', z3.And(z3.Not(dd.null), z3.BoolVal(dd.cell is not None and dd.cell.v.term.eq(doc0))))
                r = fld(it, d, 'result_')
                it.obligation('parsing starts without a result', z3.And(it.get_field(r.v, 'value_').v.null, empty_diag(it, it.get_field(r.v, 'diagnostic_').v)))
                nr = Rec(RES, z3.Const('parsed result', U)); st['res'] = nr.term
                v0 = it.get_field(nr, 'value_').v; dg = it.get_field(nr, 'diagnostic_').v
                it.assume(z3.Not(v0.null) == OK); it.assume(empty_diag(it, dg) == OK)
                it.setcell(r, nr)
                return bv(0, 32)
            def new_driver(it, t, args, e):
                if t.base == PN + 'sql_scanner' or t.base == PN + 'sql_parser_generated':
                    r = Rec(t.base); r.exact = True
                    if t.base.endswith('generated'):
                        ds = [a[0] for a in args if isinstance(a[0], Cell) and isinstance(a[0].v, Rec) and a[0].v.cls == DRVC]
                        if len(ds) != 1: raise Unsupported('parser without driver')
                        st['drv'] = ds[0]
                    else: st['text'] = args
                    return r
                return NotImplemented
            def contents(it, call):
                off, n = [x.v if isinstance(x, Cell) else x for x in call.args]
                it.obligation('the whole text of the document is parsed', z3.And(off == 0, n == UF('docsize', U, BV64)(doc0), z3.BoolVal(call.this.v.term is not None and call.this.v.term.eq(doc0))))
                return Str(z3.Const('text', U))
            def check(it, call):
                it.obligation('a tree is checked once', z3.BoolVal('check' not in st)); st['check'] = 1
                t = call.args[0]; v0 = it.get_field(Rec(RES, st['res']), 'value_').v
                it.obligation('the parsed tree is checked', z3.BoolVal(isinstance(t, Cell) and getattr(t.v, 'term', None) is not None and t.v.term.eq(v0.cell.v.term)))
                st['checker'] = call.this
                for n in ('node_limit_', 'depth_limit_', 'node_count_', 'max_depth_'): pass
                dg = Rec(DIAG, z3.Const('limit diagnostic', U)); it.assume(z3.Not(empty_diag(it, dg)))
                return Opt(BAD, Cell(dg, DIAG, 'limit diagnostic'))
            def cctor(it, this, args): pass
            it.hooks = {**it.hooks, 'construct': new_driver}
            it.contracts = {**it.contracts, 'mizugaki::parser::sql_parser_generated::parse': parse, 'takatori::document::document::contents': contents, 'takatori::document::document::size': lambda it, call: UF('docsize', U, BV64)(call.this.v.term), VALID + '::operator()': check,
                VALID + '::last_max_depth': lambda it, call: z3.Const('checked depth', BV64), VALID + '::last_node_count': lambda it, call: z3.Const('checked nodes', BV64)}
            def vctor(it, call):
                st['limits'] = [it.val(x) for x in call.args]; return Rec(VALID, z3.Const('checker', U))
            for i in find(cx, VALID + '::sql_tree_validator'): it.contracts[i] = vctor
            for c in (PN + 'sql_scanner::sql_scanner', PN + 'sql_parser_generated::sql_parser_generated'):
                def cc(it, call, c=c):
                    return new_driver(it, ty(c.rsplit('::', 1)[0]), [(a, None) for a in call.args], None)
                it.contracts[c] = cc
            r = it.val(it.call(f, o, [doc if not ty(pt).ref else Cell(doc, pt)]))
            it.obligation('the text is parsed', z3.BoolVal('parse' in st))
            v, dg = it.get_field(r, 'value_').v, it.get_field(r, 'diagnostic_').v
            it.obligation('parsing ends with a tree or a diagnostic, not both', z3.Not(v.null) == empty_diag(it, dg))
            big = z3.And(OK, BAD) if 'check' in st else FALSE
            it.obligation('a tree is checked exactly if there is one', z3.BoolVal('check' in st) == OK)
            if 'check' in st:
                it.obligation('the limits of the options are checked', z3.BoolVal(len(st.get('limits', [])) == 2))
                if len(st.get('limits', [])) == 2: it.obligation('the limits of the options are checked in their order', z3.And(st['limits'][0] == op('tree_node_limit'), st['limits'][1] == op('tree_depth_limit')))
            it.obligation('the result is a tree exactly when the text was parsed and is not too large', z3.Not(v.null) == z3.And(OK, z3.Not(big)))
            r0 = Rec(RES, st['res']); vt = it.get_field(r0, 'value_').v.cell.v.term
            isT = v.cell is not None and getattr(v.cell.v, 'term', None) is not None and v.cell.v.term.eq(vt) and not v.cell.v.dirty
            it.obligation('the tree is the parsed tree', z3.Implies(z3.Not(v.null), z3.BoolVal(isT)))
            def samediag(a, b):
                return z3.And(it.get_field(a, 'code_').v == it.get_field(b, 'code_').v, it.valeq(it.get_field(a, 'message_').v, it.get_field(b, 'message_').v), regeq(it, it.get_field(a, 'region_'), *[it.get_field(it.get_field(b, 'region_').v, k).v for k in ('begin', 'end')]))
            it.obligation('a syntax error is the diagnostic', z3.Implies(z3.Not(OK), samediag(dg, it.get_field(r0, 'diagnostic_').v)))
            it.obligation('a tree that is too large is reported by its diagnostic', z3.Implies(big, samediag(dg, Rec(DIAG, z3.Const('limit diagnostic', U)))))
            if 'check' in st:
                it.obligation('the node count is that of the tree', z3.Implies(z3.Not(v.null), it.get_field(r, 'tree_node_count_').v == z3.Const('checked nodes', BV64)))
                it.obligation('the depth is that of the tree', z3.Implies(z3.Not(v.null), it.get_field(r, 'max_tree_depth_').v == z3.Const('checked depth', BV64)))
            it.obligation('the parser and its options are not changed', z3.BoolVal(not o.v.dirty))
        us.append(Unit('P12: sql_parser::operator()(document)', cx.P.F[f]['loc'], th, replay='P12'))
    return us
def p12_report(cx, gold, rep):
    """report_syntax_error: exactly one diagnostic, at the unexpected token, with the code of its cause"""
    us = []
    f = one(cx, rep, GEN + '::report_syntax_error')
    if not f: return us
    CTX = GEN + '::context'; SK = GEN + '::symbol_kind::symbol_kind_type'
    S = enum_items(cx, SK)
    SAFE = re.compile(r'(append|push_back|operator\[\]|operator\+=|size|empty|symbol_name|name|reserve|c_str|data|move|min|max|begin|end|operator(\+\+|!=|\*))$')
    def loop(it, s, c, inc, body, cv):
        # a loop that only builds text: it calls nothing but text and list operations, so only text it writes is unknown after it
        for x in list(walk(body)) + (list(walk(inc)) if inc else []) + list(walk(c)):
            k = x.get('k')
            if k in ('MCall', 'Call') and not SAFE.search(x['qn'].split('::')[-1]): raise Unsupported('loop calls ' + x['qn'])
            if k in ('Return', 'Goto', 'ICall', 'Throw'): raise Unsupported('loop with ' + k)
        ids = written_ids(body) | written_ids(c) | (written_ids(inc) if inc else set())
        for n, cell in it.frame().env.items():
            if n in ids and z3.is_bv(cell.v): it.setcell(cell, z3.Const(it.newname('number'), cell.v.sort()))
            elif n in ids and z3.is_bool(cell.v): it.setcell(cell, z3.Bool(it.newname('flag')))
            elif isinstance(cell.v, Str): it.setcell(cell, Str(z3.Const(it.newname('text'), U)))
            elif isinstance(cell.v, Vec) and cell.v.items is None: it.setcell(cell, Vec(cell.v.et, z3.Const(it.newname('list'), U), None, cell.v.kind))
        return True
    def rloop(it, s, r): return loop(it, s, s.get('c') or {}, None, s['b'], None)
    def th(it):
        st = it.path.st; it.vec_quant = False
        ps = Rec(GEN); ps.exact = True
        drv = Rec(DRVC, z3.Const('drv', U))
        ps.f['driver'] = Cell(drv, DRVC, 'driver', ps); ps.f['scanner'] = Cell(Rec(PN + 'sql_scanner'), PN + 'sql_scanner', 'scanner', ps)
        for n in ('yystack_',): ps.f[n] = Cell(Opq(z3.Const('yystack', U), 'stack'), 'stack', n, ps)
        loc_ = region(it, 'at', True); sym = z3.BitVec('symbol', it.bvw(SK)[0])
        it.assume(z3.Or([sym == x for x in sorted(set(S.values()))])); it.assume(sym != S['S_YYEMPTY'])
        c = Cell(Rec(CTX, z3.Const('context', U)), CTX, 'context')
        def lst(it, call): return Vec(call.args[0].v.et if isinstance(call.args[0], Cell) else call.args[0].et, z3.Const(it.newname('list'), U), None, 'std::vector')
        it.contracts = {CTX + '::token': lambda it, call: sym, CTX + '::location': lambda it, call: loc_, CTX + '::expected_tokens': lambda it, call: z3.BitVec(it.newname('count'), 32),
            DRVC + '::image': lambda it, call: Str(z3.Const('image', U)), DRVC + '::error': c_error, DRVC + '::max_expected_candidates': lambda it, call: Cell(z3.Const('max candidates', BV64), 'unsigned long'),
            PN + '(anonymous namespace)::collapse_identifier_like_tokens': lst, PN + 'collapse_identifier_like_tokens': lst, GEN + '::symbol_name': lambda it, call: Str(z3.Const(it.newname('name'), U))}
        it.call(f, Cell(ps, GEN, 'this'), [c])
        es = errors(it)
        it.obligation('a syntax error is reported once', z3.BoolVal(len(es) == 1))
        want = z3.BitVecVal(code(cx, 'unexpected_token'), 32)
        for n, k in (('S_YYEOF', 'unexpected_eof'), ('S_DELIMITED_IDENTIFIER_RESTRICTED', 'invalid_token'), ('S_REGULAR_IDENTIFIER_RESTRICTED', 'invalid_token'), ('S_UNCLOSED_BLOCK_COMMENT', 'unexpected_eof'), ('S_ERROR', 'invalid_character')):
            if n not in S: raise Unsupported('no symbol ' + n)
            want = z3.If(sym == S[n], z3.BitVecVal(code(cx, k), 32), want)
        for cd, at_, msg in es:
            it.obligation('a syntax error has the code of its cause', cd == want)
            it.obligation('a syntax error is reported at the unexpected token', z3.And(it.get_field(at_, 'begin').v == rb(loc_.v), it.get_field(at_, 'end').v == re_(loc_.v)))
    us.append(Unit('P12: report_syntax_error', cx.P.F[f]['loc'], th, {}, {'genloop': loop, 'loop': rloop}, replay='P12'))
    return us

# ------------------------------------------------------------------ P07
ENG = PN + 'engine'
def engine_cls(cx):
    r = [c for c in cx.P.R if re.fullmatch(r'mizugaki::parser::(\(anonymous namespace\)::)?engine', c)]
    return r[0] if len(r) == 1 else None
def isnode_cls(P, c): return c == NS + 'node' or (c in P.R and NS + 'node' in P.bases(c))
def children(it, cell, t, cond=TRUE, depth=0):
    """[(condition, kind, key term, absent)] of the child nodes held by a cell of type t; kind 'one' or 'each'"""
    P = it.p; tt = ty(t); out = []
    if depth > 8: raise Unsupported('depth')
    v = cell.v
    if tt.name == 'std::unique_ptr':
        if not isnode_cls(P, ty(tt.args[0]).base): return []
        if not isinstance(v, Ptr): raise Unsupported('pointer')
        return [(cond, 'one', pkey(v), v.null)]
    if tt.name == 'std::vector':
        if not has_children(P, tt.args[0]): return []
        return [(cond, 'each', v.term, it.vec_len(v) == 0)]
    if tt.name == 'std::optional':
        if not has_children(P, tt.args[0]): return []
        return children(it, v.cell, tt.args[0], z3.And(cond, v.has), depth + 1)
    if tt.base in P.R and not isnode_cls(P, tt.base) and tt.base.startswith(NS): return fields_children(it, v, tt.base, cond, depth + 1)
    if any(isnode_cls(P, ty(a).base) for a in tt.args or [] if isinstance(a, str)): raise Unsupported('child of type ' + t)
    return []
def fields_children(it, rec, cls, cond=TRUE, depth=0):
    out = []
    for n, ft, dc, nd in it.p.fields(cls):
        if has_children(it.p, ft): out += children(it, it.field(rec, n, ft, dc), ft, cond, depth)
    return out
def has_children(P, t, depth=0):
    tt = ty(t)
    if depth > 8: return False
    if tt.name == 'std::unique_ptr': return isnode_cls(P, ty(tt.args[0]).base)
    if tt.name in ('std::vector', 'std::optional'): return has_children(P, tt.args[0], depth + 1)
    if tt.base in P.R and tt.base.startswith(NS) and not isnode_cls(P, tt.base): return any(has_children(P, ft, depth + 1) for n, ft, dc, nd in P.fields(tt.base))
    return False
def pkey(v):
    r = v.cell.v if v.cell is not None else None
    if not isinstance(r, Rec) or r.term is None: raise Unsupported('child')
    return r.term
def p07_tree(cx, gold, rep):
    us = []; P = cx.P; E = engine_cls(cx)
    if not E: rep.undecided.append('the tree checker is not found'); return us
    a = actx(cx)
    ops = {}
    for i in find(cx, ENG + '::operator()', 2): ops[ty(P.F[i]['params'][0]['t']).base] = i
    for c in a.concrete:
        if isnode_cls(P, c) and c not in ops: rep.undecided.append('no visit function for ' + c)
    accs = find(cx, ENG + '::accept', 2); checks = find(cx, ENG + '::check', 2)
    disp = [i for i, f in P.F.items() if f['name'] == 'dispatch' and 'body' in f and len(f['params']) == 3 and ty(f['params'][0]['t']).base == E]
    def engine(it, name='engine'): return Cell(Rec(E, z3.Const(name, U)), E, 'this')
    def val(x): return x.v if isinstance(x, Cell) else x
    def same_engine(it, call, e): it.obligation('the same checker goes on', z3.BoolVal(call.this is e or (isinstance(call.this, Cell) and call.this.v is e.v)))
    def eframe(it, e, changed=()):
        o = Rec(e.v.cls, z3.Const('engine', U))
        for n, t, dc, nd in P.fields(E):
            if n in changed or n not in e.v.f: continue
            it.obligation('%s is not changed' % n.rstrip('_'), it.same(e.v.f[n], it.field(o, n, t, dc)))
    def recorder(it, e, d, depth0):
        """contract of accept() seen from a visit function: what is accepted, at which depth, with which answer"""
        st = it.path.st; st['acc'] = []
        def h(it, call):
            same_engine(it, call, e)
            v = val(call.args[0]); dep = val(call.args[1])
            it.obligation('children are one level below their parent', dep == depth0)
            it.obligation('nothing is visited after a refusal', z3.BoolVal(all(x[3] for x in st['acc'])))
            if isinstance(v, Ptr): kind, key = 'one', pkey(v)
            elif isinstance(v, Vec): kind, key = 'each', v.term
            else: raise Unsupported('accept(%s)' % type(v).__name__)
            r = it.branch(z3.Bool(it.newname('accepted')))
            st['acc'].append((kind, key, v, r))
            return z3.BoolVal(r)
        return h
    def covered(it, want, got, what):
        """every expected child exactly once, nothing else"""
        for cond, kind, key, absent in want:
            n = [x for x in got if x[0] == kind and x[1].eq(key)]
            nm = re.sub(r'mizugaki::[\w:]*::', '', str(key)).replace('\n', '')[:100]
            if len(n) == 1: it.obligation('%s: child %s is visited' % (what, nm), TRUE)
            elif not n: it.obligation('%s: child %s is visited' % (what, nm), z3.Or(z3.Not(cond), absent))
            else: it.obligation('%s: child %s is visited only once' % (what, nm), z3.Or(z3.Not(cond), absent))
        for x in got:
            if not any(x[0] == kind and x[1].eq(key) for cond, kind, key, absent in want):
                it.obligation('%s: only its children are visited (%s)' % (what, str(x[1])[:100]), x[2].null if isinstance(x[2], Ptr) else it.vec_len(x[2]) == 0)
    def each_loop(it, s, r):
        st = it.path.st
        if not isinstance(r, Vec) or r.items is not None: return NotImplemented
        k = z3.Const(it.newname('k'), BV64); before = list(st['acc'])
        if it.branch(z3.ULT(k, it.vec_len(r))):
            el = it.vec_at(r, k); st['acc'] = []
            if not all(x[3] for x in before): it.obligation('nothing is visited after a refusal', FALSE)
            ids = written_ids(s['b']); ids.discard(s['var']['id']); lf = it.loop_begin(_havoc(it, ids), k, ('acc',))
            try: it._iter_one(s, el)
            except sym._Brk:
                it.obligation('a list is left early only after a refusal', z3.BoolVal(bool(st['acc']) and not st['acc'][-1][3]))
                st['broke'] = True; return True
            it.loop_end(lf)
            if 'refusable' in st: it.obligation('a refusal ends the walk', z3.BoolVal(all(x[3] for x in st['acc'])))
            covered(it, children(it, el, r.et), st['acc'], 'one element of a list')
            raise sym._Prune()
        ids = written_ids(s['b']); ids.discard(s['var']['id']); _havoc(it, ids)
        st['acc'] = before + [('each', r.term, r, True)]
        return True
    # a visit function accepts exactly the child nodes of its object
    for c, i in sorted(ops.items()):
        def th(it, c=c, i=i):
            e = engine(it); o = Cell(Rec(c, z3.Const('node', U)), c, 'node'); d = z3.Const('depth', BV64)
            it.hooks = {**it.hooks, 'loop': each_loop}; h = recorder(it, e, d, d)
            it.path.st['refusable'] = 1
            it.contracts = {**it.contracts, **{x: h for x in accs}}
            r = it.tobool(it.val(it.call(i, e, [o, d] if ty(P.F[i]['params'][0]['t']).ref else [o.v, d])))
            got = it.path.st['acc']; ok = all(x[3] for x in got)
            it.obligation('a node is refused exactly when one of its children is', r == z3.BoolVal(ok))
            if ok: covered(it, fields_children(it, Rec(c, z3.Const('node', U)), c), got, c.replace(NS, ''))
            it.obligation('the node is not changed', z3.BoolVal(not o.v.dirty)); eframe(it, e)
        us.append(Unit('P07: visit %s' % c.replace(NS, ''), P.F[i]['loc'], th, replay='P07'))
    # accept() of one child, of a list of children
    for i in accs:
        f = P.F[i]; pt = ty(f['params'][0]['t'])
        def th(it, i=i, f=f, pt=pt):
            e = engine(it); d = z3.Const('depth', BV64); it.assume(ULT(d, BIG))
            src = Cell(it.from_term(pt.base, z3.Const('child', U)), pt.base, 'child')
            st = it.path.st
            if pt.name == 'std::vector':
                it.hooks = {**it.hooks, 'loop': each_loop}; h = recorder(it, e, d, d); st['refusable'] = 1
                it.contracts = {**it.contracts, **{x: h for x in accs if x != i}}
                r = it.tobool(it.val(it.call(i, e, [src, d])))
                got = st['acc']; ok = all(x[3] for x in got)
                it.obligation('a list is refused exactly when one of its elements is', r == z3.BoolVal(ok))
                if ok: covered(it, [(TRUE, 'each', src.v.term, it.vec_len(src.v) == 0)], got, 'list')
                eframe(it, e); return
            u = pkey(src.v); log = []
            def isit(x): x = val(x); return isinstance(x, Rec) and x.term is not None and x.term.eq(u)
            def chk(it, call):
                same_engine(it, call, e); log.append('check')
                it.obligation('the child itself is counted, one level deeper', z3.And(z3.BoolVal(isit(call.args[0])), val(call.args[1]) == d + 1))
                r = it.branch(z3.Bool('counted')); st['c'] = r; return z3.BoolVal(r)
            def go(it, call):
                log.append('visit'); args = call.args
                if call.this is None or ty(P.F[call.fid]['params'][0]['t']).base == E if hasattr(call, 'fid') else len(args) == 3:
                    it.obligation('the same checker goes on', z3.BoolVal(val(args[0]) is e.v)); args = args[1:]
                else: same_engine(it, call, e)
                it.obligation('the child itself is visited, one level deeper', z3.And(z3.BoolVal(isit(args[0])), val(args[1]) == d + 1))
                r = it.branch(z3.Bool('visited')); st['v'] = r; return z3.BoolVal(r)
            it.contracts = {**it.contracts, **{x: chk for x in checks}, **{x: go for x in disp}, **{x: go for x in ops.values()}}
            r = it.tobool(it.val(it.call(i, e, [src, d])))
            nul = src.v.null
            it.obligation('a child that is present is counted first and then visited, once', z3.Or(z3.And(nul, z3.BoolVal(not log)), z3.And(z3.Not(nul), z3.BoolVal(log == (['check', 'visit'] if st.get('c') else ['check'])))))
            it.obligation('a child is refused exactly when it or its parts are', r == z3.Or(nul, z3.BoolVal(bool(st.get('c') and st.get('v')))))
            eframe(it, e)
        us.append(Unit('P07: accept(%s)' % re.sub(r'std::default_delete<.*?>|mizugaki::ast::', '', pt.base)[:80], f['loc'], th, replay='P07'))
    # dispatch() calls the visit function of the class of the object
    for i in disp:
        f = P.F[i]; base = ty(f['params'][1]['t']).base
        def th(it, i=i, base=base, f=f):
            import ast_props
            e = engine(it); o = Cell(Rec(base, z3.Const('node', U)), base, 'node'); d = z3.Const('depth', BV64); ev = []
            cs = [c for c in a.concrete if ast_props.category_of(a, c) == base and c in a.tags]
            if not cs: raise Unsupported('no classes')
            kind = it.symval(P.F[a.tags[cs[0]]]['ret'], 'virt.node_kind', z3.Const('node', U))
            claimed = {k: c for c in cs for k in a.static_tags.get(c, [])}
            it.assume(z3.Or([kind == k for k in claimed]))
            ans = z3.Bool('visited')
            def mk(c):
                def h(it, call):
                    same_engine(it, call, e)
                    v = val(call.args[0]); it.obligation('the object itself is visited at its depth', z3.And(z3.BoolVal(isinstance(v, Rec) and v.term is not None and v.term.eq(z3.Const('node', U))), val(call.args[1]) == d))
                    ev.append(c); return ans
                return h
            it.contracts = {**it.contracts, **{x: mk(c) for c, x in ops.items()}}
            r = it.tobool(it.val(it.call(i, None, [e, o, d if not ty(f['params'][2]['t']).ref else Cell(d, 'unsigned long')])))
            it.obligation('one visit function is called', z3.BoolVal(len(ev) == 1))
            if len(ev) == 1: it.obligation('the one for the class of the object (%s)' % ev[0].replace(NS, ''), z3.Or([FALSE] + [kind == k for k, c in claimed.items() if c == ev[0]]))
            it.obligation('its answer is passed on', r == ans)
        us.append(Unit('P07: dispatch(%s)' % base.replace(NS, ''), f['loc'], th, replay='P07'))
    # check(): counts one node, and refuses exactly beyond the limits
    for i in checks:
        f = P.F[i]; base = ty(f['params'][0]['t']).base
        def th(it, i=i, base=base):
            e = engine(it); o = Cell(Rec(base, z3.Const('node', U)), base, 'node'); d = z3.Const('depth', BV64)
            g = lambda n: fld(it, e, n).v
            n0, m0, nl, dl = g('node_count_'), g('max_depth_'), g('node_limit_'), g('depth_limit_')
            it.assume(ULT(n0, BIG)); it.assume(ULT(d, BIG)); it.assume(z3.Not(fld(it, e, 'result_').v.has))
            it.assume(z3.And(z3.Or(nl == 0, ULE(n0, nl)), z3.Or(dl == 0, ULE(m0, dl))))
            r = it.tobool(it.val(it.call(i, e, [o, d])))
            n1, m1 = g('node_count_'), g('max_depth_')
            it.obligation('one node is counted', n1 == n0 + 1)
            it.obligation('the deepest level is kept', m1 == umax(m0, d))
            it.obligation('a node is refused exactly beyond a limit', r == z3.And(z3.Or(nl == 0, ULE(n1, nl)), z3.Or(dl == 0, ULE(m1, dl))))
            res = fld(it, e, 'result_').v
            it.obligation('a refused node, and no other, is reported', res.has == z3.Not(r))
            if is_const_bool(z3.simplify(res.has)) is True or z3.is_true(z3.simplify(res.has)):
                dg = res.cell.v
                it.obligation('it is reported as too large', it.get_field(dg, 'code_').v == code(cx, 'exceed_number_of_elements'))
                it.obligation('it is reported at the node', regeq(it, it.get_field(dg, 'region_'), *regof(it, z3.Const('node', U), base)))
                it.obligation('it names the document', it.same(it.get_field(dg, 'document_'), it.get_field(Rec(E, z3.Const('engine', U)), 'document_')))
                ps = msgparts(it, it.get_field(dg, 'message_').v)
                if ps is None: raise Unsupported('message')
                lit = b' '.join((x.lit if isinstance(x.lit, bytes) else x.lit.encode()) for x in ps if isinstance(x, Str) and x.lit is not None)
                bvs = [x for x in ps if z3.is_bv(x) and x.size() == 64]
                over = z3.And(nl != 0, UGT(n1, nl))
                it.obligation('the message names the limit', z3.If(over, z3.BoolVal(b'number of elements' in lit), z3.BoolVal(b'depth' in lit)))
                it.obligation('the message has the count or depth', z3.Or([FALSE] + [z3.If(over, x == n1, x == d) for x in bvs]))
            eframe(it, e, {'node_count_', 'max_depth_', 'result_'})
        us.append(Unit('P07: check(%s)' % base.replace(NS, ''), f['loc'], th, replay='P07'))
    # process(): every statement of the tree
    f = one(cx, rep, ENG + '::process', 2)
    if f:
        def th(it, f=f):
            e = engine(it); cu = Cell(Rec(CU, z3.Const('tree', U)), CU, 'tree'); d = z3.Const('depth', BV64); st = it.path.st
            it.hooks = {**it.hooks, 'loop': each_loop}; rec = recorder(it, e, d, d); dg = Rec(DIAG, z3.Const('refusal', U))
            started = []
            def h(it, call):
                if not started:
                    started.append(1)
                r = rec(it, call)
                it.obligation('counting starts from nothing', z3.And(fld(it, e, 'node_count_').v == 0, fld(it, e, 'max_depth_').v == 0, z3.Not(fld(it, e, 'result_').v.has))) if len(st['acc']) == 1 and not st.get('each') else None
                if not st['acc'][-1][3]: it.setcell(fld(it, e, 'result_'), Opt(TRUE, Cell(dg, DIAG)))
                return r
            it.contracts = {**it.contracts, **{x: h for x in accs}}
            r = it.val(it.call(f, e, [cu, d]))
            got = st['acc']
            refused = bool(got) and not got[-1][3]
            it.obligation('a tree is refused exactly when one of its statements is', r.has == z3.BoolVal(refused))
            if refused:
                x = r.cell.v
                it.obligation('the refusal is that of the statement', z3.And(it.get_field(x, 'code_').v == it.get_field(Rec(DIAG, z3.Const('refusal', U)), 'code_').v, it.valeq(it.get_field(x, 'message_').v, it.get_field(Rec(DIAG, z3.Const('refusal', U)), 'message_').v)))
            else: covered(it, fields_children(it, Rec(CU, z3.Const('tree', U)), CU), got, 'tree')
            eframe(it, e, {'node_count_', 'max_depth_', 'result_'})
        us.append(Unit('P07: process', P.F[f]['loc'], th, replay='P07'))
    for nm in ('node_count', 'max_depth'):
        for g in find(cx, ENG + '::' + nm, 0):
            def th(it, g=g, nm=nm):
                e = engine(it); r = it.val(it.call(g, e, []))
                it.obligation('the count so far', r == it.get_field(Rec(E, z3.Const('engine', U)), nm + '_').v)
            us.append(Unit('P07: engine::' + nm, P.F[g]['loc'], th, replay='P07'))
    # the checker
    f = one(cx, rep, VALID + '::operator()', 1)
    if f:
        def th(it, f=f):
            v = Cell(Rec(VALID, z3.Const('checker', U)), VALID, 'this'); cu = Cell(Rec(CU, z3.Const('tree', U)), CU, 'tree'); st = it.path.st
            nl, dl = fld(it, v, 'node_limit_').v, fld(it, v, 'depth_limit_').v
            dg = Rec(DIAG, z3.Const('refusal', U)); BAD = z3.Bool('refused')
            def proc(it, call):
                it.obligation('a tree is walked once', z3.BoolVal('eng' not in st)); st['eng'] = call.this
                en = call.this
                it.obligation('with the limits', z3.And(fld(it, en, 'node_limit_').v == nl, fld(it, en, 'depth_limit_').v == dl))
                it.obligation('from its top', z3.And(val(call.args[1]) == 0, z3.BoolVal(val(call.args[0]) is cu.v)))
                dd = fld(it, en, 'document_'); it.obligation('naming its document', it.same(dd, it.get_field(Rec(CU, z3.Const('tree', U)), 'document_')))
                it.setcell(fld(it, en, 'node_count_'), z3.Const('counted nodes', BV64)); it.setcell(fld(it, en, 'max_depth_'), z3.Const('counted depth', BV64))
                return Opt(BAD, Cell(dg, DIAG, 'refusal'))
            p = one(cx, rep, ENG + '::process', 2)
            if not p: raise Unsupported('process')
            it.contracts = {**it.contracts, p: proc}
            r = it.val(it.call(f, v, [cu]))
            on = z3.Or(nl != 0, dl != 0)
            it.obligation('a tree is walked exactly when there is a limit', z3.BoolVal('eng' in st) == on)
            it.obligation('a tree is refused exactly when the walk refuses it', r.has == (BAD if 'eng' in st else FALSE))
            if 'eng' in st: it.obligation('the refusal is that of the walk', z3.Implies(r.has, it.get_field(r.cell.v, 'code_').v == it.get_field(Rec(DIAG, z3.Const('refusal', U)), 'code_').v))
            it.obligation('the counts are those of the walk', z3.And(fld(it, v, 'last_node_count_').v == (z3.Const('counted nodes', BV64) if 'eng' in st else bv(0)), fld(it, v, 'last_max_depth_').v == (z3.Const('counted depth', BV64) if 'eng' in st else bv(0))))
        us.append(Unit('P07: sql_tree_validator::operator()', P.F[f]['loc'], th, replay='P07'))
    for nm in ('last_node_count', 'last_max_depth'):
        for g in find(cx, VALID + '::' + nm, 0):
            def th(it, g=g, nm=nm):
                v = Cell(Rec(VALID, z3.Const('checker', U)), VALID, 'this')
                it.obligation('the last count', it.val(it.call(g, v, [])) == it.get_field(Rec(VALID, z3.Const('checker', U)), nm + '_').v)
            us.append(Unit('P07: ' + nm, P.F[g]['loc'], th, replay='P07'))
    for g in find(cx, VALID + '::sql_tree_validator', 2):
        def th(it, g=g):
            n, d = z3.Const('nodes', BV64), z3.Const('depth', BV64)
            v = Cell(it.construct_rec(VALID, g, [n, d]), VALID)
            it.obligation('the checker keeps its limits', z3.And(fld(it, v, 'node_limit_').v == n, fld(it, v, 'depth_limit_').v == d))
            it.obligation('the checker starts without counts', z3.And(fld(it, v, 'last_node_count_').v == 0, fld(it, v, 'last_max_depth_').v == 0))
        us.append(Unit('P07: sql_tree_validator(limits)', P.F[g]['loc'], th, replay='P07'))
    us += p07_lemmas()
    return us
def p07_lemmas():
    """the contracts of check, accept and the visit functions give the exact limits for whole trees (induction on the tree)"""
    from fw import Lemma
    I = z3.Int
    NL, DL, N, M, d, s, h, S, H, Sn, Hn = map(I, 'NL DL N M d s h S H Sn Hn'.split())
    ok = lambda n, m: z3.And(z3.Or(NL == 0, n <= NL), z3.Or(DL == 0, m <= DL))
    mx = lambda a, b: z3.If(a < b, b, a)
    pos = [x >= 0 for x in (NL, DL, N, M, d, s, h, S, H, Sn, Hn)]
    # children walk: S, H: nodes and height of the children done; s, h: of the next one; Sn, Hn: of all of them
    mono = [S + s <= Sn, H <= Hn, h <= Hn]
    pre = [ok(N, M), M >= d]
    after = (N + S, mx(M, d + H))
    return [
        Lemma('P07: walk, start: no child done', z3.And(N + 0 == N, mx(M, d + 0) == M), pos + pre),
        Lemma('P07: walk, step: an accepted child keeps the counts exact', z3.And(after[0] + s == N + (S + s), mx(after[1], d + h) == mx(M, d + mx(H, h))), pos + pre),
        Lemma('P07: walk, step: the deepest level stays at least that of the parent', mx(M, d + mx(H, h)) >= d, pos + pre),
        Lemma('P07: walk, refusal: a refused child means that the whole is too large', z3.Implies(z3.Not(ok(after[0] + s, mx(after[1], d + h))), z3.Not(ok(N + Sn, mx(M, d + Hn)))), pos + pre + mono),
        Lemma('P07: walk, end: all accepted means that the whole is within the limits', z3.Implies(z3.And(S == Sn, H == Hn, ok(*after)), ok(N + Sn, mx(M, d + Hn))), pos + pre),
        Lemma('P07: node: check, then its children, counts 1 + theirs', z3.And((N + 1) + Sn == N + (1 + Sn), mx(mx(M, d + 1), (d + 1) + Hn) == mx(M, d + (1 + Hn))), pos + pre),
        Lemma('P07: node: a node refused by check means that the whole is too large', z3.Implies(z3.Not(ok(N + 1, mx(M, d + 1))), z3.Not(ok(N + 1 + Sn, mx(M, d + 1 + Hn)))), pos + pre),
        Lemma('P07: tree: refused exactly beyond the limits', z3.Implies(z3.And(NL == 0, DL == 0), ok(N + Sn, mx(M, d + Hn))), pos),
    ]
