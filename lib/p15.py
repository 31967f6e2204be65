"""P15: syntax errors: the first wrong token, its text, and the tokens that could stand there.
Contracts: is_contextual_keyword (exactly the words of the grammar contract), collapse_identifier_like_tokens (one entry for all
kinds of names, the rest kept in order), report_syntax_error (message built from the collapsed list).  That the first wrong token is
found, and that the tables know what can follow, is P04; the exploratory simulation of bison (LAC) is checked by the battery."""
import os, random, re
from driver_props import *
import lalr, lexspec
def catflat(t):
    """atoms of a text: byte strings and terms, adjacent literals joined"""
    out = []
    def go(t):
        if z3.is_app(t) and t.decl().name() == 'scat': go(t.arg(0)); go(t.arg(1)); return
        l = LITS.get(t.get_id())
        if l is not None:
            if out and isinstance(out[-1], bytes): out[-1] += l
            elif l: out.append(l)
        else: out.append(t)
    go(t); return out
LITS = {}
def partsflat(parts):
    out = []
    for x in parts:
        if isinstance(x, Str):
            if x.lit is not None: l = [x.lit]
            else: l = catflat(x.term)
        else: l = [x]
        for a in l:
            if isinstance(a, bytes) and out and isinstance(out[-1], bytes): out[-1] += a
            elif not (isinstance(a, bytes) and not a): out.append(a)
    return out
def same_atoms(a, b): return len(a) == len(b) and all((x == y) if isinstance(x, bytes) or isinstance(y, bytes) else (z3.is_expr(x) and z3.is_expr(y) and x.eq(y)) for x, y in zip(a, b))
def names(): return lalr.GrammarText().names
def symbols(cx):
    """symbol enumerators of the words usable as names, from the names of the contract"""
    SK = GEN + '::symbol_kind::symbol_kind_type'
    return enum_items(cx, SK), SK
def p15_units(cx, gold, rep):
    us = []; S, SK = symbols(cx)
    want = set()
    for n in names():
        k = 'S_' + n.strip('"')
        if k not in S: rep.undecided.append('no symbol ' + k)
        else: want.add(S[k])
    RI, DI = S['S_REGULAR_IDENTIFIER'], S['S_DELIMITED_IDENTIFIER']
    isctx = lambda k: z3.Or([k == x for x in sorted(want)])
    f = one(cx, rep, PN + 'is_contextual_keyword')
    if f:
        def th(it, f=f):
            k = z3.BitVec('kind', it.bvw(SK)[0])
            r = it.tobool(it.val(it.call(f, None, [k])))
            it.obligation('exactly the words the grammar takes as names are contextual', r == isctx(k))
        us.append(Unit('P15: is_contextual_keyword', cx.P.F[f]['loc'], th, replay='messages'))
    f = one(cx, rep, PN + 'collapse_identifier_like_tokens')
    if f:
        W = 32; kept = UF('kept', BV64, BV64)
        def idlike(k): return z3.Or(k == RI, k == DI)
        def at(t, i): return UF('vec.at', U, BV64, z3.BitVecSort(W))(t, i)
        def loop(it, s, r):
            if not isinstance(r, Vec) or r.items is not None: raise Unsupported('loop over something else')
            t = z3.Const('candidates', U); fr = it.frame()
            if not r.term.eq(t): raise Unsupported('loop over another list')
            res = [c for c in fr.env.values() if isinstance(c.v, Vec) and c.v is not r]
            if len(res) != 1: raise Unsupported('loop shape')
            res = res[0]; k = z3.Const('k!cl', BV64); n = it.vec_len(r)
            def inv(i):
                v = res.v; v_ = v.term
                return [('length so far', it.vec_len(v) == 1 + kept(i)), ('first entry', it.val(it.vec_at(v, bv(0))) == RI),
                    ('entries so far', q([k], z3.Implies(z3.And(ULT(k, i), kept(k + 1) != kept(k)), it.val(it.vec_at(v, 1 + kept(k))) == it.val(it.vec_at(r, k)))))]
            it.assume(kept(bv(0)) == 0)
            for nm, g in inv(bv(0)): it.obligation('loop invariant (entry): ' + nm, g)
            i = z3.Const(it.newname('i'), BV64); others = {d: c.v for d, c in fr.env.items() if c is not res}
            it.setcell(res, Vec(res.v.et, z3.Const(it.newname('result'), U), None, res.v.kind))
            it.assume(ULE(i, n)); it.assume(ULE(kept(i), i)); 
            it.assume(q([k], z3.Implies(ULT(k, i), z3.And(z3.Or(kept(k + 1) == kept(k), kept(k + 1) == kept(k) + 1), ULE(kept(k + 1), kept(i))))))   # definition of kept, lemma below
            for nm, g in inv(i): it.assume(g)
            if not it.branch(ULT(i, n)): it.assume(i == n); return True
            x = it.val(it.vec_at(r, i))
            it.assume(kept(i + 1) == z3.If(z3.Or(idlike(x), isctx(x)), kept(i), kept(i) + 1))
            lf = it.loop_begin([res], i)
            it._iter_one(s, it.vec_at(r, i))
            it.loop_end(lf)
            if any(fr.env.get(d) is not None and fr.env[d].v is not v for d, v in others.items()): raise Unsupported('loop writes something else')
            for nm, g in inv(i + 1): it.obligation('loop invariant (step): ' + nm, g)
            raise sym_Prune()
        def th(it, f=f):
            it.vec_quant = True
            if it.bvw(SK)[0] != W: raise Unsupported('symbol width')
            et = ty(cx.P.F[f]['params'][0]['t']).args[0]
            t = z3.Const('candidates', U); v = Vec(et, t, None, 'std::vector'); k = z3.Const('k!cp', BV64)
            it.assume(ULT(it.vec_len(v), bv(1 << 20)))
            it.contracts = {PN + 'is_contextual_keyword': lambda it, call: isctx(it.val(call.args[0]))}
            r = it.call(f, None, [v]); r = r.v if isinstance(r, Cell) else r
            el = lambda i: it.val(it.vec_at(v, i)); n = it.vec_len(v); anyid = z3.Exists([k], z3.And(ULT(k, n), idlike(el(k))))
            if r.term is not None and r.term.eq(t):
                it.obligation('only a list without names is left as it is', z3.Not(anyid)); return
            it.obligation('a list is rewritten only if it has names', anyid)
            it.obligation('one entry for all names, then each other entry', it.vec_len(r) == 1 + kept(n))
            it.obligation('the entry for names is an identifier', it.val(it.vec_at(r, bv(0))) == RI)
            it.obligation('the other entries keep their order', q([k], z3.Implies(z3.And(ULT(k, n), kept(k + 1) != kept(k)), it.val(it.vec_at(r, 1 + kept(k))) == el(k))))
        us.append(Unit('P15: collapse_identifier_like_tokens', cx.P.F[f]['loc'], th, hooks={'loop': loop}, replay='messages'))
        def lem(it):
            i = z3.BitVec('i', 64); b = z3.Bool('skipped')
            it.assume(kept(bv(0)) == 0)
            it.obligation('no more entries than places, first', ULE(kept(bv(0)), bv(0)))
            it.assume(kept(i + 1) == z3.If(b, kept(i), kept(i) + 1)); it.assume(ULT(i, bv(1 << 20)))
            it.obligation('no more entries than places, next', z3.Implies(ULE(kept(i), i), ULE(kept(i + 1), i + 1)))
            k = z3.BitVec('k', 64); it.obligation('entries grow', z3.Implies(z3.And(ULE(kept(i), i), ULE(kept(k + 1), kept(i))), ULE(kept(k + 1), kept(i + 1))))
        us.append(Unit('P15: entries grow', '', lem, kind='lemma', replay='messages'))
    f = one(cx, rep, GEN + '::report_syntax_error')
    if f: us.append(message_unit(cx, f, S, SK))
    return us
def message_unit(cx, f, S, SK):
    CTX = GEN + '::context'
    J = UF('joined', U, BV64, U); NAME = UF('symbol name', BV32_, U)
    ntok = S.get('YYNTOKENS') or 336
    def loop(it, s, c, inc, body, cv):
        fr = it.frame(); st = it.path.st
        if 'list' not in st: raise Unsupported('loop before the candidates are known')
        t = st['list'].term; W = st['W']
        txt = [x for x in fr.env.values() if isinstance(x.v, Str) and x.v.lit == b'' ]
        ctr = [x for x in fr.env.values() if z3.is_bv(x.v) and x.v.size() == 64 and cint(x.v) == 0]
        if len(txt) != 1 or len(ctr) != 1: raise Unsupported('loop shape')
        txt, ctr = txt[0], ctr[0]
        i = z3.Const(it.newname('i'), BV64); others = {d: x.v for d, x in fr.env.items() if x is not txt and x is not ctr}
        it.setcell(ctr, i); ji = J(t, i); it.setcell(txt, Str(ji)); it.assume(ULE(i, W)); lf = it.loop_begin([ctr, txt])
        if not it.branch(it.tobool(it.rval(c))):
            it.obligation('the list of expected tokens is complete up to the maximum', i == W)
            it.setcell(txt, Str(J(t, W))); return True
        it.exec(body)
        if inc: it.eval(inc)
        it.loop_end(lf)
        if any(fr.env.get(d) is not None and fr.env[d].v is not v for d, v in others.items()): raise Unsupported('loop writes something else')
        it.obligation('the list of expected tokens is not longer than the maximum', ULT(i, W))
        it.obligation('each expected token is listed once', ctr.v == i + 1)
        a = catflat(txt.v.term) if txt.v.lit is None else [txt.v.lit]
        if not a or not (z3.is_expr(a[0]) and a[0].eq(ji)): raise Unsupported('text of another form')
        sep = len(a) == 3 and a[1] == b', '
        if not (len(a) == 2 or sep) or not (z3.is_expr(a[-1]) and z3.is_app(a[-1]) and a[-1].decl().name() == 'symbol name'): raise Unsupported('text of another form')
        it.obligation('entries are separated', (i != 0) if sep else (i == 0))
        it.obligation('the entry is the name of the token', a[-1].arg(0) == it.val(it.vec_at(st['list'], i)))
        raise sym_Prune()
    def th(it):
        st = it.path.st; it.vec_quant = True
        for b in (b'', b', ', b', ...'): LITS[strlit(b).get_id()] = b
        LITS['keep'] = [strlit(b) for b in (b'', b', ', b', ...')]
        ps = Rec(GEN); ps.exact = True
        ps.f['driver'] = Cell(Rec(DRVC, z3.Const('drv', U)), DRVC, 'driver', ps); ps.f['scanner'] = Cell(Rec(PN + 'sql_scanner'), PN + 'sql_scanner', 'scanner', ps)
        ps.f['yystack_'] = Cell(Opq(z3.Const('yystack', U), 'stack'), 'stack', 'yystack_', ps)
        loc_ = region(it, 'at', True); sym = z3.BitVec('symbol', it.bvw(SK)[0])
        it.assume(z3.Or([sym == x for x in sorted(set(S.values()))])); it.assume(sym != S['S_YYEMPTY'])
        c = Cell(Rec(CTX, z3.Const('context', U)), CTX, 'context')
        mx = z3.Const('max candidates', BV64); img = z3.Const('image', U)
        def expected(it, call):
            r = z3.BitVec(it.newname('count'), 32); it.assume(r >= 0); it.assume(z3.ULE(z3.ZeroExt(32, r), bv(len(set(S.values())))))
            a = call.args[0]; a = a.v if isinstance(a, Cell) else a
            v = a.cell.v.parts[0] if isinstance(a, Ptr) and a.cell is not None and isinstance(a.cell.v, Opq) and a.cell.v.t == 'data' and a.cell.v.parts else None
            if v is None: raise Unsupported('candidates are not stored in a list: %s' % type(a).__name__)
            n = it.vec_len(v.v); e = Vec(v.v.et, z3.Const(it.newname('filled'), U), None, v.v.kind); it.assume(it.vec_len(e) == n)
            it.obligation('there is room for every token', z3.And(z3.UGE(n, bv(ntok)), it.val(call.args[1]) == z3.Extract(31, 0, n)))
            it.assume(z3.Implies(r == 0, it.val(it.vec_at(e, bv(0))) == S['S_YYEMPTY']))
            it.setcell(v, e); st['count'] = r; return r
        def collapse(it, call):
            a = call.args[0].v if isinstance(call.args[0], Cell) else call.args[0]
            if 'count' not in st: raise Unsupported('no candidates asked for')
            it.obligation('all the tokens that can follow are candidates, and nothing else', it.vec_len(a) == z3.ZeroExt(32, st['count']))
            v = Vec(a.et, z3.Const(it.newname('candidates'), U), None, 'std::vector'); n = it.vec_len(v)
            it.assume(ULT(n, bv(1 << 20)))
            st['list'] = v; st['n'] = n; st['W'] = z3.If(ULT(n, mx), n, mx); return v
        it.contracts = {CTX + '::token': lambda it, call: sym, CTX + '::location': lambda it, call: loc_, CTX + '::expected_tokens': expected,
            DRVC + '::image': lambda it, call: Str(img), DRVC + '::error': c_error, DRVC + '::max_expected_candidates': lambda it, call: Cell(mx, 'unsigned long'),
            PN + '(anonymous namespace)::collapse_identifier_like_tokens': collapse, PN + 'collapse_identifier_like_tokens': collapse, GEN + '::symbol_name': lambda it, call: Str(NAME(it.val(call.args[0])))}
        it.call(f, Cell(ps, GEN, 'this'), [c])
        es = errors(it)
        it.obligation('a syntax error is reported once', z3.BoolVal(len(es) == 1))
        if len(es) != 1: return
        cd, at_, msg = es[0]; msg = it.val(msg)
        p = msgparts(it, msg)
        p = partsflat(p) if p is not None else ([msg.lit] if isinstance(msg, Str) and msg.lit is not None else None)
        if p is None: raise Unsupported('message of another form')
        special = [S[k] for k in ('S_ERROR', 'S_UNCLOSED_BLOCK_COMMENT', 'S_REGULAR_IDENTIFIER_RESTRICTED', 'S_DELIMITED_IDENTIFIER_RESTRICTED')]
        b0 = sat(img, bv(0)); control = z3.And(slen(img) == 1, ULT(b0, z3.BitVecVal(0x20, 8)))
        err = sym == S['S_ERROR']; forms = []
        forms.append(([b'unrecognized character: "', img, b'"'], z3.And(err, z3.Not(control))))
        forms.append(([b'block comment (/* ~ */) is not closed'], sym == S['S_UNCLOSED_BLOCK_COMMENT']))
        forms.append(([b'identifier must not start with two underscores: ', img], z3.Or(sym == S['S_REGULAR_IDENTIFIER_RESTRICTED'], sym == S['S_DELIMITED_IDENTIFIER_RESTRICTED'])))
        eof = sym == S['S_YYEOF']; tok = z3.And([sym != x for x in special + [S['S_YYEOF']]])
        for head, cond, lead in (([b'reached end of file'], eof, b': expected one of {'), ([b'appeared unexpected token: "', img, b'"'], tok, b', expected one of {')):
            forms.append((head, z3.And(cond, mx == 0)))
            if 'list' in st:
                l = J(st['list'].term, st['W']); em = J(st['list'].term, bv(0)); n = st['n']
                forms.append((head + [lead, l, b'}'], z3.And(cond, mx != 0, n != 0, ULE(n, mx))))
                forms.append((head + [lead, l, b', ...}'], z3.And(cond, mx != 0, UGT(n, mx))))
                forms.append((head + [lead + b'}'], z3.And(cond, mx != 0, n == 0)))
        if p and isinstance(p[0], bytes) and p[0] == b'unrecognized control character: U+': it.obligation('a byte is called a control character only if it is one', z3.And(err, control)); return
        hit = [g for x, g in forms if same_atoms(partsflat([Str(strlit(y), y) if isinstance(y, bytes) else Str(y) for y in x]), p)]
        if not hit: raise Unsupported('message of another form: %s' % p)
        it.obligation('the message fits the token, the maximum and the tokens that can follow', z3.Or(hit))
    def rloop(it, s, r): raise Unsupported('loop of another form')
    return Unit('P15: report_syntax_error', cx.P.F[f]['loc'], th, {}, {'genloop': loop, 'loop': rloop}, replay='messages')
BV32_ = z3.BitVecSort(32)
# ------------------------------------------------------------------ battery
RULE = 'texts of the SQL corpus, truncations and single token edits of sentences of every production, with maxima 0, 1, 2, 5 and 400: position, code and message of the real parser against the lexical contract and the LALR automaton of the contract grammar'
class Oracle:
    def __init__(self):
        import scan_battery
        self.G = lalr.GrammarText(); self.A = lalr.Automaton(self.G); self.S = lexspec.Spec(); self.checked = scan_battery.checked; self.cache = {}
    def term(self, n): return '"%s"' % n if '"%s"' % n in self.G.terms else n
    def step(self, st, t):
        """stack after token t, or None"""
        st = list(st)
        while True:
            a = self.A.act[st[-1]].get(t)
            if a is None or a[0] == 'error': return None
            if a[0] == 'shift': st.append(a[1]); return st
            l, r = self.A.rules[a[1]]
            if a[1] == 0: return st
            if r: del st[-len(r):]
            st.append(self.A.goto[st[-1]][l])
    def follow(self, st):
        k = tuple(st)
        if k not in self.cache: self.cache[k] = {t for t in self.A.terms if t not in ('$end', 'error') and self.step(st, t) is not None}
        return self.cache[k]
    def display(self, ts):
        ids = {'"<identifier>"', '"<delimited-identifier>"'}
        if ts & ids: ts = (ts - ids - set(self.G.names)) | {'"<identifier>"'}
        return {t[1:-1].replace('\\"', '"') if t.startswith('"') else t for t in ts}
    def expect(self, b):
        """None if the tokens are a sentence, else (code, begin, end, fixed message or None, text, names that can follow)"""
        toks, _, _ = self.S.scan(b, self.checked); st = [0]
        for n, i, j in toks:
            t = self.term(n); s2 = self.step(st, t)
            if s2 is not None: st = s2; continue
            im = b[i:j]
            if n == '<ERROR>': return ('invalid_character', i, j, ('unrecognized control character: U+%04X' % im[0]).encode() if len(im) == 1 and im[0] < 0x20 else b'unrecognized character: "' + im + b'"', None, None)
            if n == '<UNCLOSED_BLOCK_COMMENT>': return ('unexpected_eof', i, j, b'block comment (/* ~ */) is not closed', None, None)
            if n.endswith('_RESTRICTED'): return ('invalid_token', i, j, b'identifier must not start with two underscores: ' + im, None, None)
            if n == '<END_OF_FILE>': return ('unexpected_eof', i, j, None, b'reached end of file', (b': ', self.display(self.follow(st))))
            return ('unexpected_token', i, j, None, b'appeared unexpected token: "' + im + b'"', (b', ', self.display(self.follow(st))))
        return None
def unesc(s): return re.sub(rb'\\x([0-9a-f]{2})', lambda m: bytes([int(m.group(1), 16)]), s.encode('latin1'))
def judge(e, mx, out):
    """what is wrong with the outcome, or None"""
    if e is None: return None
    if not out.startswith('ERR'): return None        # accepted: P04
    _, code_, pos, msg = (out.split(' ', 3) + [''])[:4]
    if code_ not in ('unexpected_token', 'unexpected_eof', 'invalid_character', 'invalid_token') or (code_ == 'invalid_token' and not msg.startswith('identifier must')): return None   # an action refused the text before
    if code_ != e[0]: return 'the code is %s, the cause is %s' % (code_, e[0])
    if pos != '%d-%d' % e[1:3]: return 'reported at %s, the wrong token is at %d-%d' % (pos, e[1], e[2])
    m = unesc(msg)
    if e[3] is not None: return None if m == e[3] else 'the message is %r, not %r' % (m, e[3])
    if not m.startswith(e[4]): return 'the message %r does not show the token' % m
    rest = m[len(e[4]):]; lead, ns = e[5]
    if mx == 0: return None if rest == b'' else 'no expected tokens were asked for: %r' % rest
    if not (rest.startswith(lead + b'expected one of {') and rest.endswith(b'}')): return 'no list of expected tokens: %r' % rest
    l = rest[len(lead) + len(b'expected one of {'):-1]
    l = l.decode('latin1').split(', ') if l else []
    more = l[-1:] == ['...']
    if more: l = l[:-1]
    if len(set(l)) != len(l): return 'an expected token is listed twice: %s' % l
    bad = [x for x in l if x not in ns]
    if bad: return 'expected tokens that cannot stand there: %s' % bad[:5]
    if len(l) != min(mx, len(ns)): return '%d expected tokens listed, %d can stand there and the maximum is %d: missing %s' % (len(l), len(ns), mx, sorted(ns - set(l))[:5])
    if more != (len(ns) > mx): return 'ellipsis %s, %d tokens can stand there and the maximum is %d' % (more, len(ns), mx)
    return None
def texts(seed, tier):
    """erroneous texts from the contract grammar, and the corpus"""
    import p04, sql_battery
    g = lalr.GrammarText(); rules = [('$accept', [g.start])] + [(l, r) for l, r, _ in g.rules]
    S = p04.Sentences(rules, g.terms, seed); R = S.R; out = []
    pool = sorted(t for t in g.terms if t.startswith('"') and '<ERR' not in t and '<UNCL' not in t and 'END_OF_FILE' not in t)
    for i in range(1, len(rules)):
        if S.rc(i) >= 10 ** 6: continue
        for k in range(2 if tier == 'quick' else 8):
            ts = S.target(i, [0, 2][k % 2], 0)
            if ts is None or len(ts) > 120: continue
            ts = [t for t in ts if 'END_OF_FILE' not in t]
            j = R.randrange(len(ts) + 1); out.append(ts[:j])
            j = R.randrange(len(ts) + 1); out.append(ts[:j] + [R.choice(pool)] + ts[j:])
            if ts: j = R.randrange(len(ts)); out.append(ts[:j] + ts[j + 1:])
    x = [p04.text(t) for t in out]; x = [t.encode() for t in x if t is not None]
    x += [t['sql'].encode() if 'sql' in t else bytes.fromhex(t['hex']) for t in sql_battery.corpus() if not t['out'].startswith('OK')]
    for c in range(256): x += [b'SELECT ' + bytes([c]), bytes([c]), b'SELECT a ' + bytes([c]) + b' FROM t']
    x += [b'SELECT \xe3\x81\x82', b'SELECT \xc3\xa9 x', b'\xf0\x9f\x98\x80', b'SELECT * FROM t WHERE \xe3\x81', b'/*', b'SELECT /* a', b'-- x', b'SELECT __a', b'SELECT "__a"', b'SELECT a.__b FROM t', b'', b';', b'  ']
    return list(dict.fromkeys(x))
def battery(rep, w):
    import sqlrun, pipeline
    try:
        O = Oracle(); ts = texts(int(os.environ.get('VERIF_SEED', '1') or 1), rep.tier)
        ex = [(t, O.expect(t)) for t in ts]; ex = [x for x in ex if x[1] is not None]
        recs = [(t, e, m) for t, e in ex for m in (0, 1, 2, 5, 400)]
        outs = sqlrun.run(w, [sqlrun.record(t, cand=m) for t, e, m in recs])
        rep.cases += len(recs); rep.concrete_rule = RULE
        for (t, e, m), o in zip(recs, outs):
            x = judge(e, m, o)
            if x: rep.concrete.append(('messages', 'parsing %r with at most %d expected tokens: %s' % (t[:200], m, x)))
    except pipeline.ToolError as e: rep.undecided.append('messages: %s' % e)
