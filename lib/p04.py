"""P04: the generated parser recognizes exactly the contract grammar (contracts/grammar.txt).
Contracts on its tables: every state carries the item set bison reports as invariant; closure, transitions and reductions
of every state are checked against it (validation of an LR automaton), conflicts may only be the ones the operator
levels settle, and the grammar itself must be the one of the contract."""
import os, re, random
from fw import *
import gram, lalr, pipeline
class PCtx:
    def __init__(self, w):
        d = os.path.join(w.gen, 'mizugaki', 'parser'); self.w = w
        self.G = gram.Grammar(os.path.join(d, 'p.xml'))
        self.T = lalr.Generated(os.path.join(d, 'sql_parser_generated.cpp'), os.path.join(d, 'sql_parser_generated.hpp'))
        self.gold = lalr.GrammarText()
        G = self.G
        self.num = {n: int(t['symbol-number']) for n, t in list(G.term.items()) + list(G.nterm.items())}
        self.rules = [(r['lhs'], r['rhs']) for r in G.rules]
        self.prec = [r['prec'] for r in G.rules]
        self.keys = [lalr.rulekey(r['lhs'], r['rhs'], r['prec']) for r in G.rules]
        self.terms = [n for n in G.term]
        self.items = {}; self.oracle_ = None
        for s in G.root.find('automaton'):
            self.items[int(s.get('number'))] = {(int(i.get('rule-number')), int(i.get('dot'))) for i in s.find('itemset')}
        nt = set(G.nterm)
        by = {}
        for i, (l, r) in enumerate(self.rules): by.setdefault(l, []).append(i)
        self.by = by
        # bison reports closures only partly: complete them
        for s, S in self.items.items():
            w_ = list(S)
            while w_:
                i, d = w_.pop(); r = self.rules[i][1]
                if d < len(r) and r[d] in by:
                    for j in by[r[d]]:
                        if (j, 0) not in S: S.add((j, 0)); w_.append((j, 0))
        self.next = {s: {self.rules[i][1][d] for i, d in S if d < len(self.rules[i][1])} for s, S in self.items.items()}
        self.goto = {}
        for s in self.items:
            g = {}
            for X in self.next[s]:
                if X in by: g[X] = self.T.goto(s, self.num[X])
                else:
                    a = self.T.action(s, self.num[X])
                    if a[0] == 'shift': g[X] = a[1]
            self.goto[s] = g
        self.bit = {t: 1 << k for k, t in enumerate(self.terms)}
        F = lalr.First(self.rules, self.bit)
        self.LA, self.seen = lalr.lookaheads(self.rules, self.items, self.goto, F, (0, (0, 0), self.bit.get('$end', 0)))
    def oracle(self):
        if self.oracle_ is None: self.oracle_ = lalr.Automaton(self.gold)
        return self.oracle_
    def show(self, s): return '; '.join('%s: %s' % (self.rules[i][0], ' '.join(self.rules[i][1][:d] + ['.'] + self.rules[i][1][d:])) for i, d in sorted(self.items[s]) if d)[:300]
def inline(rules, keep):
    """rules with every nonterminal outside `keep` replaced by its alternatives, or None if one is recursive"""
    rules = {(l, tuple(r), p) for l, r, p in rules}
    while True:
        lhs = {l for l, _, _ in rules if l not in keep}
        if not lhs: return rules
        # one that does not use another
        for n in sorted(lhs):
            alts = [(r, p) for l, r, p in rules if l == n]
            if not any(s in lhs for r, _ in alts for s in r): break
        else: return None
        if any(p for _, p in alts): return None
        out = set()
        for l, r, p in rules:
            if l == n: continue
            vs = [()]
            for s in r: vs = [v + x for v in vs for x in ([a for a, _ in alts] if s == n else [(s,)])]
            out |= {(l, v, p) for v in vs}
            if len(out) > 5000: return None
        rules = out
def p04_units(cx):
    us = []; T, G = cx.T, cx.G
    # the grammar
    want = {lalr.rulekey(*r) for r in cx.gold.rules}; have = set(cx.keys[1:]); mine = {(r['lhs'], tuple(r['rhs']), r['prec']) for r in G.rules[1:]}
    cx.new = [i for i, k in enumerate(cx.keys) if i and k not in want]; cx.gone = sorted(want - have)
    def th(it):
        for k in sorted(want & have): it.obligation('production of the contract: ' + k, TRUE)
        if cx.new or cx.gone:
            # helper symbols introduced or removed: the same language if inlining them gives the same productions
            gold = {(l, tuple(r), p) for l, r, p in cx.gold.rules}; common = {l for l, _, _ in gold} & {l for l, _, _ in mine}
            a, b = inline(mine, common), inline(gold, common)
            if a is None or a != b: raise Unsupported('productions changed: new %s; missing %s' % ([cx.keys[i] for i in cx.new][:6], cx.gone[:6]))
            it.obligation('the same productions once helper symbols are replaced by their alternatives', TRUE)
        fin = {s for s, S in cx.items.items() if (0, len(cx.rules[0][1])) in S}
        it.obligation('accepts exactly where the program is complete', z3.BoolVal(fin == {T.final}))
        it.obligation('start symbol', z3.BoolVal(cx.rules[0][1][0] == cx.gold.start or cx.rules[0][1][:1] == [cx.gold.start]))
    us.append(Unit('P04: grammar', 'sql_parser.yy: productions', th, kind='grammar', replay='sql text'))
    def th(it):
        for i, (l, r) in enumerate(cx.rules):
            if i == 0: continue
            it.obligation('length of ' + cx.keys[i], z3.BoolVal(T.yyr2_[i + 1] == len(r))); it.obligation('symbol of ' + cx.keys[i], z3.BoolVal(T.yyr1_[i + 1] == cx.num[l]))
        for n, t in G.term.items():
            k = int(t['token-number'])
            if 0 <= k < len(T.translate): it.obligation('token number of ' + n, z3.BoolVal(T.translate[k] == int(t['symbol-number'])))
    us.append(Unit('P04: reductions', 'yyr1_, yyr2_, yytranslate_', th, kind='parser tables', replay='sql text'))
    lev = lalr.prec_of(cx.gold.levels); goldprec = {lalr.rulekey(l, r, p): lalr.rule_prec(lev, r, p, cx.gold.terms) for l, r, p in cx.gold.rules}
    def ruleprec(i):
        k = cx.keys[i]
        if k in goldprec: return goldprec[k]
        return lalr.rule_prec(lev, cx.rules[i][1], cx.prec[i], set(cx.terms))
    ss = sorted(cx.items)
    step = max(1, len(ss) // 32)
    for c in range(0, len(ss), step):
        part = ss[c:c + step]
        def th(it, part=part):
            for s in part:
                S = cx.items[s]; rules = cx.rules; where = 'state %d (%s): ' % (s, cx.show(s))
                comp = [(i, d) for i, d in S if d == len(rules[i][1]) and i]
                kern = {}
                for i, d in S:
                    if d < len(rules[i][1]): kern.setdefault(rules[i][1][d], set()).add((i, d + 1))
                reds = {}
                for i, d in comp:
                    for t in cx.terms:
                        if cx.LA[(s, (i, d))] & cx.bit[t]: reds.setdefault(t, []).append(i)
                for X, k in sorted(kern.items()):
                    t = cx.goto[s].get(X)
                    if X in cx.by or X not in reds: it.obligation(where + 'goes on at ' + X, z3.BoolVal(t is not None and k <= cx.items.get(t, set())))
                    if t is not None: it.obligation(where + 'after %s only what can follow' % X, z3.BoolVal({x for x in cx.items.get(t, ()) if x[1] > 0} <= k))
                for t, rs in sorted(reds.items()):
                    a = T.action(s, cx.num[t])
                    if len(rs) == 1 and t not in kern: it.obligation(where + 'before %s: reduces %s' % (t, cx.keys[rs[0]]), z3.BoolVal(a == ('reduce', rs[0])))
                    elif len(rs) == 1:
                        w = lalr.resolve(ruleprec(rs[0]), lev.get(t))
                        if w is None: raise Unsupported(where + 'conflict on %s between %s and going on' % (t, cx.keys[rs[0]]))
                        it.obligation(where + 'before %s, %s: %s by the operator levels' % (t, cx.keys[rs[0]], w), z3.BoolVal(a == ('reduce', rs[0]) if w == 'reduce' else a[0] == w))
                    else: raise Unsupported(where + 'conflict on %s between %s' % (t, [cx.keys[i] for i in rs]))
                ok = True; err = True
                cs = {i for i, _ in comp}
                for t in cx.terms:
                    a = T.action(s, cx.num[t])
                    if a == ('reduce', 0): ok = ok and s == T.final
                    elif a[0] == 'reduce' and a[1] not in cs: ok = False
                    if a[0] == 'shift' and t not in kern: err = False
                it.obligation(where + 'reduces only complete productions', z3.BoolVal(ok)); it.obligation(where + 'accepts no other token', z3.BoolVal(err))
        us.append(Unit('P04: states %d..%d' % (part[0], part[-1]), 'yypact_, yytable_, yycheck_, yydefact_, yypgoto_, yydefgoto_', th, kind='parser tables', replay='sql text'))
    # words that are keywords in some places stay usable as names
    idn = '"<identifier>"'
    def th(it):
        for k in cx.gold.names: it.obligation('%s is a word of the grammar' % k, z3.BoolVal(k in cx.num))
        for s in ss:
            if idn not in cx.num: raise Unsupported('no identifier')
            if T.action(s, cx.num[idn])[0] == 'error': continue
            for k in cx.gold.names:
                if k in cx.num: it.obligation('state %d: %s can stand where a name can' % (s, k), z3.BoolVal(T.action(s, cx.num[k])[0] != 'error'))
    us.append(Unit('P04: names', 'contextual keywords', th, kind='parser tables', replay='sql text'))
    return us
# ------------------------------------------------------------------ sentences of changed productions
class Sentences:
    def __init__(self, rules, terms, seed=1):
        self.rules = rules; self.R = random.Random(seed); INF = 10 ** 6
        self.cost = {}; terms = set(terms); self.by = {}
        for i, (l, r) in enumerate(rules): self.by.setdefault(l, []).append(i)
        bad = {'error', '"<ERROR>"', '"<UNCLOSED_BLOCK_COMMENT>"', 'REGULAR_IDENTIFIER_RESTRICTED', 'DELIMITED_IDENTIFIER_RESTRICTED'}
        self.terms = terms
        for _ in range(80):
            ch = False
            for l, r in rules:
                c = INF if bad & set(r) else 1 + sum(1 if s in terms else self.cost.get(s, INF) for s in r)
                if c < self.cost.get(l, INF): self.cost[l] = c; ch = True
            if not ch: break
        import heapq
        self.parent = {'program': None}; pd = {'program': 0}; h = [(0, 'program')]
        while h:
            d, a = heapq.heappop(h)
            if d > pd[a]: continue
            for i in self.by.get(a, []):
                for k, s in enumerate(rules[i][1]):
                    if s in self.by:
                        nd = d + self.rc(i) - self.cost.get(s, INF)
                        if nd < pd.get(s, INF): pd[s] = nd; self.parent[s] = (i, k); heapq.heappush(h, (nd, s))
    def rc(self, i): return 1 + sum(1 if s in self.terms else self.cost.get(s, 10 ** 6) for s in self.rules[i][1])
    def gen(self, s, b):
        if s in self.terms: return [s]
        rs = [i for i in self.by[s] if self.rc(i) < 10 ** 6]
        m = min(self.rc(i) for i in rs)
        ok = [i for i in rs if self.rc(i) <= m + max(0, b) * 3]
        return self.rule(self.R.choice(ok), b - 1)
    def rule(self, i, b, at=None, mid=None):
        out = []
        for k, s in enumerate(self.rules[i][1]): out += mid() if k == at else self.gen(s, self.R.randint(0, max(0, b)))
        return out
    def target(self, i, b, ctx):
        chain = []; a = self.rules[i][0]
        if a not in self.parent: return None
        while self.parent.get(a): chain.append(self.parent[a]); a = self.rules[self.parent[a][0]][0]
        def build(j): return self.rule(i, b) if j < 0 else self.rule(chain[j][0], ctx, chain[j][1], lambda: build(j - 1))
        return build(len(chain) - 1)
def text(toks):
    n = 0; out = []
    m = {'"<identifier>"': 'a%d', '"<delimited-identifier>"': '"q %d"', '"<unsigned-integer>"': '%d', '"<exact-numeric-literal>"': '%d.5', '"<approximate-numeric-literal>"': '%dE3', '"<character-string-literal>"': "'s%d'", '"<hex-string-literal>"': "X'0%d'", '"<host-parameter-name>"': ':h%d', '"<END_OF_FILE>"': '', '". *"': '.*'}
    for t in toks:
        n += 1
        if t in m: x = m[t]; out.append(x % (n % 10) if '%' in x else x)
        elif t.startswith('"'): out.append(t[1:-1].replace('\\"', '"'))
        elif t == '$end': pass
        else: return None
    return ' '.join(x for x in out if x)
RULE = 'SQL corpus; sentences of the current grammar through each production the contract does not have, and of contract productions, with single token edits: accepted exactly if the LALR automaton of the contract grammar accepts the tokens'
def battery(rep, w, cx, tier):
    import sqlrun, sql_battery
    try:
        items = []; A = cx.oracle(); seed = int(os.environ.get('VERIF_SEED', '1') or 1); seen = set(); n = 3 if tier == 'quick' else 12
        S = Sentences(cx.rules, cx.terms, seed); R = S.R
        work = [(S, i, 12) for i in cx.new] + [(S, i, n) for i in range(1, len(cx.rules))]
        if cx.gone or cx.new:
            gr = [('$accept', [cx.gold.start])] + [(l, r) for l, r, _ in cx.gold.rules]
            D = Sentences(gr, cx.gold.terms, seed); work += [(D, i + 1, 12) for i, r in enumerate(cx.gold.rules) if lalr.rulekey(*r) in cx.gone] + [(D, i, 3) for i in range(1, len(gr))]
        pool = [t for t in cx.terms if t.startswith('"') and '<ERR' not in t and '<UNCL' not in t and 'END_OF_FILE' not in t and t not in ('"\'"', '"\\""')]
        for S, i, n in work:
            if S.rc(i) >= 10 ** 6: continue
            for k in range(n):
                ts = S.target(i, [0, 0, 2, 4][k % 4], 0 if k < 6 else 2)
                if ts is None or len(ts) > 150: continue
                ts = [t for t in ts if t not in ('"<END_OF_FILE>"', '$end')]
                vs = [ts]
                if ts:
                    j = R.randrange(len(ts)); vs.append(ts[:j] + ts[j + 1:]); vs.append(ts[:j] + [R.choice(pool)] + ts[j:]); vs.append(ts[:j] + [R.choice(pool)] + ts[j + 1:])
                    if len(ts) > 1: j = R.randrange(len(ts) - 1); vs.append(ts[:j] + [ts[j + 1], ts[j]] + ts[j + 2:])
                for v in vs:
                    x = text(v)
                    if x is None or x in seen or merges(v): continue
                    seen.add(x); items.append((v, x))
        outs = sqlrun.run(w, [sqlrun.record(x.encode()) for _, x in items])
        rep.cases += len(items); rep.concrete_rule = RULE
        for (v, x), o in zip(items, outs):
            r = A.accepts(v + ['"<END_OF_FILE>"'])
            ok = r is True; syn = o.startswith('ERR') and o.split(' ')[1] in ('unexpected_token', 'unexpected_eof', 'invalid_character')
            if ok and syn: rep.concrete.append(('sql text', 'parsing %r: a sentence of the documented grammar is rejected: %s' % (x, o[:160])))
            elif not ok and o.startswith('OK'): rep.concrete.append(('sql text', 'parsing %r: accepted, but token %d cannot stand there in the documented grammar' % (x, r + 1)))
            elif not o.startswith(('OK', 'ERR')): rep.concrete.append(('sql text', 'parsing %r: %s' % (x, o[:160])))
    except pipeline.ToolError as e: rep.undecided.append('sentences: %s' % e)
def merges(v):
    """the scanner would read two of these tokens as one"""
    for a, b in zip(v, v[1:]):
        if (a, b) in (('"UNION"', '"JOIN"'), ('"OUTER"', '"APPLY"'), ('"."', '"*"')) : return True
    return False
def run(rep, w):
    import fw, sql_battery
    rep.extra['any_replay_covers'] = True; cx = None
    try:
        pipeline.generate(w); cx = PCtx(w)
        units = p04_units(cx)
        rep.results += fw.run_units(None, units)
        for r, u in zip(rep.results, units): r['replay'] = u.replay or u.name
        # actions that reject, and the driver functions they ask
        import props, gram_props, driver_props
        g = props.gram_ctx(rep, w); g.w = w; gold = gram_props.setup(g)
        units = gram_props.p04_prods(g, gold, rep) + [u for u in driver_props.p10_chain(g, gold, rep) if ': try_' in u.name] + driver_props.p14_driver(g, gold, rep)
        rep.assumptions = list(props.PARSE_ASSUME)
        rs = fw.run_units(g.P, units)
        for r, u in zip(rs, units): r['replay'] = u.replay or u.name
        rep.results += rs
        rep.extra['automaton_states'] = len(cx.items); rep.extra['productions'] = len(cx.rules)
    finally:
        if cx: battery(rep, w, cx, rep.tier)
        sql_battery.report(rep, w, ('accept', 'tree', 'error')); rep.concrete_rule = RULE
