"""LR automata: the tables of the generated parser decoded from its C++ text, the item sets bison reports as their
invariant, and a builder for the automaton of the contract grammar (contracts/grammar.txt)."""
import os, re, sys
import gram
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = os.path.join(VERIF, 'contracts', 'grammar.txt')
class GrammarText:
    """levels: [(assoc, [symbols])], lowest first; rules: [(lhs, [rhs], prec symbol or None)]"""
    def __init__(self, path=FILE):
        self.levels = []; self.rules = []; self.start = None; self.terms = set(); self.names = None
        for l in open(path):
            l = l.rstrip('\n')
            if not l.strip() or l.startswith('#'): continue
            k, _, v = l.partition(' ')
            if k in ('%left', '%right', '%nonassoc', '%precedence'): self.levels.append((k[1:], v.split(' ')))
            elif k == '%start': self.start = v
            elif k == '%names': self.names = v.split(' ')
            else:
                lhs, _, r = l.partition(': '); r, _, p = r.partition(' %prec ')
                self.rules.append((lhs, [] if r == '%empty' else split(r), p or None))
        nt = {l for l, _, _ in self.rules}
        self.terms = {s for _, r, _ in self.rules for s in r if s not in nt}
def split(r):
    """symbols of a right hand side; a quoted symbol may hold blanks"""
    return re.findall(r'"(?:\\.|[^"\\])*"|\S+', r)
def rulekey(l, r, p): return '%s: %s%s' % (l, ' '.join(r) or '%empty', ' %prec ' + p if p else '')
def prec_of(levels):
    d = {}
    for i, (a, ss) in enumerate(levels):
        for s in ss: d[s] = (i + 1, a)
    return d
def rule_prec(d, r, p, terms):
    if p: return d.get(p)
    for s in reversed(r):
        if s in terms: return d.get(s)
    return None
def resolve(rp, tp):
    """'reduce', 'shift', 'error' or None (not resolved)"""
    if rp is None or tp is None: return None
    if rp[0] != tp[0]: return 'reduce' if rp[0] > tp[0] else 'shift'
    return {'left': 'reduce', 'right': 'shift', 'nonassoc': 'error'}.get(tp[1])
class First:
    def __init__(self, rules, bit):
        nt = {l for l, _ in rules}; self.nul = set(); self.first = {n: 0 for n in nt}; self.bit = bit; ch = True
        while ch:
            ch = False
            for l, r in rules:
                m, e = self.of(r)
                if m | self.first[l] != self.first[l]: self.first[l] |= m; ch = True
                if e and l not in self.nul: self.nul.add(l); ch = True
    def of(self, seq):
        m = 0
        for s in seq:
            if s in self.first:
                m |= self.first[s]
                if s not in self.nul: return m, False
            else: return m | self.bit[s], False
        return m, True
def lookaheads(rules, items, goto, first, start):
    """least lookahead sets; items[s]: set of (rule, dot); goto[s][symbol]; start: (state, item)"""
    by = {}
    for i, (l, r) in enumerate(rules): by.setdefault(l, []).append(i)
    LA = {(s, it): 0 for s in items for it in items[s]}
    work = [(start[0], start[1])]; LA[(start[0], start[1])] = start[2]; inw = set(work)
    cache = {}
    seen = set()
    while work:
        n = work.pop(); inw.discard(n)
        s, (i, d) = n; la = LA[n]; r = rules[i][1]
        first_time = n not in seen; seen.add(n)
        if d < len(r):
            X = r[d]
            t = goto[s].get(X)
            if t is not None:
                m = (t, (i, d + 1))
                if m in LA and (la | LA[m] != LA[m] or m not in seen):
                    LA[m] |= la
                    if m not in inw: inw.add(m); work.append(m)
            if X in by:
                k = (i, d)
                if k not in cache: cache[k] = first.of(r[d + 1:])
                f, e = cache[k]
                if e: f |= la
                for j in by[X]:
                    m = (s, (j, 0))
                    if m in LA and (f | LA[m] != LA[m] or m not in seen):
                        LA[m] |= f
                        if m not in inw: inw.add(m); work.append(m)
    return LA, seen
class Generated:
    """action and goto functions of the generated C++ parser"""
    def __init__(self, cpp, hpp):
        t = open(cpp, encoding='latin1').read(); h = open(hpp, encoding='latin1').read()
        def arr(n):
            m = re.search(r'sql_parser_generated\s*::\s*%s\[\] *=\s*\{(.*?)\};' % n, t, re.S)
            if not m: raise ValueError('no table ' + n)
            return [int(x) for x in re.findall(r'-?\d+', re.sub(r'//[^\n]*|/\*.*?\*/', '', m.group(1), flags=re.S))]
        for n in ('yypact_', 'yydefact_', 'yypgoto_', 'yydefgoto_', 'yytable_', 'yycheck_', 'yyr1_', 'yyr2_'): setattr(self, n, arr(n))
        def const(n):
            m = re.search(r'\b%s = (-?\d+)' % n, h) or re.search(r'sql_parser_generated\s*::\s*%s = (-?\d+)' % n, t)
            if not m: raise ValueError('no constant ' + n)
            return int(m.group(1))
        self.last, self.ntok, self.final = const('yylast_'), const('YYNTOKENS'), const('yyfinal_')
        self.ninf, self.tninf = const('yypact_ninf_'), const('yytable_ninf_')
        m = re.search(r'translate_table\[\] =\s*\{(.*?)\};', h + t, re.S); self.translate = [int(x) for x in re.findall(r'-?\d+', m.group(1))]
    def action(self, s, a):
        """('shift', state) | ('reduce', rule) | ('error',)"""
        y = self.yypact_[s]
        if y != self.ninf:
            y += a
            if 0 <= y <= self.last and self.yycheck_[y] == a:
                v = self.yytable_[y]
                if v <= 0: return ('error',) if v == self.tninf else ('reduce', -v - 1)
                return ('shift', v)
        d = self.yydefact_[s]
        return ('reduce', d - 1) if d else ('error',)
    def goto(self, s, n):
        y = self.yypgoto_[n - self.ntok] + s
        if 0 <= y <= self.last and self.yycheck_[y] == s: return self.yytable_[y]
        return self.yydefgoto_[n - self.ntok]
class Automaton:
    """LALR automaton of a grammar, built here; used as oracle"""
    def __init__(self, g):
        END = '$end'
        rules = [('$accept', [g.start])] + [(l, r) for l, r, _ in g.rules]; precs = [None] + [p for _, _, p in g.rules]
        self.rules = rules
        by = {}
        for i, (l, r) in enumerate(rules): by.setdefault(l, []).append(i)
        terms = sorted(g.terms) + [END]; self.bit = {t: 1 << k for k, t in enumerate(terms)}; self.terms = terms
        self.known = set(g.terms)
        clos = {}
        def closure(kernel):
            S = set(kernel); w = list(kernel)
            while w:
                i, d = w.pop(); r = rules[i][1]
                if d < len(r) and r[d] in by:
                    for j in by[r[d]]:
                        if (j, 0) not in S: S.add((j, 0)); w.append((j, 0))
            return S
        k0 = frozenset([(0, 0)]); idx = {k0: 0}; order = [k0]; items = {}; goto = {}; n = 0
        while n < len(order):
            S = closure(order[n]); items[n] = S; g_ = {}
            for i, d in S:
                r = rules[i][1]
                if d < len(r): g_.setdefault(r[d], set()).add((i, d + 1))
            goto[n] = {}
            for X, k in g_.items():
                k = frozenset(k)
                if k not in idx: idx[k] = len(order); order.append(k)
                goto[n][X] = idx[k]
            n += 1
        F = First(rules, self.bit)
        LA, _ = lookaheads(rules, items, goto, F, (0, (0, 0), self.bit[END]))
        d = prec_of(g.levels); self.act = []; self.goto = goto; self.conflicts = []
        for s in range(n):
            A = {X: ('shift', t) for X, t in goto[s].items() if X not in by}
            for it in items[s]:
                i, dt = it
                if dt < len(rules[i][1]): continue
                m = LA[(s, it)]
                for t in terms:
                    if not m & self.bit[t]: continue
                    if t in A:
                        w = resolve(rule_prec(d, rules[i][1], precs[i], g.terms), d.get(t)) if A[t][0] == 'shift' else None
                        if w is None: self.conflicts.append((s, t)); continue
                        if w == 'shift': continue
                        A[t] = ('error',) if w == 'error' else ('reduce', i)
                    else: A[t] = ('reduce', i)
            self.act.append(A)
    def accepts(self, toks):
        """True, or the index of the first token that cannot follow"""
        st = [0]; k = 0; toks = list(toks) + ['$end']
        while True:
            a = self.act[st[-1]].get(toks[k])
            if a is None or a[0] == 'error': return k
            if a[0] == 'shift': st.append(a[1]); k += 1; continue
            l, r = self.rules[a[1]]
            if a[1] == 0: return True
            if r: del st[-len(r):]
            st.append(self.goto[st[-1]][l])
