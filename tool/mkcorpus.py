#!/usr/bin/env python3
"""Generates golden/corpus.json.gz from the grammar and the real parser of the tree it is run on (not part of a check).
The recorded results are the reviewed contract instances used for replay and as bounded stand-ins."""
import sys, os, random, json, gzip
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import xml.etree.ElementTree as E
import pipeline, sqlrun
R = random.Random(7)
w = pipeline.Work(); g = pipeline.generate(w)
root = E.parse(os.path.join(g, 'mizugaki/parser/p.xml')).getroot().find('grammar')
terms = {t.attrib['name'] for t in root.find('terminals')}
rules = []
for r in root.find('rules'):
    rules.append((r.find('lhs').text, [s.text for s in r.find('rhs').findall('symbol')]))
by = {}
for i, (l, r) in enumerate(rules): by.setdefault(l, []).append(i)
INF = 10**6
cost = {}
for _ in range(60):
    for l, r in rules:
        c = 1 + sum(1 if s in terms else cost.get(s, INF) for s in r)
        if any(s in ('"<ERROR>"', 'error', '"<UNCLOSED_BLOCK_COMMENT>"', 'REGULAR_IDENTIFIER_RESTRICTED', 'DELIMITED_IDENTIFIER_RESTRICTED') for s in r): c = INF
        cost[l] = min(c, cost.get(l, INF))
def rcost(i): return 1 + sum(1 if s in terms else cost.get(s, INF) for s in rules[i][1])
# parent chains
parent = {'program': None}; todo = ['program']
pd = {'program': 0}
import heapq
h = [(0, 'program')]
while h:
    d, a = heapq.heappop(h)
    if d > pd[a]: continue
    for i in by.get(a, []):
        for k, s in enumerate(rules[i][1]):
            if s in by:
                nd = d + rcost(i) - cost[s]
                if nd < pd.get(s, INF): pd[s] = nd; parent[s] = (i, k); heapq.heappush(h, (nd, s))
class G:
    def __init__(self): self.n = 0
    def num(self): self.n += 1; return self.n
    def tok(self, s):
        n = self.num()
        m = {'"<identifier>"': ['a%d', 'B%d', 'x_%d'], '"<delimited-identifier>"': ['"q %d"', '"q""%d"'], '"<unsigned-integer>"': ['%d'], '"<exact-numeric-literal>"': ['%d.5'], '"<approximate-numeric-literal>"': ['%dE3', '%d.5e-2'],
             '"<character-string-literal>"': ["'s%d'", "'s''%d'"], '"<hex-string-literal>"': ["X'0%d'"], '"<host-parameter-name>"': [':h%d'], '"<END_OF_FILE>"': [''], '". *"': ['.*', '. *']}
        if s in m:
            x = R.choice(m[s]); return x % (n % 10 if 'X' == x[0] else n) if '%' in x else x
        if s.startswith('"'):
            t = s[1:-1]
            return R.choice([t, t.lower(), t.title()]) if t[0].isalpha() else t
        return '?'
    def gen(self, s, budget):
        if s in terms: return [self.tok(s)]
        rs = by[s]
        ok = [i for i in rs if rcost(i) < INF]
        if budget <= 0:
            m = min(rcost(i) for i in ok); ok = [i for i in ok if rcost(i) <= m]
        else:
            ok = [i for i in ok if rcost(i) <= budget + 6] or sorted(ok, key=rcost)[:1]
        return self.rule(R.choice(ok), budget - 1)
    def rule(self, i, budget, at=None, mid=None):
        out = []; r = rules[i][1]
        for k, s in enumerate(r):
            if k == at: out += mid()
            else: out += self.gen(s, R.randint(0, max(0, budget)))
        return out
    def target(self, i, budget, ctx):
        chain = []; a = rules[i][0]
        while parent.get(a): chain.append(parent[a]); a = rules[parent[a][0]][0]
        def build(j):
            if j < 0: return self.rule(i, budget)
            return self.rule(chain[j][0], ctx, chain[j][1], lambda: build(j - 1))
        return build(len(chain) - 1)
def join(ts):
    out = ''
    for t in ts:
        if not t: continue
        if out:
            need = (out[-1].isalnum() or out[-1] in '_"\'.') and (t[0].isalnum() or t[0] in '_"\'.:')
            sep = R.choice(['', ' ', ' ', '\n', '  ', ' /* c */ ', ' --x\n', '\t']) if R.random() < .25 else ' '
            if sep == '' and (need or not (t[0] in '(),;' or out[-1] in '(),;')): sep = ' '
            if need and sep.strip() == '' and sep == '': sep = ' '
            out += sep
        out += t
    return out
cands = []
for i, (l, r) in enumerate(rules):
    if l == '$accept' or rcost(i) >= INF: continue
    seen = set()
    for rep in range(14):
        s = join(G().target(i, [0, 0, 2, 3, 4, 6, 8][rep % 7], 0 if rep < 10 else 3))
        if len(s) < 700 and s not in seen: seen.add(s); cands.append((i, s))
# operator pairs
ops = ['OR', 'AND', 'IS TRUE', '=', '<', '<>', '!=', '>=', '<=', '>', '||', '+', '-', '*', '/', '%', '::INT', 'BETWEEN 1 AND 2', 'LIKE', 'IN (1)', 'NOT IN (1)', 'NOT LIKE', 'IS NULL', 'IS NOT NULL', 'NOT BETWEEN 1 AND 2', 'AT TIME ZONE', 'COLLATE', '->', '&', '^', 'SIMILAR TO', 'OVERLAPS', '.f', 'MATCH (SELECT 1 FROM t)', '&&', '@>', '<@', '. m()', '[1]']
pre = ['', 'NOT ', '-', '+', '- -', 'EXISTS (SELECT * FROM e) AND ']
for a in ops:
    for p in pre: cands.append((-1, 'SELECT %sx %s%s FROM t' % (p, a, '' if any(ch.isdigit() for ch in a) or a in ('IS TRUE', 'IS NULL', 'IS NOT NULL', '.f', '. m()') or a.startswith('::') or a.startswith('MATCH') else ' y')))
    for b in ops:
        def one(o, v): return o if (any(ch.isdigit() for ch in o) or o in ('IS TRUE', 'IS NULL', 'IS NOT NULL', '.f', '. m()') or o.startswith('::') or o.startswith('MATCH')) else o + ' ' + v
        cands.append((-1, 'SELECT x %s %s FROM t' % (one(a, 'y'), one(b, 'z'))))
hand = open(os.path.join(pipeline.VERIF, 'golden', 'hand.sql')).read().split('\n---\n') if os.path.exists(os.path.join(pipeline.VERIF, 'golden', 'hand.sql')) else []
for s in hand: cands.append((-2, s))
# keyword as name
words = sorted(t[1:-1] for t in terms if t.startswith('"') and t[1].isalpha())
for k in words:
    for f in ('SELECT %s FROM t', 'SELECT a AS %s FROM t', 'SELECT * FROM %s', 'CREATE TABLE t (%s INT)', 'SELECT %s(x) FROM t', 'UPDATE t SET %s = 1', 'SELECT a.%s FROM t'): cands.append((-3, f % k))
# broken texts
base = [s for i, s in cands if i >= 0]
for s in R.sample(base, 500):
    t = s.split()
    k = R.randrange(len(t)) if t else 0
    m = R.randrange(3)
    if m == 0: t = t[:k] + t[k + 1:]
    elif m == 1: t = t[:k] + [R.choice([',', ')', 'SELECT', '1', 'x', '?', '(', '$', '/*', "'", 'é', '__x', '"__y"', ';', '\x01'])] + t[k:]
    else: t = t[:k]
    cands.append((-4, ' '.join(t)))
seen = set(); cl = []
for i, s in cands:
    if s not in seen: seen.add(s); cl.append((i, s))
outs = sqlrun.run(w, [sqlrun.record(s) for i, s in cl])
keep = []; okper = {}; errper = {}
order = sorted(range(len(cl)), key=lambda k: len(cl[k][1]))
for k in order:
    i, s = cl[k]; o = outs[k]
    if i >= 0:
        d = okper if o.startswith('OK') else errper
        lim = 5 if o.startswith('OK') else 1
        if d.get(i, 0) >= lim: continue
        d[i] = d.get(i, 0) + 1
    keep.append((i, s, o))
miss = [i for i in range(len(rules)) if not okper.get(i) and rules[i][0] != '$accept' and rcost(i) < INF]
print(len(cl), 'candidates', len(keep), 'kept', sum(o.startswith('OK') for _, _, o in keep), 'accepted;', len(miss), 'productions without accepted text')
for i in miss: print('  ', rules[i], [o for j, s, o in keep if j == i][:1], [s for j, s, o in keep if j == i][:1])
doc = [{'sql': s, 'out': o} for i, s, o in keep]
p = os.path.join(pipeline.VERIF, 'golden', 'corpus.json.gz')
with gzip.GzipFile(p, 'wb', mtime=0) as f: f.write(json.dumps(doc).encode())
print(os.path.getsize(p))
w.close()
