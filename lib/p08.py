"""P08 on the real code: texts with lists of several elements, parsed with limits; the oracle runs the LALR automaton of
the contract grammar and counts elements as contracts/productions.txt says."""
import os, re
import lalr, p04, p15, gram_props, pipeline
RULE = 'driver battery; texts with lists of 0 to 4 elements of every growing production of the contract, nested and in several contexts, with limits 1 to 4 of every kind alone and together: accepted or refused at the element and with the kind the contract grammar and contracts/productions.txt give'
class Lists(p15.Oracle):
    def __init__(self):
        super().__init__()
        gold, _, _ = gram_props.read_contracts(); self.kind = {}; self.base = {}
        for i, (l, r) in enumerate(self.A.rules):
            txt = '%s: %s' % (l, ' '.join(r) or '%empty'); cs = gold.get(txt)
            if not cs: continue
            for c in cs:
                for e in c.events:
                    m = re.match(r'validate\(@(\d+), size\(\[\$(\d+)\.\.\., ', e)
                    if m: self.kind[i] = (int(m.group(1)), int(m.group(2)), e[:-1].rsplit(', ', 1)[1])
            t = [c.tree for c in cs if c.exit == 'end']
            if i not in self.kind and len(t) == 1:
                m = re.fullmatch(r'\$(\d+)', t[0])
                if m: self.base[i] = ('same', int(m.group(1)))
                elif t[0] == '[]': self.base[i] = ('n', 0)
                elif re.fullmatch(r'\[[^,.]*\]', t[0]): self.base[i] = ('n', 1)
    def check(self, toks, limits):
        """None, or (kind, limit, begin, end) of the first list that is too long; toks: [(terminal, begin, end)]"""
        st = [(0, None, 0, 0)]; k = 0; toks = toks + [('$end', toks[-1][2] if toks else 0, toks[-1][2] if toks else 0)]; longest = {}
        while True:
            t, b, e = toks[k]; a = self.A.act[st[-1][0]].get(t)
            if a is None or a[0] == 'error': return 'syntax', longest
            if a[0] == 'shift': st.append((a[1], None, b, e)); k += 1; continue
            if a[1] == 0: return None, longest
            l, r = self.A.rules[a[1]]; ch = st[len(st) - len(r):] if r else []
            n = None
            if a[1] in self.kind:
                p, src, kd = self.kind[a[1]]
                if ch[src - 1][1] is None: raise ValueError('length of %s' % l)
                n = ch[src - 1][1] + 1; longest[kd] = max(longest.get(kd, 0), n)
                if limits.get(kd, 0) and n > limits[kd]: return (kd, limits[kd], ch[p - 1][2], ch[p - 1][3]), longest
            elif a[1] in self.base:
                w, v = self.base[a[1]]; n = v if w == 'n' else ch[v - 1][1]
            b, e = (ch[0][2], ch[-1][3]) if ch else (st[-1][3], st[-1][3])
            if r: del st[-len(r):]
            st.append((self.A.goto[st[-1][0]][l], n, b, e))
    def tokens(self, text):
        toks, _, _ = self.S.scan(text, self.checked)
        return [(self.term(n), b, e) for n, b, e in toks]
def texts(O, seed, tier):
    S = p04.Sentences(O.A.rules, O.G.terms, seed); R = S.R; out = []
    for i in O.kind:
        l, r = O.A.rules[i]; src = O.kind[i][1] - 1
        for n in (1, 2, 3):
            for v in range(3 if tier == 'quick' else 10):
                def lst(m): return S.rule(i, [0, 2, 5][v % 3], src, lambda: lst(m - 1)) if m > 1 else S.rule(i, 0)
                chain = []; a = l
                while S.parent.get(a): chain.append(S.parent[a]); a = O.A.rules[S.parent[a][0]][0]
                def build(j): return lst(n) if j < 0 else S.rule(chain[j][0], [0, 1, 3][v % 3], chain[j][1], lambda: build(j - 1))
                out.append(build(len(chain) - 1))
    out = [[t for t in ts if 'END_OF_FILE' not in t] for ts in out if len(ts) < 200]
    xs = [p04.text(t) for t in out if not p04.merges(t)]
    return [x.encode() for x in xs if x]
def battery(rep, w):
    import sqlrun, sql_battery
    try:
        O = Lists(); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        ts = texts(O, seed, rep.tier); seen = {}
        for x in sql_battery.corpus():
            if 'sql' not in x or x.get('opt') or not x['out'].startswith('OK') or len(x['sql']) > 300: continue
            tk = O.tokens(x['sql'].encode()); r, lg = O.check(tk, {})
            if r == 'syntax': continue
            k = [z for z in lg if lg[z] > 1]
            if any(seen.get(z, 0) < 60 for z in k):
                ts.append(x['sql'].encode())
                for z in k: seen[z] = seen.get(z, 0) + 1
        ts = list(dict.fromkeys(ts)); base = sqlrun.run(w, [sqlrun.record(t) for t in ts]); jobs = []
        kinds = sorted({k for _, _, k in O.kind.values()})
        for t, o in zip(ts, base):
            if not o.startswith('OK'): continue
            tk = O.tokens(t); r, lg = O.check(tk, {})
            if r is not None: continue
            cfg = [{k: n} for k in lg for n in range(1, lg[k] + 1)] + [{k: 1 for k in kinds if k not in lg}, {k: lg.get(k, 1) for k in kinds}, {k: 1 for k in kinds}]
            for c in cfg: jobs.append((t, c, O.check(tk, c)[0]))
        outs = sqlrun.run(w, [sqlrun.record(t, limits=','.join('%s:%d' % x for x in sorted(c.items())) or '-') for t, c, _ in jobs])
        rep.cases += len(jobs); rep.concrete_rule = RULE
        for (t, c, e), o in zip(jobs, outs):
            p = (o.split(' ', 3) + ['', '', ''])[:4]
            if e is None: bad = not o.startswith('OK')
            else: bad = p[0] != 'ERR' or p[1] != 'exceed_number_of_elements' or p[2] != '%d-%d' % e[2:] or not re.search(r'\b%s\b' % e[0], p[3]) or not re.search(r'\b%d\b' % e[1], p[3])
            if bad: rep.concrete.append(('sql text', 'parsing %r with limits %s: expected %s, got %s' % (t, c, 'no refusal' if e is None else '%s more than %d at %d-%d' % e, o[:200])))
        rep.extra['list_kinds'] = {k: sum(1 for _, c, e in jobs if e and e[0] == k) for k in kinds}
    except pipeline.ToolError as e: rep.undecided.append('lists: %s' % e)
