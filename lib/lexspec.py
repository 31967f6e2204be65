"""The lexical contract (contracts/lexical.txt) as automata, and the tables flex generates from /repo's sql_scanner.ll."""
import os, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = os.path.join(VERIF, 'contracts', 'lexical.txt')
def fold(s):
    o = set(s)
    for c in s:
        if 65 <= c <= 90: o.add(c + 32)
        if 97 <= c <= 122: o.add(c - 32)
    return frozenset(o)
def parse(rx):
    """regular expression -> ('set', S) | ('cat', l) | ('alt', l) | ('star', e) | ('plus', e) | ('opt', e)"""
    p = 0
    def esc():
        nonlocal p
        c = rx[p]; p += 1
        if c == 'x': v = int(rx[p:p + 2], 16); p += 2; return v
        return {'n': 10, 't': 9, 'r': 13}.get(c, ord(c))
    def one():
        nonlocal p
        if rx[p] == '\\': p += 1; return esc()
        p += 1; return ord(rx[p - 1])
    def atom():
        nonlocal p
        if rx[p] == '(':
            p += 1; e = alt(); assert rx[p] == ')'; p += 1; return e
        if rx[p] == '[':
            p += 1; neg = rx[p] == '^'
            if neg: p += 1
            S = set()
            while rx[p] != ']':
                a = one()
                if rx[p] == '-' and rx[p + 1] != ']': p += 1; S |= set(range(a, one() + 1))
                else: S.add(a)
            p += 1; S = fold(S)
            return ('set', frozenset(range(256)) - S if neg else S)
        return ('set', fold({one()}))
    def rep():
        nonlocal p
        e = atom()
        while p < len(rx) and rx[p] in '*+?': e = ({'*': 'star', '+': 'plus', '?': 'opt'}[rx[p]], e); p += 1
        return e
    def cat():
        l = []
        while p < len(rx) and rx[p] not in '|)': l.append(rep())
        return ('cat', l)
    def alt():
        nonlocal p
        l = [cat()]
        while p < len(rx) and rx[p] == '|': p += 1; l.append(cat())
        return l[0] if len(l) == 1 else ('alt', l)
    e = alt(); assert p == len(rx), rx
    return e
class DFA:
    """start state 0; next(s, byte) -> state or -1; acc[s] = index of the first rule that accepts, or -1"""
    def __init__(self, rules):
        self.eps, self.ed = [], []
        def new(): self.eps.append([]); self.ed.append([]); return len(self.eps) - 1
        def build(e, a, b):
            k = e[0]
            if k == 'set': self.ed[a].append((e[1], b))
            elif k == 'cat':
                for x in e[1]: c = new(); build(x, a, c); a = c
                self.eps[a].append(b)
            elif k == 'alt':
                for x in e[1]: build(x, a, b)
            else:
                i, o = new(), new(); self.eps[a].append(i); build(e[1], i, o); self.eps[o].append(b)
                if k in ('star', 'plus'): self.eps[o].append(i)
                if k in ('star', 'opt'): self.eps[i].append(o)
        st = new(); fin = {}
        for n, r in enumerate(rules): f = new(); s0 = new(); self.eps[st].append(s0); build(r, s0, f); fin[f] = n
        sets = {S for l in self.ed for S, _ in l}
        sig = {}
        for c in range(256): sig.setdefault(tuple(c in S for S in sets), []).append(c)
        self.classes = list(sig.values()); self.cls = [0] * 256
        for i, l in enumerate(self.classes):
            for c in l: self.cls[c] = i
        def clo(S):
            S = set(S); w = list(S)
            while w:
                for t in self.eps[w.pop()]:
                    if t not in S: S.add(t); w.append(t)
            return frozenset(S)
        s0 = clo([st]); idx = {s0: 0}; order = [s0]; self.nx = []; self.acc = []
        i = 0
        while i < len(order):
            S = order[i]; i += 1; row = []
            self.acc.append(min((fin[s] for s in S if s in fin), default=-1))
            for l in self.classes:
                T = {t for s in S for X, t in self.ed[s] if l[0] in X}
                if not T: row.append(-1); continue
                T = clo(T)
                if T not in idx: idx[T] = len(order); order.append(T)
                row.append(idx[T])
            self.nx.append(row)
        del self.eps, self.ed
    def next(self, s, c): return self.nx[s][self.cls[c]]
class Spec:
    def __init__(self, path=FILE):
        self.rules = {}; self.eof = {}
        for l in open(path, encoding='latin1'):
            if l.startswith('#') or not l.strip(): continue
            m, rx, act = l.rstrip('\n').split('\t')
            if rx == '<eof>': self.eof[m] = act
            else: self.rules.setdefault(m, []).append((rx, act))
        self.dfa = {m: DFA([parse(r) for r, _ in l]) for m, l in self.rules.items()}
    def scan(self, text, checked=None):
        """tokens [(name, begin, end)], comments [(begin, end)] of a byte string; stops after the first error token"""
        mode = 'INITIAL'; p = 0; n = len(text); toks = []; com = []; mark = []; cb = None
        while True:
            if p == n:
                a = self.eof[mode].split(' ')
                if a[0] == 'unclosed': toks.append((a[1], cb, cb + 2))
                else:
                    if mode == 'line': com.append((cb, n))
                    toks.append((a[-1], n, n))
                return toks, com, mark
            d = self.dfa[mode]; s = 0; q = p; best = None
            while q < n:
                s = d.next(s, text[q])
                if s < 0: break
                q += 1
                if d.acc[s] >= 0: best = (d.acc[s], q)
            r, e = best; a = self.rules[mode][r][1]; w, _, v = a.partition(' ')
            if w == 'enter': mode = v; cb = p
            elif w == 'leave': com.append((cb, e if v == 'inclusive' else p)); mode = 'INITIAL'
            elif w == 'checked':
                x, y = v.split(' '); toks.append((x if checked is None or checked(x, text[p:e]) else y, p, e))
            elif w != 'skip':
                toks.append((v, p, e))
                if w == 'mark': mark.append((p, e))
                if v == '<ERROR>': return toks, com, mark
            p = e
class Tables:
    """yy_nxt, yy_accept, yy_ec of the generated scanner"""
    def __init__(self, path):
        t = open(path, encoding='latin1').read()
        if re.search(r'yy_current_state \+= YY_AT_BOL|\byy_chk\b', t): raise ValueError('the scanner tables have another form')
        def arr(name):
            m = re.search(r'static const \w+ %s\[[^=]*=\s*' % name, t)
            if not m: raise ValueError('no table ' + name)
            i = m.end(); d = 0; j = i
            while True:
                if t[j] == '{': d += 1
                elif t[j] == '}':
                    d -= 1
                    if d == 0: break
                j += 1
            return t[i + 1:j]
        self.ec = [int(x) for x in re.findall(r'-?\d+', arr('yy_ec'))]
        self.acc = [int(x) for x in re.findall(r'-?\d+', arr('yy_accept'))]
        self.nxt = [[int(x) for x in re.findall(r'-?\d+', r)] for r in re.findall(r'\{([^{}]*)\}', arr('yy_nxt'))]
        self.rules = int(re.search(r'#define YY_NUM_RULES (\d+)', t).group(1))
        assert len(self.ec) == 256
        self.text = t
    def next(self, s, c):
        # NUL is matched through class 1, see yy_get_previous_state and yy_try_NUL_trans of the generated scanner
        v = self.nxt[s][self.ec[c] if c else 1]
        return v if v > 0 else -1
