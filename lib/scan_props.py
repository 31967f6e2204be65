"""The scanner under contract: the tables flex generates are compared with the automata of contracts/lexical.txt, and the
action of every rule is run symbolically against the contract of the rule it implements."""
import os, re, xml.etree.ElementTree as ET
from gram import *
import gram, lexspec, pipeline
from sym import _Abort as _Ab, _Goto as _Gt, _Brk as _Bk, _Ret as _Rt
SC = PN + 'sql_scanner'; DRVC = PN + 'sql_driver'
SYMT = GEN + '::symbol_type'
def unq(n): return n[1:-1].replace('\\"', '"').replace('\\\\', '\\') if n[0] == '"' else n
def terminals(xml):
    """token number -> (name, symbol number, type)"""
    return {int(t.get('token-number')): (unq(t.get('name')), int(t.get('symbol-number')), t.get('type')) for t in ET.parse(xml).getroot().iter('terminal')}
class Scanner:
    def __init__(self, cx, w):
        P = cx.P; self.spec = lexspec.Spec()
        d = os.path.join(w.gen, 'mizugaki', 'parser')
        self.T = lexspec.Tables(os.path.join(d, 'sql_scanner_generated.cpp'))
        self.tok = terminals(os.path.join(d, 'p.xml'))
        fs = [f for f in P.F.values() if f['qn'] == SC + '::next_token' and 'body' in f]
        if len(fs) != 1: raise Unsupported('next_token not found')
        self.f = fs[0]; self.case = {}
        sws = [x for x in walk(self.f['body']) if x.get('k') == 'Switch']
        sw = max(sws, key=lambda x: len(x['b']['b']))
        cur = None
        for st in sw['b']['b']:
            while st is not None and st['k'] in ('Case', 'Default'):
                cur = int(lit(st['v'])) if st['k'] == 'Case' else None
                if cur is not None: self.case[cur] = []
                st = st['b']
            if cur is not None and st is not None: self.case[cur].append(st)
        self.eob = self.T.rules + 1
        self.words = []      # words on which the tables and the contract differ: (mode, word)
        self.pairs = {}      # (mode, spec rule or 'eof', generated rule) -> shortest word
        self.states = []     # (mode, spec state, generated state, word, same)
        self.start = {'INITIAL': 1}
        todo = ['INITIAL']; self.enter = {}
        while todo:
            m = todo.pop(); self.product(m)
            for (mm, r, f), word in list(self.pairs.items()):
                if mm != m or r == 'eof': continue
                a = self.spec.rules[m][r][1].split(' ')
                if a[0] == 'enter' and a[1] not in self.start:
                    v = self.begins(f)
                    if v is not None: self.start[a[1]] = v; todo.append(a[1])
        self.missing = [m for m in self.spec.rules if m not in self.start]
    def begins(self, f):
        """the start state the action of rule f selects"""
        for x in walk(self.case.get(f, [])):
            if x.get('k') == 'Bin' and x.get('op') == '=' and x['a'].get('k') == 'Mem' and x['a'].get('f') == 'yy_start':
                try: return int(lit(x['b']))
                except Exception: return None
    def product(self, mode):
        d, T = self.spec.dfa[mode], self.T; s0 = (0, self.start[mode]); seen = {s0: b''}; w = [s0]
        reps = {}
        for c in range(256): reps.setdefault((d.cls[c], T.ec[c] if c else 1), c)
        i = 0
        while i < len(w):
            a, b = w[i]; i += 1; word = seen[(a, b)]
            fa = T.acc[b]
            if fa == self.eob: fa = 0
            same = (d.acc[a] >= 0) == (fa > 0) or (a, b) == s0
            if (a, b) != s0 and d.acc[a] >= 0 and fa > 0: self.pairs.setdefault((mode, d.acc[a], fa), word)
            elif not same: self.words.append((mode, word))
            for c in reps.values():
                x, y = d.next(a, c), T.next(b, c)
                if (x < 0) != (y < 0): same = False; self.words.append((mode, word + bytes([c])))
                elif x >= 0 and (x, y) not in seen: seen[(x, y)] = word + bytes([c]); w.append((x, y))
            self.states.append((mode, a, b, word, same))
        self.pairs[(mode, 'eof', self.eob + (self.start[mode] - 1) // 2 + 1)] = b''
class Run:
    """one run of a rule's action"""
    def __init__(self, it, S, mode, f, eof):
        self.it, self.S = it, S
        st = it.path.st; st['ev'] = []
        C, n, B = z3.BitVec('cursor', 64), z3.BitVec('length', 32), z3.BitVec('comment_begin', 64)
        self.C, self.B = C, B
        self.n = z3.SignExt(32, n)
        it.assume(ULT_(C, bv(1 << 60))); it.assume(n > 0)
        if mode != 'INITIAL': it.assume(ULT_(B, bv(1 << 60))); it.assume(z3.ULE(B + 2, C))
        t = Rec(SC); t.exact = True
        def put(name, v, ty_): t.f[name] = Cell(v, ty_, name, t)
        put('cursor_', C, 'unsigned long'); put('comment_begin_', B, 'unsigned long'); put('npos', bv(-1), 'unsigned long')
        put('yyleng', n, 'int'); put('yytext', Str(z3.Const('yytext', U)), 'char *')
        put('yy_start', bv(S.start[mode], 32), 'int')
        self.t = t
        d = Rec(DRVC, z3.Const('driver', U))
        self.drv = Cell(d, DRVC, 'driver')
        fr = Frame(it, {S.f['params'][0]['id']: self.drv}, Cell(t, SC, 'this')); fr.f = S.f
        it.frames.append(fr); self.ret = None; self.exit = 'break'
        try:
            for s in S.case[f]: it.exec(s)
            self.exit = 'fall through'
        except _Bk: pass
        except _Rt as r: self.exit = 'return'; self.ret = r.v
        finally: it.frames.pop()
        self.ev = st['ev']
        if isinstance(self.ret, Cell): self.ret = self.ret.v
        if self.exit == 'return' and not (isinstance(self.ret, Opq) and self.ret.t == SYMT): raise Unsupported('token value')
        for n_, c in t.f.items():
            if n_ not in ('cursor_', 'comment_begin_', 'npos', 'yyleng', 'yytext', 'yy_start'): raise Unsupported('the rule uses ' + n_)
        if not t.f['yyleng'].v.eq(n) or not isinstance(t.f['yytext'].v, Str): raise Unsupported('the rule changes its match')
    def get(self, n): return self.t.f[n].v
def ULT_(a, b): return z3.ULT(a, b)
def contracts():
    def ev(kind):
        def h(it, call):
            a = call.args[0]; a = a.v if isinstance(a, Cell) else a
            b, e = it.get_field(a, 'begin').v, it.get_field(a, 'end').v
            it.path.st['ev'].append((kind, b, e)); return VOID
        return h
    c = {DRVC + '::add_comment': ev('comment'), DRVC + '::add_comment_separator': ev('separator'), DRVC + '::add_placeholder_mark': ev('mark')}
    def check(name):
        def h(it, call):
            a = call.args[0]; a = a.v if isinstance(a, Cell) else a
            if not isinstance(a, Str): raise Unsupported('argument of ' + name)
            it.path.st['checked'] = (name, a.term)
            return UF(name, U, z3.BoolSort())(a.term)
        return h
    c[DRVC + '::check_regular_identifier'] = check('check_regular'); c[DRVC + '::check_delimited_identifier'] = check('check_delimited')
    def sym_(it, call):
        a = [x.v if isinstance(x, Cell) else x for x in call.args]
        if not a or not z3.is_bv(a[0]) or len(a) > 3: return NotImplemented
        o = Opq(z3.Const(it.newname('token'), U), SYMT); loc = a[-1]
        o.parts = [a[0], a[1] if len(a) == 3 else None, it.get_field(loc, 'begin').v, it.get_field(loc, 'end').v]
        return o
    c[SYMT + '::symbol_type'] = sym_
    return c
CHK = {'<identifier>': 'check_regular', '<delimited-identifier>': 'check_delimited'}
def check_rule(it, S, mode, r, f, prop):
    act = S.spec.eof[mode] if r == 'eof' else S.spec.rules[mode][r][1]
    w, _, v = act.partition(' ')
    R = Run(it, S, mode, f, r == 'eof'); ob = it.obligation
    C, n, B = R.C, R.n, R.B
    end = C if r == 'eof' else C + n
    img = UF('sprefix', U, BV64, U)(z3.Const('yytext', U), n)
    # the token expected
    tok = None; loc = (C, end)
    if w in ('token', 'image', 'mark'): tok = (v, w == 'image')
    elif w == 'checked':
        a, b = v.split(' '); k = it.path.st.get('checked')
        if k is None or k[0] != CHK[a]: ob('the text is checked by ' + CHK[a], FALSE); return
        ob('the whole text is checked', k[1] == img)
        tok = (a, True) if it.branch(UF(CHK[a], U, z3.BoolSort())(k[1])) else (b, False)
    elif w == 'eof': tok = (v, False)
    elif w == 'leave' and r == 'eof': tok = (v.split(' ')[1], False)
    elif w == 'unclosed': tok = (v, False); loc = (B, B + 2)
    name = 'the end of the text' if r == 'eof' else 'text'
    if prop == 'P01':
        if tok is None: ob('no token is made', z3.BoolVal(R.exit == 'break'))
        else:
            ob('a token is made', z3.BoolVal(R.exit == 'return'))
            if R.exit == 'return':
                num, val = R.ret.parts[0], R.ret.parts[1]
                want = [k for k, x in S.tok.items() if x[0] == tok[0]]
                ob('the token is %s' % tok[0], z3.Or([num == bv(k, num.size()) for k in want]) if want else FALSE)
                if tok[1]: ob('the token carries its text', z3.BoolVal(isinstance(val, Str)) if not isinstance(val, Str) else val.term == img)
        ns = {'enter': v, 'leave': 'INITIAL'}.get(w, mode)
        if w != 'eof' and r != 'eof': ob('scanning goes on in the %s state' % ns, R.get('yy_start') == bv(S.start.get(ns, -1), 32))
    if prop == 'P02':
        ob('the cursor is at the end of the match', R.get('cursor_') == end)
        if R.exit == 'return':
            ob('the token begins where its text begins', R.ret.parts[2] == loc[0]); ob('the token ends where its text ends', R.ret.parts[3] == loc[1])
            ob('the range of the token is in bounds', z3.And(z3.ULE(R.ret.parts[2], R.ret.parts[3]), z3.ULE(R.ret.parts[3], R.get('cursor_'))))
    if prop in ('P02', 'P03'):
        if w == 'enter': ob('the comment begins at its opening', R.get('comment_begin_') == C)
        elif mode != 'INITIAL' and w == 'skip': ob('the begin of the comment is kept', R.get('comment_begin_') == B)
        com = [e for e in R.ev if e[0] == 'comment']
        want = [] if w != 'leave' else [(B, C if v == 'exclusive' or r == 'eof' else end)]
        if prop == 'P03': ob('%d comments are recorded' % len(want), z3.BoolVal(len(com) == len(want)))
        for (_, b, e), (x, y) in zip(com, want): ob('the comment has its exact range', z3.And(b == x, e == y))
    if prop == 'P03':
        sep = [i for i, e in enumerate(R.ev) if e[0] == 'separator']
        want = 1 if R.exit == 'return' else 0
        ob('each token ends the comments before it' if want else 'no token is noted', z3.BoolVal(len(sep) == want))
        for i in sep:
            # at an unclosed comment the scan ends with an error: where the separator lies does not matter
            if w != 'unclosed': ob('the token is noted at its begin', R.ev[i][1] == loc[0])
            ob('comments are recorded before the token after them', z3.BoolVal(not any(e[0] == 'comment' for e in R.ev[i:])))
    if prop == 'P09':
        ms = [e for e in R.ev if e[0] == 'mark']
        ob('%s placeholder is recorded' % ('one' if w == 'mark' else 'no'), z3.BoolVal(len(ms) == (1 if w == 'mark' else 0)))
        for _, b, e in ms: ob('the placeholder is recorded at its token', z3.And(b == C, e == end))
def hooks():
    return {}
def scanner(cx, rep):
    if getattr(cx, 'scan', None) is None: cx.scan = Scanner(cx, cx.w)
    return cx.scan
def show(w): return w.decode('latin1').encode('unicode_escape').decode()
def rules(prop):
    def gen(cx, gold, rep):
        try: S = scanner(cx, rep)
        except (Unsupported, ValueError, KeyError) as e: rep.undecided.append('scanner: %s' % e); return []
        us = []
        for (mode, r, f), word in sorted(S.pairs.items(), key=lambda x: (x[0][0], str(x[0][1]), x[0][2])):
            act = S.spec.eof[mode] if r == 'eof' else S.spec.rules[mode][r][1]
            def th(it, mode=mode, r=r, f=f):
                if f not in S.case: raise Unsupported('no action for rule %d' % f)
                check_rule(it, S, mode, r, f, prop)
            nm = '%s: %s: %s (%s)' % (prop, mode, '<eof>' if r == 'eof' else S.spec.rules[mode][r][0], act)
            us.append(Unit(nm, 'next_token(): rule %d' % f, th, contracts(), hooks(), kind='scanner rule', replay='text'))
        # construction
        ct = [i for i, f in cx.P.F.items() if f['qn'] == SC + '::sql_scanner' and f.get('ctor') and len(f['params']) == 1]
        if prop == 'P02' and ct:
            def th(it, i=ct[0]):
                rec = Rec(SC, None, True); f = cx.P.F[i]; it.frames.append(Frame(it, {}, Cell(rec, SC, 'this')))
                try:
                    given = {x['f']: x for x in f['inits'] if 'f' in x}
                    if 'cursor_' in given: v = it.init_value(given['cursor_']['e'], given['cursor_']['ft'])
                    else:
                        nd = [(nd, t) for n, t, dc, nd in it.p.fields(SC) if n == 'cursor_' and 'init' in nd]
                        if not nd: raise Unsupported('initial cursor')
                        v = it.init_value(nd[0][0]['init'], nd[0][1])
                finally: it.frames.pop()
                if f['body'].get('b'): raise Unsupported('body of the constructor')
                it.obligation('scanning begins at the first byte', it.val(v) == 0)
            us.append(Unit('P02: sql_scanner()', cx.P.F[ct[0]]['loc'], th, replay='text'))
        if prop == 'P01': us += table_units(cx, S, rep)
        return us
    return gen
def table_units(cx, S, rep):
    us = []
    for m in S.missing: rep.undecided.append('scanner state for %s not found' % m)
    by = {}
    for s in S.states: by.setdefault(s[0], []).append(s)
    for m, l in sorted(by.items()):
        def th(it, m=m, l=l):
            bad = [s for s in l if not s[4]]
            if bad: raise Unsupported('the tables split other texts: %s' % ', '.join(repr(show(w)) for mm, w in S.words[:12] if mm == m))
            for _, a, b, word, same in l: it.obligation('after %r: the tables accept and go on exactly as the contract' % show(word), z3.BoolVal(same))
            d = S.spec.dfa[m]
            for c in range(256): it.obligation('byte %d begins a match' % c, z3.BoolVal(d.next(0, c) >= 0 and d.acc[d.next(0, c)] >= 0))
        us.append(Unit('P01: tables of the %s state' % m, 'yy_nxt, yy_accept, yy_ec', th, kind='scanner tables', replay='text'))
    return us
p01_rules, p02_rules, p03_rules, p09_rules = rules('P01'), rules('P02'), rules('P03'), rules('P09')
