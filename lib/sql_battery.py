"""The SQL corpus: texts with the reviewed result of scanning and parsing them (golden/corpus.json.gz).
Used to replay a refuted obligation on the real code, and as a bounded stand-in for parts not decided by proof."""
import os, re, gzip, json, sys
sys.setrecursionlimit(200000)     # deeply nested trees
import sqlrun, pipeline
RULE = 'the texts of golden/corpus.json.gz (every production of the grammar, operator pairs, keywords as names, broken texts) parsed by the real scanner and parser; result compared with the reviewed one'
def shifted(out, n):
    p = out.split(' ', 4) if out.startswith('OK') else out.split(' ', 3)
    mv = lambda t: re.sub(r'(\d+)-(\d+)', lambda m: '%d-%d' % (int(m.group(1)) + n, int(m.group(2)) + n), t)
    if p[0] == 'ERR': p[2] = mv(p[2])
    else:
        p[3] = mv(p[3]); p[4] = re.sub(r'"begin":(\d+),"end":(\d+)', lambda m: '"begin":%d,"end":%d' % (int(m.group(1)) + n, int(m.group(2)) + n), p[4])
    return ' '.join(p)
def corpus():
    with gzip.open(os.path.join(pipeline.VERIF, 'golden', 'corpus.json.gz')) as f: return json.load(f)
RX = re.compile(r',?"region":\{[^{}]*\}|,?"region":"[^"]*"|,?"region":null')
RC = re.compile(r'"comments":\[[^\]]*\],?')
def noreg(s): return RX.sub('', s)
def classify(want, got):
    """which property a difference between the reviewed and the actual outcome contradicts"""
    if got == 'CRASH' or got.startswith(('THROW', 'NEITHER', 'BOTH')): return 'P12'
    if want.startswith('OK') != got.startswith('OK'): return 'accept'
    if want.startswith('ERR'):
        a, b = want.split(' ', 3), got.split(' ', 3)
        return 'error' if a[1:3] != b[1:3] else 'message'
    a, b = want.split(' ', 4), got.split(' ', 4)
    if noreg(RC.sub('', a[4])) != noreg(RC.sub('', b[4])): return 'tree'
    if a[3] != b[3] or RC.findall(a[4]) != RC.findall(b[4]): return 'comments'
    if a[1:3] != b[1:3]: return 'size'
    return 'region'
def run(w, recs=None):
    """[(class, sql, want, got)]"""
    c = corpus() if recs is None else recs
    outs = sqlrun.run(w, [sqlrun.record(x['sql'].encode() if 'sql' in x else bytes.fromhex(x['hex']), **x.get('opt', {})) for x in c])
    return [(classify(x['out'], o), x['sql'], x['out'], o) for x, o in zip(c, outs) if o != x['out']], len(c)
def diff(a, b, n=160):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]: i += 1
    i = max(0, i - 60)
    return 'expected ...%s... got ...%s...' % (a[i:i + n], b[i:i + n])
def report(rep, w, classes, only=None):
    """only: regular expression selecting the texts that matter"""
    try:
        c = corpus()
        if only: c = [x for x in c if 'sql' in x and re.search(only, x['sql'])]
        bad, n = run(w, c)
        rep.cases += n; rep.concrete_rule = RULE
        rep.concrete += [('sql text', 'parsing %r: %s' % (s, diff(a, b))) for c, s, a, b in bad if c in classes]
        rep.notes += ['difference of kind %s on %r' % (c, s) for c, s, a, b in bad[:20] if c not in classes]
        if 'region' in classes:
            # positions of values inside nodes, which serialization leaves out
            v = [x for x in c if 'reg' in x]
            outs = sqlrun.run(w, [sqlrun.record(x['sql'].encode(), mode='W', **x.get('opt', {})) for x in v]); rep.cases += len(v)
            rep.concrete += [('sql text', 'parsing %r: positions of values inside nodes: %s' % (x['sql'], diff(x['reg'], o))) for x, o in zip(v, outs) if o.startswith('OK ') and o != 'OK ?' and o != x['reg']]
            if 'OK ?' in outs: rep.notes.append('positions of values inside nodes are not listed: the accessors have changed')
        # the same text behind white space: every position moves by its length
        c = [x for x in c if 'sql' in x and not x.get('opt') and x['sql'].strip(' ;')]
        sh = []
        for k, (n, step) in enumerate(((1, 3), (300, 5), (66000, 29), (9000, 31))):
            ws = (' ' * n) if k != 1 else '\n\t ' * (n // 3)
            sh += [{'sql': ws + x['sql'], 'out': shifted(x['out'], len(ws))} for x in c[k::step]]
        bad2, n = run(w, sh); rep.cases += n
        old = {b[1] for b in bad}
        rep.concrete += [('sql text', 'parsing %r behind %d bytes of white space: %s' % (s.lstrip(), len(s) - len(s.lstrip()), diff(a, b))) for c, s, a, b in bad2 if c in classes and s.lstrip() not in old]
    except pipeline.ToolError as e: rep.undecided.append('corpus: %s' % e)
def tree_size(out):
    """(nodes, depth) of a printed tree, from the tree itself: a node is an object with a kind"""
    t = json.loads(re.sub(r'\\x([0-9a-f]{2})', lambda m: chr(int(m.group(1), 16)), out.split(' ', 4)[4]), strict=False)
    n = 0; deep = 0
    def go(x, d):
        nonlocal n, deep
        if isinstance(x, dict):
            if 'node_kind' in x: n += 1; d += 1; deep = max(deep, d)
            for v in x.values(): go(v, d)
        elif isinstance(x, list):
            for v in x: go(v, d)
    go(t, 0); return n, deep
def edges(out):
    t = json.loads(re.sub(r'\\x([0-9a-f]{2})', lambda m: chr(int(m.group(1), 16)), out.split(' ', 4)[4]), strict=False); es = set()
    def go(x, k):
        if isinstance(x, dict):
            n = x.get('node_kind'); k = n if n else k
            for f, v in x.items():
                if isinstance(v, (dict, list)) and f != 'region': es.add('%s.%s' % (k, f)); go(v, '%s.%s' % (k, f) if not (isinstance(v, dict) and 'node_kind' in v) else k)
        elif isinstance(x, list):
            for v in x: go(v, k)
    go(t, ''); return es
SIZE_RULE = 'accepted texts of the corpus parsed with node and depth limits at, below and above the size of their printed tree'
def limits_report(rep, w, classes, only=None):
    """P07 on the real code: limits exactly at and just below the size of the tree"""
    try:
        c = [x for x in corpus() if 'sql' in x and x['out'].startswith('OK') and not x.get('opt')]
        seen = {}; pick = []; full = set()
        for x in c:
            # kinds, and which child a node of a kind has
            ks = set(re.findall(r'"node_kind":"(\w+)"', x['out'])) | edges(x['out'])
            if any(seen.get(k, 0) < 6 for k in ks): full.add(x['sql'])
            for k in ks: seen[k] = seen.get(k, 0) + 1
            pick.append(x)
        big = 10 ** 9
        base = run_texts(w, [(x['sql'], {}) for x in pick])
        recs = []
        for x, o in zip(pick, base):
            if not o.startswith('OK'): continue
            n, d = tree_size(o)
            for nl, dl in ((0, 0), (big, 0), (0, big), (n, d), (n, big), (big, d), (n - 1, 0), (0, d - 1), (n - 1, d), (n, d - 1), (1, 0), (0, 1)) if x['sql'] in full else ((n, d), (n - 1, 0), (0, d - 1)):
                if nl < 0 or dl < 0: continue
                recs.append((x['sql'], {'nodes': nl, 'depth': dl}, n, d))
        outs = run_texts(w, [(r[0], r[1]) for r in recs])
        rep.cases += len(recs); rep.concrete_rule = SIZE_RULE
        for (s, o, n, d), out in zip(recs, outs):
            nl, dl = o['nodes'], o['depth']
            ok = (nl == 0 or n <= nl) and (dl == 0 or d <= dl)
            what = None
            if out.startswith('OK') != ok: what = 'tree of %d nodes, depth %d, limits %d and %d: %s' % (n, d, nl, dl, out[:120])
            elif ok:
                on = nl or dl; got = out.split(' ')[1:3]; want = [str(n), str(d)] if on else ['0', '0']
                if got != want: what = 'tree of %d nodes, depth %d, limits %d and %d: counts %s' % (n, d, nl, dl, got)
            else:
                p = out.split(' ', 3); m = re.match(r'(\d+)-(\d+)$', p[2]) if len(p) > 2 else None
                if p[0] != 'ERR' or 'exceed' not in p[1] and p[1] != out_code(out) or not m or not (int(m.group(1)) <= int(m.group(2)) <= len(s.encode())): what = 'refusal of a tree of %d nodes, depth %d, limits %d and %d: %s' % (n, d, nl, dl, out[:120])
                elif ('depth' if (nl == 0 or n <= nl) else 'number of elements' if (dl == 0 or d <= dl) else '') not in p[3]: what = 'the refusal names the wrong limit: %s' % out[:160]
            if what: rep.concrete.append(('sql text', 'parsing %r: %s' % (s, what)))
    except pipeline.ToolError as e: rep.undecided.append('corpus: %s' % e)
def out_code(o): return 'exceed_number_of_elements'
def run_texts(w, items): return sqlrun.run(w, [sqlrun.record(s.encode(), **o) for s, o in items])
HIST_RULE = 'corpus texts parsed in another order by one parser whose options change in between, and by one const parser on eight threads: same result as parsed alone'
HIST_LIMITS = 'select_element:1,ordering_element:1,statement:1,table_reference:1'
def history_report(rep, w, classes, only=None):
    """P12 on the real code: parsing depends neither on earlier texts nor on other threads, and leaves the options alone"""
    import random
    try:
        R = random.Random(7); c = [x for x in corpus()]; R.shuffle(c); c = c[:4000]
        rec = lambda x, m: sqlrun.record(x['sql'].encode() if 'sql' in x else bytes.fromhex(x['hex']), mode=m, **x.get('opt', {}))
        outs = sqlrun.run(w, [rec(x, 'S') for x in c])
        rep.concrete += [('sql text', 'parsing %r after other texts with the same parser: %s' % (x['sql'], diff(x['out'], o))) for x, o in [(x, o) for x, o in zip(c, outs) if o != x['out']][:40] if sqlrun.run(w, [rec(x, 'P')])[0] == x['out']]
        d = [x for x in c if not x.get('opt')]; size = 100; n = 0
        ch = [d[i:i + size] for i in range(0, len(d), size)]
        for part in ch[:16]:
            o = sqlrun.run(w, [rec(x, 'M') for x in part[:-1]] + [rec(part[-1], 'X')], jobs=1)[-1].split('\t')[:-1]
            if len(o) != len(part): rep.concrete.append(('sql text', 'parsing %d texts with one parser on several threads: %s' % (len(part), (o or ['CRASH'])[0][:100]))); continue
            n += len(part)
            rep.concrete += [('sql text', 'parsing %r on several threads: %s' % (x['sql'], diff(x['out'], y))) for x, y in [(x, y) for x, y in zip(part, o) if y != x['out']][:5] if sqlrun.run(w, [rec(x, 'P')])[0] == x['out']]
        # the same texts under changing options, one parser, against a fresh process each
        opts = [{}, {'cand': 1}, {'cand': 40}, {'nodes': 6}, {'depth': 5}, {'desc': 0}, {'limits': HIST_LIMITS}, {'nodes': 100, 'depth': 100, 'cand': 3}]
        texts = ['SELECT a, b FROM t, u WHERE x IN (1, 2) ORDER BY c, d', 'DROP 1', '/** d */ CREATE TABLE t (/** e */ c INT)', 'VALUES (((1)))', 'TABLE a; TABLE b', 'SELECT * FROM 1']
        seq = [(t, o) for o in opts for t in texts]; one = {}
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(pipeline.JOBS) as ex: one = list(ex.map(lambda x: sqlrun.run(w, [sqlrun.record(x[0], **x[1])], jobs=1)[0], seq))
        for k in range(8):
            order = list(range(len(seq)))
            if k: R.shuffle(order)
            for m in 'PS':
                o = sqlrun.run(w, [sqlrun.record(seq[i][0], mode=m, **seq[i][1]) for i in order], jobs=1)
                rep.cases += len(o)
                rep.concrete += [('sql text', 'parsing %r with options %s after other texts: %s' % (seq[i][0], seq[i][1], diff(one[i], y))) for i, y in zip(order, o) if y != one[i]][:5]
        rep.cases += len(c) + n
    except pipeline.ToolError as e: rep.undecided.append('corpus: %s' % e)
