"""The real scanner on texts made from the lexical contract, compared with the contract read as a scanner (lexspec.Spec.scan)."""
import os, random, re
import lexspec, sqlrun, pipeline, scan_props
RULE = 'every keyword and operator of contracts/lexical.txt in several letter cases and contexts, every transition of its automata, all texts up to 3 bytes over an alphabet of 20 bytes, random token sequences (seeded), long texts across the input buffer; token kinds, ranges, texts and comments of the real scanner compared with the contract'
def words(S, seed=1, tier='quick'):
    out = []; rnd = random.Random(seed)
    pre = {'INITIAL': b'', 'block': b'/*', 'line': b'--'}
    for m, d in S.dfa.items():
        seen = {0: b''}; w = [0]; i = 0
        while i < len(w):
            s = w[i]; i += 1; dead = []
            for l in d.classes:
                t = d.next(s, l[0]); c = bytes([l[0]])
                if t < 0: dead.append(c); continue
                if t not in seen: seen[t] = seen[s] + c; w.append(t)
                out.append(pre[m] + seen[s] + c)
            for c in dead if len(dead) < 4 or tier == 'thorough' else rnd.sample(dead, 4): out.append(pre[m] + seen[s] + c + b' a')
        for l in d.classes:
            for c in l: out.append(pre[m] + bytes([c])); out.append(pre[m] + b'a' + bytes([c]) + b'b')
    pieces = []
    for r, a in S.rules['INITIAL']:
        w = a.split(' ', 1)
        if re.fullmatch(r'(\\.|[A-Z_0-9])+', r):
            t = re.sub(r'\\(.)', r'\1', r).encode(); pieces.append(t)
            mix = bytes(c ^ 32 if 65 <= c <= 90 and rnd.random() < .5 else c for c in t)
            for v in {t, t.lower(), mix, t.capitalize()}:
                out += [v, v + b' x', b'(' + v + b')', v + b'_', v + b'1', b'a ' + v + b'\n', b'"' + v + b'"', v[:-1], b'x' + v, v + v]
    pieces += [b'a', b'tbl_1', b'"x y"', b'"a""b"', b"'it''s'", b"''", b"x'0f'", b'1', b'12.5', b'1e3', b'1.5E-2', b':p', b'?', b'/* c */', b'/**/', b'-- c\n', b'--\r\n', b' ', b'\t\n', b'union join', b'Union\n Join', b'outer  apply', b'.*', b'. *', b'\xc3\xa9', b'\xff', b'"\xe3\x81\x82"', b'@', b'/*', b'--', b"'", b'"', b'\\', b'\x00', b'e', b'E', b'.', b'1.', b'X', b'_', b'__a', b'a__', b'end-exec', b'end-', b'/* * / ** */', b'/* \xe3\x81 */', b'-- \xf0\x9f\x98\x80\n', b'\r', b'-- \r x\n']
    al = [b'a', b'X', b'E', b'1', b'.', b'*', b"'", b'"', b':', b'-', b'/', b' ', b'\n', b'\r', b'<', b'>', b'|', b'&', b'_', b'\xc3']
    for x in al:
        for y in al:
            out.append(x + y)
            for z in al: out.append(x + y + z)
    n = 60000 if tier == 'thorough' else 12000
    for _ in range(n): out.append(b''.join(rnd.choice(pieces) + rnd.choice([b'', b' ', b'\n', b'']) for _ in range(rnd.randint(2, 9))))
    good = [p for p in pieces if p not in (b'\xff', b'\xc3\xa9', b'@', b'/*', b'\\', b'\x00', b'"', b"'")]
    for k in (8190, 8191, 8192, 16383, 16384, 16385, 40000):
        for tail in (b"'long text' /* c */ x", b'identifier ? -- c\n y', b'/* ' + b'c' * 9000 + b' */ z'):
            out.append(b' ' * (k - 5) + tail); out.append(b'a' * k + b' ' + tail); out.append(b'/*' + b'x' * k + b'*/' + tail); out.append(b"'" + b'q' * k + b"' " + tail)
    for _ in range(20):
        t = b''
        while len(t) < 30000: t += rnd.choice(good) + b' '
        out.append(t)
    return list(dict.fromkeys(out))
def expect(S, text, num, images, checked):
    toks, com, mark = S.scan(text, checked)
    return 'T ' + ' '.join('%d:%d-%d%s' % (num[n], b, e, '=' + esc(text[b:e]) if n in images else '') for n, b, e in toks) + ' |' + ''.join(' %d-%d' % c for c in com)
def esc(b): return ''.join(chr(c) if 32 < c < 127 and c != 92 else '\\x%02x' % c for c in b)
def checked(kind, text):
    # names that begin with two underscores are reserved: the contract of check_*_identifier (P10)
    return not text.startswith(b'"__' if kind == '<delimited-identifier>' else b'__')
def run(w, texts):
    """[(text, want, got)] where they differ"""
    S = lexspec.Spec(); g = pipeline.generate(w)
    tok = scan_props.terminals(os.path.join(g, 'mizugaki', 'parser', 'p.xml'))
    num = {n: s for n, s, t in tok.values()}
    images = {a.split(' ')[1] for r, a in S.rules['INITIAL'] if a.startswith(('image', 'checked'))}
    for m in S.rules:
        for r, a in S.rules[m]:
            for x in ([a.split(' ', 1)[1]] if a.split(' ')[0] in ('token', 'image', 'mark') else a.split(' ')[1:] if a.startswith('checked') else []): num.setdefault(x, -1)
    typ = {n for n, s, t in tok.values() if t}
    images &= typ
    ids = ','.join(str(num[n]) for n in sorted(images)) or '-'
    outs = sqlrun.run(w, [sqlrun.record(t, mode='T', limits=ids) for t in texts])
    bad = []
    for t, o in zip(texts, outs):
        e = expect(S, t, num, images, checked)
        if o.rstrip() != e.rstrip(): bad.append((t, e, o))
    return bad
def report(rep, w, which, extra=()):
    import sql_battery
    try:
        S = lexspec.Spec(); ts = words(S, int(os.environ.get('VERIF_SEED', '1') or 1), rep.tier)
        pre = {'INITIAL': b'', 'block': b'/*', 'line': b'--'}
        for m, x in extra: ts += [pre[m] + x + s for s in (b'', b' ', b' a', b'a', b'1', b'*/ x', b'\nx', b"'", b'"')]
        ts = list(dict.fromkeys(ts))
        bad = run(w, ts); rep.cases += len(ts); rep.concrete_rule = RULE
        for t, e, o in bad:
            k = kind(e, o)
            if k in which: rep.concrete.append(('text', 'scanning %r: %s' % (t if len(t) < 200 else t[:100] + b'...', sql_battery.diff(e, o))))
            elif len(rep.notes) < 20: rep.notes.append('difference of kind %s on %r' % (k, t[:100]))
    except pipeline.ToolError as e: rep.undecided.append('scanner battery: %s' % e)
def kind(e, o):
    """which property a difference contradicts"""
    if not o.startswith('T'): return 'P12'
    a, b = e.split(' |')[0].split(' ')[1:], o.split(' |')[0].split(' ')[1:]
    ka = [x.split(':')[0] + '=' + x.partition('=')[2] for x in a]; kb = [x.split(':')[0] + '=' + x.partition('=')[2] for x in b]
    if ka != kb: return 'P01'
    ra = [x.partition('=')[0].split(':')[1] for x in a]; rb_ = [x.partition('=')[0].split(':')[1] for x in b]
    return 'P02' if ra != rb_ else 'comments'
