#!/usr/bin/env python3
"""Adds to golden/corpus.json.gz: for every production, each position filled with each alternative of its symbol; ordered
pairs of sequence options; dotted names after NEXT VALUE FOR; further texts.  By hand only; results recorded from the tree
it is run on, to be reviewed."""
import sys, os, json, gzip, random, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pipeline, sqlrun, sql_battery, lalr, p04
w = pipeline.Work(); pipeline.generate(w)
g = lalr.GrammarText(); rules = [('$accept', [g.start])] + [(l, r) for l, r, _ in g.rules]
S = p04.Sentences(rules, g.terms, 11); cand = []
def pair(i, k, j):
    """production i in its shortest context, its k-th symbol by alternative j"""
    chain = []; a = rules[i][0]
    if a not in S.parent: return None
    while S.parent.get(a): chain.append(S.parent[a]); a = rules[S.parent[a][0]][0]
    def build(n): return S.rule(i, 0, k, lambda: S.rule(j, 0)) if n < 0 else S.rule(chain[n][0], 0, chain[n][1], lambda: build(n - 1))
    return build(len(chain) - 1)
for i, (l, r) in enumerate(rules):
    if i == 0 or S.rc(i) >= 10 ** 6: continue
    for k, s in enumerate(r):
        for j in S.by.get(s, []):
            if S.rc(j) >= 10 ** 6: continue
            t = pair(i, k, j)
            if t: t = [x for x in t if x != '"<END_OF_FILE>"']; x = p04.text(t); cand.append(x) if x and not p04.merges(t) and len(x) < 400 else None
so = ['AS INT', 'START WITH 1', 'START 2', 'INCREMENT BY 3', 'INCREMENT 4', 'MINVALUE 5', 'NO MINVALUE', 'MAXVALUE 6', 'NO MAXVALUE', 'CYCLE', 'NO CYCLE', 'OWNED BY u', 'OWNED BY NONE', 'OWNED BY t.c', 'MINVALUE -5', 'INCREMENT BY -1']
for a in [''] + so:
    for b in so:
        for f in ('CREATE SEQUENCE s %s %s', 'CREATE TABLE t (c INT GENERATED ALWAYS AS IDENTITY (%s %s))', 'CREATE TABLE t (c INT GENERATED BY DEFAULT AS IDENTITY (%s %s))'): cand.append(f % (a, b))
R = random.Random(5)
for _ in range(150): cand.append('CREATE SEQUENCE s.q ' + ' '.join(R.sample(so, R.randint(3, 6))))
for q in ('a.b', 'a.b.c', '"a".b', 'a."b""c".d', 'a . b . c . d', 'a./* x */b', '_a.b'):
    for f in ('VALUES (NEXT VALUE FOR %s)', 'SELECT 1 + NEXT VALUE FOR %s * 2 FROM t', 'INSERT INTO t VALUES (NEXT VALUE FOR %s, 1)', 'SELECT %s FROM t', 'SELECT * FROM %s', 'SELECT %s(1) FROM t', 'SELECT CAST(x AS %s) FROM t', 'CREATE TABLE %s (c INT)', 'SELECT x::%s FROM t', 'SELECT - %s FROM t', 'UPDATE %s SET a = 1', 'CREATE TABLE t (c %s)', 'SELECT (%s) FROM t', 'SELECT NEW %s(1) FROM t', 'SELECT %s.* FROM t', 'SELECT * FROM TABLE(x) %s'): cand.append(f % q)
big = ['4294967295', '4294967296', '18446744073709551615', '18446744073709551616', '99999999999999999999999999', '0', '00', '007', '2147483648']
for n in big:
    for f in ('SELECT CAST(x AS VARCHAR(%s)) FROM t', 'SELECT CAST(x AS DECIMAL(%s)) FROM t', 'SELECT CAST(x AS DECIMAL(5, %s)) FROM t', 'SELECT CAST(x AS DECIMAL(%s, 2)) FROM t', 'SELECT CAST(x AS CHAR(%s)) FROM t', 'SELECT CAST(x AS BIT(%s)) FROM t', 'SELECT CAST(x AS BINARY(%s)) FROM t', 'SELECT CAST(x AS TIMESTAMP(%s)) FROM t', 'SELECT CAST(x AS FLOAT(%s)) FROM t', 'SELECT CAST(x AS VARBINARY(%s)) FROM t', 'SELECT x FROM t LIMIT %s', 'VALUES (%s, -%s, + %s)' , 'SELECT CAST(x AS TIME(%s)) FROM t', 'SELECT CAST(x AS BLOB(%s)) FROM t'): cand.append(f.replace('%s', n))
for n in range(0, 5):
    a = ', '.join(['a', 'b + 1', "'c'", '?', ':p'][:n])
    for f in ('SELECT f(%s) FROM t', 'SELECT a.f(%s) FROM t', 'SELECT x.m(%s) FROM t', 'SELECT T::m(%s) FROM t', 'SELECT NEW T(%s) FROM t', 'SELECT x->m(%s) FROM t', 'SELECT COALESCE(%s) FROM t', 'SELECT COUNT(%s) FROM t', 'SELECT ROW(%s) FROM t', 'SELECT ARRAY[%s] FROM t', 'VALUES (%s)', 'SELECT x IN (%s) FROM t', 'SELECT (%s) FROM t', 'SELECT %s FROM t', 'SELECT * FROM t GROUP BY %s', 'SELECT * FROM t ORDER BY %s', 'SELECT * FROM f(%s) AS x(a)', 'SELECT * FROM TABLE(f(%s)) x', 'INSERT INTO t VALUES (%s)', 'SELECT MOD(%s) FROM t', 'SELECT SUM(DISTINCT %s) FROM t', 'SELECT GREATEST(%s) FROM t'): cand.append(f % a)
for c in ('/** d */', '/**/', '/***/', '/* x */', '/** a */ /** b */', '/** a */ /* b */', '-- d\n', '/** d\n e */ -- x\n'):
    for f in ('%s CREATE TABLE t (c INT)', 'CREATE TABLE t (%s c INT, d INT)', 'CREATE TABLE t (c INT, %s d INT)', '%s CREATE VIEW v AS SELECT 1 FROM t', '%s CREATE INDEX i ON t (a)', '%s CREATE SEQUENCE s', '%s CREATE SCHEMA s', '%s SELECT 1 FROM t', 'SELECT 1; %s CREATE TABLE t (a INT)', 'CREATE SCHEMA s %s CREATE TABLE t (a INT)', 'CREATE TABLE t (a INT %s)', 'CREATE %s TABLE t (a INT)', '%s', '%s ; SELECT 1', 'CREATE TABLE t (a INT); %s', '%s CREATE TEMPORARY TABLE t (a INT)'): cand.append(f % c)
cand += ["SELECT 'a''b' FROM t", "SELECT 'a' 'b' FROM t", "SELECT X'0f' 'aa' FROM t", "SELECT '' FROM t", "VALUES (-1, +1, - -1, -(1), -1.5, +1e3, - + 1, -a, NOT NOT a)", "SELECT x BETWEEN SYMMETRIC 1 AND 2 FROM t", "SELECT * FROM a UNION SELECT * FROM b UNION ALL SELECT * FROM c EXCEPT SELECT * FROM d INTERSECT SELECT * FROM e",
    "SELECT * FROM a JOIN b ON x = y JOIN c USING (z) LEFT JOIN d ON TRUE CROSS JOIN e NATURAL JOIN f", "SELECT * FROM a, b, (SELECT * FROM c) AS d (x, y), LATERAL (SELECT 1 FROM e) AS f", "WITH RECURSIVE a (x) AS (SELECT 1 FROM t), b AS (SELECT 2 FROM a) SELECT * FROM a, b", "SELECT CASE WHEN a THEN b WHEN c THEN d ELSE e END, CASE x WHEN 1 THEN 2 END FROM t", "SELECT a AND b OR c AND NOT d FROM t", "SELECT a + b * c - d / e % f FROM t", "SELECT a.b.c.d FROM e.f.g", "SELECT * FROM t WHERE (a, b) IN (SELECT c, d FROM u) AND EXISTS (SELECT * FROM v) OR x = ANY (SELECT 1 FROM w)"]
# long texts: more elements, longer tokens, deeper nesting and more comments than any small counter holds
N = 300
ids = ['c%d' % k for k in range(N)]
L = ', '.join(ids)
for f in ('SELECT %s FROM t', 'VALUES (%s)', 'SELECT * FROM %s', 'SELECT * FROM t ORDER BY %s', 'SELECT * FROM t GROUP BY %s', 'INSERT INTO t (%s) VALUES (1)', 'SELECT f(%s) FROM t', 'SELECT x IN (%s) FROM t', 'SELECT COALESCE(%s) FROM t', 'CREATE INDEX i ON t (%s)', 'CREATE VIEW v (%s) AS TABLE t', 'WITH w (%s) AS (TABLE t) TABLE w', 'CREATE TABLE t (a INT, PRIMARY KEY (%s))', 'SELECT * FROM t JOIN u USING (%s)', 'SELECT a.f(%s) FROM t', 'SELECT ARRAY[%s] FROM t', 'SELECT NEW t(%s) FROM t', 'SELECT * FROM TABLE(f(%s)) x'): cand.append(f % L)
cand += ['CREATE TABLE t (%s)' % ', '.join(i + ' INT' for i in ids), 'UPDATE t SET %s' % ', '.join(i + ' = 1' for i in ids), 'VALUES %s' % ', '.join('(%s)' % i for i in ids), 'TABLE a' + ' UNION TABLE b' * N, 'SELECT a' + ' + b' * N + ' FROM t', 'SELECT a' + ' AND b' * N + ' FROM t', 'SELECT CASE' + ' WHEN a THEN b' * N + ' END FROM t', "SELECT 'a'" + "\n'b'" * N + ' FROM t', 'SELECT ' + '.'.join(ids) + ' FROM t', 'SELECT ' + '(' * 200 + 'a' + ')' * 200 + ' FROM t', 'SELECT ' + '- ' * 200 + 'a FROM t', 'SELECT * FROM a' + ' CROSS JOIN b' * N, ';'.join('VALUES (%d)' % k for k in range(N)), ';' * N, 'CREATE SCHEMA s' + ' CREATE TABLE t (a INT)' * 100, 'WITH ' + ', '.join('%s AS (TABLE t)' % i for i in ids) + ' TABLE a', 'SELECT CAST(a AS INT' + ' ARRAY[2]' * 5 + ') FROM t', 'VALUES (' + ', '.join(['?'] * 70) + ')', 'VALUES (' + ','.join(['?'] * N) + ')', 'VALUES (???', 'VALUES (? ,?,  ?,?)', 'SELECT ?, -?, ?+? FROM t WHERE a = ? LIMIT ?']
for n in (100, 127, 128, 129, 200, 255, 256, 257, 1000, 1024, 4096, 5000, 66000):
    cand += ['TABLE ' + 'n' * n, 'TABLE "' + 'n' * n + '"', "VALUES ('" + 's' * n + "')", 'VALUES (' + '7' * n + ')', "VALUES (X'" + 'a' * n + "')", 'VALUES (:' + 'h' * n + ')', ' ' * n + 'TABLE t', '\n' * n + 'TABLE t', '/*' + 'x' * n + '*/ TABLE t', '--' + 'x' * n + '\nTABLE t', 'TABLE t' + ' ' * n, 'TABLE t ' + 'x' * n + ' y z', 'VALUES (1.' + '3' * n + ')', 'VALUES (1' + '0' * n + 'e1)', 'TABLE "' + '""' * n + '"', "VALUES ('" + "''" * n + "')", '/** ' + 'd' * n + ' */ CREATE TABLE t (c INT)', '@' + 'x' * n, "VALUES ('" + 'u' * n, '/*' + 'u' * n, 'TABLE "' + 'u' * n]
for n in (3, 8, 9, 20, 70, 300): cand += ['/* c */' * n + 'TABLE t', 'TABLE t' + ' --c\n' * n, 'VALUES (' + ', /* c */ '.join(['1'] * n) + ')', '/** d */ ' * n + 'CREATE TABLE t (' + ', '.join('/** d%d */ c%d INT' % (k, k) for k in range(n)) + ')']
cand += [f % q for q in ('a', 'a.b', 'a.b.c', '"a"."b"', 'a.b.c.d.e') for f in ('VALUES (%s::m())', 'SELECT %s::m(1, b) FROM t', 'SELECT x.%s::m(1).n() FROM t', 'SELECT (%s)::m() FROM t', 'SELECT %s->m() FROM t', 'SELECT 1 + %s::m() FROM t', 'VALUES (-%s, NOT %s)'.replace('%s, NOT %s', '%s'), 'SELECT f(%s).x FROM t', 'SELECT (%s).x FROM t', 'SELECT NEXT VALUE FOR %s.x + 1 FROM t')]
cand += ['/**/' * 5000 + 'TABLE t', 'VALUES (' + ','.join(['?'] * 1100) + ')', "VALUES ('a\0b')", 'TABLE t\0', '\0', 'TABLE /* \0 */ t', 'TABLE t --\0\n, u', 'TABLE "a\0b"', "VALUES (X'\0')", "VALUES ('a''\0''b'); TABLE t", 'TABLE t; \0; TABLE u', '/** a\0b */ CREATE TABLE t (c INT)']
cand += ['SELECT * FROM t WHERE ' + 'NOT ' * 1500 + 'x', 'VALUES (' + '(' * 700 + '1' + ')' * 700 + ')', 'SELECT ' + '- ' * 1200 + 'x', 'VALUES (' + 'a+' * 1200 + '1)', 'SELECT ' + 'x.' * 1200 + 'x FROM t', 'TABLE t UNION ' * 1100 + 'TABLE t', 'VALUES (' + 'ARRAY[' * 1100 + ']' * 1100 + ')', ';'.join(['TABLE t'] * 5000), 'VALUES (' + ','.join(['1'] * 20000) + ')', 'SELECT CASE' + ' WHEN a THEN b' * 1100 + ' END FROM t']
c = sql_battery.corpus(); have = {x.get('sql') for x in c if not x.get('opt')}
cand = [x for x in dict.fromkeys(cand) if x not in have and '\xff' not in x]
outs = sqlrun.run(w, [sqlrun.record(x.encode()) for x in cand])
print(len(c), 'before;', len(cand), 'new,', sum(o.startswith('OK') for o in outs), 'accepted', sum(not o.startswith(('OK', 'ERR')) for o in outs), 'odd')
for x, o in zip(cand, outs):
    if not o.startswith(('OK', 'ERR')): print('ODD', x, o[:200])
if '--write' in sys.argv:
    c += [{'sql': x, 'out': o} for x, o in zip(cand, outs)]
    p = os.path.join(pipeline.VERIF, 'golden', 'corpus.json.gz')
    with gzip.GzipFile(p, 'wb', mtime=0) as f: f.write(json.dumps(c).encode())
    print(os.path.getsize(p))
else:
    for x, o in random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1).sample([z for z in zip(cand, outs) if z[1].startswith('ERR')][:40], 1): print(repr(x[:150]), '=>', o[:150])
w.close()
