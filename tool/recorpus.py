"""Re-records the results in golden/corpus.json.gz from the current tree, printing every change for review.  By hand only."""
import sys, os, json, gzip
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pipeline, sqlrun, sql_battery
w = pipeline.Work(); c = sql_battery.corpus()
bad, n = sql_battery.run(w, c)
for k, s, a, b in bad: print(k, repr(s[:200])); print('   ', sql_battery.diff(a, b))
new = {s: b for k, s, a, b in bad}
for x in c: x['out'] = new.get(x['sql'], x['out'])
v = [x for x in c if 'sql' in x and x['out'].startswith('OK')]
for x, o in zip(v, sqlrun.run(w, [sqlrun.record(x['sql'].encode(), mode='W', **x.get('opt', {})) for x in v])):
    if '?' in o or not o.startswith('OK '): print('walk', repr(x['sql'][:200]), o[:100]); x.pop('reg', None); continue
    if 'reg' in x and x['reg'] != o: print('reg', repr(x['sql'][:200]), sql_battery.diff(x['reg'], o))
    if o != 'OK ': x['reg'] = o
    else: x.pop('reg', None)
if '--write' in sys.argv:
    with gzip.GzipFile(os.path.join(pipeline.VERIF, 'golden', 'corpus.json.gz'), 'wb', mtime=0) as f: f.write(json.dumps(c).encode())
w.close()
