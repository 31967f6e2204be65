"""Builds and runs the real scanner and parser (drivers/sql_battery.cpp) on texts."""
import os, re, json, subprocess
import pipeline
_exe = {}
def build(w):
    if w.dir not in _exe:
        g = pipeline.generate(w)
        src = pipeline.sources('ast') + pipeline.sources('parser') + [os.path.join(g, 'mizugaki/parser', f) for f in ('sql_parser_generated.cpp', 'sql_scanner_generated.cpp')] + [os.path.join(pipeline.VERIF, 'drivers', f) for f in ('sql_battery.cpp', 'walk.cpp')]
        fl = ['-DSERIALIZE_REGION', '-fno-strict-return', '-DNDEBUG']
        objs, fails = pipeline.compile_objs(w, src, fl)
        if [os.path.basename(f) for f, _ in fails] == ['walk.cpp']:
            o2, fails = pipeline.compile_objs(w, [os.path.join(pipeline.VERIF, 'drivers', 'walk_none.cpp')], fl); objs = [o for o in objs if o] + o2
        if fails: _exe[w.dir] = (None, 'does not compile: %s: %s' % (fails[0][0], fails[0][1][:1500]))
        else:
            exe = w.path('sql.exe'); ok, err = pipeline.link(w, objs, exe); _exe[w.dir] = (exe if ok else None, err)
    return _exe[w.dir]
def record(text, mode='P', nodes=0, depth=0, cand=0, desc=1, limits='-'):
    b = text if isinstance(text, bytes) else text.encode('utf8')
    return ('%s %d %d %d %d %s %d\n' % (mode, nodes, depth, cand, desc, limits, len(b))).encode() + b + b'\n'
def run(w, recs, jobs=None):
    """list of output lines; a record on which the process dies gives 'CRASH'"""
    exe, err = build(w)
    if not exe: raise pipeline.ToolError(err)
    from concurrent.futures import ThreadPoolExecutor
    jobs = jobs or pipeline.JOBS
    def part(rs):
        out = []
        while rs:
            try: r = subprocess.run([exe], input=b''.join(rs), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=300); o = r.stdout
            except subprocess.TimeoutExpired as e: o = e.stdout or b''
            ls = o.decode('latin1').split('\n')[:-1]
            out += ls[:len(rs)]; rs = rs[len(ls):]
            if rs: out.append('CRASH'); rs = rs[1:]
        return out
    n = max(1, (len(recs) + jobs - 1) // jobs)
    with ThreadPoolExecutor(jobs) as ex: return [x for p in ex.map(part, [recs[i:i + n] for i in range(0, len(recs), n)]) for x in p]
