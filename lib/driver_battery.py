"""Builds and runs drivers/driver_battery.cpp: driver functions of the real parser on enumerated small cases."""
import os, subprocess
import pipeline, sql_battery
RULE = 'driver_battery.cpp: every comment/token interleaving up to length 9, every set of 11 placeholder positions, names up to 5 characters, sign nestings, sizes around the limits, all option pairs; SQL corpus'
def run(w, which):
    g = pipeline.generate(w)
    src = pipeline.sources('ast') + pipeline.sources('parser') + [os.path.join(g, 'mizugaki/parser', f) for f in ('sql_parser_generated.cpp', 'sql_scanner_generated.cpp')] + [os.path.join(pipeline.VERIF, 'drivers', 'driver_battery.cpp')]
    objs, fails = pipeline.compile_objs(w, src, ['-DSERIALIZE_REGION', '-fno-strict-return', '-DNDEBUG'])
    if fails: return [], 0, 'does not compile: %s: %s' % (fails[0][0], fails[0][1][:800])
    exe = w.path('driver.exe'); ok, err = pipeline.link(w, objs, exe)
    if not ok: return [], 0, 'does not link: ' + err[:800]
    try: r = subprocess.run([exe, which], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200, cwd=w.dir)
    except subprocess.TimeoutExpired: return [], 0, 'did not end in 200 s'
    out = r.stdout.decode('utf8', 'replace').split('\n'); fs = []; n = 0
    for l in out:
        if l.startswith('FAIL '): fs.append(l[5:].split(' ', 1))
        elif l.startswith('CASES '): n = int(l[6:])
    if r.returncode != 0: fs.append([which, 'the process ended with status %d: %s' % (r.returncode, r.stderr.decode('utf8', 'replace')[-300:])])
    return fs, n, None
def report(which, only=None):
    def go(rep, w, classes):
        fs, n, err = run(w, which)
        rep.cases += n
        if err: rep.undecided.append('driver battery: ' + err)
        rep.concrete += [('driver functions', what) for p, what in fs if p == which]
        if classes: sql_battery.report(rep, w, classes, only)
        rep.concrete_rule = RULE
    return go
