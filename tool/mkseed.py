#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: turns the current modification of /repo's working tree plus /tmp/seed/demo.cpp and
/tmp/seed/meta.json into /verif/seeded/ID, after confirming build, tests and demonstration; restores /repo."""
import sys, os, subprocess, json, shutil
i, prop = sys.argv[1], sys.argv[2]
d = '/verif/seeded/' + i
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
diff = sh('git -C /repo diff').stdout
assert diff, 'no change'
os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'wb').write(diff)
shutil.copy('/tmp/seed/demo.cpp', d + '/demo.cpp')
shutil.rmtree(d + '/stubs', ignore_errors=True); shutil.copytree('/verif/stubs', d + '/stubs')
shutil.copy('/verif/tool/demo_common.sh', d + '/demo_common.sh')
m = json.load(open('/tmp/seed/meta.json')); m['property'] = prop
json.dump(m, open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.sh', 'w').write('''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
. "$here/demo_common.sh"
demo_build "$here" "$t/demo" "$t"
timeout 60 "$t/demo"
''')
def build_test():
    r = sh('bash /opt/vp/build.sh')
    if r.returncode: return 'build failed ' + r.stdout.decode()[-500:]
    sh('bash /opt/vp/test.sh /tmp/seed/o.json'); o = json.load(open('/tmp/seed/o.json'))
    return None if len(o['passed']) == 3 and not o['failed'] else 'tests: %s' % o
try:
    e = build_test(); assert e is None, e
    r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
    print('patched demo', r1.returncode, r1.stdout.decode()[-300:])
finally:
    sh('git -C /repo checkout -- .')
e = build_test(); assert e is None, e
r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
print('clean demo', r0.returncode, r0.stdout.decode()[-300:])
ok = r0.returncode == 0 and r1.returncode not in (0, 3)
print('SEED', i, 'OK' if ok else 'BAD')
if not ok: shutil.rmtree(d)
