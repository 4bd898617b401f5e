#!/usr/bin/env python3
"""mkseed.py SPEC.py...: each spec assigns id, prop, edits=[(file, old, new)], demo (C++ main), needs, breaks.
Builds /verif/seeded/<id>, confirms: tests still pass with the change, demo passes without it and fails with it."""
import sys, os, subprocess, json, shutil, tempfile
R = '/repo'; V = '/verif/seeded'
SH = '''#!/bin/bash
# exit 0 iff the behaviour shown by demo.cpp holds for the sources below ./src
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O1 -w -I"$PWD/src" "$d/demo.cpp" -o "$t/demo" || exit 1
cd "$t" && timeout 60 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
for f in sys.argv[1:]:
    ns = {}; exec(open(f).read(), ns)
    for s in ns['S']:
        assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
        d = os.path.join(V, s['id']); os.makedirs(d, exist_ok=True)
        open(d + '/demo.cpp', 'w').write(s['demo']); open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        ok = True
        p = sh(d + '/demo.sh', cwd=R)
        if p.returncode: print(s['id'], 'DEMO FAILS ON CLEAN', p.stdout.decode()[-800:]); ok = False
        try:
            for fn, a, b in s['edits']:
                t = open(R + '/' + fn).read()
                assert t.count(a) == 1, (s['id'], fn, a, t.count(a))
                open(R + '/' + fn, 'w').write(t.replace(a, b))
            open(d + '/patch.diff', 'wb').write(sh('git -C /repo diff').stdout)
            p = sh(d + '/demo.sh', cwd=R)
            if p.returncode == 0: print(s['id'], 'DEMO PASSES WITH PATCH'); ok = False
            elif 'error:' in p.stdout.decode(): print(s['id'], 'DEMO BUILD ERROR', p.stdout.decode()[-800:]); ok = False
            c = sh('cd /verif && timeout 900 python3 check.py %s' % s['prop']); out = c.stdout.decode()
            caught = c.returncode == 1 and 'VIOLATION property=' in out
            if '--notest' not in os.environ.get('MKSEED', ''):
                sh('bash /opt/vp/test.sh /tmp/seedtest.json')
                r = json.load(open('/tmp/seedtest.json')); base = json.load(open('/opt/vp/BASELINE.json'))
                bl = base.get('stable') or base.get('passed') or base.get('tests') or base
                miss = [x for x in bl if x not in set(r['passed'])] if isinstance(bl, list) else []
                if miss or len(r['passed']) < 370: print(s['id'], 'TESTS FAIL', len(r['passed']), r['failed'][:5]); ok = False
        finally: sh('git -C /repo checkout -- .')
        print(s['id'], 'ok' if ok else 'REJECTED', 'caught by ' + s['prop'] if caught else 'MISSED (rc %d) %s' % (c.returncode, out[-600:]))
        if not ok: shutil.rmtree(d)
