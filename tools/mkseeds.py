#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from tools/seeds/bugs.py and tries every planted bug.
   mkseeds.py [--nocheck] [id ...]   (all by default); /repo must be clean and is left clean."""
import json, os, shutil, subprocess, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T); R = '/repo'
sys.path.insert(0, T + '/seeds'); import bugs
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, errors='replace', **k)
def build(): r = sh('bash /opt/vp/build.sh'); return r.returncode == 0, r.stdout[-1500:] + r.stderr[-1500:]
def tests():
    sh('bash /opt/vp/test.sh /tmp/seed-tests.json'); d = json.load(open('/tmp/seed-tests.json')); base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('stable') or base.get('passed') or base.get('stable_tests') or d['passed']
    return [t for t in stable if t not in d['passed']]
def clean(): sh('git -C /repo checkout -q -- .')
want = [a for a in sys.argv[1:] if not a.startswith('-')]; check = '--nocheck' not in sys.argv
assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo is not clean'
todo = [b for b in bugs.BUGS if not want or b['id'] in want]; res = {}
def write(b):
    d = f"{V}/seeded/{b['id']}"; os.makedirs(d, exist_ok=True)
    for f, old, new in b['edits']:
        t = open(f'{R}/{f}').read(); assert t.count(old) >= 1, (b['id'], f, 'not found', old)
        assert t.count(old) == 1 or b.get('all'), (b['id'], f, t.count(old), 'times', old)
        open(f'{R}/{f}', 'w').write(t.replace(old, new))
    p = sh('git -C /repo diff').stdout; open(d + '/patch.diff', 'w').write(p)
    for f in ('demo.hpp', 'demo.sh'): shutil.copy(f'{T}/seeds/{f}', f'{d}/{f}')
    if b.get('script'):
        open(d + '/demo.sh', 'w').write(b['script']); os.unlink(d + '/demo.hpp')
    else: open(d + '/demo.cpp', 'w').write('#include "demo.hpp"\n' + b.get('pre', '') + 'int main()\n{\n' + b['demo'].strip('\n') + '\n\treturn bad ? 1 : 0;\n}\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
for b in todo:
    try:
        write(b); ok, log = build()
        if not ok: res[b['id']] = 'DOES NOT BUILD ' + log; print(b['id'], res[b['id']]); continue
        t = tests()
        if t: res[b['id']] = f'TESTS FAIL {t}'; print(b['id'], res[b['id']]); continue
        r = sh(['bash', f"{V}/seeded/{b['id']}/demo.sh"], cwd=R); s = f'demo {r.returncode}'
        if r.returncode in (0, 3): s += ' BAD ' + r.stderr[-800:]
        if check:
            c = sh(['python3', V + '/run.py', b['property']], env=dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick'))
            ev = json.load(open(f"{V}/evidence/{b['property']}.json")) if c.returncode == 1 else {}
            s += f" {b['property']} " + ('caught %.0fs' % ev.get('wall_s', 0) if c.returncode == 1 else f'MISSED rc={c.returncode}')
            s += ' | ' + c.stdout.strip().split('\n')[0][:150]
        res[b['id']] = s
    finally:
        clean()
    print(b['id'], res[b['id']], flush=True)
if check and not want:
    with open(V + '/seeded/RESULTS.md', 'w') as o:
        o.write('Planted bug | property | needs | quick check (seed 1)\n---|---|---|---\n')
        for b in todo: o.write(f"{b['id']} | {b['property']} | {b['needs']} | {'caught' if ' caught ' in res[b['id']] else res[b['id']][:60]}\n")
ok, log = build(); assert ok, log
for b in todo:
    r = sh(['bash', f"{V}/seeded/{b['id']}/demo.sh"], cwd=R)
    if r.returncode: print(b['id'], 'DEMO FAILS ON THE CLEAN TREE', r.returncode, r.stderr[-800:])
shutil.rmtree(V + '/replays', ignore_errors=True)
