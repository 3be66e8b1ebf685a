"""Try planted bugs here: apply, build, stable tests, demo, check; undo. usage: seedtest.py [-q (no build/tests)] [-c CXX,CYY other checks] [ids...]"""
import json, os, subprocess, sys, time
V = '/verif/seeded'; args = sys.argv[1:]; quick = '-q' in args; args = [a for a in args if a != '-q']
ids = args or sorted(os.listdir(V))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = json.load(open('/opt/vp/BASELINE.json')); stable = base.get('passed') or base.get('stable') or base
assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
for i in ids:
    d = f'{V}/{i}'; meta = json.load(open(d + '/meta.json')); prop = meta['property']
    ok0 = sh(f'cp {d}/demo.sh {d}/*.c /tmp/sd/ && bash /tmp/sd/demo.sh' if 0 else f'bash {d}/demo.sh', cwd='/repo').returncode
    r = sh(f'git -C /repo apply {d}/patch.diff')
    if r.returncode: print(i, 'DOES NOT APPLY', r.stderr); continue
    try:
        t = ''
        if not quick:
            b = sh('bash /opt/vp/build.sh'); sh('bash /opt/vp/test.sh /tmp/seed.json')
            passed = set(json.load(open('/tmp/seed.json'))['passed']); t = f'build {b.returncode} tests {len(passed)} '
            if len(passed) < 34: t += '!! '
        ok1 = sh(f'bash {d}/demo.sh', cwd='/repo').returncode
        t0 = time.time(); c = sh(f'python3 /verif/check.py {prop} quick', env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
        v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        print(f'{i}: {prop} {t}demo {ok0}->{ok1} check rc={c.returncode} {"CAUGHT" if c.returncode==1 and v else "MISSED"} {time.time()-t0:.0f}s', flush=True)
    finally: sh('git -C /repo checkout -- .')
