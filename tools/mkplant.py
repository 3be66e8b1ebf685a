"""Write /verif/seeded/<id>/ from edits of /repo: plant(id, property, [(file, old, new)...], sources, demo_c, needs, breaks)."""
import json, os, subprocess, sys, tempfile, shutil
BASE = '516e009'
def plant(pid, prop, edits, sources, demo, needs, breaks, flags='', pre='', run='"$d/demo"'):
    wt = tempfile.mkdtemp(prefix='plant.')
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', wt + '/w', 'HEAD'])
    w = wt + '/w'
    try:
        for f, a, b in edits:
            p = f'{w}/{f}'; s = open(p).read()
            assert s.count(a) == 1, (pid, f, s.count(a), a)
            ln = s[:s.index(a)].count('\n') + 1; n = a.rstrip('\n').count('\n') + 1
            open(p, 'w').write(s.replace(a, b))
        diff = subprocess.check_output(['git', '-C', w, 'diff']).decode()
        # every removed line must be one of the original repository
        fn = None; bad = []
        for line in diff.splitlines():
            if line.startswith('--- a/'): fn = line[6:]; orig = subprocess.run(['git','-C','/repo','show',f'{BASE}:{fn}'],capture_output=True,text=True).stdout.splitlines()
            elif line.startswith('-') and not line.startswith('---') and line[1:].strip() and line[1:] not in orig: bad.append(line)
        if bad: print(pid, 'NOT ORIGINAL:', bad)
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w]); shutil.rmtree(wt, ignore_errors=True)
    d = f'/verif/seeded/{pid}'; os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.c', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0: the property holds in this case; nonzero: it does not\nhere=$(cd "$(dirname "$0")" && pwd)\nd=$(mktemp -d) || exit 2\ntrap \'rm -rf "$d"\' EXIT\n'
        f'gcc -std=c99 -D_GNU_SOURCE -g -w {flags} -I. -o "$d/demo" "$here/demo.c" {" ".join(sources)} -lm -ldl || exit 2\n{pre}' + f'cd "$d" && timeout 60 {run}\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
