"""plant.py ID PROP FILE NEEDS WHAT  < stdin: OLD\n====\nNEW ; demo in /verif/seeded/ID/demo.py.
Writes patch.diff, meta.json, demo.sh; checks the demo on both trees (a scratch copy of /repo)."""
import sys, os, json, subprocess, shutil, tempfile
ID, PROP, FILE, NEEDS, WHAT = sys.argv[1:6]
old, new = sys.stdin.read().split('\n====\n')
new = new.rstrip('\n')
old = old.rstrip('\n')
d = '/verif/seeded/' + ID
os.makedirs(d, exist_ok=True)
p = '/repo/' + FILE
s = open(p).read()
assert s.count(old) == 1, 'occurrences: %d' % s.count(old)
t = tempfile.mkdtemp(prefix='plant', dir='/tmp')
w = t + '/repo'
subprocess.check_call(['cp', '-a', '/repo', w])
open(w + '/' + FILE, 'w').write(s.replace(old, new))
diff = subprocess.run(['git', 'diff'], cwd=w, capture_output=True, text=True).stdout
open(d + '/patch.diff', 'w').write(diff)
json.dump(dict(property=PROP, needs=NEEDS, what_it_breaks=WHAT), open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.sh', 'w').write('''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
S=$(mktemp -d) || exit 3
trap 'rm -rf "$S"' EXIT
export DEMO_SCRATCH=$S PYTHONPATH=$PWD TMPDIR=$S
cd "$S" && timeout 280 python "$D/demo.py"
''')
for tree, want in (('/repo', True), (w, False)):
    r = subprocess.run(['bash', d + '/demo.sh'], cwd=tree, capture_output=True, text=True)
    ok = (r.returncode == 0) == want
    print(tree, 'rc', r.returncode, 'OK' if ok else 'BAD', (r.stdout + r.stderr)[-600:] if not ok else r.stderr.strip().splitlines()[-1:])
shutil.rmtree(t)
