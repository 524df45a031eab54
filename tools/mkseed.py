"""mkseed helper: mk(id, prop, [(file, old, new)...], needs, breaks, demo_c) writes seeded/<id>/."""
import os, subprocess, json, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: behaviour intact
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -O1 -g -w -Iinclude -I. "$d/demo.c" -o "$t/demo" .libs/libpbc.a -lgmp -lm || exit 0
cp -r param "$t/"; cd "$t" && timeout 120 ./demo
'''
def mk(sid, prop, edits, needs, breaks, demo_c, demo_sh=None, extra={}):
    d = os.path.join(V, 'seeded', sid); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.check_call('git -C /repo archive HEAD | tar x -C ' + w, shell=True)
    subprocess.check_call('cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm b' % w, shell=True)
    for f, old, new in edits:
        p = os.path.join(w, f); s = open(p).read(); assert s.count(old) == 1, (sid, f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    if demo_c: open(os.path.join(d, 'demo.c'), 'w').write(demo_c)
    open(os.path.join(d, 'demo.sh'), 'w').write(demo_sh or DEMO)
    for k, v in extra.items(): open(os.path.join(d, k), 'w').write(v)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    shutil.rmtree(w)
