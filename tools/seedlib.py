"""Build a seeded bug: seed(id, prop, edits, needs, breaks, demo, flags) writes /verif/seeded/<id>/ against /repo HEAD."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# builds the demonstration against /repo (after build.sh) in a scratch folder and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd); scratch=$(mktemp -d); trap 'rm -rf "$scratch"' EXIT
g++ -std=c++17 -O1 -g %(flags)s -I/repo/include -I/repo/_build "$here/demo.cpp" %(libs)s -o "$scratch/demo" -pthread || exit 3
cd "$scratch" && timeout 120 ./demo
'''
def seed(id, prop, edits, needs, breaks, demo, flags='', libs='/repo/_build/src/libsodautils.a'):
    d = os.path.join(HERE, 'seeded', id); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp(); w = os.path.join(t, 'w')
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w, 'HEAD'])
    try:
        for f, old, new in edits:
            p = os.path.join(w, f); s = open(p).read()
            assert s.count(old) >= 1, (id, f, old); assert s.count(old) == 1, (id, 'ambiguous', old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', w, 'diff']).decode()
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w]); shutil.rmtree(t, ignore_errors=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'demo.cpp'), 'w').write(demo); open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH % dict(flags=flags, libs=libs)); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
