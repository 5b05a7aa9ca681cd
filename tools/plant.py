"""Plants bugs: python3 tools/plant.py SPEC.py [ID...]

SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)].  Every bug is applied to a
scratch copy of /repo; it is kept in seeded/ only when the demo passes without it, fails with it, and the tests pass."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
'''


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def plant(b, base):
    work = tempfile.mkdtemp(prefix='plant')
    try:
        repo = os.path.join(work, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        d = os.path.join(work, b['id'])
        os.makedirs(d)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].strip('\n') + '\n')
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        r = run(['bash', os.path.join(d, 'demo.sh')], repo, timeout=300)
        if r.returncode:
            return 'demo fails on the unchanged tree: ' + r.stdout[-600:]
        for f, old, new in b['edits']:
            p = os.path.join(repo, 'src/reor', f)
            t = open(p).read()
            if t.count(old) != 1:
                return 'pattern occurs %d times in %s: %r' % (t.count(old), f, old[:60])
            open(p, 'w').write(t.replace(old, new))
        diff = run(['git', 'diff'], repo).stdout
        r = run(['bash', os.path.join(d, 'demo.sh')], repo, timeout=300)
        if not r.returncode:
            return 'demo passes with the change'
        msg = r.stdout.strip().splitlines()[-1:]
        r = run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], repo, timeout=900,
                env=dict(os.environ, PYTHONPATH=os.path.join(repo, 'src'), PYTHONDONTWRITEBYTECODE='1'))
        if r.returncode:
            return 'tests fail: ' + r.stdout[-300:]
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        out = os.path.join(HERE, 'seeded', b['id'])
        if os.path.isdir(out):
            shutil.rmtree(out)
        shutil.copytree(d, out)
        return 'planted (%s)' % ''.join(msg)[:150]
    finally:
        shutil.rmtree(work)


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    for b in g['BUGS']:
        if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
            continue
        print(b['id'], plant(b, None), flush=True)


main()
