#!/opt/venv/bin/python
"""Makes and verifies a planted bug: mkseed.py SPEC.py (defines id, prop, edits [(file, old, new)], needs, breaks, demo).

Verified in a scratch copy of /repo: the demo passes unchanged, fails with the change, and the tests pass with the change."""
import json
import os
import runpy
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, timeout = 900, **k):
    return subprocess.run(cmd, cwd = cwd, shell = True, capture_output = True, text = True, timeout = timeout, **k)


def main(fn, tests = True):
    s = runpy.run_path(fn)
    d = os.path.join(V, 'seeded', s['id'])
    w = f'/tmp/mkseed-{os.getpid()}'
    os.makedirs(w)
    try:
        sh(f'git -C /repo archive HEAD | tar x -C {w}', '/tmp')
        sh('cp -a /repo/resqpy/version.py ' + w + '/resqpy/ 2>/dev/null; git init -q; git add -A; git commit -qm x', w)
        for f, old, new in s['edits']:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1:
                print('FAIL edit occurs', t.count(old), 'times in', f, repr(old[:60]))
                return 1
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', w).stdout
        os.makedirs(d, exist_ok = True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write('import os\nimport sys\nsys.path.insert(0, os.getcwd())\n' + s['demo'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property = s['prop'], needs = s['needs'], what_it_breaks = s['breaks']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent = 1)
        env = dict(os.environ, PYTHONPATH = w)
        bad = sh(os.path.join(d, 'demo.sh'), w, env = env)
        good = sh(os.path.join(d, 'demo.sh'), '/repo', env = dict(os.environ, PYTHONPATH = '/repo'))
        ok = good.returncode == 0 and bad.returncode != 0
        if not ok or '-v' in sys.argv:
            print('good', good.returncode, good.stdout[-1500:], good.stderr[-1500:])
            print('bad', bad.returncode, bad.stdout[-800:], bad.stderr[-800:])
        tr = 'tests skipped'
        if ok and tests:
            a = sh(f'{PY} -m pytest -q -n 8 -x -p no:cacheprovider --ignore=tests/unit_tests/multiprocessing tests', w, env = env)
            b = sh(f'{PY} -m pytest -q -x -p no:cacheprovider tests/unit_tests/multiprocessing', w, env = env)
            tr = a.stdout.strip().split('\n')[-1] + ' / ' + b.stdout.strip().split('\n')[-1]
            if a.returncode or b.returncode:
                print('\n'.join(x for x in a.stdout.split('\n') if x.startswith(('FAILED', 'E  ')))[:1500])
                ok = False
        print(('OK ' if ok else 'FAIL ') + s['id'], s['prop'], tr)
        if not ok:
            shutil.rmtree(d)
        return 0 if ok else 1
    finally:
        shutil.rmtree(w)


if __name__ == '__main__':
    sys.exit(max(main(f, '--notests' not in sys.argv) for f in sys.argv[1:] if f.endswith('.py')))
