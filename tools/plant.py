#!/opt/venv/bin/python
"""Write and confirm planted bugs.

    plant.py [--check] [--tests] [id ...]

Reads the descriptions in tools/bugs/*.py (variables PROPERTY, NEEDS, BREAKS,
EDITS = [(file, old, new[, nth])], DEMO) and writes seeded/<id>/.  Confirms in
a scratch clone that the demonstration passes without and fails with the
patch; --tests runs the repository's own tests on the patched clone; --check
runs the property's check against the patched clone.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
BASE = 'adf6cb8'


def sh(cmd, cwd, env=None, timeout=1800):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str),
                          capture_output=True, text=True, timeout=timeout)


def apply(root, edits):
    for edit in edits:
        name, old, new = edit[:3]
        path = os.path.join(root, name)
        with open(path, newline='') as f:
            text = f.read()
        if '\r\n' in text:
            old, new = (s.replace('\n', '\r\n') for s in (old, new))
        n = text.count(old)
        nth = edit[3] if len(edit) > 3 else None
        if nth is None:
            if n != 1:
                sys.exit(f'{name}: {n} occurrences of {old!r}')
            text = text.replace(old, new)
        else:
            pos = -1
            for _ in range(nth + 1):
                pos = text.index(old, pos + 1)
            text = text[:pos] + new + text[pos+len(old):]
        with open(path, 'w', newline='') as f:
            f.write(text)


def plant(bug, tests, check):
    src = os.path.join(HERE, 'bugs', bug + '.py')
    d = {}
    exec(compile(open(src).read(), src, 'exec'), d)
    work = tempfile.mkdtemp(prefix='plant_')
    out = [bug, d['PROPERTY']]
    try:
        clone = os.path.join(work, 'repo')
        sh(['git', 'clone', '-q', REPO, clone], work)
        dest = os.path.join(VERIF, 'seeded', bug)
        os.makedirs(dest, exist_ok=True)
        shutil.copy(os.path.join(HERE, 'demo_common.py'),
                    os.path.join(dest, 'common.py'))
        with open(os.path.join(dest, 'demo.py'), 'w') as f:
            f.write('import sys\nimport os\n'
                    'sys.path.insert(0, os.path.dirname(os.path.abspath('
                    '__file__)))\n'
                    'from common import *  # noqa\n\n' + d['DEMO'].strip()
                    + "\nprint('demonstration passed')\n")
        with open(os.path.join(dest, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\n'
                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(dest, 'demo.sh'), 0o755)
        with open(os.path.join(dest, 'meta.json'), 'w') as f:
            json.dump({'property': d['PROPERTY'], 'needs': d['NEEDS'].strip(),
                       'what_it_breaks': d['BREAKS'].strip()}, f, indent=1)
        demo = os.path.join(dest, 'demo.sh')
        r = sh(['bash', demo], clone)
        out.append('clean demo ok' if r.returncode == 0 else
                   'CLEAN DEMO FAILS: ' + (r.stdout + r.stderr)[-800:])
        r = sh('git status --short', clone)
        if r.stdout.strip():
            out.append('DEMO LEAVES FILES: ' + r.stdout)
        apply(clone, d['EDITS'])
        r = sh('git diff', clone)
        with open(os.path.join(dest, 'patch.diff'), 'w', newline='') as f:
            f.write(subprocess.run(['git', 'diff'], cwd=clone,
                                   capture_output=True).stdout.decode())
        for edit in d['EDITS']:
            name = edit[0]
            base = subprocess.run(['git', 'show', BASE + ':' + name],
                                  cwd=REPO, capture_output=True).stdout
            lines = {x.strip() for x in base.decode().split('\n')}
            diff = subprocess.run(['git', 'diff', '--', name], cwd=clone,
                                  capture_output=True).stdout.decode()
            for line in diff.split('\n'):
                if (line.startswith('-') and not line.startswith('---')
                        and line[1:].strip() not in lines):
                    out.append('NOT AN ORIGINAL LINE: ' + line)
        a = sh(['git', 'apply', '--check',
                os.path.join(dest, 'patch.diff')], REPO)
        if a.returncode:
            out.append('PATCH DOES NOT APPLY ' + a.stderr)
        r = sh(['bash', demo], clone)
        out.append('demo catches: ' + (r.stdout + r.stderr).strip()
                   .split('\n')[-1][:200] if r.returncode
                   else 'DEMO MISSES')
        if tests:
            r = sh('/opt/venv/bin/python -m pytest 2>&1 | tail -3', clone,
                   {'PYTEST_ADDOPTS': '-q -p no:cacheprovider',
                    'MPLBACKEND': 'Agg', 'PYTHONDONTWRITEBYTECODE': '1',
                    'NUMBA_CACHE_DIR': os.path.join(work, 'nb')})
            out.append('tests: ' + r.stdout.strip().split('\n')[-1])
        if check:
            r = sh(['./vrun', d['PROPERTY']], VERIF,
                   {'VERIF_REPO': clone,
                    'VERIF_SEED': os.environ.get('VERIF_SEED', '1')})
            lines = [x for x in r.stdout.split('\n') if 'VIOLATION' in x]
            out.append(f'check rc={r.returncode} '
                       + (lines[0] if lines else
                          'MISSED ' + (r.stdout+r.stderr)[-300:]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return '\n   '.join(out)


if __name__ == '__main__':
    args = sys.argv[1:]
    tests, check = '--tests' in args, '--check' in args
    ids = [a for a in args if not a.startswith('--')]
    if not ids:
        ids = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, 'bugs'))
                     if f.endswith('.py'))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda b: plant(b, tests, check), ids):
            print(r, flush=True)
