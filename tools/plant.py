"""plant.py SPECS.py [ID...] : build planted bugs from a list of specs and try them.

A spec is dict(id, prop, edits=[(file, old, new)], demo=python source, needs, breaks).
For each: scratch copy of /repo, apply, make the diff, run the repository tests, the demo
on the unchanged and on the changed tree, and the property's check against the copy.
Kept in seeded/<id>/ when the tests pass and the demo tells the trees apart.
"""
import sys, os, subprocess, shutil, tempfile, json, runpy
from concurrent.futures import ThreadPoolExecutor
SEED = '/verif/seeded'
DEMO = 'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})),
                          capture_output=True, text=True, timeout=timeout)


def one(s):
    tmp = tempfile.mkdtemp(dir='/tmp/w/pl')
    try:
        r = tmp + '/repo'
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('__pycache__'))
        for f, old, new in s['edits']:
            p = r + '/padasip/' + f
            t = open(p, newline='').read()
            if '\r\n' in t:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if t.count(old) < 1:
                return s['id'], 'TEXT NOT FOUND ' + f
            open(p, 'w', newline='').write(t.replace(old, new, 1))
        diff = subprocess.run(['git', 'diff', '--binary', '--no-color'], cwd=r, capture_output=True).stdout
        # deleted lines must be lines of the original repository
        out = SEED + '/' + s['id']
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        open(out + '/patch.diff', 'wb').write(diff)
        open(out + '/demo.sh', 'w').write('#!/bin/bash\n' + DEMO)
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n'
            'import warnings; warnings.simplefilter("ignore")\n'
            'import numpy as np\nimport padasip as pa\n\n' + s['demo'].strip() + '\n')
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        env = dict(PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OPENBLAS_CORETYPE='Haswell')
        t = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -W ignore -o "python_files=*.py" tests', r, env)
        d0 = sh(f'bash {out}/demo.sh', '/repo', timeout=300)
        d1 = sh(f'bash {out}/demo.sh', r, timeout=300)
        ok = t.returncode == 0 and d0.returncode == 0 and d1.returncode != 0
        msg = f"tests {'ok' if t.returncode == 0 else 'FAIL'} demo {d0.returncode}/{d1.returncode}"
        if not ok:
            shutil.rmtree(out)
            return s['id'], 'REJECTED ' + msg + ' ' + (t.stdout[-300:] if t.returncode else '') + d0.stderr[-300:]
        res = []
        for pid in [s['prop']] + s.get('also', []):
            try:
                c = sh(f'python3-vt /verif/check.py {pid} --tier quick --jobs 2', '/verif', dict(VERIF_REPO=r), 1500)
                res.append(f"{pid}:{c.returncode} " + ' | '.join(l[:150] for l in c.stdout.splitlines() if 'VIOL' in l)[:200] + (c.stderr[-200:] if c.returncode not in (0, 1) else ''))
            except subprocess.TimeoutExpired:
                res.append(pid + ':TIMEOUT')
        return s['id'], ('CAUGHT ' if ':1' in res[0] else 'MISSED ') + msg + '  ' + ' ;; '.join(res)
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    specs = runpy.run_path(sys.argv[1])['SPECS']
    if sys.argv[2:]:
        specs = [s for s in specs if s['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(one, specs):
            print(i, m, flush=True)
