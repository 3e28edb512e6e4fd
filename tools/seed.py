"""Confirm planted bugs, and run checks against them, in scratch copies.

usage: seed.py verify ID...          demo on unchanged and changed copy, tests
       seed.py check ID [CHECK...]   run quick checks against the changed copy
       seed.py matrix                check of its own property for all seeds
"""
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = pathlib.Path(__file__).resolve().parent.parent
S = V/'seeded'
PY = '/opt/venv/bin/python'


def copy(sid=None):
    d = tempfile.mkdtemp(prefix='seedcopy.', dir='/tmp')
    r = d+'/repo'
    shutil.copytree('/repo', r, symlinks=True,
                    ignore=shutil.ignore_patterns('__pycache__', '*.nbi',
                                                  '*.nbc', '.git'))
    if sid:
        p = subprocess.run(['git', 'apply', '--unsafe-paths',
                            f'--directory={r}', str(S/sid/'patch.diff')],
                           cwd='/', capture_output=True, text=True)
        assert p.returncode == 0, (sid, p.stderr)
    return d, r


def demo(sid, r):
    tmp = tempfile.mkdtemp(prefix='demo.', dir='/tmp')
    for f in (S/sid).iterdir():
        if f.suffix not in ('.diff', '.patch') and f.name != 'meta.json':
            shutil.copy(f, tmp)
    env = {**os.environ, 'NUMBA_CACHE_DIR': tmp+'/nb'}
    env.pop('PYTHONPATH', None)
    p = subprocess.run(['bash', tmp+'/demo.sh'], cwd=r, env=env, timeout=300,
                       capture_output=True, text=True)
    shutil.rmtree(tmp)
    return p.returncode, (p.stdout+p.stderr)[-300:]


def tests(r):
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    xml = r+'/../o.xml'
    env = {**os.environ, 'PYTHONPATH': r, 'NUMBA_CACHE_DIR': r+'/../nb',
           'MPLBACKEND': 'Agg', 'MPLCONFIGDIR': r+'/../mpl',
           'PYTHONHASHSEED': '0', **{x+'_NUM_THREADS': '1' for x in (
               'OPENBLAS', 'OMP', 'MKL', 'NUMBA')},
           'PATH': '/opt/venv/bin:'+os.environ['PATH']}
    subprocess.run([PY, '-m', 'pytest', '-q', '--mpl', '-p',
                    'no:cacheprovider', '--timeout=300', '-n', '8', '--dist',
                    'loadfile', '--deselect',
                    'tests/test_cli.py::test_import_time', '-o',
                    'junit_family=xunit2', '--junitxml='+xml, 'tests'],
                   cwd=r, env=env, capture_output=True)
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(xml).getroot().iter('testcase'):
        if not len([x for x in c if x.tag in ('failure', 'error',
                                              'skipped')]):
            ok.add(c.get('classname')+'::'+c.get('name'))
    norm = {re.sub(r'[^A-Za-z0-9]+', '.', o) for o in ok}
    return [b for b in base if re.sub(r'[^A-Za-z0-9]+', '.', b).replace(
        '.py.', '.') not in norm and not any(
        x in b for x in ('import_time', 'test_main[subprocess]'))]


def verify(sid):
    d0, r0 = copy()
    d1, r1 = copy(sid)
    try:
        with ThreadPoolExecutor(2) as ex:
            a, b = ex.map(demo, [sid, sid], [r0, r1])
        miss = tests(r1) if a[0] == 0 and b[0] else ['not run']
        good = a[0] == 0 and b[0] != 0 and not miss
        print(('OK  ' if good else 'BAD '), sid, a if a[0] else 0, b,
              'missing', miss[:4], flush=True)
        return good
    finally:
        shutil.rmtree(d0)
        shutil.rmtree(d1)


def check(sid, checks, seed='1', tier='quick'):
    d, r = copy(sid)
    try:
        for c in checks:
            env = {**os.environ, 'VEMPY_REPO': r, 'VEMPY_EVIDENCE': d,
                   'VERIF_SEED': seed}
            p = subprocess.run([str(V/'run_check.sh'), c, tier], env=env,
                               capture_output=True, text=True)
            v = [x for x in p.stdout.splitlines() if 'VIOLATION' in x or
                 'mechanism' in x]
            print(sid, c, 'exit', p.returncode, 'CAUGHT' if p.returncode == 1
                  else 'MISSED', v[:2], flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'verify':
        for a in args or sorted(x.name for x in S.iterdir()):
            verify(a)
    elif cmd == 'check':
        p = json.load(open(S/args[0]/'meta.json'))['property']
        check(args[0], args[1:] or [p])
    elif cmd == 'matrix':
        with ThreadPoolExecutor(2) as ex:
            for s in args or sorted(x.name for x in S.iterdir()):
                p = json.load(open(S/s/'meta.json'))['property']
                ex.submit(check, s, [p])
