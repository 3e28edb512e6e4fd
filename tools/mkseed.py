"""Create seeded/<id> from a list of replacements: mkseed.py SPEC.py

SPEC.py defines S = [dict(id, prop, file, edits=[(old, new)], needs, breaks,
demo)], where demo is a python program (exit 0: property holds).
"""
import json
import pathlib
import subprocess
import sys
import tempfile
import difflib

V = pathlib.Path(__file__).resolve().parent.parent
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns['S']:
    if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]:
        continue
    d = V/'seeded'/s['id']
    d.mkdir(parents=True, exist_ok=True)
    patch = ''
    files = {}
    for e in s['edits']:
        f, old, new = e if len(e) == 3 else (s['file'], *e)
        txt = files.get(f) or open('/repo/'+f).read()
        assert txt.count(old) == 1, (s['id'], txt.count(old), old)
        files[f] = txt.replace(old, new)
    for f, new in files.items():
        old = open('/repo/'+f).read()
        patch += ''.join(difflib.unified_diff(
            old.splitlines(True), new.splitlines(True), 'a/'+f, 'b/'+f))
    (d/'patch.diff').write_text(patch)
    (d/'meta.json').write_text(json.dumps({
        'property': s['prop'], 'needs': ' '.join(s['needs'].split()),
        'what_it_breaks': ' '.join(s['breaks'].split())}, indent=1)+'\n')
    (d/'demo.py').write_text(s['demo'].lstrip('\n'))
    (d/'demo.sh').write_text(
        '#!/bin/bash\n# run with cwd = repository; exit 0: property holds\n'
        'export PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
        'HERE="$(cd "$(dirname "$0")" && pwd)"\n'
        'exec /opt/venv/bin/python -W ignore "$HERE/demo.py"\n')
    p = subprocess.run(['git', '-C', '/repo', 'apply', '--check',
                        str(d/'patch.diff')], capture_output=True, text=True)
    print(s['id'], 'applies' if p.returncode == 0 else p.stderr)
