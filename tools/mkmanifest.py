"""Write MANIFEST.json from properties.jsonl and the existing checks."""
import json
import pathlib
import re

V = pathlib.Path(__file__).resolve().parent.parent
NOTES = json.loads((V/'tools/notes.json').read_text())
checks, na = [], []
for line in (V/'properties.jsonl').read_text().splitlines():
    p = json.loads(line)
    i = p['id']
    if (V/f'checks/{i.lower()}.py').exists():
        checks.append({
            'property': i,
            'technique': 'runtime monitoring: ' + NOTES[i][0],
            'level': 'exploration',
            'level_note': NOTES[i][1],
            'quick_cmd': f'./run_check.sh {i} quick',
            'thorough_cmd': f'./run_check.sh {i} thorough',
        })
    else:
        na.append({'property': i, 'reason': NOTES.get(i, [
            '', 'check not built yet'])[1]})
out = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
       'not_applicable': na}
(V/'MANIFEST.json').write_text(json.dumps(out, indent=1) + '\n')
