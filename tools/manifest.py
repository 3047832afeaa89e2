#!/usr/bin/env python3
"""Writes MANIFEST.json. The level of every check comes from the harness (harness/v*/src/*.rs)."""
import json, os, re, glob
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
src = ''.join(open(f).read() for f in sorted(glob.glob(os.path.join(R, 'harness/v*/src/*.rs'))))
levels = dict(re.findall(r'Check \{ id: "(C\d\d)", level: "(\w+)"', src))
exec(open(os.path.join(R, 'tools/notes.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in NOTES and (i in levels or i in LEVELS):
        t, n = NOTES[i]
        checks.append({'property': i, 'quick_cmd': './run.sh %s quick' % i, 'thorough_cmd': './run.sh %s thorough' % i, 'technique': t, 'level': levels.get(i) or LEVELS[i], 'level_note': n})
    else: na.append({'property': i, 'reason': NA.get(i, 'the check for this property is not built yet')})
m = {'version': 1, 'setup_cmd': './run.sh build', 'hooks': {'guard': 'speedy_verif', 'enable': 'RUSTFLAGS="--cfg speedy_verif" (run.sh does it): lets the harness choose the capacity of the internal stream buffer', 'source_commits': ['0d27619']},
     'checks': checks, 'not_applicable': na, 'notes': 'Every check enumerates a bounded space completely; see DESIGN.md for the bounds.'}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(R, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks;', [x['property'] for x in na], 'not claimed')
