#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the specs and the notes below."""
import json, os, subprocess, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import specs, notes
HOOK = 'fcab9ea'
NA = notes.NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(here, '..', 'properties.jsonl'))]
full = subprocess.run(['git', '-C', '/repo', 'rev-parse', HOOK], capture_output=True, text=True).stdout.strip()
checks, na = [], []
for p in props:
    i = p['id']
    if i in specs.SPECS:
        s = specs.SPECS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i,
                           thorough_cmd='python3 check.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=notes.technique(i),
                           level=s.get('level', 'model_checking'), level_note=notes.note(i)))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'its check is still being built')))
m = dict(version=1, setup_cmd='python3 check.py --setup',
         hooks=dict(guard='CEST_VERIF_CHUNK_SIZE', enable='-DCEST_VERIF_CHUNK_SIZE=n (n = 2, 3, 4, 5) when a harness is compiled',
                    source_commits=[full]),
         checks=checks, not_applicable=na,
         notes='Every check compiles its harness against /repo/include and enumerates executions of the real code; see DESIGN.md.')
with open(os.path.join(here, '..', 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
