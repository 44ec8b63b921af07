"""Write MANIFEST.json from properties.jsonl."""
import json
import os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'A': 'runtime monitoring: online value monitor (reference-model oracle) over random operation histories',
    'B': 'runtime monitoring: online invariant monitor of remembered facts and predicates over random histories',
    'C': 'runtime monitoring: online contract monitors over random histories and configurations',
    'D': 'runtime monitoring: differential oracle with own parsers/writers on hostile documents and environments',
    'E': 'runtime monitoring: parse-back oracle over renderings of random objects'}
NOTE = ('Everything observed in the explored executions obeyed the property; the reference model (plain Python values) and the generators are trusted; single process under PyPy 3.9, objects of bounded size.')
checks = []
for line in open(os.path.join(R, 'properties.jsonl')):
    p = json.loads(line)['id']
    checks.append({'property': p, 'quick_cmd': './check ' + p, 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + p, 'evidence_file': 'evidence/%s.json' % p,
                   'technique': TECH[p[0]], 'level': 'exploration', 'level_note': NOTE})
json.dump({'version': 1, 'setup_cmd': 'true', 'hooks': {'guard': 'none', 'enable': 'no hooks: the monitors use public functions and properties only', 'source_commits': []},
           'checks': checks, 'not_applicable': []}, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
