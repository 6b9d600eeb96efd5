"""Writes MANIFEST.json from the property list and the registered checks."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('TLC checks the laws of the TLA+ specification within the bounds of its configuration and reads every call '
        'recorded from /repo as a step of the specification. Trusted: TLC, the arithmetic of java/Big.java (checked '
        'against its TLA+ definition by setup_cmd), the recording drivers. Between the explored inputs the code is '
        'assumed to behave alike.')
SPECIFIC = {
    'C02': 'Every entry of the tables is compared (exhaustive). ',
    'C04': 'All ordered pairs of requests of a small calculator (from TLC), seeded longer histories. ',
    'C07': 'All flag/call behaviours up to the depth of the model, with seeded indices. ',
    'C09': 'Behaviours of calculators and workspaces come from TLC. ',
}
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
m = dict(version=1, setup_cmd='python3 check.py setup',
         checks=[dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'],
                      thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                      technique='TLA+ specification checked with TLC; trace validation of recorded calls by TLC',
                      level='model_checking', level_note=SPECIFIC.get(p['id'], '') + NOTE)
                 for p in props if p['id'] in checks.CHECKS],
         not_applicable=[dict(property=p['id'], reason=NA.get(p['id'], 'check not built yet'))
                         for p in props if p['id'] not in checks.CHECKS],
         notes='No hooks in /repo: the drivers use the public API only. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
