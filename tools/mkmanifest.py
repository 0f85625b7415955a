import json, sys
sys.path.insert(0, '/verif/lib')
import profiles
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
TECH = 'TLA+ specification of the executive; TLC validates traces of the real executive against it'
EXTRA = {}
try:
    from manifest_extra import EXTRA, NA
except ImportError:
    NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
        continue
    e = EXTRA.get(i, {})
    checks.append(dict(
        property=i, quick_cmd='python3 check.py %s --tier quick' % i,
        thorough_cmd='python3 check.py %s --tier thorough' % i,
        technique=e.get('technique', TECH), level=e.get('level', 'model_checking'),
        level_note=e.get('note', 'Every transition, value, outcome, command and notification of the real executive, on every '
                         'scenario run, is checked by TLC to be one the specification allows. Not exhaustive over plans: '
                         'plans and schedules are generated (favouring what this property is about). Trusts the '
                         'specification, the lowering of plans to it, and the harness which records the run.')))
m = dict(version=1, setup_cmd='python3 lib/build.py driver parsecheck appdriver extdriver compiler', checks=checks, not_applicable=na,
         notes='TLA+ specification in spec/, harnesses compiled from /repo in harness/, see DESIGN.md. '
               'No hooks are needed in /repo: everything is observed through its public interfaces.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
