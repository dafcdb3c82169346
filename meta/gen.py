import json, os, glob, sys
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(here)
sys.path.insert(0, here)
from props import P
import checks_meta as CM
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [], 'notes': CM.NOTES}
for p in P:
    i = p['id']
    if i in CM.C:
        c = CM.C[i]
        man['checks'].append({'property': i, 'quick_cmd': 'bash check.sh %s --tier quick' % i,
                              'thorough_cmd': 'bash check.sh %s --tier thorough' % i,
                              'technique': c[0], 'level': c[1], 'level_note': c[2]})
    else:
        man['not_applicable'].append({'property': i, 'reason': CM.NA.get(i, 'check not built yet')})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(man, f, indent=1); f.write('\n')
try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P: jsonschema.validate(p, s); assert len(p['title']) <= 80, p['id']
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    ids = [p['id'] for p in P]; assert len(set(ids)) == len(ids)
    import re
    for p in P:
        n = len(re.findall(r'[.](\s|$)', p['statement'])); assert n <= 3, (p['id'], n)
    print('valid', len(P), 'properties', len(man['checks']), 'checks')
except ImportError: print('jsonschema not available')
