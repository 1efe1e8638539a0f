#!/usr/bin/env python3-vt
"""writes MANIFEST.json from properties.jsonl, the specs present and the reasons below"""
import json, os, ast
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REASON = json.load(open(H + '/tools/not_applicable.json'))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks, na = [], []
for p in props:
    f = f'{H}/specs/{p["id"].lower()}.py'
    if os.path.exists(f) and p['id'] not in REASON:
        t = ast.parse(open(f).read()); g = {n.targets[0].id: ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('LEVEL', 'NOTE')}
        checks.append(dict(property=p['id'], quick_cmd=f'python3-vt check.py {p["id"]}', thorough_cmd=f'python3-vt check.py {p["id"]} --thorough',
            technique='contract-based deductive verification of the compiled real code (LLVM IR of /repo, VC generation, z3)', level=g.get('LEVEL', 'proof'), level_note=g['NOTE'], theorems=[]))
    else: na.append(dict(property=p['id'], reason=REASON.get(p['id'], 'no check built yet: contracts for this component are planned but not written, so the property is not claimed')))
m = dict(version=1, setup_cmd='python3-vt -c "from vcgen.run import tool; print(tool())"', checks=checks, not_applicable=na,
    notes='No hooks in /repo. See DESIGN.md. Checks build everything from /repo\'s working tree into a temporary directory; out/ holds only the IR reader built by setup_cmd and violation reports.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json'))) if os.path.exists('/root/.vp/MANIFEST.schema.json') else None
print(len(checks), 'claimed', len(na), 'not applicable')
