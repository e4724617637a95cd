"""functions of /repo/auxi that no contract executes symbolically (from the
evidence of the last run)"""
import ast
import glob
import json
import os
ent = set()
for f in glob.glob('/verif/evidence/C*.json'):
    d = json.load(open(f))
    ent |= set(d['coverage'].get('functions_under_contract', {}))
for root, _, fs in os.walk('/repo/auxi'):
    for f in sorted(fs):
        if not f.endswith('.py') or f.endswith('_test.py'):
            continue
        p = os.path.join(root, f)
        mod = p[len('/repo/'):-3].replace('/', '.')
        out = []

        def walk(n, pre):
            for c in n.body:
                if isinstance(c, ast.ClassDef):
                    walk(c, pre + c.name + '.')
                elif isinstance(c, ast.FunctionDef):
                    q = mod + ':' + pre + c.name
                    if q not in ent:
                        out.append(pre + c.name)
        walk(ast.parse(open(p).read()), '')
        if out:
            print(mod, ' '.join(out))
