#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below."""
import json
import os

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAT = 'auxi/modelling/process/materials/'
CH = 'auxi/tools/chemistry/'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(),
         note=None, na=None, level='proof', observe=(), tech=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech, state=state,
                  note=note, na=na, level=level, observe=observe,
                  tech=tech))


exec(open(os.path.join(BASE, 'tools', 'props.py')).read())

TECH = ('function contracts on the real code, discharged by symbolic '
        'execution with loop summaries and Z3/cvc5')


def main():
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(BASE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': p['files'],
                    'state': [{'name': a, 'meaning': b, 'where': c}
                              for a, b, c in p['state']],
                    'mechanism': [{'name': a, 'where': b}
                                  for a, b in p['mech']],
                    'observe_at': list(p['observe']),
                    'hook_needed': None}}) + '\n')
    checks = []
    na = []
    for p in P:
        if p['na']:
            na.append({'property': p['id'], 'reason': p['na']})
            continue
        checks.append({
            'property': p['id'],
            'quick_cmd': '/opt/venv/bin/python check.py %s' % p['id'],
            'thorough_cmd': '/opt/venv/bin/python check.py %s '
                            '--tier thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': p['tech'] or TECH, 'level': p['level'],
            'level_note': p['note'] or NOTE})
    m = {'version': 1,
         'setup_cmd': '/opt/venv/bin/python selftest.py',
         'checks': checks, 'not_applicable': na,
         'notes': 'No hooks: /repo carries only fix: commits. '
                  'known_findings.txt lists open findings and repairs; '
                  'tools/mk.py regenerates this file and properties.jsonl.'}
    with open(os.path.join(BASE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


NOTE = ('Every obligation is generated from the current source of the named '
        'functions and discharged for all inputs and all loop iterations; '
        'arithmetic is over the reals (rounding is not modelled), values '
        'outside the contract preconditions are not covered. The same '
        'contracts also run against the untouched code on sampled inputs '
        '(bounded, not counted as proof). Trusted: the engine in pyvc/, Z3 '
        'and cvc5, the numpy/list models in pyvc/values.py; assumed '
        'contracts on callees are listed in the evidence.')

if __name__ == '__main__':
    main()
