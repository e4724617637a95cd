#!/usr/bin/env python3
"""Regenerates DESIGN.md: tools/design_head.md, one section for each property
(from the contracts and tools/design_props.py), tools/design_tail.md and the
table of planted bugs (seeded/*/meta.json and tools/catches.json)."""
import json
import os
import re
import sys
import textwrap

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, BASE)
from pyvc import worker     # noqa: E402


def para(s, ind=''):
    return '\n'.join(textwrap.wrap(re.sub(r'\s+', ' ', s).strip(), 78,
                                   initial_indent=ind,
                                   subsequent_indent=ind))




def main():
    props = {}
    for l in open(BASE + '/properties.jsonl'):
        p = json.loads(l)
        props[p['id']] = p
    ns = {}
    exec(open(BASE + '/tools/design_props.py').read(), ns)
    notes = ns['NOTES']
    out = [open(BASE + '/tools/design_head.md').read().rstrip(), '']
    for i in sorted(props):
        p = props[i]
        out += ['### %s %s' % (i, p['title']), '']
        if i in notes:
            out += [textwrap.dedent(notes[i]).strip(), '']
        cs = worker.load_contracts(i)
        if not cs:
            continue
        fs = sorted({t.split(':')[-1] for c in cs for t in c.targets})
        if fs:
            out += [para('Functions named by the contracts: ' +
                         ', '.join(fs) + '.'), '']
        done = {}
        for c in cs:
            doc = re.sub(r'\s+', ' ', (c.fn.__doc__ or '').strip())
            done.setdefault((doc, c.bounded, c.sym, getattr(
                c, 'conc', True)), []).append(c.name)
        for (doc, bounded, sym, conc), names in done.items():
            tag = ''
            if bounded or not sym:
                tag = ' [bounded: %s]' % (bounded or 'run time only')
            elif not conc:
                tag = ' [proof only]'
            t = textwrap.wrap('`%s`%s%s' % (
                '`, `'.join(names), tag, ': ' + doc if doc else ''), 76)
            out.append('* ' + '\n  '.join(t))
        out.append('')
    out += [open(BASE + '/tools/design_tail.md').read().rstrip(), '']
    cat = json.load(open(BASE + '/tools/catches.json'))
    out += ['## Planted bugs and what catches them', '',
            '`tools/catches.py` runs the check of the property on a scratch '
            'copy with the', 'bug; "input" means a failing input was found '
            'and replayed on the real code.', '',
            '| bug | property | needs | caught by | how |',
            '|---|---|---|---|---|']
    for b in sorted(os.listdir(BASE + '/seeded')):
        m = json.load(open('%s/seeded/%s/meta.json' % (BASE, b)))
        c = cat.get(b, {})
        out.append('| %s | %s | %s | %s | %s |' % (
            b, m['property'], m['needs'].replace('|', '/').replace('\n', ' '),
            ', '.join(c.get('contracts', [])) or '-',
            'missed' if c.get('rc') != 1 else
            'input' if c['input'] else 'obligation only'))
    open(BASE + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')


if __name__ == '__main__':
    main()
