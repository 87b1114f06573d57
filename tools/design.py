"""Writes DESIGN.md (see its first lines)."""
import ast
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import meta     # noqa


def constants(pid):
    path = glob.glob(os.path.join(HERE, 'mc', 'checks', pid.lower() + '_*.py'))[0]
    out = {'file': os.path.relpath(path, HERE)}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') in ('RULE', 'BOUNDS', 'ASSUMPTIONS', 'LEVEL'):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                out[node.targets[0].id] = ''
    return out


def main():
    text = open(os.path.join(HERE, 'tools', 'design_head.md')).read()
    text += '## Properties and how they are decided\n\n'
    for p in meta.P:
        text += '### {} {}\n\n'.format(p['pid'], p['title'])
        if p['na']:
            text += 'Not applicable: {}\n\n'.format(p['na'])
            continue
        c = constants(p['pid'])
        text += '{} (`{}`, level {}). {}\n\n'.format(p['technique'][0].upper() + p['technique'][1:], c['file'], p['level'],
                                                  p['note'])
        text += '* Enumerated and compared: {}.\n'.format(c.get('RULE', '').rstrip('.'))
        b = c.get('BOUNDS') or {}
        for tier in ('quick', 'thorough'):
            if tier in b:
                text += '* Bounds ({}): {}.\n'.format(tier, b[tier].rstrip('.'))
        if c.get('ASSUMPTIONS'):
            text += '* Assumed: {}.\n'.format('; '.join(c['ASSUMPTIONS']))
        text += '* Beyond the tests: {}\n\n'.format(p['why'])
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))
    text += '## Genuine defects\n\nRecorded and not repaired: {}.\n\nRepaired, each by one "fix:" commit in /repo ' \
            '({} of them):\n\n'.format(len(known['known']) or 'none', len(known['fixed']))
    for k in known['known']:
        text += '* {}\n'.format(k)
    for k in known['fixed']:
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', k)
        text += '* {} `{}` {}\n'.format(*m.groups())
    text += '\n## Planted bugs\n\nEach was written from the text of the property and the code, then run against the checks ' \
            '(`tools/plant.sh ID`). All of them build, keep the stable tests passing and are caught by the check of their ' \
            'property in the quick tier; where the check first missed one, it was strengthened (last column).\n\n' \
            '| planted bug | property | manifests with | first missed |\n|---|---|---|---|\n'
    missed = json.load(open(os.path.join(HERE, 'tools', 'missed.json')))
    for path in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        d = json.load(open(path))
        text += '| {} | {} | {} | {} |\n'.format(os.path.basename(os.path.dirname(path)), d['property'],
                                                d['needs'].replace('|', '/'), missed.get(os.path.basename(os.path.dirname(path)), ''))
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(text)


if __name__ == '__main__':
    main()
