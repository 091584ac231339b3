#!/usr/bin/env python3
"""make properties.jsonl, MANIFEST.json and DESIGN.md from catalog.py, the
property modules, design.md and seeded/"""
import os
import ast
import json
import textwrap
import catalog

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

with open(f'{V}/properties.jsonl', 'w') as f:
    for p in catalog.P:
        # the limit in the schema
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        n = p['statement'].count('. ') + 1
        assert n <= 3, (p['id'], n)
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': p['mechanism'],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')

checks, na = [], []
for p in catalog.P:
    if p['na'] is None and os.path.exists(f'{V}/harness/props/{p["id"].lower()}.py'):
        checks.append({'property': p['id'],
                       'quick_cmd': f'bin/check {p["id"]}',
                       'thorough_cmd': f'bin/thorough {p["id"]}',
                       'evidence_file': f'evidence/{p["id"]}.json',
                       'technique': p['technique'],
                       'level': 'exploration',
                       'level_note': p['note']})
    else:
        na.append({'property': p['id'],
                   'reason': p['na'] or 'the check for it is not built yet'})

man = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
       'notes': 'one check per property, see DESIGN.md; bin/replay FILE runs a saved '
                'failing case again'}
with open(f'{V}/MANIFEST.json', 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not claimed')


# DESIGN.md

def module(pid):
    with open(f'{V}/harness/props/{pid.lower()}.py') as f:
        tree = ast.parse(f.read())
    out = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            if n.targets[0].id in ('RULE', 'COUNTS', 'ASSUMPTIONS'):
                out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def wrap(text):
    return textwrap.fill(text, 79, break_long_words=False, break_on_hyphens=False)


sections = []
for p in catalog.P:
    m = module(p['id'])
    L = [f"### {p['id']} {p['title']}", '',
         wrap(p['statement']), '',
         wrap(f"*Over:* {p['text']} ({', '.join(p['over'])})."), '',
         wrap(f"*Cases:* {m['RULE']}"), '',
         wrap('*Decided by:* ' + p['technique'] + '. '
              + p['note'].replace(catalog.EXPL, '')), '',
         wrap(f"*Bounds and cost:* {m['COUNTS']['quick']} cases in the quick tier, "
              f"{m['COUNTS']['thorough']} in the thorough one, over eight workers."), '',
         wrap(f"*Why tests cannot:* {p['why']}."), '']
    if m.get('ASSUMPTIONS'):
        L += [wrap('*Assumed:* ' + '; '.join(m['ASSUMPTIONS']) + '.'), '']
    L += [wrap('*Anchored in:* ' + '; '.join(
        f"{a['name']} ({a['where']})" for a in p['mechanism']) + '.'), '']
    sections.append('\n'.join(L))

seeds = []
for d in sorted(os.listdir(f'{V}/seeded')):
    with open(f'{V}/seeded/{d}/meta.json') as f:
        m = json.load(f)
    seeds.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")

with open(f'{V}/tools/design.md') as f:
    head = f.read()

with open(f'{V}/DESIGN.md', 'w') as f:
    f.write(head.replace('@PROPERTIES@', '\n'.join(sections))
            .replace('@SEEDS@', '\n'.join(
                ['| change | caught by | what it breaks | what it needs |',
                 '|---|---|---|---|'] + seeds)))
