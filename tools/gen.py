#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props

lines, checks, na = [], [], []
for p in props.PROPS:
    assert len(p['title']) <= 80, p['id']
    d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
         'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
         'anchors': {'files': p['files'],
                     'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                     'hook_needed': None}}
    if p.get('observe'):
        d['anchors']['observe_at'] = p['observe']
    lines.append(json.dumps(d, ensure_ascii=False))
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
    elif not os.path.exists(f"{ROOT}/harness/{p['id'].lower()}.py"):
        na.append({'property': p['id'], 'reason': 'check not built yet'})
    else:
        checks.append({'property': p['id'], 'quick_cmd': f"./check.py {p['id']} --tier quick",
                       'thorough_cmd': f"./check.py {p['id']} --tier thorough",
                       'technique': p.get('tech', props.TECH), 'level': p.get('level', 'model_checking'),
                       'level_note': p['note']})
open(f'{ROOT}/properties.jsonl', 'w').write('\n'.join(lines) + '\n')
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na},
          open(f'{ROOT}/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(f'{ROOT}/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')

# DESIGN.md
import ast
def const(f, name):
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == name:
            return ast.literal_eval(n.value)

bounds = ['### Bounds in full', '', 'From the harnesses; also in the evidence.', '']
for c in checks:
    i = c['property']
    f = f'{ROOT}/harness/{i.lower()}.py'
    a = const(f, 'ASSUMPTIONS')
    bounds.append(f"- **{i}** {const(f, 'BOUNDS')} *Outside:* {const(f, 'OUTSIDE')}" + (f" *Assumes:* {'; '.join(a)}." if a else ''))

known = json.load(open(f'{ROOT}/known_findings.json'))
defects = ['## Defects found', '', 'Each was found by a check or while writing one, shown on the real code, and repaired in /repo with a `fix:` commit where that was small and safe:', '']
for x in known['fixed']:
    p, c, what = x.removeprefix('fixed: property=').split(' ', 2)
    defects.append(f'- {p} `{c}`: {what}.')
defects += ['', 'Not repaired, and reported as KNOWN-FINDING by the check. They are recognised by what happens in the counterexample, so any other violation of the same property is still a VIOLATION:', '']
for x in known['findings']:
    defects.append(f"- {x['property']} `{x['id']}`: {x['what']}. {x.get('why', '')}".rstrip())

seeds = ['## Planted bugs', '', 'Each breaks a property while all stable tests pass; `seeded/<id>/` has the patch and a demonstration.', '',
         '| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for d in sorted(os.listdir(f'{ROOT}/seeded')):
    m = json.load(open(f'{ROOT}/seeded/{d}/meta.json'))
    seeds.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {props.CAUGHT.get(d, m['property'])} |")
seeds += ['', props.SEED_NOTES]
text = open(f'{HERE}/design.md').read()
for k, v in (('BOUNDS', bounds), ('DEFECTS', defects), ('SEEDS', seeds)):
    text = text.replace(f'@@{k}@@', '\n'.join(v))
open(f'{ROOT}/DESIGN.md', 'w').write(text)
