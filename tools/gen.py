"""Writes properties.jsonl and MANIFEST.json from the texts below (run by hand after editing)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('static analysis: abstract interpretation of the source (value-numbering summaries of functions, loops and heap effects) '
        'compared case by case with a reference contract')
NOTE = ('Decided from the syntax tree of /repo on every run; holds for every input of the annotated types on the obligations '
        'counted as discharged; comparisons the analysis cannot decide are listed as undecided in the evidence.')
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, technique=TECH, note=NOTE):
  a = {'files': ['r_u_sure/' + f for f in files],
       'mechanism': [{'name': n, 'where': 'r_u_sure/' + w} for n, w in mech]}
  if state: a['state'] = state
  if observe: a['observe_at'] = observe
  PROPS.append((dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text},
                     why_tests_cant=why, anchors=a), technique, note))


NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
  prop(id, title, statement, over, text, why, files, mech)
  NA.append({'property': id, 'reason': reason})


exec(open(os.path.join(ROOT, 'tools', 'prop_texts.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
  for p, _, _ in PROPS:
    f.write(json.dumps(p) + '\n')
nas = {n['property'] for n in NA}
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa spec',
     'checks': [dict(property=p['id'], quick_cmd='python3 sa/check.py %s --tier quick' % p['id'],
                     thorough_cmd='python3 sa/check.py %s --tier thorough' % p['id'],
                     technique=t, level='other', level_note=n) for p, t, n in PROPS if p['id'] not in nas],
     'not_applicable': NA}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
  json.dump(m, f, indent=1)
  f.write('\n')
for p, _, _ in PROPS:
  assert len(p['title']) <= 80, p['title']
  assert p['statement'].count('. ') <= 2, p['id']
print(len(PROPS), 'properties', len(m['checks']), 'checks')
