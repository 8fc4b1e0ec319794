"""python3 /verif/sa/check.py <property> [--tier quick|thorough] [--only CODE] [-v]

Decides one property by static analysis of /repo's current source: every
obligation compares the abstract summary of an anchored function with the
summary of its reference, or runs one syntax/dataflow rule.  Nothing of /repo is
imported or executed.
"""
import argparse
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)

from sa import obl  # pylint: disable=g-import-not-at-top
from sa import props

R = None
LIMIT = 100


def one(ob):
  if isinstance(ob, obl.Ob):
    return obl.run(R, ob, LIMIT)
  return ob.run(R)


def known_findings():
  """(property, key) pairs listed as genuine, unrepaired defects."""
  out = {}
  path = os.path.join(VERIF, 'known_findings.txt')
  if os.path.exists(path):
    for ln in open(path):
      ln = ln.strip()
      if ln.startswith('known: property='):
        pid, rest = ln[len('known: property='):].split(' ', 1)
        key, text = rest.split(' ', 1)
        out[(pid, key[len('key='):])] = text
  return out


def main():
  global R, LIMIT
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--only')
  ap.add_argument('-v', action='store_true')
  a = ap.parse_args()
  t0 = time.time()
  tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
  LIMIT = 60 if tier == 'quick' else 240
  p = props.PROPS[a.prop]
  R = obl.load()
  obs = list(p['obligations'])
  if a.only:
    obs = [o for o in obs if a.only in o.code]
  n = min(8, os.cpu_count() or 1, max(1, len(obs)))
  if n > 1:
    with mp.get_context('fork').Pool(n) as pool:
      res = pool.map(one, obs, chunksize=1)
  else:
    res = [one(o) for o in obs]
  obl.settle(obs, res, R)
  known = known_findings()
  bad, kn = [], []
  for r in res:
    if r['verdict'] == 'diff':
      key = r.get('key') or r['code']
      (kn if (a.prop, key) in known else bad).append(r)
    if a.v:
      print('%-8s %5.1fs %s  %s' % (r['verdict'], r.get('secs', 0), r['code'], str(r.get('msg', ''))[:200]))
  cnt = {v: sum(1 for r in res if r['verdict'] == v) for v in ('eq', 'unk', 'diff', 'missing')}
  for r in kn:
    print('KNOWN-FINDING: property=%s %s' % (a.prop, known[(a.prop, r.get('key') or r['code'])]))
  replay = os.path.join(VERIF, 'evidence', '%s.violation.txt' % a.prop)
  os.makedirs(os.path.dirname(replay), exist_ok=True)
  if os.path.exists(replay):
    os.remove(replay)
  if bad:
    with open(replay, 'w') as f:
      for r in bad:
        f.write('%s:%s  %s\n  obligation: %s\n  rule: %s\n  difference: %s\n  re-run: python3 /verif/sa/check.py %s --only %s -v\n\n' % (
            r.get('file'), r.get('line'), r['code'], r.get('what') or 'same observable behaviour as the reference ' + str(r.get('spec')),
            r.get('spec'), r.get('msg'), a.prop, r['code']))
  ev = {
      'property': a.prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
      'coverage': {
          'explanation': props.EXPLANATION,
          'obligations': len(res), 'discharged': cnt['eq'], 'undecided': cnt['unk'], 'anchor_not_found': cnt['missing'],
          'functions_analysed': sorted({x for r in res for x in r.get('inlined', ())} | {r['code'] for r in res if r['verdict'] != 'missing'}),
          'abstract_steps': sum(r.get('steps', 0) for r in res),
          'branches': sum(r.get('branches', 0) for r in res),
          'loops_summarised': sum(r.get('loops', 0) for r in res),
          'path_cases_compared': sum(r.get('cases', 0) for r in res),
          'term_leaves_compared': sum(r.get('leaves', 0) for r in res),
          'call_sites': sum(r.get('sites', 0) for r in res),
          'samples': [{k: r.get(k) for k in ('code', 'spec', 'verdict', 'msg', 'file', 'line', 'secs')} for r in res],
      },
      'wall_s': round(time.time() - t0, 2),
      'violations': [{'where': '%s:%s' % (r.get('file'), r.get('line')), 'function': r['code'], 'what': str(r.get('msg'))[:2000]} for r in bad],
      'assumptions': props.ASSUMPTIONS + p.get('assumptions', []),
  }
  path = os.path.join(VERIF, 'evidence', '%s.json' % a.prop)
  with open(path, 'w') as f:
    json.dump(ev, f, indent=1, default=str)
  print('property=%s obligations=%d discharged=%d undecided=%d missing=%d violations=%d wall=%.1fs' % (
      a.prop, len(res), cnt['eq'], cnt['unk'], cnt['missing'], len(bad), time.time() - t0))
  if bad:
    for r in bad:
      print('  %s:%s %s: %s' % (r.get('file'), r.get('line'), r['code'], str(r.get('msg'))[:3000]))
    print('VIOLATION property=%s replay=%s' % (a.prop, replay))
    return 1
  if res and cnt['missing'] == len(res) and not a.only:
    print('no anchored function of %s exists any more: no answer' % a.prop)
    return 2
  return 0


if __name__ == '__main__':
  sys.exit(main())
