"""Writes /verif/MANIFEST.json from properties.jsonl and the property modules."""
import importlib
import json
import os

from vf import env

NOT_APPLICABLE = {}

PY = '/opt/venv/bin/python -m vf.run'


def main():
  checks, na = [], []
  for line in open(os.path.join(env.VERIF, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    path = os.path.join(env.VERIF, 'vf', 'props', f'{pid.lower()}.py')
    if not os.path.exists(path):
      na.append({'property': pid, 'reason': NOT_APPLICABLE.get(
        pid, 'contracts for this property are not written yet')})
      continue
    c = importlib.import_module(f'vf.props.{pid.lower()}').check()
    checks.append({
      'property': pid,
      'quick_cmd': f'{PY} {pid}',
      'thorough_cmd': f'VERIF_TIER=thorough {PY} {pid}',
      'technique': c.technique,
      'level': c.level,
      'level_note': c.level_note()})
  m = {'version': 1,
       'setup_cmd': '/opt/venv/bin/python -c "from vf import terms, jx, opaque, check"',
       'checks': checks, 'not_applicable': na,
       'notes': 'Contract-based deductive verification of the real code; see DESIGN.md.'}
  with open(os.path.join(env.VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
  print(len(checks), 'checks,', len(na), 'not claimed')


if __name__ == '__main__':
  main()
