"""Fills the tables of DESIGN.md: python -m vf.design."""
import glob
import importlib
import json
import os
import re

from vf import env

def main():
  p = os.path.join(env.VERIF, 'DESIGN.md')
  s = open(p).read()

  def table(name, head, rows):
    nonlocal s
    rows = [head, '|---' * (head.count('|') - 1) + '|'] + rows
    block = f'<!-- {name} -->\n' + '\n'.join(rows) + f'\n<!-- /{name} -->'
    s = re.sub(f'<!-- {name} -->.*?<!-- /{name} -->', lambda m: block, s, flags=re.S)
  rows = []
  for l in open(os.path.join(env.VERIF, 'properties.jsonl')):
    d = json.loads(l)
    f = os.path.join(env.VERIF, 'vf', 'props', d['id'].lower() + '.py')
    if not os.path.exists(f):
      rows.append(f"| {d['id']} | {d['title']} | not claimed | |")
      continue
    mod = importlib.import_module(f"vf.props.{d['id'].lower()}")
    c = mod.check()
    fs = sorted({x.split(': ')[-1] for u in c.units for x in u.funcs})
    doc = ' '.join((mod.__doc__ or '').split())
    rows.append(f"| {d['id']} | {doc} | {c.level}; {len(c.units)} units on "
                + ', '.join(f'`{x}`' for x in fs) + ' | ' + '; '.join(
                  [u.bounded for u in c.units if u.bounded] + list(c.assumptions)) + ' |')
  table('TABLE', '| id | contract | method | assumptions, bounds |', rows)
  rows = []
  for l in open(os.path.join(env.VERIF, 'known-findings.jsonl')):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l.strip())
    if m:
      rows.append(f'| {m[2]} | {m[1]} | {m[3]} |')
  table('FIXES', '| commit | property | defect |', rows)
  rows = []
  for f in sorted(glob.glob(os.path.join(env.VERIF, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {d['property']} | "
                f"{d['what_it_breaks']} | {d.get('caught', 'own check')} |")
  table('SEEDS', '| id | property | what it breaks | caught by |', rows)
  open(p, 'w').write(s)


if __name__ == '__main__':
  main()
