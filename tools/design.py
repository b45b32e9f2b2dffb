#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md plus the tables derived from the rules, mutants and planted bugs."""
import json, os, re, glob, collections
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
base = ('E="competition_engine.go"; I="competition_engine_internal.go"; R="regulator.go"; G="competition.go"; K="rank.go"; '
  'B="blind/blind.go"; BS="blind/state.go"; M="manager.go"; N="native_table_manager_backend.go"')
def load(f):
    ns = {}; exec(base, ns); exec(open(f).read(), ns); return ns['MUTS']
per = collections.defaultdict(collections.Counter); names = collections.defaultdict(set)
for f in sorted(glob.glob('mutants/m*.py')):
    for m in load(f):
        for p in (m[1] if isinstance(m[1], list) else m[1].split(',')):
            per[p][m[2]] += 1; names[p].add(os.path.basename(f)[:-3])
seeds = collections.defaultdict(list)
metas = {}
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f)); s = f.split('/')[1]; metas[s] = m; seeds[m['property']].append(s)
rules = dict(re.findall(r'reg\("(C\d+)", "((?:[^"\\]|\\.)*)"', open('checker/rules_reg.go').read()))
man = json.load(open('MANIFEST.json'))
tech = {c['property']: c['technique'] for c in man['checks']}
props = sorted((json.loads(l) for l in open('properties.jsonl')), key=lambda p: p['id'])
out = [open('tools/design_head.md').read().rstrip(), '', '## 6. Per property', '',
  'The oracle of each is its statement in `properties.jsonl`, written into the rule as terms and three-valued predicates over the state before the operation. "Mutants" is caught breaking edits + quiet harmless edits of `mutants/`.', '']
for p in props:
    i = p['id']
    out.append(f"**{i} {p['title']}.** {rules[i][0].upper()+rules[i][1:]}. *Method:* {tech[i]}. *Anchors:* "
      + ', '.join('`' + a + '`' for a in p['anchors']['files']) + '. *Why not tests:* ' + p['why_tests_cant'].strip()
      + f" *Mutants:* {per[i]['V']} + {per[i]['ok']}" + (f" ({', '.join(sorted(names[i], key=lambda s: int(s[1:])))})" if names[i] else '')
      + (f"; planted: {', '.join(seeds[i])}" if seeds[i] else '') + '.')
    out.append('')
q = sum(len(load(f)) for f in glob.glob('mutants/q*.py'))
out += ['## 7. Planted bugs and what catches them', '', f'All are caught by the check of their own property (others may alarm as well where the same construct carries several guarantees). The {q} refactorings of `mutants/q*.py` leave every check quiet.', '',
  '| bug | caught by | what it breaks | needs |', '|---|---|---|---|']
for s, m in metas.items():
    out.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
open('DESIGN.md', 'w').write('\n'.join(out) + '\n')
