#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, then what each check does, catches and found (development aid)."""
import glob, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
sys.path.insert(0, ROOT)
from props import PROPS, ABSNOTE
reg = open(ROOT + '/nsa/registry.py').read()
seeds = {}
caught = json.load(open(ROOT + '/tools/seeds.json')) if os.path.exists(ROOT + '/tools/seeds.json') else {}
for m in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    d = json.load(open(m))
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
find = {}
for f in json.load(open(ROOT + '/known-findings.json'))['findings']:
    find.setdefault(f['property'], []).append(f)
out = [open(ROOT + '/tools/design_head.md').read()]
out.append('## Properties\n')
for p in PROPS:
    if p.get('na'):
        out.append('### %s %s (not applicable)\n\n%s\n' % (p['id'], p['title'], p['na']))
        continue
    m = re.search(r"@check\('%s', '((?:[^'\\]|\\.)*)'\)\ndef [^\n]*\n(.*?)(?=\n\n\n|\Z)" % p['id'], reg, re.S)
    desc = m.group(1) if m else ''
    files = re.findall(r"'([a-z_0-9]+\.cpp)'", m.group(2)) if m else []
    files = [f for f in files if os.path.exists(ROOT + '/laws/' + f)]
    laws = sum(len(re.findall(r'^\s*void (law_\w+)', open(ROOT + '/laws/' + f, errors='replace').read(), re.M)) for f in files)
    cost = ''
    try:
        e = json.load(open(ROOT + '/evidence/%s.json' % p['id']))
        c = e['coverage']
        cost = ' At the time of writing: %s obligations, %s undecided, %s functions of the library and the standard library interpreted.' % (c.get('obligations'), c.get('undecided_total'), c.get('functions_analysed'))
    except Exception:
        pass
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('%s' % desc + (' %d laws in %s.%s' % (laws, ', '.join('`laws/%s`' % f for f in files), cost) if files else cost) + '\n')
    note = p['note'].replace(ABSNOTE, '').strip()
    out.append('*Quantified over:* %s.%s\n' % (p['quant'], '  \n*Bounds:* ' + note if note else ''))
    out.append('*Why tests cannot:* %s\n' % p['why'])
    for n, d in seeds.get(p['id'], []):
        out.append('* planted `%s` (%s): %s%s' % (n, d['needs'], d['what_it_breaks'], ' -- %s' % caught.get(n, 'caught') ))
    for f in find.get(p['id'], []):
        out.append('* %s `%s`: %s' % ('found and fixed' if f['status'] == 'fixed' else 'known finding', f.get('commit', ''), f['key'] if len(f['key']) > 30 else f['what'].split(' ', 3)[-1]))
    out.append('')
text = '\n'.join(out)
open(ROOT + '/DESIGN.md', 'w').write(text + '\n')
print(len(text), 'bytes')
