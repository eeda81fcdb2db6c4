"""Writes DESIGN.md from design_head.md, properties, parts, KNOWN_FINDINGS, design_tail.md and seeded/."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
os.environ['META_NO_MAIN'] = '1'
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import gen_meta

out = [open(os.path.join(ROOT, 'tools', 'design_head.md')).read()]
for p in gen_meta.P:
    i = p['id'].lower()
    m = importlib.import_module('props.' + i)
    out.append('### %s %s\n\n%s\n' % (p['id'], p['title'], p['statement']))
    out.append('* Quantified over: %s' % p['quant'])
    out.append('* Oracle: %s. Observed at: %s.' % (p['oracle'], ', '.join(p['observe'])))
    for q in m.PARTS:
        out.append('* Part `%s` (%s quick, %s thorough%s): %s' % (q.name, q.quick or '-', q.thorough or '-', ', %d fixed examples' % len(q.examples) if q.examples else '', q.rule))
    out.append('* Bounds: %s.' % p['note'])
    out.append('* What the tests leave open: %s\n' % p['why'])
out.append(open(os.path.join(ROOT, 'tools', 'design_tail.md')).read())
caught = {}
c = os.path.join(ROOT, 'tools', 'caught.json')
if os.path.exists(c):
    caught = json.load(open(c))
out.append('| planted bug | property | needs | caught by |\n|---|---|---|---|')
for b in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    f = os.path.join(ROOT, 'seeded', b, 'meta.json')
    if os.path.exists(f):
        m = json.load(open(f))
        out.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '/'), caught.get(b, '-')))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
