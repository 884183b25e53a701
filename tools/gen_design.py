#!/usr/bin/env python3-vt
"""Writes DESIGN.md: fixed text (tools/design/*.md) + one entry per property from properties.jsonl, props/ and tools/design/props.json."""
import json, os, importlib.util, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R); sys.dont_write_bytecode = True
D = os.path.join(R, 'tools', 'design')
extra = json.load(open(os.path.join(D, 'props.json')))
seeds = {}
for s in sorted(os.listdir(os.path.join(R, 'seeded'))):
    m = json.load(open(os.path.join(R, 'seeded', s, 'meta.json')))
    seeds.setdefault(m['property'], []).append((s, m['needs']))
out = [open(os.path.join(D, 'head.md')).read()]
man = json.load(open(os.path.join(R, 'MANIFEST.json')))
na = {x['property']: x['reason'] for x in man['not_applicable']}
for l in open(os.path.join(R, 'properties.jsonl')):
    d = json.loads(l); pid = d['id']
    out.append("### %s — %s\n" % (pid, d['title']))
    if pid in na:
        out.append("**Not applicable.** %s\n" % na[pid]); continue
    sp = importlib.util.spec_from_file_location(pid, os.path.join(R, 'props', pid + '.py'))
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    x = extra[pid]
    out.append("- **Decides / oracle:** %s" % x['oracle'])
    out.append("- **Encoded code:** %s" % ', '.join('`%s`' % f for f in m.FUNCTIONS))
    out.append("- **Bounds:** %s." % m.BOUNDS.rstrip('.'))
    o = getattr(m, 'OUTSIDE', '')
    out.append("- **Outside:** %s." % (o + '; ' if o else '') .rstrip('; ') if o else "- **Outside:** larger sizes than the bounds.")
    a = getattr(m, 'ASSUMPTIONS', None)
    if a: out.append("- **Assumed:** %s." % '; '.join(a))
    out.append("- **Why tests cannot:** %s" % d['why_tests_cant'])
    if x.get('cost'): out.append("- **Cost (8 cores):** %s." % x['cost'])
    out.append('')
out.append(open(os.path.join(D, 'tail.md')).read())
rows = ["\n### Planted bugs and what catches them\n", "| seed | needs | caught by |", "|---|---|---|"]
late = extra['_late']
for pid in sorted(seeds):
    for s, n in seeds[pid]:
        rows.append("| %s | %s | %s%s |" % (s, n.replace('\n', ' ').replace('|', '\\|'), extra['_caught'].get(s, pid), ' (missed at first: ' + late[s] + ')' if s in late else ''))
out.append('\n'.join(rows) + '\n')
open(os.path.join(R, 'DESIGN.md'), 'w').write('\n'.join(out))
