#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_*.md and the bounds in props.py, so that the two cannot drift apart."""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import props
T = {json.loads(l)['id']: json.loads(l)['title'] for l in open(V + '/properties.jsonl')}
out = open(V + '/tools/design_head.md').read(); how = {}; cur = None
for l in open(V + '/tools/design_props.md'):
    if l.startswith('## '): cur = l[3:].strip(); how[cur] = ''
    elif cur: how[cur] += l
out += '\n## Property by property\n\n'
for p in sorted(T):
    out += '### %s %s\n\n' % (p, T[p])
    if p in props.PROPS:
        q, t = props.jobs(p, 'quick'), props.jobs(p, 'thorough')
        out += how.get(p, '').strip() + '\n\n*Bounds:* %s. (%d jobs quick, %d thorough)\n' % (props.BOUNDS[p].rstrip('.'), len(q), len(t))
        if props.ASSUME[p]: out += '\n*Assumes, besides the common assumptions:* ' + '; '.join(props.ASSUME[p]) + '.\n'
    else: out += how.get(p, '').strip() + '\n'
    out += '\n'
out += open(V + '/tools/design_tail.md').read()
open(V + '/DESIGN.md', 'w').write(out)
rows = ''
for d in sorted(os.listdir(V + '/seeded')) if os.path.isdir(V + '/seeded') else []:
    m = json.load(open(V + '/seeded/' + d + '/meta.json')); rows += '- %s (%s): %s. Needs %s.\n' % (d, m['property'], m['what_it_breaks'].rstrip('.'), m['needs'].rstrip('.'))
open(V + '/DESIGN.md', 'a').write('\n' + rows)
