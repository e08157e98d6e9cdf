#!/usr/bin/env python3
"""Write DESIGN.md from tools/design.in.md, the properties, the rules and tools/seed_results.txt."""
import importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from tools import props


def rd(*p):
    p = os.path.join(V, *p)
    return open(p).read() if os.path.exists(p) else ''


out = []
total = 0
for p in props.PROPS:
    if p['id'] in dict(props.NA):
        continue
    c = importlib.import_module('checks.' + p['id']).check
    n = len(c.obls) + len(c.struct)
    total += n
    rules, seen = [], set()
    for o in list(c.obls) + list(c.struct):
        r = getattr(o, 'rule', None) or (o[2] if isinstance(o, tuple) and len(o) > 2 and isinstance(o[2], str) else '')
        r = re.sub(r'\s+', ' ', str(r))
        k = re.sub(r'[a-z_*-]*\b(append|extend|insert|setitem|pop)\b', '', r)[-60:]
        if r and k not in seen:
            seen.add(k)
            rules.append((getattr(o, 'name', '') or '', r))
    more = len(rules) - 14
    rules = rules[:14]
    out.append('### %s — %s\n\n%s\n\n*Over:* %s: %s. *Obligations:* %d. *Why not tests:* %s\n\n%s%s\n' % (
        p['id'], p['title'], p['statement'], p['over'], p['text'], n, p['why'],
        '\n'.join('- `%s`: %s' % r for r in rules), '\n- and %d more rules of the same kind' % more if more > 0 else ''))
known = rd('known_findings.txt').splitlines()
fixed = '\n'.join('- %s (%s): %s' % m.groups() for m in (re.match(r'fixed: property=(\S+) (\S+) (.*)', l) for l in known) if m)
kn = '\n'.join('- %s (`%s`): %s. `list.__imul__` is inherited; a repair would have to decide whether repeated members are copies, which no part of the '
               'documentation settles.' % m.groups() for m in (re.match(r'known: property=(\S+) key=(\S+) (.*)', l) for l in known) if m)
seeds, res = [], dict((l.split()[0], l.split()[2]) for l in rd('tools', 'seed_results.txt').splitlines() if len(l.split()) > 2)
first = set(rd('tools', 'missed_first.txt').split())
ids = sorted(os.listdir(os.path.join(V, 'seeded')))
for i in ids:
    m = json.loads(rd('seeded', i, 'meta.json'))
    seeds.append((m['property'], i, m['needs'], m['what_it_breaks'], res.get(i, '?').lower()))
table = '| property | change | needs | breaks | check |\n|---|---|---|---|---|\n' + '\n'.join('| %s | %s | %s | %s | %s |' % tuple(str(x).replace('|', '\\|').replace('\n', ' ') for x in s) for s in sorted(seeds))
na = '\n'.join('- **%s**: %s' % x for x in props.NA) or '- none'
text = rd('tools', 'design.in.md')
for k, v in (('PROPERTIES', '%d properties, %d obligations.\n\n' % (len(out), total) + '\n'.join(out)), ('NA', na), ('FIXED', fixed), ('KNOWN', kn), ('NSEEDS', str(len(ids))), ('SEEDS', table)):
    text = text.replace('@@%s@@' % k, v)
open(os.path.join(V, 'DESIGN.md'), 'w').write(text)
print(len(text))
