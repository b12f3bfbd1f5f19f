"""DESIGN.md = tools/design_head.md + table of the harnesses (from the evidence of the last quick runs) + tools/design_tail.md"""
import json, os, collections
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
oracles = dict(l.rstrip('\n').split('\t') for l in open(H + '/tools/design_oracles.tsv'))
out = [open(H + '/tools/design_head.md').read()]
for p in props:
    e = json.load(open('%s/evidence/%s.json' % (H, p['id'])))
    c = e['coverage']
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('*%s*\n\n' % oracles[p['id']])
    for h, b in c['bounds'].items():
        out.append('* `%s` (%d): %s\n' % (h, len(b['configs']), b['text']))
    mods = collections.OrderedDict()
    for f in c['functions_encoded']:
        m, n = f.rsplit(':', 1)
        mods.setdefault(m, []).append(n)
    out.append('* encoded: %s\n' % '; '.join('%s (%s)' % (m, ', '.join(n) if len(n) <= 8 else '%d functions' % len(n))
                                             for m, n in sorted(mods.items())))
    out.append('* %d paths, %d obligations, %.0f solver s\n\n' % (c['states'], c['obligations'], c['solver_seconds']))
tail = open(H + '/tools/design_tail.md').read()
rows = []
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (H, d)))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
tail = tail.replace('@SEEDS@', '\n'.join(rows))
fixes = [l.rstrip('\n').split(None, 3)[1:] for l in open(H + '/known_findings.txt') if l.startswith('fixed:')]
tail = tail.replace('@FIXES@', '\n'.join('| %s | %s | %s |' % (c, p.split('=')[1], t) for p, c, t in fixes))
out.append(tail)
open(H + '/DESIGN.md', 'w').write(''.join(out))
