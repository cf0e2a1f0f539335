"""Assembles DESIGN.md: tools/design_head.md, one section per property (from
properties.jsonl, the modules and the last evidence), the fixed defects and the
planted bugs (seeded/*, results in tools/seed_results.json)."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, '/repo']
sys.dont_write_bytecode = True


def main():
    props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
    man = {c['property']: c for c in json.load(open(HERE + '/MANIFEST.json'))['checks']}
    out = [open(HERE + '/tools/design_head.md').read().rstrip(), '', '## Properties', '']
    cost = json.load(open(HERE + '/tools/costs.json'))
    for p in props:
        m = importlib.import_module('mc.props.' + p['id'].lower())
        c = man[p['id']]
        out.append('### %s %s' % (p['id'], p['title']))
        out.append('')
        out.append(p['statement'])
        out.append('')
        out.append('* Level: %s (%s).' % (c['level'], c['technique']))
        out.append('* Explored: %s.' % m.RULE)
        b = getattr(m, 'BOUNDS', None)
        if isinstance(b, dict):
            out.append('* Bounds: quick: %s; thorough: %s.' % (b['quick'], b['thorough']))
        if m.ASSUMPTIONS:
            out.append('* Assumptions: %s.' % '; '.join(m.ASSUMPTIONS))
        out.append('* Why tests cannot: %s' % p['why_tests_cant'])
        if c.get('level_note'):
            out.append('* %s' % c['level_note'])
        k = cost.get(p['id'])
        if k:
            out.append('* Cost (8 cores): ' + '; '.join(
                '%s %s executions in %s s' % (t, format(k[t][0], ','), k[t][1])
                for t in ('quick', 'thorough') if t in k) + '.')
        out.append('')
    out += ['## Defects found and repaired', '',
            'Each was reported by the check named, shown on the real code, and repaired by a',
            '"fix:" commit in /repo (known_findings.json). Recorded but not repaired:',
            'C02, an id is checked by its beginning only, so `a b` or `a/b` (which no reference',
            'can name, and the schema excludes) are accepted. Refusing them would make documents',
            'and Toolbox records that load today unreadable, so it is listed as a known finding,',
            'id by id.', '']
    for f in json.load(open(HERE + '/known_findings.json'))['fixed']:
        w = f.split(' ', 3)
        out.append('* %s `%s` %s' % (w[1][9:], w[2], w[3]))
    out += ['', '## Planted bugs', '',
            'seeded/*: written from the property texts and the code; "caught by" are the quick',
            'checks that report them.', '', '| bug | property | needs | caught by |',
            '|---|---|---|---|']
    res = json.load(open(HERE + '/tools/seed_results.json'))
    for n in sorted(os.listdir(HERE + '/seeded')):
        m = json.load(open('%s/seeded/%s/meta.json' % (HERE, n)))
        out.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'], res.get(n, '?')))
    tail = HERE + '/tools/design_tail.md'
    if os.path.exists(tail):
        out += ['', open(tail).read().rstrip()]
    open(HERE + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')


if __name__ == '__main__':
    main()
