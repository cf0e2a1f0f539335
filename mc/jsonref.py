"""Reference reader and writer of XigtJSON data (plain dicts), on specs."""

KIDS = {'corpus': 'igts', 'igt': 'tiers', 'tier': 'items', 'metadata': 'metas',
        'meta': 'children', 'mc': 'children'}
ALWAYS = ('corpus', 'igt', 'tier', 'metadata')
SUB = {'corpus': 'igt', 'igt': 'tier', 'tier': 'item', 'metadata': 'meta',
       'meta': 'mc', 'mc': 'mc'}
TEXT = ('item', 'meta', 'mc')


def read(obj, k='corpus', inherited=None):
    """Normal form of decoded JSON data."""
    eff = dict(inherited or {})
    eff.update(obj.get('namespaces') or {})
    known = {'id', 'type', 'attributes', 'namespace', 'namespaces', 'text', 'name',
             'metadata', KIDS.get(k, '')}
    if set(obj) - known:
        raise ValueError('unknown keys %r' % sorted(set(obj) - known))
    d = {'k': k, 'id': obj.get('id'), 'type': obj.get('type'), 'nsmap': eff,
         'ns': obj.get('namespace'), 'attrs': {}}
    for a, v in obj.get('attributes', {}).items():
        d['attrs'][_key(a, eff)] = v
    if k in TEXT:
        d['text'] = obj.get('text')
    if k == 'mc':
        name = obj['name']
        if ':' in name:
            p, name = name.split(':', 1)
            d['ns'] = eff.get(p, p)
        elif d['ns'] in eff:
            d['ns'] = eff[d['ns']]
        d['name'] = name
    if k in ('corpus', 'igt', 'tier'):
        d['md'] = [read(m, 'metadata', eff) for m in obj.get('metadata', [])]
    if k in SUB:
        d['kids'] = [read(c, SUB[k], eff) for c in obj.get(KIDS[k], [])]
    return d


def _key(a, eff):
    if not a.startswith('{') and ':' in a:
        p, local = a.split(':', 1)
        if p in eff:
            return '{%s}%s' % (eff[p], local)
    return a


def write(s, style='', eff=None, declared=None):
    """style: p prefixes for attributes and nested elements (else expanded)
    n namespace of nested elements given as prefix   h redeclare everywhere
    e empty keys left out     r reversed key order"""
    k = s['k']
    eff = dict(eff or {})
    eff.update(s.get('nsmap') or {})
    declared = declared or {}
    o = {}
    new = {p: u for p, u in eff.items() if declared.get(p) != u or 'h' in style}
    if new:
        o['namespaces'] = new
    for f in ('id', 'type', 'text'):
        if s.get(f) is not None and (f != 'text' or k in TEXT):
            o[f] = s[f]
    at = {}
    for a, v in (s.get('attrs') or {}).items():
        if a.startswith('{') and 'p' in style:
            uri, local = a[1:].split('}', 1)
            ps = [p for p, u in eff.items() if u == uri]
            if ps:
                a = '%s:%s' % (ps[-1], local)
        at[a] = v
    if at or 'e' not in style:
        o['attributes'] = at
    ns = s.get('ns')
    if k == 'mc':
        o['name'] = s['name']
        ps = [p for p, u in eff.items() if u == ns and ns is not None]
        if ps and 'p' in style:
            o['name'] = '%s:%s' % (ps[0], s['name'])
        elif ps and 'n' in style:
            o['namespace'] = ps[0]
        elif ns is not None:
            o['namespace'] = ns
    elif ns is not None:
        o['namespace'] = ns
    if s.get('md') or ('e' not in style and k in ('corpus', 'igt', 'tier')):
        o['metadata'] = [write(m, style, eff, eff) for m in s.get('md') or []]
    if k in SUB and (s.get('kids') or 'e' not in style):
        o[KIDS[k]] = [write(c, style, eff, eff) for c in s.get('kids') or []]
    if 'r' in style:
        o = dict(reversed(list(o.items())))
    return o
