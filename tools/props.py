"""Source of properties.jsonl and of the per-check part of MANIFEST.json.
python3 tools/props.py rewrites both files."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None,
         technique='', level='exploration', note=''):
    P.append(dict(
        json=dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[
                      dict(name=n, where=w) for n, w in mechanism],
                      observe_at=observe or [], hook_needed=None)),
        technique=technique, level=level, note=note))


MODEL, MIX, MD, REF = 'xigt/model.py', 'xigt/mixins.py', 'xigt/metadata.py', 'xigt/ref.py'

prop('C01', 'Containers are ordered lists with an exact id index',
     'After any sequence of appends, insertions, index assignments, deletions (by position or '
     'id), removals, pops, extensions, whole-content assignments (also from itself or a lazy '
     'selection of itself), sorting, reversal, clearing and index refreshes, a corpus, IGT, tier, '
     'metadata, meta, meta child or metadata list behaves exactly as a Python list of its members '
     '(length, order, identity, positive and negative positions, slices, iteration). Refreshing the index is refused when two members have come to share '
     'an id. '
     'Looking up an id (also as a string position, via get or via select) finds exactly the one '
     'member that currently has that id and nothing else, and no two members share an id.',
     ['histories'], 'all operation sequences on every kind of container, ids colliding',
     'Tests run one append, one insert, one deletion each; index and list can only drift apart '
     'over sequences mixing operations, which they do not sample.',
     [MIX, MODEL, MD], [('id index kept next to the list', MIX + ': XigtContainerMixin')],
     ['len, iteration, [], get, select of containers'],
     'explicit-state exploration of a reference list model; every transition replayed on the real '
     'container', 'model_checking',
     'Complete for lists of at most 3 (thorough 4) members over a pool of 6 objects with '
     'colliding ids; every model state and transition is replayed on the code, plus all '
     'un-merged histories of depth 3 (4).')

prop('C02', 'A rejected modification changes nothing',
     'When a single-object modification of a container is refused (duplicate id, object of the '
     'wrong kind, position out of range, unknown id, non-member, slice assignment, a lone Metadata '
     'assigned as metadata, malformed identifier), or whole contents are assigned that cannot all '
     'be members (a repeated id, a wrong kind, a source that fails), an exception is raised and container, id index, '
     'the refused object and its current parent are exactly as before. Constructors refuse '
     'malformed ids and names, contradictory reference attributes and duplicate or wrong-kind '
     'children.',
     ['histories', 'inputs'], 'every reachable container state x every refused operation',
     'Tests assert that an exception is raised from one state; what is left behind after it is '
     'never looked at.',
     [MIX, MODEL, MD], [('type and id checks before mutation', MIX)],
     ['exceptions, container contents, parents'],
     'explicit-state exploration of a reference list model; every rejected transition replayed '
     'with before/after comparison', 'model_checking',
     'All reachable states with at most 3 (thorough 4) members x all refused operations.')

prop('C03', 'Members always lead up to their container',
     'Whatever way a hierarchy is assembled (constructor arguments, append, insert, extend, index '
     'assignment, +=, content and metadata assignment, top-down or bottom-up, after removal from '
     'another container, or loading a file in any mode), every member navigates to exactly the '
     'container that holds it: item to tier, IGT and corpus, tier to IGT and corpus, IGT to '
     'corpus, and metadata, metas and their children inherit from the object they are attached to.',
     ['histories'], 'all ways and orders of linking the levels of a hierarchy',
     'Tests build hierarchies by constructors; other operations and orders of linking are '
     'combinatorial and untested.',
     [MIX, MODEL, MD], [('parent assignment when an object is put into a container', MIX)],
     ['.tier .igt .corpus, inherited attributes'],
     'exhaustive enumeration of assembly operation sequences on the real code',
     note='All 14^3 method combinations x 6 linking orders, for data and metadata hierarchies.')

prop('C04', 'Equality is equality of content',
     'Two objects are equal exactly when they are of the same kind and agree in id, type, '
     'attributes, namespace, text and name, and, in order, in metadata and members; prefix maps, '
     'parents and attribute order do not matter. The relation is symmetric, != is always its '
     'negation, and comparing with an object of any other kind (also plain Python values) gives '
     'inequality.',
     ['inputs'], 'all pairs of objects that differ in at most two fields at any depth',
     'Tests compare a handful of pairs, always of the same kind and in one direction.',
     [MIX, MODEL, MD], [('__eq__ methods of all classes', MIX + ', ' + MODEL + ', ' + MD)],
     ['== and !='],
     'exhaustive enumeration of deviation-bounded object pairs against equality of their '
     'descriptions', note='All pairs with at most one deviation each, and all two-deviation '
     'objects against base and single deviations, for all seven kinds.')

prop('C05', 'Inherited lookup of attributes, namespaces and metadata',
     'Looking up an attribute (plain, with an expanded namespace, with a prefix, or with the '
     'namespace given separately) yields the value on the object itself, or with inheritance '
     'the nearest container that has it, or else the default; prefixes are resolved with the '
     'prefix map in force at the object asked, which is its own map or that of the nearest '
     'container with one, always current. get_meta yields the matching metas of the nearest level '
     'that has any, respecting conditions, inherit and default.',
     ['inputs', 'configurations'],
     'all placements of attributes, prefix maps and metadata over chains of nested objects x all '
     'ways of asking',
     'Tests check two or three placements with plain keys; namespaces combined with inheritance '
     'are not tested.',
     [MIX, MD], [('recursive lookup through the parent', MIX + ': get_attribute, nsmap'),
                 ('get_meta recursion', MD)],
     ['get_attribute, nsmap, get_meta'],
     'exhaustive enumeration of lookup configurations against a direct walk',
     note='Complete for chains of 3 objects and 3 keys in 2 namespaces; reduced alphabets for '
     'chains of 4 to 6.')

prop('C07', 'Alignment expressions resolve to the text they select',
     'Resolving an alignment expression against a tier or an IGT gives the concatenation of the '
     'selected items\' values, each cut by its ranges with Python slice semantics (negative and '
     'out-of-range bounds included), joined with nothing for "+" and one space for ",", where '
     'missing values count as empty. An id is always matched as a whole, and an expression that '
     'selects a non-existing id raises a structure error instead of yielding text.',
     ['inputs'], 'all expressions up to 3 selections / 3 spans over small index sets and '
     'adversarial ids and values',
     'Tests resolve about twenty expressions; the grammar is infinite and ids may be prefixes of '
     'one another.',
     [REF], [('selection and span regular expressions', REF + ': resolve')], ['xigt.ref.resolve'],
     'bounded exhaustive enumeration of expression trees against a reference evaluator',
     note='Complete over the listed index sets; says nothing about larger expressions.')

prop('C08', 'Item values follow text and references and are always current',
     'The value of an item is its own text if it has one (also if empty), otherwise what its '
     'first present preferred reference attribute (content, then segmentation, unless told '
     'otherwise) resolves to through any chain of tiers, otherwise nothing. It reflects every '
     'later change of texts, references, tier references, replaced, removed or re-ordered items '
     'and tiers immediately, setting a reference to None removes it, and a reference '
     'that cannot be resolved (missing tier, item or container) raises an error rather than '
     'giving a wrong value.',
     ['histories', 'inputs'], 'all reference configurations of an item and all edit histories to a '
     'depth over a three-tier chain',
     'Tests read values once on fixed examples; staleness only shows after edit histories.',
     [MODEL, REF], [('value, resolve_ref', MODEL)], ['Item.value, Item.span, Item.resolve_ref'],
     'exhaustive configurations plus exhaustive edit histories replayed on the real code against '
     'a reference evaluator', 'model_checking',
     'All histories of 3 (thorough 4) edits over 32 edit operations.')

prop('C09', 'Rewriting alignment expressions keeps their meaning',
     'expand and compress produce the equivalent expression with one span per selection, '
     'respectively with neighbouring ranges on the same id grouped; both are idempotent, undo each '
     'other and never change what the expression resolves to. selections, spans and ids take an '
     'expression or id list apart into exactly its selections, spans and ids in order, with or '
     'without the delimiters, and with delimiters kept no character of any input is lost.',
     ['inputs'], 'all expressions and id lists up to the bounds; all strings over a 10-letter '
     'alphabet up to length 6',
     'Tests cover some thirty strings.',
     [REF], [('robust reference regular expressions', REF)],
     ['expand, compress, selections, spans, ids'],
     'bounded exhaustive enumeration of expression trees and strings against a reference',
     note='Complete over the stated alphabets.')

prop('C10', 'Reference indices are exact after a refresh',
     'After an IGT is built or its indices are refreshed, the referents and referrers of every '
     'tier and item are exactly those a scan of all current reference attributes finds (each '
     'referrer once, in document order), the indexed and the directly computed answers agree, and '
     'the two relations are inverse to each other; which attributes count is what the class of the '
     'object allows for its types. Asked for given attributes, the answers follow the references '
     'at once, without a refresh. Looking up items or any object by id finds '
     'exactly the current ones: never removed, renamed or id-less ones; dereferencing follows the '
     'expression\'s ids; unknown ids and unattached objects raise errors. Different items with '
     'the same id are warned of. A part excluded from a refresh keeps the answers it had.',
     ['histories', 'inputs'], 'all IGTs with up to 2-3 references in 24 slots; all edit histories '
     'of 2-3 operations followed by a refresh',
     'Tests query one fixed IGT that is never modified.',
     [MODEL, REF], [('referent, referrer and item caches', MODEL + ': refresh_indices'),
                    ('direct scan', REF + ': referents, referrers')],
     ['Igt.referents/referrers/get_item/get_any, ref.*'],
     'exhaustive IGTs and edit histories; cached = direct = reference scan', 'model_checking',
     'Complete for the listed slots and operations.')

Q = 'xigt/query.py'
prop('C11', 'Ancestor queries walk the reference chain and stop',
     'Asking for the ancestors of a tier or item yields, step by step, the tier referred to by '
     'the first applicable reference attribute and exactly those of its items, in tier order, that '
     'the items of the previous step refer to. It ends where there is no reference or when a tier '
     'is reached a second time, so it terminates on every cyclic reference structure, whatever the '
     'tiers are called.',
     ['inputs'], 'all reference graphs over 3 (thorough 4) tiers incl. cycles x item patterns',
     'One example IGT is tested, without cycles and with one-letter ids.',
     [Q, REF], [('visited set', Q + ': ancestors')], ['xigt.query.ancestors'],
     'exhaustive enumeration of small reference graphs against a reference walk',
     note='Complete for 3 tiers x 2 attributes; 4 tiers with one attribute each.')

prop('C12', 'Descendant queries follow all referrers and stop',
     'Asking for the descendants of a tier or item yields breadth-first every tier that refers '
     'back, with exactly those of its items, in tier order, that refer to one of the items '
     'reached; by default through the first applicable attribute of each tier, with follow="all" '
     'through all of them. No tier is followed twice through the same attribute, so it terminates '
     'on cyclic structures.',
     ['inputs'], 'all reference graphs over 3 (thorough 4) tiers incl. cycles x item patterns',
     'One example IGT is tested, without cycles.',
     [Q, REF], [('agenda and visited set', Q + ': descendants')], ['xigt.query.descendants'],
     'exhaustive enumeration of small reference graphs against a reference walk',
     note='Complete for 3 tiers x 2 attributes; 4 tiers with one attribute each.')

prop('C13', 'Sorting tiers gives the depth-first reference order',
     'Sorting the tiers of an IGT keeps exactly the same tiers and puts every tier behind the tier '
     'it refers to by its first applicable reference attribute, in depth-first order: top-level '
     'tiers in their original order, dependents of one tier ordered by attribute priority and then '
     'original order. Sorting again changes nothing, dangling references count as none, and '
     'cyclic references neither hang nor lose tiers nor disturb the other tiers.',
     ['inputs'], 'all reference graphs over 3 and 4 tiers, all forests over 5, x attribute orders',
     'Tests sort three small acyclic examples.',
     [MODEL], [('depth-first sort keys', MODEL + ': sort_tiers')], ['Igt.sort_tiers'],
     'exhaustive enumeration of small reference graphs against a reference forest walk',
     note='Complete for the listed graph families.')

exec(open(os.path.join(HERE, 'tools', 'props2.py')).read())

TECH_DEFAULT = 'bounded exhaustive enumeration (explicit-state exploration) on the real code'


def main():
    ids = set()
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in P:
            j = p['json']
            assert j['id'] not in ids
            ids.add(j['id'])
            assert len(j['title']) <= 80, (j['id'], len(j['title']))
            fh.write(json.dumps(j, ensure_ascii=False) + '\n')
    checks, na = [], []
    sys.path.insert(0, HERE)
    for p in P:
        i = p['json']['id']
        if os.path.exists(os.path.join(HERE, 'mc', 'props', i.lower() + '.py')):
            checks.append({
                'property': i,
                'quick_cmd': 'python3 -B run.py %s --tier quick' % i,
                'thorough_cmd': 'python3 -B run.py %s --tier thorough' % i,
                'evidence_file': 'evidence/%s.json' % i,
                'technique': p['technique'] or TECH_DEFAULT,
                'level': p['level'],
                'level_note': p['note']})
        else:
            na.append({'property': i, 'reason': 'check not built yet'})
    m = {'version': 1, 'setup_cmd': 'python3 -B run.py --setup', 'checks': checks,
         'not_applicable': na,
         'notes': 'Pure Python; the checks import /repo directly, nothing is built. '
                  'No hooks in /repo. See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')
    print(len(checks), 'checks,', len(na), 'not applicable')


if __name__ == '__main__':
    main()
