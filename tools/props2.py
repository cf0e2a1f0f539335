XML, JSON_, XP = 'xigt/codecs/xigtxml.py', 'xigt/codecs/xigtjson.py', 'xigt/xigtpath.py'
ENUM = 'exhaustive enumeration of documents over small alphabets, compared with independent '\
    'readers and writers of the format'

prop('C14', 'XigtXML preserves the corpus',
     'Writing a corpus as XigtXML (any indentation) and reading it back gives an equal corpus: '
     'same igts, tiers, items, metadata and nested metadata elements in the same order with the '
     'same ids, types, attributes, texts, namespaces and prefix declarations, and correct parent '
     'links. The written document is well-formed, namespace-correct XML that carries exactly that '
     'information for any XML reader. Any equivalent XML layout of a document (comments, CDATA, '
     'entities, quoting, indentation, other prefixes) loads to the same corpus.',
     ['inputs'], 'all field combinations, nestings, metadata forests, prefix declarations and '
     'short strings over an adversarial alphabet',
     'Tests round-trip a few example files; losses show up for combinations of fields, names, '
     'prefixes and characters that they do not contain.',
     [XML, MODEL, MD], [('decode_*/encode_* functions', XML), ('namespace handling', XML)],
     ['xigtxml.dump(s), load(s)'], ENUM,
     note='Complete for the document families within the stated bounds. Excluded: what XML cannot '
          'represent (see assumptions).')

prop('C15', 'XigtJSON preserves the corpus',
     'Writing a corpus as XigtJSON and reading it back gives an equal corpus: same igts, tiers, '
     'items, metadata and nested metadata in the same order with the same ids, types, attributes, '
     'texts, namespaces, prefix declarations and parent links; empty texts and types are kept. '
     'The written document is valid JSON carrying exactly that information, and any other key '
     'order or layout of the same data loads to the same corpus.',
     ['inputs'], 'all field combinations, nestings, metadata forests, prefix declarations and '
     'short strings over an adversarial alphabet',
     'Tests encode two tiny corpora; losses show up for combinations of fields, prefixes and '
     'empty values that they do not contain.',
     [JSON_, MODEL, MD], [('encode_*/decode_* functions', JSON_), ('prefix mapping', JSON_)],
     ['xigtjson.dump(s), load(s)'], ENUM,
     note='Complete for the document families within the stated bounds.')

prop('C16', 'Formats, files, encodings and layouts carry the same content',
     'Converting a corpus between XigtXML and XigtJSON in either direction and back loses nothing '
     'both formats can represent. Whatever channel a document is written to and read from '
     '(string, path, path object, binary or text file, in-memory file, any supported '
     'encoding and indentation, replacing longer or shorter files, and however the reads are '
     'split into chunks), the same corpus is obtained; truncated documents are refused in full '
     'mode instead of giving part of a corpus.',
     ['inputs', 'schedules'], 'documents x channels x encodings x chunkings, all truncations',
     'Tests read from one string and one file; chunk boundaries, encodings and replacement of '
     'existing files are never varied.',
     [XML, JSON_], [('load/dump/loads/dumps', XML), ('load/dump/loads/dumps', JSON_)],
     ['load, loads, dump, dumps of both codecs'], ENUM + '; all read chunkings',
     note='Complete within the stated bounds.')

prop('C17', 'Loading modes deliver the same igts under every interleaving',
     'In full, incremental and transient mode, from any kind of source, iterating delivers each '
     'igt of the source once, in order, fully read, with the corpus as parent, under every '
     'interleaving of several open iterators, complete passes, igts access, lookups and '
     'serialisation. In incremental mode what has been loaded stays available and is never read '
     'twice; in transient mode nothing is kept and igts are read only as requested. A '
     'corpus read to its end can be added to like any other.',
     ['schedules', 'histories'], 'all interleavings of iterators and operations up to a depth',
     'Tests make one pass in each mode; two iterators or a lookup in the middle of a pass are '
     'never combined.',
     [MODEL, XML, JSON_], [('generator kept by the corpus', MODEL + ': XigtCorpus')],
     ['XigtCorpus(mode=...), load(mode=...)'],
     'explicit-state exploration of a model of a corpus being read; every transition sequence '
     'replayed on the real corpus', 'model_checking',
     'All operation sequences to depth 5 (4 for files), thorough 7 (5), 0-3 igts.')

prop('C18', 'XigtPath location paths select exactly the described objects',
     'A path of child, descendant, self, parent and attribute steps with plain, prefixed or '
     'wildcard names, relative or absolute, selects exactly the objects (or attribute values) it '
     'describes, in document order of each step, from any start object; find gives the first of '
     'findall or None. Prefixed names match by namespace, not by spelling, metadata come before '
     'other children, and no well-formed path raises an error.',
     ['inputs'], 'all paths up to 3 (4) steps x start objects of every kind',
     'Tests evaluate about forty fixed paths on one corpus without namespaces or nested metadata.',
     [XP, MODEL, MD], [('tokenizer and step evaluation', XP)],
     ['xigtpath.find, findall, iterfind'],
     'exhaustive enumeration of paths against a reference evaluator over syntax trees',
     note='Complete for all paths of the stated length on the fixture corpora.')

prop('C19', 'XigtPath predicates, disjunctions and functions filter exactly',
     'A predicate keeps exactly the objects for which its path has a result, respectively a '
     'result equal to the quoted value (for =), or no such result (for !=), whatever characters '
     'the value contains; several predicates must all hold, and paths in predicates may have '
     'predicates. A disjunction gives the results of its alternatives '
     'in order, at any place of a path, and text(), value(), referent() and referrer() give the '
     'text, value, referred and referring objects for the reference attributes asked for; spacing '
     'never matters.',
     ['inputs'], 'all combinations of predicate paths, operators, values, alternatives, functions '
     'and continuations from a list',
     'Tests sample a dozen of these combinations.',
     [XP, REF], [('predicate, disjunction and function evaluation', XP)],
     ['xigtpath.find, findall, iterfind'],
     'exhaustive enumeration of expressions against a reference evaluator over syntax trees',
     note='Complete for the listed constituents on the fixture corpora; nested predicates are '
          'outside.')

prop('C20', 'Reading changes nothing, and objects share nothing',
     'No lookup, iteration, comparison, reference, query, path or serialisation operation changes '
     'contents, identities, parents or lookups of a corpus, or what any later operation returns. '
     'What is done to one corpus, or to a returned list or dictionary, never affects another '
     'corpus or later results, and lists of members or results that were returned stay as they are '
     'when the corpus changes. Constructors and codecs copy the dictionaries and lists they are '
     'given, so neither later changes to an argument nor to another object made from the same or '
     'from default arguments show through.',
     ['histories', 'inputs'], 'all sequences of two (three) reading operations, all pairs of an '
     'operation elsewhere and a reading operation, all constructor arguments x modifications',
     'Tests call an operation and look at its result; they never look for what changed otherwise.',
     [MODEL, MIX, MD, REF, XP, XML, JSON_], [('caches of references', MODEL + ': Igt'),
                                             ('copies of arguments', MIX)],
     ['the whole reading interface'],
     'exhaustive enumeration of operation sequences on the real code, compared with fresh objects',
     note='All sequences of 2 (3) of 76 operations on 3 corpora.')

prop('C21', 'Threads working on different objects do not disturb each other',
     'When two threads load, build, modify, query, validate, convert or dump different corpora (or different igts of '
     'one corpus), or both read the same corpus, each gets exactly the results it would get alone, '
     'wherever one is interrupted and the other one runs, and neither blocks forever.',
     ['schedules'], 'all schedules of two threads with one preemption at any line (thorough: '
     'instruction) or two at function entries, all pairs of operations',
     'Tests are single-threaded; a race needs a preemption at one particular line.',
     [XML, JSON_, MODEL, XP], [('no module-level state during an operation', JSON_)],
     ['the whole interface, from two threads'],
     'stateless model checking: real threads under a deterministic scheduler, all schedules within '
     'a preemption bound', 'model_checking',
     'Complete for the operation pairs within the preemption bound.')

SCRIPTS = 'xigt/scripts/'
CLI = 'exhaustive enumeration of inputs and options, the real command run and compared with a '\
    'reference implementation'

prop('C22', 'The validator reports exactly the rules a document breaks',
     'For every file given, in order, xigt validate reports every broken rule on ids, types, tier '
     'and item references, ranges and alignment expressions, on the right object, and no rule that '
     'is kept. A file that cannot be loaded is reported as such without stopping the others, and '
     'the exit status is non-zero exactly if something is reported at the chosen verbosity or a '
     'file cannot be loaded.',
     ['inputs'], 'all combinations of ids, types, tier references, reference expressions, referred '
     'texts, files and options from lists',
     'There are no tests of the validator.',
     [SCRIPTS + 'xigt_validate.py'], [('validate_* functions', SCRIPTS + 'xigt_validate.py')],
     ['xigt validate: printed report and exit status'], CLI,
     note='Complete for the listed constituents; ranges with negative or non-integer bounds '
          'are outside.')

prop('C23', 'Partitioning distributes all igts by key and loses none',
     'xigt partition writes, for every value of the key found in any input file, one file that '
     'holds exactly the igts with that key (those without one under the default key), complete '
     'and in input order, and with all namespace declarations they need. Keys share a '
     'file only if they are equal with ":" and "/" replaced by "-"; no key makes it write outside of the output directory, and input files do '
     'not change.',
     ['inputs'], 'all assignments of 14 keys to igts of up to three files, all prefix declarations',
     'There are no tests of partitioning.',
     [SCRIPTS + 'xigt_partition.py'], [('partition and file names', SCRIPTS + 'xigt_partition.py')],
     ['xigt partition: the files written'], CLI,
     note='Complete for the stated assignments.')

prop('C24', 'Sorting orders by the given keys and changes nothing else',
     'xigt sort orders igts, tiers and items by the values of the given keys (numbers inside '
     'compare as numbers, first key first, members with equal keys in their original order), and '
     '--tier-deps puts tiers after those they depend on. Nothing is lost, added or changed otherwise, '
     'and the input file changes only with --in-place.',
     ['inputs'], 'all short sequences of members over 11 key values, key lists, key paths, tier '
     'reference graphs and option combinations',
     'There are no tests of the sorting command.',
     [SCRIPTS + 'xigt_sort.py', MODEL], [('make_sortkey, run', SCRIPTS + 'xigt_sort.py')],
     ['xigt sort: the document printed or replaced'], CLI,
     note='Complete for the stated sequences.')

prop('C25', 'xigt query prints exactly the results and counts asked for',
     'For every file, in order, xigt query prints every result of the query in document order '
     '(find), and after the finds, action by action, the number of results (count), the number '
     'of different results (unique), or how often every group of subquery results occurs '
     '(tally, most frequent first), each described in the way asked for. Nothing else is printed to the standard '
     'output, braces and other special characters in descriptions stay as they are, and the file '
     'description is the name or base name of the file being queried.',
     ['inputs'], 'all queries x actions x descriptions from lists, all sequences of up to 4 '
     'actions and 3 files',
     'There are no tests of the query command.',
     [SCRIPTS + 'xigt_query.py', XP], [('run, actions and descriptions', SCRIPTS + 'xigt_query.py')],
     ['xigt query: the standard output'], CLI,
     note='Complete for the listed queries, actions and descriptions; positional fields in '
          'descriptions are outside.')

EXP, IMP = 'xigt/exporters/', 'xigt/importers/'

prop('C26', 'The LaTeX export shows every word once, aligned, and nothing else',
     'For every igt of a corpus with two or more tiers of the selected types (a comment for the '
     'others) the LaTeX export writes one example that shows the items of every selected tier exactly once and in order, with items that are aligned (directly or through '
     'others) below each other, items that are not aligned to each other in different columns, '
     'and as many columns in every row. Every text appears literally: no character of the corpus '
     'acts as a LaTeX command, and no input makes the export fail.',
     ['inputs'], 'all alignments between two and three tiers of few items, all short texts over '
     'the special characters, all tier sequences and configurations of a list',
     'There are no tests of the LaTeX export; wrong columns appear only for particular shapes of '
     'alignments (crossing, many-to-many, gaps at the ends).',
     [EXP + 'latex.py', EXP + 'util.py', SCRIPTS + 'xigt_export.py'],
     [('columns by alignment', EXP + 'latex.py'), ('escaping', EXP + 'latex.py')],
     ['xigt export -f latex: the file written'],
     'exhaustive enumeration of alignments and texts; the written LaTeX is read back by a '
     'reference reader and compared',
     note='Complete for 4x3 (4x4) and 2x3x2 (3x3x3) items; texts with line breaks are outside; '
          'whether columns are minimal is decided for fully aligned or two monotone tiers only.')

prop('C27', 'Toolbox import turns every record into one igt with all its data',
     'Importing a Toolbox file gives one igt for every record, in order, with its metadata and '
     'one tier for every configured marker found. Every word, morpheme and gloss is one item in '
     'the original order, morphemes and glosses refer to exactly the word or morpheme they '
     'belong to (by character ranges where they are segments of it), and no character is added '
     'or lost. A record that cannot be aligned is reported and does not stop or change the '
     'others; warnings of the Toolbox library are passed on with the name of the record.',
     ['inputs'], 'all short words x morpheme sequences, all line orders and record sequences of '
     'a list, configurations and encodings',
     'There are no tests of the Toolbox import.',
     [IMP + 'toolbox.py', SCRIPTS + 'xigt_import.py'],
     [('segment matching', IMP + 'toolbox.py'), ('records to igts', IMP + 'toolbox.py')],
     ['xigt import -f toolbox: the file written'], CLI,
     note='Complete for the listed words, lines and records. The toolbox library is not installed '
          'and replaced by a stand-in.')

prop('C28', 'ODIN import keeps every block, its lines and its description',
     'Importing ODIN text files writes, for every file of the input directory, one corpus with one '
     'igt for every block in order, with its lines (tags, numbers and text unchanged), language '
     'and document description, under the name of the input file. Every character of the text '
     'that XML can represent is kept, the others are replaced so that the result can always be '
     'loaded again, and no existing output or other file is changed.',
     ['inputs'], 'all block descriptions, every character of the basic plane, all sets of up to 3 '
     'files of a list',
     'There are no tests of the ODIN import.',
     [IMP + 'odin.py', SCRIPTS + 'xigt_import.py'], [('blocks to igts', IMP + 'odin.py')],
     ['xigt import -f odin: the files written'], CLI,
     note='Complete for the listed descriptions and characters. The odintxt library is not '
          'installed and replaced by a stand-in.')

prop('C29', 'The [incr tsdb()] export gives one row per igt with the cells asked for',
     'The export to [incr tsdb()] writes one row for every igt of the corpus, in order, each cell '
     'holding the value of its configured expression for that igt (by default the text of the '
     'phrases or words, the identifier and the length), numbered from the configured start with '
     'the configured skip. A configuration can be used any number of times and is not changed.',
     ['inputs', 'histories'], 'all tier sequences of a list, all sequences of up to 4 cell '
     'expressions, all sequences of up to 3 exports',
     'There are no tests of this export.',
     [EXP + 'itsdb.py', SCRIPTS + 'xigt_export.py'], [('rows and cells', EXP + 'itsdb.py')],
     ['xigt export -f itsdb: the rows given to the profile library'], CLI,
     note='Complete for the listed tiers, cells and histories. The delphin library is not '
          'installed and replaced by a stand-in.')

prop('C30', 'A dump that fails leaves the existing file as it was',
     'If a corpus cannot be written (a value that cannot be represented, an unknown encoding, a '
     'source that fails while igts are read from it, anything that is no corpus), dump() raises an '
     'error and the file keeps its previous contents byte by byte, also when it is the one the '
     'corpus is being read from. If dump() returns, the whole document has been written; errors '
     'of the file are always reported.',
     ['crash_points', 'inputs'], 'a failure at every field of every object, every byte of the '
     'source, every igt, every byte of output space',
     'No test makes a dump fail; most positions of the failure are harmless.',
     [XML, JSON_, SCRIPTS + 'xigt_sort.py'],
     [('serialise before opening', XML + ': dump'), ('serialise before opening', JSON_ + ': dump')],
     ['the contents of files after failed and successful dumps'],
     'exhaustive fault injection: every fault position x value x target on the real code',
     note='Complete for the stated faults. If space runs out while writing, the old contents are '
          'lost; that this is reported is what is checked.')

prop('C31', 'Deprecated names do what their replacements do; commands are reachable',
     'The deprecated functions and members (add, add_list, Metadata.text, get_content, '
     'get_aligned_tier, resolve_alignment and their like) warn and have exactly the results and '
     'effects of the members that replace them, in every sequence of operations. Every command '
     'and option of the command line is reachable from the xigt command and from its own module, '
     'and wrong arguments give an error message and a non-zero status and write nothing. '
     'Importing a module of xigt changes no settings of the program.',
     ['histories', 'inputs'], 'all sequences of up to 4 (5) deprecated operations next to their '
     'replacements, all expressions and commands of a list',
     'The deprecated interface is hardly tested.',
     [REF, MIX, MD, 'xigt/main.py', MODEL], [('deprecated functions', REF), ('add, add_list', MIX)],
     ['deprecated members; the xigt command'],
     'exhaustive enumeration of operation sequences, run on both interfaces and compared',
     note='Complete for the stated sequences.')

prop('C32', 'Every object can be printed and says which object it is',
     'repr, str and format of any corpus, igt, tier, item, metadata, meta or metachild succeed in '
     'every state the object can be in: with or without ids, types and parents, with references '
     'that are missing, dangling, malformed or cyclic, after any additions and removals and '
     'in any loading mode. The text names the kind of the object, its id (or name), its current '
     'number of members and, for an item whose value can be found, the value. Printing '
     'changes nothing.',
     ['inputs', 'histories'], 'all combinations of settings of item, tier and reference from lists, '
     'all containers of up to 12 members with every edit, all cyclic references of up to 3 items',
     'Tests print two fixed objects; printing fails on items that are under construction or '
     'have broken references, when it is needed most.',
     [MODEL, MD], [('__repr__', MODEL), ('__repr__', MD)], ['repr, str, format of all objects'],
     'exhaustive enumeration of object states, printed and compared with what they hold',
     note='Complete for the stated states. Wording and address are not prescribed.')

prop('C33', 'Results depend only on the input',
     'Every function and command gives the same results, messages and output files, byte for byte, '
     'for the same input, whatever the encoding of the locale, the hash seed, the order in which '
     'a directory is listed, the current directory and the way a path is written, the settings of '
     'the interpreter, and whatever was done before in the same process. Documents, configurations '
     'and imported texts are read in their own encoding and files written are UTF-8 unless '
     'another encoding is asked for.',
     ['environment'], 'all combinations of the listed values of each setting, all orders of '
     'operations in one process',
     'Tests run in one environment, once.',
     [XML, JSON_, MODEL, SCRIPTS, 'xigt/importers/', 'xigt/exporters/'],
     [('opening of files', XML), ('opening of files', JSON_), ('namespace sets', JSON_)],
     ['all public functions and commands'],
     'exhaustive enumeration of environments, each running the whole workload in a new process, '
     'and comparison of all results and files',
     note='Complete for the stated settings and workload.')

prop('C34', 'Whatever fails is reported, files are closed and others stay as they are',
     'If opening, reading, writing or closing a file or making a directory fails at any point of '
     'any operation, the failure is reported (an exception or a non-zero exit status; the result '
     'is never silently incomplete), every file opened is closed again, no file but the output '
     'changes, an existing output is not touched before all input was read, and the operation '
     'succeeds when it is repeated without the failure. Files handed over by the caller are never '
     'closed. The validator reports files it cannot open or read and goes on with the others.',
     ['faults'], 'every file-system event of every operation, with each of the errors',
     'Tests never make a file operation fail.',
     [XML, JSON_, SCRIPTS, 'xigt/importers/', 'xigt/exporters/'],
     [('dump: writes after reading', XML), ('load and dump', JSON_),
      ('run: replaces the file after sorting', SCRIPTS + 'xigt_sort.py')],
     ['load and dump of both codecs; all commands'],
     'exhaustive fault injection: every event of every operation fails in turn, on the real code',
     note='Complete for the stated operations, one fault per run. An output that cannot be '
          'written to the end may be incomplete.')
