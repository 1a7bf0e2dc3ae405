TODO = 'the check is not built yet'
EXH = ('exhaustive bounded exploration of the real code: ')

PROPS += [
P('C01', 'Extraction lists exactly the translatable messages of a document',
  'Extracting a Markdown document gives one entry for each paragraph, '
  'heading, table cell and list item text of it (and each code block, when '
  'code block extraction is asked for), in document order, with a text that '
  'appears several times listed once. Nothing is missing, invented, split or '
  'glued to another, however the blocks are nested in lists and quotes.',
  ['inputs', 'configurations'],
  'every Markdown document built from paragraphs, headings, code blocks, '
  'tables, rules, HTML, lists and quotes, nested in any way',
  'The tests extract a few dozen hand-written files; nesting and adjacency '
  'of blocks combine without limit and two real losses were found in '
  'combinations no test has.',
  [('block state machine', M2P + ':Md2Po.enter_block'),
   ('message flush', M2P + ':Md2Po.leave_block'),
   ('entry recording', M2P + ':Md2Po._save_msgid')],
  technique=EXH + 'all documents of a grammar up to a bound, against a '
  'reference list computed from the abstract document',
  note='All documents of the bounded grammar; md4c trusted to decide which '
       'text denotes which document.'),

P('C02', 'A message keeps the inline markup of its text, in one canonical form',
  'The msgid of a text with inline markup, read back as Markdown, means the '
  'same as the source text, and does not depend on which equivalent spelling '
  'the source used (`*`/`_` emphasis, reference or padding variants, line '
  'breaks inside the text) nor on the block the text is in. Extracting the '
  'msgid again gives the same msgid.',
  ['inputs'],
  'every sequence of inline elements (emphasis, strong, code, links, images, '
  'autolinks, strikethrough, math, wikilinks, raw text), nested, in every '
  'kind of block',
  'Tests fix the msgid of some 100 hand-picked strings; the property is '
  'about all combinations, and about pairs of spellings being equal.',
  [('span replacers', M2P + ':Md2Po.not_plaintext_enter_span'),
   ('span closing', M2P + ':Md2Po.not_plaintext_leave_span'),
   ('text collection', M2P + ':Md2Po.text'),
   ('backtick run', TEXT + ':min_not_max_chars_in_a_row')],
  technique=EXH + 'all sequences and nestings of inline elements up to a '
  'bound, against their canonical form and the HTML md4c gives for both',
  note='All bounded inline texts; spellings whose canonical form would be '
       'ambiguous next to their neighbours are left out and counted.'),

P('C03', 'Extraction commands act on exactly the blocks the documentation says',
  'After any sequence of mdpo comment commands and content blocks, a message '
  'is extracted if and only if the permanent and next-block switches in force '
  'say so, and it carries exactly the context and translator comment given '
  'for it; a next-block command, context or comment affects one block, the '
  'next one, and is then used up. Code block commands follow the same rule '
  'for code blocks.',
  ['histories', 'configurations'],
  'every sequence of the 13 commands and of content blocks, at top level and '
  'inside lists and quotes, with code block extraction on or off',
  'Tests run each command alone on a short text; interactions (a context '
  'pending across a skipped code block) need sequences nobody wrote down.',
  [('command dispatch', M2P + ':Md2Po.command'),
   ('pending flags', M2P + ':Md2Po._save_current_msgid'),
   ('comment parser', CMD + ':parse_mdpo_html_command')],
  technique='explicit-state model (command automaton) explored to closure, '
  'every model trace to a depth replayed on the real extractor',
  level='model_checking',
  note='All automaton states and all two-operation extensions of each, and '
       'all histories to depth 3 (4 in thorough), replayed on the real code.'),

P('C04', 'Translation obeys the same commands as extraction',
  'Translating a document with the catalog extracted from it replaces '
  'exactly the messages that extraction recorded, each with the translation '
  'of its own context: a message that commands exclude stays as it is even '
  'when the catalog has a translation of its text, and a message with a '
  'context never takes the translation of another context or of none. '
  'The commands themselves do not appear in the output.',
  ['histories', 'configurations'],
  'every sequence of commands and blocks, with catalogs that also hold '
  'decoy translations',
  'Extraction and translation are two separate state machines that must '
  'agree on every history; tests never compare them.',
  [('command dispatch', P2M + ':Po2Md.command'),
   ('pending flags', P2M + ':Po2Md._save_current_msgid'),
   ('lookup', P2M + ':Po2Md._translate_msgid')],
  level='model_checking',
  technique='explicit-state exploration of a reference automaton of the '
  'commands, every transition replayed on the real translator with decoy '
  'catalogs',
  note='Automaton closed; every history to the bound replayed. Outputs are '
       'compared as HTML and for leftover commands.'),

P('C05', 'Translating with an empty or identity catalog preserves the document',
  'Translating a document with a catalog without translations, or whose '
  'translations equal their messages, gives a Markdown document that renders '
  'to the same HTML: same blocks, nesting, list kinds, code, tables, links '
  'and text. Translating that output again changes nothing.',
  ['inputs'],
  'every document of the supported Markdown constructs, nested in any way',
  'The tests compare a few dozen outputs; every combination of nesting is a '
  'different path through the serializer.',
  [('serializer', P2M + ':Po2Md.leave_block'),
   ('list and quote prefixes', P2M + ':Po2Md.enter_block')],
  level='exploration',
  technique='bounded exhaustive enumeration of documents on the real '
  'translator, compared as rendered by the Markdown engine, with the '
  'translation of the output as a second step',
  note='Every document of the grammar up to the nesting and length bounds, '
       'with empty and identity catalogs.'),

P('C06', 'Every translated message appears in its place and nothing else changes',
  'With a catalog extracted from a document and filled with translations, '
  'the translated document is the source document with each message replaced '
  'by its translation, at every place where it occurs, in the same structure; '
  'untranslated messages keep the source text.',
  ['inputs', 'configurations'],
  'every bounded document and every subset of its messages translated',
  'Each message key must be rebuilt identically by two programs for every '
  'input; a test pins one text.',
  [('key reconstruction', P2M + ':Po2Md.text'),
   ('lookup', P2M + ':Po2Md._translate_msgid'),
   ('catalog reading', PO + ':pofiles_to_unique_translations_dicts')],
  level='exploration',
  technique='bounded exhaustive enumeration of documents, subsets of '
  'translated messages and inline translations on the real translator, '
  'against the HTML of the abstract translated document',
  note='Expected HTML is built from the abstract document, not from the '
       'program.'),

P('C07', 'Updating a catalog never loses or misplaces a translation',
  'Along any sequence of document edits and catalog updates, in each merge '
  'mode, a message present in the document is one active entry that keeps '
  'its translation, context and fuzzy mark; a message that disappeared is '
  'kept as obsolete with its translation (default), kept as it is (merge) or '
  'removed (remove), and a message that comes back recovers the kept '
  'translation. No duplicate and no message of other contexts is touched.',
  ['histories', 'configurations'],
  'every sequence of document versions, catalog edits and merge modes',
  'Tests update a catalog once or twice; losses need a message to leave and '
  'come back, or to share its text with another context.',
  [('merge', M2P + ':Md2Po._save_msgid'),
   ('obsolete marking', PO + ':mark_not_found_entries_as_obsoletes'),
   ('removal', PO + ':remove_not_found_entries'),
   ('entry comparison', CMP + ':poentry__cmp__')],
  level='model_checking',
  technique='explicit-state exploration of a reference automaton of the '
  'catalog to closure, every transition replayed on the real extractor, and '
  'every bounded history replayed on one catalog file',
  note='Pairs and triples of messages that share text or context; all merge '
       'modes, default translations and layouts.'),

P('C08', 'Running a command again without changes rewrites nothing',
  'Extracting again from unchanged documents, or translating again, leaves '
  'every output file byte for byte as it was; and in check mode the exit '
  'code is 2 exactly when an output file was created or its content changed, '
  'and 0 otherwise.',
  ['histories', 'configurations'],
  'every document and option set, and every prior state of the output file',
  'Needs pairs of runs over all documents and prior states; the tests do it '
  'for one document.',
  [('change detection', IO + ':save_file_checking_file_changed'),
   ('save', M2P + ':Md2Po.extract'), ('save', P2M + ':Po2Md.translate')],
  level='exploration',
  technique='exhaustive exploration of bounded run histories of the real '
  'programs over documents, options and prior output files',
  note='Four runs in a row for every combination, bytes compared after each.'),

P('C09', 'The quality gates fail exactly when a catalog has the defect',
  'With --no-obsolete, --no-fuzzy or --no-empty-msgstr a command exits with '
  'its non-zero code and names the place exactly when a catalog it used '
  'contains an obsolete entry, a fuzzy entry or an untranslated entry, and '
  'does not otherwise, for every command that offers the option.',
  ['inputs', 'configurations'],
  'every catalog of a few entries in every state, every wrapping, and every '
  'command line program',
  'The gates read PO text line by line; correctness depends on wrapping, '
  'plural, header and comment layout that the tests do not vary.',
  [('gates', PO + ':parse_empty_msgstr_from_content_lines'),
   ('exit codes', 'src/mdpo/md2po/__main__.py:run'),
   ('exit codes', 'src/mdpo/po2md/__main__.py:run'),
   ('exit codes', 'src/mdpo/md2po2md/__main__.py:run'),
   ('exit codes', 'src/mdpo/mdpo2html/__main__.py:run')],
  level='exploration',
  technique='bounded exhaustive enumeration of catalogs, layouts, programs '
  'and sets of gates on the real programs',
  note='Defects are known by construction of the catalog, or read back with '
       'polib when the run updates it.'),

P('C10', 'Files extracted together do not affect each other',
  'Extracting several files into one catalog gives the union, in path order, '
  'of what extracting each alone gives: no command, context, link definition '
  'or block number of one file changes what is extracted from another.',
  ['inputs', 'histories'],
  'every ordered tuple of small documents that leave commands pending or '
  'switches on',
  'State leaking across files shows only for particular endings of one file '
  'followed by particular beginnings of the next.',
  [('per file reset', M2P + ':Md2Po.extract'),
   ('path order', IO + ':filter_paths')],
  level='exploration',
  technique='exhaustive enumeration of pairs and triples of files (every state '
  'of the command automaton at the end of a file) on the real '
  'extractor, compared with the files alone',
  note='All automaton states and unfinished constructs before every kind '
  'of beginning.'),

P('C11', 'The wrapping width never changes content',
  'For every wrapping width (from 5 columns for catalogs, since polib wraps '
  'their comments) the catalog holds the same messages and translations, and '
  'the translated Markdown renders to the same HTML. Line breaks between '
  'characters of scripts without spaces are layout.',
  ['inputs', 'configurations'],
  'every width, with every bounded document of long texts',
  'A wrap at an unlucky column can turn text into a list marker, heading, '
  'rule or code; it needs the right word at the right column.',
  [('wrapping', P2M + ':Po2Md._save_current_msgid'),
   ('width argument', TEXT + ':parse_wrapwidth_argument')],
  level='exploration',
  technique='bounded exhaustive enumeration of texts of hazardous words, '
  'blocks and widths on the real programs',
  note='Every width from 1 to the length of each text, in every kind of '
       'block; catalogs reloaded after every width.'),

P('C12', 'md2po2md equals md2po followed by po2md for each file and language',
  'Running md2po2md leaves, for every input file and language, the catalog '
  'that md2po would leave and the Markdown that po2md would write from it, '
  'at the paths that the schema says, for every option; existing '
  'translations of a language are used and kept, and languages do not mix.',
  ['configurations', 'histories'],
  'every combination of files, languages, schemas, options and runs',
  'Tests run a handful of schemas once; options lost between the two halves '
  'and state carried between languages need combinations.',
  [('composition', M2P2M + ':markdown_to_pofile_to_markdown')],
  level='exploration',
  technique='exhaustive exploration of bounded layouts, option sets, states of '
  'histories and gates of md2po2md on the real code, compared with an '
  'independent model of the paths and own md2po and po2md calls',
  note='every configuration and history within the bounds is run'),

P('C13', 'Catalog precedence is fixed and deterministic',
  'When several catalogs hold a message, the one given (or, in a glob, '
  'sorted) last that has a translation for it wins, and an entry without '
  'translation never hides a translation; the result does not depend on the '
  'hash seed or on the file system order, for po2md and mdpo2html alike.',
  ['configurations', 'inputs'],
  'every assignment of translated/untranslated/absent over catalogs and '
  'every order of arguments',
  'One test with two catalogs cannot see an order that varies with the hash '
  'seed of the process.',
  [('catalog reading', PO + ':pofiles_to_unique_translations_dicts'),
   ('path resolution', PO + ':paths_or_globs_to_unique_pofiles'),
   ('cli', 'src/mdpo/po2md/__main__.py:parse_options')],
  level='exploration',
  technique='exhaustive enumeration of catalogs, argument orders and directory '
  'listing orders (controlled os.scandir) on the real programs, and '
  'of set iteration orders over hash seeds',
  note='2 and 3 catalogs (4 in thorough); every iteration order of the '
  'sets of paths is reached by the seeds.'),

P('C14', 'mdpo2html gives the HTML of the translated Markdown',
  'Translating the HTML rendering of a document with its catalog gives the '
  'HTML of the document with every message replaced by its translation, '
  'following the same commands, and keeps the rest as it is.',
  ['inputs', 'histories'],
  'every bounded document of supported elements and every command history',
  'Equivalence of two pipelines over all documents; the tests compare fixed '
  'strings.',
  [('replacer', HTML + ':MdPo2HTML._process_replacer'),
   ('parser events', HTML + ':MdPo2HTML.handle_starttag')],
  level='exploration',
  technique='exhaustive enumeration of documents, inline texts, command '
  'histories and HTML fragments on the real translator, against the '
  'HTML of the translated document',
  note='bounded grammar; code blocks and texts whose message the HTML does '
  'not tell are left out'),

P('C15', 'A command alias behaves exactly as the command it stands for',
  'Replacing commands by aliases of them, with or without prefix, changes '
  'nothing in the result of any program, the original names keep working, '
  'and aliases that name no command are rejected before anything is done.',
  ['histories', 'configurations'],
  'every command history under every aliasing of its commands',
  'Tests alias one or two commands of one program.',
  [('normalization', CMD + ':normalize_mdpo_command_aliases'),
   ('resolution', M2P + ':Md2Po._process_command')],
  level='exploration',
  technique='exhaustive enumeration of command histories under nine aliasings '
  'of all the commands, compared with the original names on the four '
  'programs',
  note='Every history of up to 2 (thorough: 3) of the 13 commands and 6 '
  'blocks and every state and operation of the command automaton, for '
  'md2po, po2md, md2po2md and mdpo2html; every one-edit mutation of '
  'every command name as an invalid alias.'),

P('C16', 'Events are transparent unless they return False',
  'Handlers that do not return False never change a result, whatever events '
  'they listen to; they see every block, span, text, command, message and '
  'link definition of the document once, properly nested and in order, all '
  'handlers of an event run, and a False skips that step only.',
  ['configurations', 'inputs'],
  'every set of listened events over every bounded document',
  'Tests register one handler on one event of one text.',
  [('dispatch', EVENT + ':raise_skip_event'),
   ('registration', EVENT + ':parse_events_kwarg')],
  level='exploration',
  technique='exhaustive enumeration of documents, of the 256 sets of events, of '
  'handler lists and of the skipped occurrence, compared with the '
  'trace of the md4c parser and with the command automaton',
  note='Every one-block document of the C01 grammar, inline texts in four '
  'contexts, every history of up to 2 (thorough: 3) commands and '
  'blocks and every automaton state; every command, paragraph text, '
  'emphasis and definition skipped in turn; md2po and po2md.'),

P('C17', 'The command lines do exactly what the library call does',
  'Every command line option has the effect of the corresponding library '
  'argument: the same files, the same catalog or document, in every '
  'combination of options; key:value arguments are split at the first '
  'unescaped separator.',
  ['configurations'],
  'every combination of options of the four programs over a set of inputs',
  'Each option is tested alone; combinations and pass-through are not.',
  [('option parsing', 'src/mdpo/md2po/__main__.py:parse_options'),
   ('pairs', TEXT + ':parse_escaped_pair')],
  level='exploration',
  technique='exhaustive enumeration of option combinations of the four '
  'programs, command line against library call and against the runs '
  'with only the options of each aspect',
  note='md2po and md2po2md: every configuration of up to 4 (thorough: 5) '
  'options and all but up to 2 (3); po2md and mdpo2html: all of them; '
  'every input form; every key:value string of up to 6 (7) characters '
  'of 4 classes.'),

P('C18', 'A failing run leaves existing files as they were',
  'When a run ends with an error (unreadable or undecodable input, a bad '
  'command or alias, an invalid catalog, text that the encoding of the '
  'output cannot hold, an exception in an event handler), no existing '
  'catalog or document is truncated or partly overwritten, and running again '
  'without the cause of the error gives the files of a run that never '
  'failed. A run that cannot read or open one of its files does not end as '
  'if it had.',
  ['fault_sequences', 'crash_points'],
  'every failure point of every program with every prior output file',
  'Tests check that the error is raised, not what is left on disk.',
  [('save', IO + ':save_file_checking_file_changed'),
   ('save', M2P + ':Md2Po.extract'), ('save', P2M + ':Po2Md.translate')],
  level='exploration',
  technique='exhaustive single fault injection (failed openings and reads, bad '
  'paths, bytes, catalogs, commands, characters, options and raising '
  'handlers, at every point) on the real programs, with the files '
  'before, after, and after a retry compared with a fault-free run',
  note='Every single fault of the listed kinds in 20 scenarios; device '
  'errors while an output is written are out of scope.'),

P('C19', 'Text survives every encoding of inputs and outputs',
  'With any supported encodings of Markdown and catalogs, extraction and '
  'translation work on the characters: the same messages come out as with '
  'UTF-8, files are written in the encoding asked for, and a catalog is read '
  'back as it was written.',
  ['configurations', 'inputs'],
  'every pair of encodings and every class of character they can hold',
  'Tests use one pair of encodings on one file.',
  [('catalog io', M2P + ':Md2Po.extract'),
   ('document io', P2M + ':Po2Md.translate')],
  level='exploration',
  technique='exhaustive enumeration of pairs of encodings and of character '
  'classes and places over the life of a document, on the real '
  'programs, against the same life in UTF-8 transcoded by the check',
  note='17 encodings, 31 classes of characters, 13 places; codecs of '
  'Python trusted.'),

P('C20', 'Locations name the block where the message is',
  'Each entry refers to the file and to the number and kind of the '
  'top-level block its message is in, counting the blocks of the file from '
  'one, for every occurrence recorded; with locations off there are none.',
  ['inputs'],
  'every bounded document of nested blocks',
  'The counter depends on all the nesting before the block.',
  [('counters', M2P + ':Md2Po.enter_block'),
   ('occurrence', M2P + ':Md2Po._save_msgid')],
  level='exploration',
  technique='bounded exhaustive enumeration of documents on the real extractor, '
  'against block numbers counted on the abstract document',
  note='All bounded documents of C01, new and updated catalogs, code '
  'blocks and locations on and off.'),

P('C21', 'Plain text extraction gives the visible text of each message',
  'In plain text mode the messages are those of the normal mode without '
  'their markup characters, and titles of links and images are messages of '
  'their own.',
  ['inputs'],
  'every sequence of inline elements in every kind of block',
  'Tests cover some elements alone.',
  [('plain spans', M2P + ':Md2Po.enter_span'),
   ('text', M2P + ':Md2Po.text')],
  level='exploration',
  technique='bounded exhaustive enumeration of inline texts, documents and '
  'command histories on the real extractor in plain text mode',
  note='The texts of C02, documents of C01 and histories of C03.'),

P('C22', 'Ignored paths and messages are exactly those asked for',
  'A file is ignored exactly when its path, its base name, its directory '
  'name or its directory path is listed, the rest are processed in path '
  'order, and ignored messages are not extracted while all others are.',
  ['configurations', 'inputs'],
  'every small directory tree and every list of ignored paths',
  'The set of trees and ignore lists is unbounded; tests fix five.',
  [('filter', IO + ':filter_paths'),
   ('ignored messages', M2P + ':Md2Po._save_msgid')],
  level='exploration',
  technique='exhaustive enumeration of file trees, argument orders, ignored '
  'names and ignored messages, executed on the implementation',
  note='Every tree of up to 2 (thorough: 3) of 10 file names in 4 '
  'directories with every pair of 15 ignored names, every order of '
  'the arguments, globs and absolute paths, for md2po, po2md and '
  'mdpo2html; every pair of ignored messages for every pair of '
  'messages in every pair of kinds of block, from the library and '
  'from files.'),

P('C23', 'A result depends only on the inputs of its own call',
  'Extractions and translations made one after another, or interleaved '
  'inside each other, in one process give what each gives alone in a fresh '
  'process, and do not modify the arguments they are given nor the '
  'environment and working directory of the process.',
  ['histories', 'schedules'],
  'every sequence and every bounded interleaving of calls',
  'Tests call once per case with fresh arguments.',
  [('instance state', M2P + ':Md2Po.__init__'),
   ('instance state', P2M + ':Po2Md.__init__')],
  level='exploration',
  technique='exhaustive exploration of call histories, of calls nested in each '
  'event of another, and of thread schedules with bounded switches '
  'under a controlled scheduler, against each call alone in a fresh '
  'process',
  note='All histories, nestings and schedules within the bounds, over a '
  'fixed set of 59 calls; thread switches are placed at events.'),

P('C24', 'Link definitions travel with the document',
  'When a document uses links or images, its link reference definitions are '
  'listed as fuzzy messages after the others, once each; translated text '
  'keeps the reference links, and the translated document defines every '
  'reference it uses, with the translated definition when there is one.',
  ['inputs'],
  'every bounded set of definitions and of uses',
  'Tests use one or two definitions in fixed shapes.',
  [('definition parser', MD + ':parse_link_references'),
   ('dump', M2P + ':Md2Po._dump_link_references'),
   ('append', P2M + ':Po2Md._append_link_references')],
  level='exploration',
  technique='bounded exhaustive enumeration of definitions, places and uses on '
  'the real extractor and translator; md4c resolves the references of '
  'source, messages and output',
  note='35 spellings of definitions in 9 places, all pairs of 12 and '
  'triples of 6 in 4 layouts, 21 constructs that only look like '
  'definitions.'),

P('C25', 'The Markdown extensions asked for are the ones in force, everywhere',
  'With any set of Markdown extensions, extraction lists the messages that '
  'the document has with those extensions and no others, and translation '
  'with the same set finds all of them: the translated document has, with '
  'those extensions, the translated messages, and an untranslated one means '
  'the same as the source. The same set given to a program by its option or '
  'from the library gives the same result.',
  ['inputs', 'configurations'],
  'every subset of the 14 extensions and every document',
  'The tests use the default set and, for one file, one more.',
  [('extension dependent state', M2P + ':Md2Po.__init__'),
   ('extension dependent state', P2M + ':Po2Md.__init__'),
   ('option', 'src/mdpo/cli.py:add_extensions_argument')],
  level='exploration',
  technique=EXH + 'all small and all nearly full subsets of the extensions '
  '(thorough: all 16384) times documents that depend on them',
  note='29 documents and 37 pairs of them; md4c trusted.'),
]
