"""Writes properties.jsonl and MANIFEST.json (run after editing this file)"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
L = 'openquake/commonlib/'
P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over.split(), 'text': ' '.join(text.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {'files': [f if '/' in f else L + f for f in files.split()],
                    'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'observe_at': list(observe)}})


p('V01', 'Numeric validators accept exactly their range and return the number',
  '''A numeric field validator (longitude in [-180, 180], latitude in [-90, 90],
  probability in [0, 1], a custom closed float range, non-negative integer,
  non-negative float) returns exactly the number its text denotes when that
  number lies in the closed range, and raises ValueError for every other text,
  including NaN, infinities outside the range and text that is not a number.
  Wrapped so that it may be empty, the validator maps the empty string to None
  and otherwise behaves the same.''', 'inputs',
  '''every text: every numeral notation, range boundaries and their
  floating-point neighbours, special values, arbitrary junk, and every custom
  range''', '''the tests sample one or two values per validator; they never try
  a boundary neighbour, NaN, infinity or exponent notation''', 'valid.py',
  [('range validators', 'valid.py: FloatRange, longitude, latitude, '
    'positiveint, positivefloat, NoneOr')], ['return value or ValueError'])
p('V02', 'Token validators accept exactly their language and nothing else',
  '''A text validator (identifier, white-space separated identifier list,
  closed choice, asset category, boolean, non-empty text, regular expression,
  optional wrapper) returns the unchanged text, or the list or boolean it stands
  for, exactly when the whole text belongs to its language, and raises
  ValueError otherwise; identifiers are an ASCII letter or underscore followed
  by ASCII letters, digits and underscores, and booleans are exactly 0, 1, true
  and false in lower case.''', 'inputs',
  'every text, every set of choices and every anchored regular expression',
  '''the tests use one accepted and one or two rejected words each; trailing
  newlines, partial matches and case variants are never tried''', 'valid.py',
  [('token validators', 'valid.py: Regex, name, namelist, Choice, boolean, '
    'not_empty, NoneOr')], ['return value or ValueError'])
p('V03', 'Intensity measure types are parsed whole or rejected',
  '''A text is accepted as an intensity measure type only if it is entirely one
  of PGA, PGV, PGD, IA, RSD, MMI or SA(period) with a plain decimal period, and
  ValueError is raised for anything else.  The result names the measure and,
  for SA only, gives the period written in the text and the 5.0 damping; both
  are absent for the others.''', 'inputs', 'every text',
  'the tests try five texts, none with material before or after a valid one',
  'valid.py', [('IMT grammar', 'valid.py: IMTstr')],
  ['the (imt, saPeriod, saDamping) triple'])
p('R01', 'Casting a record is all-or-nothing and names every invalid field',
  '''Casting a record yields the named tuple of the typed field values when every
  field text is valid, and otherwise an invalid-record error that lists exactly
  the invalid fields, in column order, each with the reason its validator gave,
  and prints one line per field with record or file name, row and column.
  Validity queries (whole record, single field by position or name, attribute
  access) agree with that, the whole record also requiring the constraints
  declared on its type, and none of this changes the stored texts.''',
  'inputs', 'every record type and every row of texts',
  'the tests cast four rows of one record type, all without an invalid field',
  'record.py records.py', [
      ('casting', 'record.py: Record.cast, to_tuple, is_valid, Field.__get__, '
       'InvalidRecord'), ('constraints', 'records.py: Exposure.check_area')],
  ['cast()', 'to_tuple()', 'is_valid()', 'str(InvalidRecord)'])
p('R02', 'A record behaves as the list of its texts, refusing invalid writes',
  '''Reading, writing, iterating, searching, printing (comma separated) and
  comparing a record by position or by field name agrees with the list of its
  texts.  Writing a text its field does not accept raises ValueError and changes
  nothing, unknown names and positions are refused, and a record equals another
  sequence exactly when lengths and contents are equal.''', 'inputs histories',
  'every record type, row and sequence of operations on a record',
  'the tests never write to a record and compare only equal-length rows',
  'record.py', [('sequence protocol', 'record.py: Record.__getitem__, '
                 '__setitem__, __eq__, __ne__, get_field_index')],
  ['record contents after each operation'])
p('R03', 'Declared fields keep their order, also across inheritance',
  '''The fields of a record type are those of all its bases and its own in
  order of declaration, under the names of their attributes, whatever these
  are; records are built by position or
  by keyword in that order, missing fields being the empty text and unknown or
  surplus ones being refused.  Key constraints give the texts of their fields
  and belong to the declaring type, and declarations without primary key, with a
  reserved name or with a repeated field in a constraint are refused.''',
  'programs', 'every sequence of record type declarations',
  'no test declares a record type', 'record.py',
  [('metaclass', 'record.py: MetaRecord, Field, Unique, ForeignKey')],
  ['fieldnames', 'constructor', 'keys'])
p('R04', 'The search for invalid rows reports every one, once, in order',
  '''Searching a sequence of records (or a table) for invalid ones yields exactly
  the records with at least one invalid field, in order, each with its row
  number and all its invalid columns and reasons, without consuming more input
  than asked for; a table is valid exactly when all its records are.''',
  'inputs', 'every record type and every sequence of rows, valid and invalid',
  'only one CSV example with two errors is tested', 'record.py',
  [('row search', 'record.py: find_invalid, Table.is_valid')],
  ['the InvalidRecord errors yielded'])
p('R05', 'Each cell of the tables of a format is in the domain of its column',
  '''The records of each format have their columns in order, and a record is
  valid exactly when each cell is in the domain of its column: longitudes and
  latitudes in degrees; numbers, areas, costs, occupants and no-damage limits not
  negative; probabilities of exceedance within 0 and 1; levels, ratios, parameters
  and ground motion values numbers; ordinals and event set numbers integers;
  location numbers not negative; categories, formats, conversion types, booleans,
  limit states and intensity measure types in their languages; exposure ids and
  taxonomies not empty.  Area type and unit, absolute flags, retrofitted type and
  cost, deductible, insurance limit, area of an asset, no-damage limit and
  investigation time may be empty.  The fields of a valid record are the values
  denoted by its cells.''',
  'inputs', 'every record type of the five formats and every text of each cell',
  'the tests have valid files and two wrong cells', 'records.py',
  [('columns', 'records.py: all record classes')],
  ['validity, errors and values of records'])
p('T01', 'Unique keys of a table hold after any history of operations',
  '''After any sequence of insertions, replacements and deletions no two records
  of a table agree on any of its unique constraints, and looking up a primary
  key finds exactly the stored record or raises KeyError.  An operation that
  would create a duplicate raises KeyError, and a refused operation leaves the
  table and its keys as they were.''', 'histories',
  'every record type with one to three unique constraints and every history',
  '''the tests insert twice into a one-column table; no test has two constraints
  or an operation after a refused one''', 'record.py',
  [('unique dictionaries', 'record.py: Table.insert, __setitem__, __delitem__, '
    'UniqueData')], ['table rows', 'getrecord'])
p('T02', 'Foreign keys hold at every insertion into a table set',
  '''A record enters its table of a table set only if each of its foreign keys
  equals the referenced key of a record currently stored in the referenced
  table; otherwise a foreign key error is raised and no table changes.  Every
  accepted record goes to the table of its type, bulk insertion stops at the
  first refused record, and iteration and slices show the tables in declaration
  order, iteration only the non-empty ones.''', 'histories',
  'every set of related record types and every history of operations on them',
  'no test inserts a record whose parent is missing or was deleted', 'record.py',
  [('foreign key dictionaries', 'record.py: TableSet.check_fk, insert, '
    'insert_all, __iter__, __getitem__')], ['tables after each operation'])
p('T03', 'The tables of a format accept each key once and no orphans',
  '''A record enters the tables of its format exactly when no record there has the
  same primary key (and, for locations, neither the same number nor the same
  coordinates as spelled) and, for a vulnerability function or its data, the set or
  the function is there already; otherwise KeyError or a foreign key error is raised
  and the tables stay as they were.  CSV files that break this are refused in the
  same way when they are read or converted, and stay as they are.''',
  'histories', 'every history of insertions in the tables of the five formats',
  'the tests only read consistent files', 'records.py',
  [('keys', 'records.py: pkey, Unique and ForeignKey of all record classes'),
   ('reading', 'csvmanager.py: CSVManager.get_tableset')],
  ['tables after each insertion', 'files after a refusal'])
p('T04', 'A table reads as the list of its records',
  '''Indexing a table by position, from either end, or by a slice, iterating it
  forwards and backwards, its length, searching and counting records or rows of
  texts, comparing it with another table or sequence of records or rows, and
  printing it (one comma separated line per record) agree with the list of its
  records; the dictionary of its nodes has one node per primary key in order; a
  table is valid exactly when each of its records is; asking changes nothing.''',
  'inputs', 'every record type, table contents and question',
  'the tests compare two tables and print one', 'record.py',
  [('table', 'record.py: Table.__getitem__, __len__, __eq__, __ne__, __str__, '
    'is_valid, nodedict')], ['answers', 'table rows'])
p('G01', 'A weighted sequence always weighs the sum of the items put into it',
  '''A weighted sequence contains exactly the items inserted, appended, extended
  or replaced, in list order, and its weight is the sum of the weights inserted
  with them; sums and merges are new sequences with the concatenated items and
  the added weights, leaving the operands alone and independent.  Equality
  compares lengths and items, inequality is its negation, and ordering is by
  weight.''', 'inputs histories',
  'every history of operations on any number of weighted sequences',
  '''the tests build one or two sequences and never mutate after a merge or
  compare different lengths''', 'general.py',
  [('weighted sequences', 'general.py: WeightedSequence')],
  ['items, weight, comparisons'])
p('G02', 'Splitting by maximum weight loses nothing and fills blocks greedily',
  '''Splitting items into blocks by a maximum weight yields, in order and exactly
  once each, all items of non-zero weight; each block is a weighted sequence of
  items of a single kind whose weight is their sum, at most the maximum unless
  the block is a single item, and a block ends only when the next item of
  non-zero weight is of another kind or would exceed the maximum.  Items of
  weight zero are ignored altogether; a negative weight or a maximum weight that
  is not positive raises ValueError.  Items are consumed lazily.''', 'inputs',
  'every sequence of items, weights, kinds and maximum weight',
  '''the tests split two or three short fixed sequences, never with zero weights
  between kinds''', 'general.py',
  [('block splitter', 'general.py: block_splitter')], ['the blocks yielded'])
p('G03', 'Splitting with a hint bounds blocks by the total weight over the hint',
  '''Splitting items with a hint gives the same blocks as splitting by the maximum
  weight ceil(total weight / hint): all items of non-zero weight in order, none
  lost or repeated, in homogeneous blocks.  Items with no weight at all, or no
  items, give no blocks.''', 'inputs',
  'every finite sequence of items, weights and kinds and every positive hint',
  'the tests use two fixed inputs and never an empty one', 'general.py',
  [('hinted splitter', 'general.py: split_in_blocks')], ['the blocks yielded'])
p('G04', 'Deep comparison answers equal exactly when the structures agree',
  '''Deep comparison of two values returns (True, '') when they have the same
  structure (sequences of equal length and element-wise equal, dictionaries and
  object attributes with the same keys, objects of the same class, equal texts)
  and their numbers agree to the requested number of decimals, and (False,
  message) with a non-empty message otherwise; it is symmetric, and never raises
  for values of different kinds.  Attributes and keys listed as excluded are
  ignored at every depth, also those only one side has.''', 'inputs',
  '''every pair of nested values: numbers, texts, None, lists, tuples,
  generators, dictionaries, objects with __dict__ or __slots__''',
  '''the comparison is what the repository's own parser tests rely on; its tests
  use a dozen fixed pairs''', 'general.py',
  [('deep comparison', 'general.py: deep_eq, _deep_eq')],
  ['the (answer, message) pair'])
p('G05', 'Small helpers: distinct keys, ceiling, booleans and temporary files',
  '''The distinct keys of a sequence are those given, once each, in order of first
  appearance; the integer ceiling of a quotient is the least integer not below
  it, and a divisor that is not positive is refused; exactly true, yes, t and 1
  in any letter case convert to True and any other text to False; a temporary
  file is a new file in the requested directory (created on demand) with the
  requested prefix, suffix and content.''', 'inputs histories',
  'every argument, and every sequence of temporary files in one directory',
  'the tests try one or two values of each', 'general.py',
  [('helpers', 'general.py: distinct, ceil, str2bool, writetmp')],
  ['return values and files written'])
p('C01', 'Exposure models survive the conversion to tables and back',
  '''Converting an exposure model to records yields tables that hold everything in
  it: one record per cost type, asset, cost, occupancy and distinct location,
  each valid and in document order, optional parts being empty cells.
  Converting the tables back yields the same model: identifiers, description,
  area, deductible, insurance limit, and every asset with its location, costs
  and occupancies, up to the order of the latter two, with the numbers spelled
  as they were; a missing taxonomy source reads UNKNOWN.  The order of the rows
  of the location, cost and occupancy tables does not matter, and the input is
  not changed.  An exposure record is valid only if area type and unit are both
  present or both absent.''', 'inputs',
  '''every valid exposure model, of buildings or population, with any subset of
  the optional parts, any number of assets and shared locations''',
  '''the tests convert one model of three assets and one of two, with every
  option present in the first asset''', 'converter.py records.py record.py',
  [('exposure converter', 'converter.py: Exposure'),
   ('exposure records', 'records.py: Location, Exposure, CostType, Asset, '
    'Occupancy, Cost')], ['records and nodes'])
p('C02', 'Vulnerability models survive the conversion to tables and back',
  '''Converting a vulnerability model to records yields one record per set, per
  function and per intensity level, all valid, and converting the tables back
  yields the same model: every set with its category, intensity measure type
  and levels, every function with its distribution, loss ratios and
  coefficients of variation, in order and spelled as they were.  The order of
  the rows of the set and function tables and of the groups of data does not
  matter.''', 'inputs',
  '''every valid vulnerability model with at least one function per set and one
  level per function''', 'the tests convert a single file',
  'converter.py records.py record.py',
  [('vulnerability converter', 'converter.py: Vulnerability, groupby'),
   ('vulnerability records', 'records.py: DiscreteVulnerability*'),
   ('nodedict', 'record.py: nodedict')], ['records and nodes'])
p('C03', 'Fragility models survive the conversion to tables and back',
  '''Converting a discrete or continuous fragility model to records yields valid
  records for the model, its limit states, its sets and their data, and
  converting the tables back yields the same model: description, limit states,
  and for every set its taxonomy, optional no-damage limit and type, intensity
  measure, levels and the curve of every limit state.  The data may be grouped
  by limit state first or by set first.''', 'inputs',
  '''every valid fragility model of either format, with any limit states and
  taxonomies''', 'the tests convert one file per format',
  'converter.py records.py record.py',
  [('fragility converters', 'converter.py: FragilityDiscrete, '
    'FragilityContinuous'),
   ('fragility records', 'records.py: Fragility*, FF*')],
  ['records and nodes'])
p('C04', 'A model whose parts contradict each other is refused, not converted',
  '''Converting a risk model raises an exception, in either direction, rather
  than losing numbers or moving them when its parts do not match.  From a
  vulnerability or fragility model to tables: loss ratios,
  coefficients of variation or probabilities not as many as the levels; the
  functions of a taxonomy not being exactly those of the declared limit states,
  in that order.  From tables to a model: the same about limit states;
  functions of the same set, or limit states of the same taxonomy, with
  different levels; data of an unknown set or function; the data of one
  vulnerability function in two separate places; and vulnerability functions
  that are refused by risk calculations (levels negative or not strictly
  increasing, negative loss ratios or coefficients, a positive coefficient for
  a loss ratio of zero).  From the tables of an exposure: costs or occupancies
  of unknown assets, costs of unknown types, assets at unknown locations; from
  those of ground motion fields: values of unknown sets; from both: more than
  one exposure, collection or scenario set.  Models without such contradictions are
  converted.''', 'inputs',
  '''every risk model or set of tables and every single contradiction of
  these kinds at any place, in trees, files, tables and archives''',
  'the tests convert only consistent models',
  'converter.py',
  [('consistency', 'converter.py: check_same, Vulnerability, '
    'FragilityDiscrete, FragilityContinuous, Exposure, GmfCollection')],
  ['the exception, or the records and nodes'])
p('C05', 'Ground motion fields survive the conversion to tables and back',
  '''Converting a scenario set or an event based collection of ground motion
  fields to records yields one valid record per set, field and value, keyed by
  stochastic event set (0 for a scenario), intensity measure type (with the
  period, for spectral accelerations) and rupture, and converting the tables
  back yields the same sets, fields and values, in order and spelled as they
  were, with 5% damping for spectral accelerations.''', 'inputs',
  '''every valid scenario set and event based collection, with any number of
  sets, fields per set and values per field''',
  'the tests convert one file of each kind', 'converter.py records.py',
  [('ground motion converter', 'converter.py: GmfCollection'),
   ('ground motion records', 'records.py: GmfCollection, GmfSet, Gmf, '
    'GmfData')], ['records and nodes'])
p('C06', 'A model converts to CSV and back through any kind of archive',
  '''Converting a NRML file into an archive (in memory, a directory, a zip file)
  creates one CSV file per table that is not empty, named after the file and
  the record type, with the field names as header and the records in order, all
  valid; converting that archive back creates, in it or in another archive, one
  NRML file of the same name containing the same model.  The command line
  converter does the same, and instead of converting invalid records prints
  where they are and exits with an error.''', 'inputs histories',
  '''every valid model of every kind with at least one record, every kind of
  input and output archive, every file prefix''',
  '''the tests convert seven files in memory and never write a zip archive, an
  optional table or invalid data through the converter''',
  'csvmanager.py converter.py records.py bin/NRMLconvert.py',
  [('manager', 'csvmanager.py: CSVManager'),
   ('archives', 'csvmanager.py: MemArchive, DirArchive, ZipArchive, TempFile'),
   ('command', 'bin/NRMLconvert.py: main')],
  ['files created', 'messages and exit of the command'])
p('A01', 'Archives of every kind store files and give them back unchanged',
  '''In a memory, directory or zip archive, a file written and closed (alone or
  by closing the archive) reads back exactly as written, whole or by lines, by
  any number of independent readers, also after the archive is opened again;
  rewriting replaces it; opening a missing file raises NotInArchive; membership
  and the names with a given prefix are exactly those of the files stored.''',
  'histories', '''every history of writing, reading, closing and reopening over
  any names and contents on each kind of archive''',
  'one test writes two files in a zip and reads one back', 'csvmanager.py',
  [('archives', 'csvmanager.py: Archive, ZipArchive, DirArchive, MemArchive, '
    'FileWrapper, FileObject, TempFile, mkarchive')],
  ['contents read', 'files stored'])
p('A02', 'The search for invalid records finds all of them and disturbs nothing',
  '''Searching an archive of CSV files for invalid records returns one error per
  record with invalid cells, file by file in row order, each naming the file,
  the row, every invalid field and its column, up to the limit if one is given;
  the search can be repeated with the same answer and afterwards the archive is
  unchanged and converts as if it had not been searched.''',
  'inputs histories', '''every archive of one or more models with any cells
  damaged, and every sequence of searches followed by a conversion''',
  'the tests never call the search on an archive with errors in several tables',
  'csvmanager.py record.py records.py',
  [('search', 'csvmanager.py: CSVManager.find_invalid, record.py: '
    'find_invalid, InvalidRecord'), ('declared fields', 'records.py')],
  ['errors returned', 'later conversion'])
p('A03', 'CSV files are grouped by prefix and read only with the right header',
  '''The files of an archive named PREFIX__RECORD.csv are grouped by prefix (which
  may itself contain two underscores) and each group converts to PREFIX.xml with
  the model it describes, whatever other files there are.  Where a single group
  is required, none raises NotInArchive and several raise MultipleManagerError.
  A header different from the field names of the record raises InvalidFile
  naming the file.  Records written through a manager end up in the file of
  their type in the order of writing, and are read back the same.''',
  'inputs', '''every set of groups, foreign files and headers, with or without
  headers, on each kind of archive''',
  'the tests try one wrong prefix and one missing header', 'csvmanager.py',
  [('grouping', 'csvmanager.py: CSVManager._getmanagers, _getconverter, '
    'get_tableset'), ('csv', 'csvmanager.py: CSVManager.read, write')],
  ['files created', 'errors'])

p('A04', 'What is read through a manager is the same each time',
  '''The tables, the model, the NRML file and the single tables read through a
  manager are the same however often and in whatever order they are read, also
  after searching for invalid records, after a reading that was refused or
  abandoned and after what was read has been changed by its reader, and the
  files stay as they are.  A file
  whose header is wrong or missing is refused with InvalidFile naming the file
  each time it is read; an empty file is each time a table without records.  A
  table made from a CSV text has the rows of the text.''',
  'histories', '''every sequence of readings of every group of files, with or
  without headers, on each kind of archive, through one manager or several''',
  'the tests read each file once', 'csvmanager.py',
  [('reading', 'csvmanager.py: CSVManager.read, readtable, find_invalid, '
    'convert_to_node, create_table')], ['answers of each reading'])
p('L01', 'A source model logic tree yields each of its paths once, weights exact',
  '''Iterating a source model logic tree without sampling yields one realization
  per root-to-leaf path, each once and depth first in document order, with the
  source model of its first branch as value, the branch identifiers as path and
  the exact decimal product of the branch weights as weight; the weights sum up
  to exactly one. A branchset applies to the branches it lists, or to all those
  of the previous level. Iterating again, or not validating, or reading the tree
  through a hazard calculation, gives the same, and a valid tree is accepted.''',
  'inputs', '''every consistent tree: any number of levels, branchsets, selective
  branchsets, branches and weights, with comments and white space''',
  'the tests enumerate five hand made trees', 'logictree.py',
  [('enumeration', 'logictree.py: BranchSet.enumerate_paths, '
    'BaseLogicTree.parse_branchinglevel, SourceModelLogicTree.apply_branchset')],
  ['iteration over the tree'])
p('L02', 'A source model logic tree with a mistake is refused with its place',
  '''Parsing a source model logic tree with a mistake raises a logic tree error
  that names the file: a ParsingError when the tree or a referenced source model
  is missing, is not XML or breaks the schema, else a ValidationError with the
  line of the culprit: weights that do not sum up to one, a repeated branch
  identifier, a branchset applied to a branch that is unknown, occupied or not
  of the previous level (these also without validation), a misplaced
  uncertainty type, a wrong uncertainty value, or filters that are not allowed,
  more than one, or name things that no referenced source model has; absolute
  uncertainties need exactly one source.''', 'inputs',
  'every valid tree broken in one of these ways at any place',
  '''there is one test per kind of mistake, always at the same place of a
  minimal tree''', 'logictree.py',
  [('validation', 'logictree.py: SourceModelLogicTree.validate_filters, '
    'validate_branchset, validate_uncertainty_value, apply_branchset, '
    'BaseLogicTree.parse_branches')], ['exception class, filename, lineno'])
p('L03', 'Sampling a logic tree follows its weights and only the seed',
  '''Iterating a logic tree with sampling yields as many realizations as asked,
  each a root-to-leaf path of positive weight with its source model and no
  weight; the sequence depends only on the tree and the seed. At each level one
  number in [0, 1) is drawn and selects the branch whose interval of the
  cumulated weights contains it, so that paths come out with frequencies
  proportional to their weights. The same rule samples any sequence of weighted
  objects, with replacement.''', 'inputs histories',
  'every tree, seed, number of samples and sequence of drawn numbers',
  '''the tests draw one sequence with one seed; the distribution and the paths
  of unbalanced trees are never checked''', 'logictree.py',
  [('sampling', 'logictree.py: sample, sample_one, BaseLogicTree.sample_path, '
    '__iter__')], ['realizations', 'numbers drawn from the generator'])
p('L04', 'A logic tree path changes exactly the sources its filters select',
  '''Applying the uncertainties of a path to a source performs on its
  Gutenberg-Richter magnitude distribution, in the order of the levels, exactly
  the modifications of the branches whose branchset filter selects the source
  (by identifier, by source type with areas not counting as points, by tectonic
  region type), with the values written in the tree; other sources, other kinds
  of distribution and other attributes stay as they are. A path that does not
  follow the tree, an unknown filter, source type or uncertainty type,
  or a modification that the distribution refuses, is an error.''', 'inputs', 'every tree, every path of it and every source',
  '''the tests apply one uncertainty at a time to one source; filters are
  tested with one source per type''', 'logictree.py',
  [('uncertainties', 'logictree.py: make_apply_uncertainties, '
    'BranchSet.filter_source, apply_uncertainty')],
  ['the magnitude distribution of the source'])
p('L05', 'A GMPE logic tree gives each known tectonic region type its GSIM',
  '''Restricted to the known tectonic region types, a GMPE logic tree has one
  level per type: its realizations are all the combinations of their branches,
  with exact weights, and each path maps each known type to the GSIM of its
  branch, whatever levels of other types come before, between or after. Samples
  are such paths, the same for the same seed. With validation, a known type
  without branchset or with two, an unknown GSIM, another uncertainty type, a
  missing or additional filter, two branchsets of known types in a level, wrong
  weights and repeated identifiers raise a ValidationError with file and
  line.''', 'inputs', 'every tree and every set of known types',
  '''the tests parse one valid tree, in which every type is known, and no
  invalid one''', 'logictree.py',
  [('GMPE trees', 'logictree.py: GMPELogicTree')],
  ['realizations', 'make_trt_to_gsim', 'exceptions'])
p('L06', 'GSIM logic tree realizations are the product of the kept branches',
  '''For the requested tectonic region types, a GSIM logic tree yields exactly
  one realization per combination of one branch for each requested type that
  the file defines, with the mapping from type to GSIM, the product of the
  weights and the identifiers of the branches, the types being always in the
  same order; the numbers of branches and of paths agree with that. Repeated
  types, several branchsets in a level, other uncertainty types, weights that
  do not sum up to one, no matching branchset and repeated requested types are
  refused.''', 'inputs',
  '''every file, whatever the identifiers and the order of its branchsets, and
  every set of requested types''', '''the tests use two files whose identifiers
  are in alphabetical order''', 'logictree.py',
  [('GSIM trees', 'logictree.py: GsimLogicTree')],
  ['iteration', 'get_num_branches, get_num_paths'])

p('S01', 'A source model gives one collector per tectonic region type',
  '''Parsing a source model puts each of its sources in exactly one collector,
  the one of its tectonic region type, in the order of the file, after the
  uncertainties have been applied to it exactly once; each collector has the
  minimum and maximum magnitude of its sources, and collectors are sorted by
  number of sources and then by type. Repeated source identifiers raise
  DuplicateID, also across types; a source of another type is refused; a
  collector built from a list or filtered from another has exactly those
  sources, in their order and independently of the original, and counting adds
  the number of ruptures of each source.''', 'inputs',
  'every source model and every history of operations on a collector',
  '''the tests parse a few fixed models and never build a collector from
  sources''', 'source.py', [('collectors', 'source.py: SourceCollector, '
                             'parse_source_model')],
  ['the collectors and their attributes'])
p('S02', 'Splitting a source conserves its rates',
  '''An area source is split into one point source for each point of its mesh,
  with the same magnitudes, the annual rates of the points adding up to those of
  the area, and every other attribute copied; a simple or complex fault is
  split into one source for each magnitude of non-zero rate, which carries just
  that magnitude and rate; the pieces have distinct identifiers made of the one
  of the source and a progressive number; other sources are passed on as they
  are, and splitting never changes the source.''', 'inputs',
  'every source and magnitude distribution, rates of zero included',
  'one fault without zero rates and one area are split in the tests',
  'source.py', [('splitting', 'source.py: area_to_point_sources, '
                 'split_fault_source, split_source')],
  ['the pieces, their attributes and rates'])
p('S03', 'The blocks of a collector have all the sources near the sites',
  '''Generating the blocks of a collector filters each source once, and yields
  the split sources of those that are kept and have some rupture, each exactly
  once and in order; the weight of a block is its number of ruptures, and only
  a block of one source exceeds the limit, which is the maximum weight reduced
  by n/(n+100) for n sources, blocks being filled up to it; afterwards
  the collector has the kept split sources, their total number of ruptures, and
  the numbers of kept and of all sources.''', 'inputs',
  'every collector, every filter and every maximum weight',
  'not tested: the function was only used by the hazard calculators',
  'source.py', [('blocks', 'source.py: SourceCollector.gen_blocks, '
                 '_filter_and_split_sources')],
  ['the blocks and the attributes of the collector'])
p('S04', 'hazardlib sources have the values of their NRML description',
  '''Each of the five kinds of NRML sources and the two kinds of ruptures is
  converted to the hazardlib class for it with exactly the values of its
  description (identifiers, distributions with their probabilities, depths,
  geometry point by point, surfaces, magnitude distribution, scaling relation)
  and the parameters of the converter, without temporal occurrence model if
  there is no investigation time; the description is not changed and converting
  again gives the same. An error in the conversion keeps its type and names the
  identifier and the name of the source.''', 'inputs',
  'every source, every surface and every converter, valid or with a wrong field',
  'the tests convert one example for each kind and one wrong source',
  'source.py', [('converter', 'source.py: NrmlHazardlibConverter')],
  ['attributes of the hazardlib objects', 'errors'])

p('P01', 'map_reduce is the reduction of the results of all the calls',
  '''Distributing a function on a sequence of arguments calls it exactly once for
  each of them, and aggregates each result exactly once, starting from the given
  accumulator and passing on what the aggregation returned; run in process
  (OQ_NO_DISTRIBUTE being 1, true or yes) this happens in the order of the
  arguments. If calls raise, a RuntimeError has the traceback, type and message
  of one of them. A task manager does so for the tasks submitted since
  the last aggregation, and waiting for them returns their number; the
  progress goes from the number of tasks spawned to 100%.''', 'schedules',
  'every sequence of calls, every completion order and history of submissions',
  'the module has no tests', 'parallel.py',
  [('distribution', 'parallel.py: TaskManager, map_reduce, no_distribute')],
  ['calls, results, error, log'])
p('P02', 'Calls are made safely and objects are pickled once',
  '''Calling a function safely never raises an error of the function: it gives
  the value and None, or a text with the traceback and the error, and the
  class of the exception; with pickling on, the arguments are unpickled and the
  pair is pickled. A pickled object gives back an equal one each time and has
  the size of its pickle; pickling a sequence keeps its order, pickles
  repeated objects once and leaves the pickled ones alone.''', 'inputs',
  'every function, error, value and sequence', 'the module has no tests',
  'parallel.py', [('pickling', 'parallel.py: safely_call, Pickled, '
                   'pickle_sequence')], ['results', 'objects unpickled'])
p('P03', 'The progress of the tasks is reported whenever it grows',
  '''The generator reporting the progress of n tasks counts them from 0 to n, says
  first how many are spawned, then logs a message each time the percentage of
  tasks done gets greater, with that percentage, never twice the same, the last
  one being 100% exactly when the last task is done.''', 'inputs',
  'every number of tasks', 'the module has no tests', 'parallel.py',
  [('progress', 'parallel.py: log_percent_gen')], ['values and messages'])
p('P04', 'The memory and time of a block of code are measured',
  '''A performance monitor gives, for each of its processes that allows reading,
  in order, the difference between its own memory at the end of the block and at
  the beginning, however other processes deny access meanwhile; it has the
  exception of the block, which is propagated, or None, the start and the
  duration, all set when on_exit is called once, at each use of the monitor.
  A warning is logged exactly if more memory than the limit is used.''',
  'histories', 'every list of processes and every sequence of measures',
  'the module has no tests', 'parallel.py',
  [('monitor', 'parallel.py: PerformanceMonitor, check_mem_usage')],
  ['attributes of the monitor', 'log'])

p('I01', 'A configuration has its parameters and the absolute paths of its files',
  '''Parsing a configuration file gives the value of each parameter of any
  section under its lower case name, the directory of the file, and among the
  inputs one absolute path for each parameter ending in _file, under the name
  before that; relative paths start from the directory of the file, whatever
  the current directory and the name the file was opened by. The sites of a CSV
  file are the points of a MULTIPOINT, in order, with their coordinates.''',
  'inputs', 'every configuration, directory and file of sites',
  'the tests parse three small files from one place', 'readini.py',
  [('configuration', 'readini.py: parse_config, _parse_sites_csv')],
  ['the dictionary of parameters'])
p('I02', 'The source models of a configuration are those of its logic tree',
  '''If a configuration has a source model logic tree, its inputs have the path of
  each source model named by the branches of the tree, once, from the directory
  of the configuration file, however the name is laid out in the tree;
  uncertainties of other types add none, and without such a tree there are
  no source models.''', 'inputs', 'every source model logic tree and directory',
  'not tested', 'readini.py',
  [('source models', 'readini.py: _collect_source_model_paths')],
  ["params['inputs']['source']"])
p('K01', 'Each taxonomy has the vulnerability functions of its loss types',
  '''Loading the vulnerability models of some loss types gives, for each taxonomy
  of any of them, exactly the function of each loss type that has one, with the
  levels, loss ratios, covariances, distribution and intensity measure type of
  the file; fatalities come from the model of the occupants, retrofitted models
  only if asked, loss types without a model are skipped, and risk models know
  whether losses are insured. A taxonomy with two functions in a model, or a
  wrong function, raises ValueError naming the taxonomy.''', 'inputs',
  'every set of vulnerability models and of loss types',
  'the tests load one model with a repeated taxonomy and one wrong',
  'riskloaders.py', [('vulnerability', 'riskloaders.py: get_taxonomy_vfs, '
                      'get_risk_models, _get_vulnerability_functions')],
  ['functions by taxonomy and loss type', 'errors'])
p('K02', 'Each taxonomy has one fragility function per limit state, in order',
  '''Loading a fragility model gives no_damage followed by the limit states of
  the file as damage states, and for each taxonomy a risk model with one function
  for each limit state in that order and the intensity measure type of the
  taxonomy: the mean and standard deviation for a continuous model; the levels
  and probabilities for a discrete one, preceded by the limit for no damage with
  probability zero if there is one (zero included), the first level being the
  limit otherwise.  A taxonomy given twice raises ValueError naming it.''',
  'inputs', 'every fragility model of both formats', 'not tested', 'riskloaders.py',
  [('fragility', 'riskloaders.py: get_damage_states_and_risk_models')],
  ['damage states', 'risk models'])


def main():
    import subprocess
    from pbt import core
    reg = core.load_prop('*')
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
    missing = [d['id'] for d in P if d['id'] not in reg]
    checks = []
    for d in P:
        if d['id'] not in reg:
            continue
        prop = reg[d['id']]
        checks.append({
            'property': d['id'],
            'quick_cmd': 'python3-vt check.py %s' % d['id'],
            'thorough_cmd': 'python3-vt check.py %s --thorough' % d['id'],
            'technique': 'property-based testing (Hypothesis): ' + TECH.get(
                d['id'], 'generated cases against a reference model'),
            'level': 'exploration',
            'level_note': 'Searches %s; no proof of absence. Trusts the '
            'reference model in pbt/props, Jython 2.7 and the stand-ins for '
            'third-party packages.' % ', '.join(
                t.name.strip('_').replace('_', ' ') for t in prop.targets)})
    man = {'version': 1, 'setup_cmd': 'python3-vt check.py --selftest',
           'checks': checks, 'not_applicable': NOT_APPLICABLE + [
               {'property': m, 'reason': 'check not built yet'}
               for m in missing],
           'notes': 'See DESIGN.md. No hooks in /repo.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    try:
        import jsonschema
        for name, objs in (('PROPERTIES', P), ('MANIFEST', [man])):
            schema = json.load(open('/root/.vp/%s.schema.json' % name))
            for o in objs:
                jsonschema.validate(o, schema)
    except (ImportError, OSError):
        pass
    print(len(P), 'properties;', len(checks), 'checks; missing', missing)


TECH = {}
NOT_APPLICABLE = []
if __name__ == '__main__':
    main()
