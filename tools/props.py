def P(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, observe=None, na=None, level='model_checking', state=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}, 'technique': technique, 'note': note,
         'level': level}
    if observe:
        d['anchors']['observe_at'] = observe
    if na:
        d['na'] = na
    return d


ODATA = 'pyslet/pyslet/odata2/'
PROPS = [
P('D01', 'In-memory entity container: links, multiplicities and deletion stay consistent',
  'After any sequence of insertions (including deep ones), updates, deletions and navigation changes through the data access API, '
  'every link of the in-memory store joins two existing entities, is seen from both ends, and respects the declared multiplicity of '
  'each end, required links included. A refused insertion, update, deletion or link change raises the documented error and leaves the '
  'container as it was; a deletion removes exactly the entity and those that require it. Reads return the values last written.',
  ['histories', 'configurations', 'inputs'],
  'every association multiplicity pair and navigation naming, every reachable container with two keys per set, every operation on it; '
  'random histories over random schemas beyond that',
  'the tests run a few fixed create/update/delete scripts over one schema; they never enumerate multiplicities, deep insert failures or cascades',
  [ODATA + 'memds.py', ODATA + 'csdl.py', ODATA + 'core.py'],
  [('navigation collections check multiplicities before linking', 'memds.py NavigationCollection'),
   ('cascade delete', 'memds.py EntityCollection.__delitem__'),
   ('deferred bindings', 'csdl.py DeferredValue.UpdateBindings')],
  technique='TLA+ model of the container, TLC exhaustive on small schemas; every explored transition replayed on the real store, random histories judged by TLC',
  note='Exhaustive over 2 keys per set for the listed schemas; random beyond. Trusts the projection of the API to the abstract view.',
  observe=['entity collections', 'navigation collections']),
P('D02', 'Concurrent use of one in-memory container is linearizable',
  'When several threads work on the same in-memory entity container, each through its own collections, every operation (lookup, '
  'insertion, update, deletion, link, unlink, iteration) behaves as if executed atomically at some moment between its call and its '
  'return: results and final contents are those of some sequential order. No interleaving loses an update, corrupts the link '
  'indexes, leaves a dangling link or a locked container, or raises an error no sequential order would raise.',
  ['schedules', 'histories'],
  'every interleaving at source-line granularity of two or three concurrent operations is in scope; explored: systematic one-preemption and random schedules',
  'the tests are single threaded; a race needs a switch between two particular lines',
  [ODATA + 'memds.py', ODATA + 'csdl.py'],
  [('container lock', 'memds.py EntityStorage/InMemoryEntityContainer.lock')],
  technique='TLA+ model of concurrent histories over the container specification; recorded executions of the real code under a controlled scheduler accepted or refused by TLC',
  note='Schedules are sampled (systematic preemption points plus random), not exhausted; preemption only at line boundaries of memds.py.',
  observe=['entity collections', 'navigation collections']),
P('D03', 'OData expressions: parsing, text form and evaluation agree with the language',
  'A $filter/$orderby expression parses to the tree its operator precedences, left associativity and brackets determine, and a token '
  'sequence outside the grammar is refused. Writing a parsed expression as text and parsing it again gives an expression with the same '
  'meaning. Evaluation follows the documented typing, numeric promotion, null and method rules for every entity, and anything else is an '
  'EvaluationError, never another exception.',
  ['inputs'],
  'all expressions; explored: every tree of two operator levels printed with the fewest brackets, and thousands of random nested, bracketed '
  'and spoiled expressions over literals and properties of every type',
  'the tests evaluate one or two sentences per operator; precedence, null and type interactions are combinatorial',
  [ODATA + 'core.py', ODATA + 'csdl.py'],
  [('operator precedence parser', 'core.py Parser.ParseCommonExpression'), ('evaluation', 'core.py CommonExpression subclasses'),
   ('text form', 'core.py __unicode__ methods')],
  technique='TLA+ grammar and evaluation semantics; TLC enumerates trees and judges the tree, text form and value the real code gives for every expression',
  note='Numbers are small enough for exact 32-bit arithmetic in TLC; Double results are compared as rationals with small denominators. Time zone and collation are out of scope.',
  observe=['CommonExpression.FromString', 'CommonExpression.Evaluate']),
P('D04', 'Query options: filter, order, paging, select and expand give the specified rows',
  'For any collection and any combination of $filter, $orderby, $top, $skip, skip tokens and provider page limits, iteration returns exactly '
  'the matching entities in the requested order (earlier rules first, ties broken by key when paging), and the pages followed one after the other return every '
  'selected entity exactly once and then end. $select and $expand decide which values and which linked entities come with each entity, '
  'and lookups and length honour the filter.',
  ['inputs', 'histories', 'configurations'],
  'all collections, options and page limits; explored: every paging configuration up to 4 rows, and thousands of random queries over random tables',
  'the tests page through one fixed table with a few options; off-by-one errors need particular sizes and option combinations',
  [ODATA + 'csdl.py', ODATA + 'core.py', ODATA + 'memds.py'],
  [('paging', 'csdl.py EntityCollection.iterpage'), ('ordering', 'csdl.py EntityCollection.OrderEntities'),
   ('filtering', 'csdl.py FilterEntities, core.py CheckFilter'), ('select and expand', 'csdl.py EntityCollection.Expand')],
  technique='TLA+ semantics of queries (specs/expr/Query); TLC enumerates paging configurations and judges what the real collections return',
  note='Page sizes and tables are small; the tables are in memory.',
  observe=['itervalues', 'iterpage', 'len', 'lookup']),
P('X01', 'XML parsing: well-formedness is decided correctly and content is as written',
  'Without validity checking, the XML parser accepts exactly the documents (with internal DTD subsets) that satisfy the productions and '
  'well-formedness constraints of XML 1.0, and reports every other document as an XMLFatalError, never hanging or failing otherwise. '
  'The tree of an accepted document holds the elements, attributes (normalised and defaulted from the DTD) and character data, with '
  'references, CDATA sections and line ends replaced as specified, whatever encoding or chunk size the text is read with.',
  ['inputs'],
  'all documents; explored: every content of up to 2 tokens out of 21 (3 in the thorough tier), alone and through entities, and 16000 random and damaged documents, as text or bytes, in several chunk sizes',
  'the tests try a list of fragments per production and the OASIS suite is not in the repository; combinations of entities, markup and damage are unbounded',
  ['pyslet/pyslet/xml20081126/parser.py', 'pyslet/pyslet/xml20081126/structures.py'],
  [('productions', 'parser.py XMLParser.Parse* methods'), ('entities and encodings', 'structures.py XMLEntity'),
   ('attribute defaults', 'parser.py XMLParser.CheckAttributes')],
  technique='TLA+ specification of the grammar, constraints and content of XML 1.0 (specs/xml/XML); TLC decides every document and judges what the real parser did with it',
  note='External entities, parameter entity references and the SGML compatibility modes are not covered. Carriage returns inside entity values are left out.',
  observe=['XMLParser.ParseDocument', 'Element.GetChildren', 'Element.GetAttributes']),
P('Q01', 'QTI expressions evaluate to the value and type the specification gives them',
  'In a running item session every QTI 2.1 expression built from the supported operators, variables, defaults, correct responses and '
  'mappings evaluates to a value with the cardinality, base type and contents prescribed by QTI, including NULL propagation, three-valued '
  'logic, tolerances, rounding, shapes and mapping bounds. Operands of the wrong cardinality or base type, and references to undeclared '
  'variables, raise a ProcessingError. Random operators only give values within the range or container they are given.',
  ['inputs', 'configurations'],
  'all expressions over all declarations; explored: every unary and binary operator on all pairs of 43 representative operands, tolerance and rounding grids, and 4200 random nested expressions',
  'the tests evaluate a few fixed examples per operator; operator, type, NULL and nesting combinations are unbounded',
  ['pyslet/pyslet/qtiv2/expressions.py', 'pyslet/pyslet/qtiv2/variables.py', 'pyslet/pyslet/qtiv2/core.py'],
  [('operators', 'expressions.py'), ('values, mappings and type checks', 'variables.py Value, Mapping, AreaMapping'), ('shapes', 'core.py ShapeElementMixin, html40 Coords')],
  technique='TLA+ denotational specification of values and expressions (specs/qti/QTI); TLC evaluates every expression and judges the value of the real one',
  note='As the existing tests have it, contains asks whether the second container holds the first and mapping a NULL gives 0. Numbers that binary floats do not hold exactly, ties in rounding and results beyond 20000 are not compared; durations as float references are left open.',
  observe=['Expression.Evaluate', 'Value']),
P('Q02', 'QTI item sessions: processing rules, attempts and saved responses',
  'Through any sequence of clone selection, session start, attempts, saved and submitted forms, an item session holds the variables, '
  'defaults, correct responses and saved values that the template and response rules and the life cycle of QTI prescribe; '
  'non-adaptive items have their outcomes reset before each response processing. A form with a value for something that is not a response '
  'is refused with BadSessionParams; a value of the wrong type or kind of variable stops processing with an error.',
  ['histories', 'inputs'],
  'all items and histories; explored: 700 random items with random rules (nested conditions, exits, all four assignment rules) under histories of up to 12 actions',
  'the tests run one scripted session per rule; the interplay of rules, defaults, attempts, saved values and cardinalities is unbounded',
  ['pyslet/pyslet/qtiv2/variables.py', 'pyslet/pyslet/qtiv2/processing.py'],
  [('life cycle', 'variables.py ItemSessionState'), ('rules', 'processing.py'), ('form values', 'variables.py ItemSessionState._SaveParameters')],
  technique='TLA+ state machine of item sessions (specs/qti/Session); recorded sessions of the real code are validated against it by TLC after every action',
  note='Time limits, duration, lookup tables and rendering are not covered. After a refused form or a failed processing the rest of the history is not judged.',
  observe=['ItemSessionState']),
P('Q03', 'QTI test forms obey the selection and ordering rules of the test',
  'Every form made of a test holds the test parts and their sections in order and, within each section, exactly the selected number of children (all the required ones, '
  'repeats only with replacement) in their order or, when shuffled, in any order that leaves fixed children in place; sections are bracketed by their identifier and its end, '
  'and the children of shuffled invisible sections that need not be kept together mingle with their siblings. A SelectionError is raised only where the rules cannot be met. '
  'Every form that is allowed can come up.',
  ['inputs', 'configurations'],
  'all tests; explored: 1200 random tests of up to two parts and four levels, 25 to 600 forms of each',
  'the tests look at a dozen fixed tests; selection, shuffling, fixing, requiring and mixing interact and are random',
  ['pyslet/pyslet/qtiv2/tests.py'],
  [('selection and ordering', 'tests.py TestForm.Select'), ('the sequence', 'tests.py TestForm')],
  technique='TLA+ specification of the forms a test allows (specs/qti/Forms); TLC judges every form the real code made, and whether small tests give all of theirs',
  note='That each allowed form comes up is checked for tests with at most 24 forms.',
  observe=['TestForm']),
P('Q04', 'QTI test sessions: navigation, conditions, clocks and session keys',
  'In a test with linear, individually submitted parts each submission moves to the question that the branch rules and preconditions select, parts, sections and items whose '
  'preconditions are not true being skipped as a whole; saving stays at the question. Template defaults, item sessions, outcomes and the durations of the question and everything open around it develop as QTI prescribes. '
  'Every event needs the current session key and replaces it with a new one; an event with an old key raises SessionKeyExpired, with any other SessionKeyMismatch, and changes nothing.',
  ['histories', 'inputs', 'configurations'],
  'all tests and histories; explored: 500 random tests with random conditions, targets, items and up to 14 events each',
  'the tests run one scripted session of one test; conditions, targets, nesting, clocks and keys interact over a history',
  ['pyslet/pyslet/qtiv2/variables.py', 'pyslet/pyslet/qtiv2/tests.py', 'pyslet/pyslet/qtiv2/processing.py'],
  [('navigation', 'variables.py TestSessionState._NextQuestion, _BranchTarget'), ('clocks', 'variables.py TestSessionState.AddDuration'), ('keys', 'variables.py TestSessionState.EventUpdate'),
   ('conditions', 'tests.py CheckPreConditions, GetBranchTarget; processing.py TestPartCondition')],
  technique='TLA+ state machine of test sessions (specs/qti/TestSession), built on that of item sessions; recorded sessions of the real code are validated against it by TLC after every event',
  note='Targets that do not lie ahead, EXIT_SECTION outside of sections and references to items that were not selected are left open. Nonlinear and simultaneous parts are not implemented by the code.',
  observe=['TestSessionState']),
P('U01', 'URI references: components, resolution, relative forms, escaping, equivalence',
  'A URI reference is split into the components of RFC 2396 (str() gives the text back) and a text that is not one is refused with a URIException. Resolving against an absolute base follows section 5.2 '
  '(excess ".." segments are kept); Relative gives a reference that resolves against the base to an equivalent of the original, scheme-less if the authorities agree. '
  'Unescaping undoes escaping, and two http(s) URLs match exactly if they differ in nothing but the case of scheme, host and escapes, needless escapes, a default or empty port, and an empty path for "/".',
  ['inputs'],
  'all texts; explored: every text of up to four characters over ten telling ones, 6000 random texts, 2500 resolutions, 12000 round trips, 2000 escapings, 5000 pairs of http URLs',
  'the tests look at the examples of the RFC; empty and dot segments, colons, missing paths and bases in unusual forms interact',
  ['pyslet/pyslet/rfc2396.py', 'pyslet/pyslet/rfc2616_params.py'],
  [('components', 'rfc2396.py URI.__init__, ParseRelativeURI'), ('resolution', 'rfc2396.py URI.Resolve, NormalizeSegments'), ('relative references', 'rfc2396.py URI.Relative, RelativizeSegments'),
   ('escaping', 'rfc2396.py EscapeData, UnescapeData, CanonicalizeData'), ('http equivalence', 'rfc2616_params.py HTTPURL.Canonicalize')],
  technique='TLA+ definition of RFC 2396 (specs/uri/URI); the results of the real code on enumerated and random texts are judged against it by TLC',
  note='Left open: relative references with a colon in their first segment, paths that start with "//" without an authority, malformed escapes in UnescapeData.',
  observe=['URI objects']),
P('T01', 'ISO 8601 dates: calendar, ordinal, week and Julian forms, texts, arithmetic',
  'Date converts exactly between day number, Gregorian calendar, ordinal, ISO week and Julian forms for every day of years 1 to 9999, and refuses numbers that name no date. Each ISO 8601 date text, basic or extended, '
  'truncated (completed from the base to the first such date not before it) or of reduced precision, reads as the date it stands for, and the strings written for a date, with any truncation, are of the form that stands for it. '
  'Offset, comparison, equality and hash agree with the calendar: days and weeks are added first, then months, years and centuries, and a result that is no date is an error.',
  ['inputs'],
  'all dates, texts and offsets; explored: about 3000 days (each turn of the year of the 400-year cycle in the thorough run), 9000 texts over all 36 forms with bases, 3000 offsets, 1200 comparisons, 2500 constructions',
  'the tests convert a handful of dates; week years, century turns, truncation against a base and borrowing months interact at particular days only',
  ['pyslet/pyslet/iso8601.py'],
  [('conversions', 'iso8601.py Date._SetFromAbsoluteDay, _SetFromWeekDay, GetWeekDay, FromJulian'), ('texts', 'iso8601.py ISO8601Parser.ParseDateFormat, GetCalendarString'),
   ('arithmetic', 'iso8601.py Date.Offset')],
  technique='TLA+ calendar in closed form, which TLC checks against the calendar walked day by day; conversions, texts, arithmetic and comparisons of the real code judged against it by TLC',
  note='Left open: text after a complete date, and dates of the week year 0 or 10000.',
  observe=['Date objects']),
P('T02', 'ISO 8601 times, zones, time points and durations: texts, arithmetic, comparison',
  'Each text of a time, time point or duration of ISO 8601 (basic or extended, not mixed; truncated times completed from the base to the first one not before it; a fraction in the lowest component only; zone) reads as what it stands for, '
  'anything else is refused with a DateTimeError or syntax error, and written strings (any form, truncation, number of decimals, cut off and not rounded) stand for the value. '
  'Offsets, changes of zone and of precision keep the moment exactly, the days carried included; time points are compared, and hashed, as moments regardless of zone, and those without zone or of another precision are not comparable.',
  ['inputs'],
  'all values and texts; explored: 8000 times, 4000 time points and 4000 durations as texts, 12000 operations on times, 8000 on time points, over all precisions, zones and fractions that are multiples of 1/8',
  'the tests try one value per format; carries over minute, hour, day and century, zones on either side and fractions combine',
  ['pyslet/pyslet/iso8601.py'],
  [('times', 'iso8601.py Time.Offset, Extend, ShiftZone, WithPrecision'), ('texts', 'iso8601.py ISO8601Parser.ParseTimeFormat, ParseTimePointFormat, ParseDuration, GetString'),
   ('time points', 'iso8601.py TimePoint.__cmp__, __hash__, FromUnixTime')],
  technique='TLA+ clock, zones, points and durations, which TLC checks against a clock that ticks; results of the real code on random values and texts judged against it by TLC',
  note='Left open: leap seconds, arithmetic on 24:00, fractions that are no multiple of 1/8, text after a value, moments within five days of the ends of the calendar.',
  observe=['Time, TimePoint and Duration objects']),
P('D06', 'OData server: each request reads or changes the store as its URI and body say',
  'For every store and HTTP request, the OData server answers a GET with exactly what its path, $filter, $orderby, $top, $skip, $inlinecount, $expand, $select, $value, $count or $links stand for (in the Atom or JSON asked for, pages linked '
  'by next, entity tags right), a missing resource with 404, a bad option, key or body with another client error and an error document. POST, PUT and DELETE on entities, properties, complex values, streams and links make exactly the change '
  'they describe, Location naming a new entity. A GET or a refused request changes nothing.',
  ['inputs', 'histories', 'configurations'],
  'all stores, requests and histories; explored: 9400 requests in 360 histories over a model with composite keys, complex values, streams, tokens and three associations',
  'the tests send about 300 fixed requests to two fixed models and mostly look at status codes; what a body leaves behind depends on its content and the links in the store',
  [ODATA + 'server.py', ODATA + 'core.py', ODATA + 'csdl.py', ODATA + 'memds.py'],
  [('paths', 'server.py Server.GetResource'), ('methods', 'server.py Server.HandleRequest'), ('bodies', 'core.py Entry.GetValue, SetFromJSONObject; server.py ReadEntityFromLink'),
   ('responses', 'core.py Entry.SetValue, GenerateEntityTypeInJSON; server.py ReturnEntityCollection'), ('options', 'core.py ODataURI')],
  technique='TLA+ specification of the REST interface over the store of D01, model-checked over a small service; each recorded request with the store before and after it judged by TLC, responses read by independent parsers',
  note='Left open: If-Match, batches and service operations, values left out of a PUT (kept or null), deletion of complex values, page limits with JSON.',
  observe=['WSGI responses', 'store']),
P('Q05', 'A QTI v1.2 item migrated to v2.1 offers and scores the same as before',
  'MigrateV2 turns every QTI 1.2 item (response_lid, _str and _num with choice, slider and fill-in-blank renderings) into a v2.1 item that declares the same variables with their types, defaults and '
  'bounds and shows the same words, choices (identifiers, order, shuffling, fixed places, limits) and feedback in the same order. Run in a session, it gives every response the outcomes and the feedback that the '
  'conditions of the v1 item give: tried in turn, those that match set variables and show feedback, and the next is tried only if the last did not match or says continue.',
  ['inputs', 'histories'],
  'all items and responses; explored: 400 random items with up to 6 conditions of nested and/or/not over all tests of text, number, order and absence, 2400 responses scored',
  'the tests compare the text of a few dozen fixed migrated documents; nothing runs a migrated item, and conditions, variables and responses combine without bound',
  ['pyslet/pyslet/qtiv1/item.py', 'pyslet/pyslet/qtiv1/common.py', 'pyslet/pyslet/qtiv1/core.py', 'pyslet/pyslet/qtiv2/processing.py'],
  [('items', 'item.py Item.MigrateV2'), ('interactions', 'item.py ResponseThing, Render*'), ('conditions', 'common.py ConditionVar, VarThing, SetVar; item.py RespCondition.MigrateV2Rule')],
  technique='TLA+ specification of v1 items, their migration and v1 response processing (specs/qti/Migrate), model-checked against the nested rules; migrated items are run in sessions of the real code and judged by TLC',
  note='Left open: hotspots, interpretvar, sections and assessments, lengths and layout, material between choices.',
  observe=['migrated items', 'ItemSessionState']),
P('H02', 'HTTP header values: read, written, compared and negotiated as RFC 2616 says',
  'A header value text (media types and ranges, Accept and its -Charset, -Encoding and -Language lists, transfer encodings, product tokens, language and entity tags, protocol versions, Content-Range, Accept-Ranges, Allow, Cache-Control, dates) reads as what the grammar of RFC 2616 gives it or is refused with SyntaxError, '
  'and what is written for a value (quoted where needed, dates in GMT) reads as that value again. '
  'Values are totally ordered as documented (equal ones, of either case where case is insignificant, hash alike), and of the types, charsets, encodings or languages on offer the first that the most specific matching item gives the highest quality is selected, none if all are unacceptable.',
  ['inputs'],
  'all texts and values; explored: 600 texts of each of 20 kinds (valid, spaced, spoiled) and all short ones over each alphabet, 4000 values written, 1200 dates in any zone, 600 sets of values compared, 4000 negotiations',
  'the tests read a few values of each kind; quoting, white space, wildcards, parameters, null elements and qualities combine freely',
  ['pyslet/pyslet/rfc2616_core.py', 'pyslet/pyslet/rfc2616_params.py', 'pyslet/pyslet/rfc2616_headers.py'],
  [('words', 'rfc2616_core.py WordParser, QuoteString, FormatParameters'), ('values', 'rfc2616_params.py ParameterParser, __str__, __cmp__'), ('negotiation', 'rfc2616_headers.py SelectType, SelectToken, SelectLanguage, MatchMediaType')],
  technique='TLA+ grammar, meaning, order and negotiation of header values, the order checked by TLC to be total; results of the real classes on random texts and values judged against it by TLC',
  note='Left open: octets above 127 in tokens, extensions without a value, more than three decimals of a quality, language tags that are not letters, a directive given twice, tokens without commas in lists, dates in none of the three exact formats, leap seconds, 24:00.',
  observe=['parsed values', 'formatted texts', 'selected offers']),
P('X02', 'XML trees are written, read, copied and compared without loss',
  'Whatever element names, attributes, text and namespaces a tree of elements has, and whatever was written or added before, writing it (document or element alone, indented or not, as text or ASCII) gives well-formed XML with declared prefixes that means the same tree to any XML reader: '
  'the same expanded names, attribute values and text, but for white space between elements that xml:space does not preserve. A namespace-aware reader expands every name as Namespaces in XML says and refuses undeclared element prefixes, illegal names and declarations, and clashing attributes. '
  'A copy of an element is the same tree; equal trees compare equal, trees that differ in a name, namespace, attribute, text or child do not.',
  ['inputs', 'histories'],
  'all trees and documents; explored: 600 trees written in up to five ways, some grown in between, and copied; 600 pairs compared; 1500 documents with nested declarations read; the choice of prefixes to depth 3 by TLC',
  'the tests write a few fixed trees; quotes, white space, hidden and reused prefixes and undeclared default namespaces combine without bound',
  ['pyslet/pyslet/xml20081126/structures.py', 'pyslet/pyslet/xmlnames20091208.py', 'pyslet/pyslet/xml20081126/parser.py'],
  [('writing', 'structures.py Element.GenerateXML, EscapeCharData, GetCanonicalChildren, PrettyPrint; xmlnames20091208.py XMLNSElement.GenerateXML, GetPrefix'),
   ('namespaces', 'xmlnames20091208.py XMLNSParser.ExpandQName, ParseNSAttributes'), ('copies', 'structures.py Element.Copy, __cmp__')],
  technique='TLA+ specification of trees, name expansion and canonical white space (specs/tree), the writer\'s choice of prefixes model-checked by TLC; what the real code writes is read by an independent parser and judged by TLC',
  note='Left open: attributes with undeclared prefixes (an existing test reads them), elements with fixed content models, order of unequal trees.',
  observe=['written texts', 'element trees']),
P('X04', 'Character classes are sets, schema regular expressions match as XML Schema says',
  'After any history of unions, differences, complements and copies of character classes, each class holds exactly the characters that set algebra gives it, by test and as a regular expression of Python, equal classes are equal, and no operation changes another class. '
  'A RegularExpression matches exactly the texts that the XML Schema expression stands for (branches, pieces and quantities, classes with ranges, negation and subtraction, escapes for characters, categories, blocks and kinds), as a whole; texts that are no expressions are refused with RegularExpressionError.',
  ['inputs', 'histories'],
  'all histories and expressions; explored: 1000 histories of up to 12 operations on three classes, all characters that matter looked at after each; 2000 expressions with up to 16 texts each, 200 spoiled ones',
  'the tests add and subtract a few ranges and compare the Python text of some expressions; they match none',
  ['pyslet/pyslet/unicode5.py', 'pyslet/pyslet/xsdatatypes20041028.py'],
  [('classes', 'unicode5.py CharClass'), ('expressions', 'xsdatatypes20041028.py RegularExpressionParser, RegularExpression')],
  technique='TLA+ specification of classes as sets of characters under operations and of regular expressions as sets of texts (specs/regex); histories and matches of the real classes judged by TLC',
  note='Left open: surrogates (the platform cannot write them), the edition of XML that \\\\c follows, misplaced hyphens. Known finding: (a?)* and the like end in an error of re.',
  observe=['class ranges', 'match results']),
P('X05', 'Texts of XML Schema simple types decode and encode as the type says',
  'A text that is in the lexical space of boolean, integer, decimal, float or double decodes to its value and that value encodes in the canonical form of the type; any other text is refused with ValueError. White space is replaced and collapsed as XML Schema says. '
  'Space-separated enumeration values decode to the list or dictionary of their values, each under its first text, in the case asked for, and encode to their canonical names in order.',
  ['inputs'],
  'all texts; explored: 1500 numbers of each of four types and all short texts over their alphabets, all white space of up to five characters, 1200 enumerations',
  'the tests try a few dozen texts; signs, points, exponents, spaces and repeated values combine freely',
  ['pyslet/pyslet/xsdatatypes20041028.py'],
  [('numbers', 'xsdatatypes20041028.py DecodeDecimal, EncodeDecimal, DecodeDouble, EncodeDouble, DecodeInteger'), ('white space', 'WhiteSpaceReplace, WhiteSpaceCollapse'), ('enumerations', 'Enumeration, MakeEnumeration')],
  technique='TLA+ specification of lexical spaces and canonical forms (specs/regex/Lex); results of the real functions on random and all short texts judged by TLC',
  note='Left open: more than eight significant digits (the platform declares ten), the limits of float and double, lower case inf and nan.',
  observe=['encoded texts', 'decoded values']),
P('P01', 'Content packages: files, references and archives stay consistent',
  'After any history of adding resources and files, copying files in, deleting files, setting entry points, and saving, exporting and opening again, the file table of a content package maps exactly its files (those not ignored) and the local files that its manifest refers to, with their references, and references mean the same files. '
  'Unique paths are new, no operation changes or loses a file other than the one named, deleting a file removes every reference to it, and files outside of the package, ignored files and the manifest are refused with CPFilePathError. '
  'An exported archive has the files of the package, without ignored ones; an archive with entries outside of it, duplicates or directories with contents is refused with the documented errors, nothing being left behind.',
  ['histories', 'inputs'],
  'all histories and archives; explored: 400 histories of up to 14 operations on packages with random files and manifests (xml:base at every level), 500 archives',
  'the tests add, find and delete a handful of files in one package; base URIs, repeated references, name clashes and hostile archives combine freely',
  ['pyslet/pyslet/imscpv1p2.py', 'pyslet/pyslet/vfs.py', 'pyslet/pyslet/rfc2396.py'],
  [('file table', 'imscpv1p2.py ContentPackage.RebuildFileTable, File, FileCopy, DeleteFile, GetUniqueFile'), ('archives', 'ExpandZip, ExportToPIF'), ('references', 'Resource.GetEntryPoint, SetEntryPoint, File.PackagePath')],
  technique='TLA+ specification of packages as files and references under operations, model checked (specs/package); histories of the real class judged step by step by TLC',
  note='Left open: symbolic links, references that end in a slash, case-insensitive file systems, files in ignored directories added on purpose, archives that use a file as a directory (any error). Effects outside a scratch directory are refused by the driver.',
  observe=['file table', 'manifest', 'package directory']),
]
