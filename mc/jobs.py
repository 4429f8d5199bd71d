"""Jobs of every check: (backend, job name), and what bounds they explore."""
MODES = ('lxml', 'etree')


def both(*names):
    return [(m, n) for n in names for m in MODES]


def sharded(name, n, modes=MODES):
    return [(m, '%s:%d/%d' % (name, i, n)) for i in range(n) for m in modes]


META = {}
JOBS = {}


def check(prop, jobs, bounds, assumptions=(), thorough_jobs=None, parallel=8):
    JOBS[prop] = (jobs, thorough_jobs or jobs)
    META[prop] = dict(bounds=bounds if isinstance(bounds, dict) else
                      dict(quick=bounds, thorough=bounds),
                      assumptions=list(assumptions), parallel=parallel)


def jobs(prop, tier):
    return JOBS[prop][tier == 'thorough']


check('C01',
      sharded('kinds', 2) + sharded('driven', 2) + sharded('shared', 2) +
      sharded('long', 4),
      {'quick': 'every list of <=3 rules over 12 rule kinds (effect x absent/'
       'matching/non-matching/failing target and condition), every vector of '
       '<=5 effects x 3^n outcomes driven by the request, every list of <=6 over '
       'the 5 rule outcomes, lists of up to 1100 rules with one or two rules not '
       'NotApplicable at every position; 3 algorithms, 2 XML back ends',
       'thorough': 'as quick with lists of <=4 kinds, <=6 driven rules, <=7 '
       'outcomes'},
      ['lists longer than the bounds behave like those within (the algorithms '
       'keep three flags)'],
      sharded('kinds', 8) + sharded('driven', 8) + sharded('shared', 8) +
      sharded('long', 4))

check('C02',
      sharded('kinds', 2) + both('driven', 'shared') + sharded('tree', 2) +
      both('deep', 'chain') + sharded('long', 3),
      {'quick': 'every list of <=3 children over 12 kinds of Policy and '
       'PolicySet, every vector of <=4 policy effects x 3^n request-driven '
       'outcomes, every list of <=6 over the 4 outcomes mixing Policy and '
       'PolicySet children, all two-level trees over inner algorithm x target x '
       'effects, chains of <=4 nested sets with every target outcome at every '
       'level, of 8 to 40 with one target anywhere, lists of <=50 with one or two '
       'children not NotApplicable at every position, of 130 to 1100 (thorough '
       '4200) at 40 positions; 3 algorithms, 2 back ends',
       'thorough': 'as quick with <=4 kinds, <=5 driven, <=7 outcomes, full '
       'cross product of inner sets, chains of 5'},
      ['lists longer than the bounds behave like those within'],
      sharded('kinds', 8) + sharded('driven', 4) + sharded('shared', 4) +
      sharded('tree', 8) + sharded('deep', 4) + both('chain') +
      sharded('long', 6))

check('C03',
      sharded('matrix', 2) + sharded('section', 2) + both('odd', 'rulelevel'),
      {'quick': 'every combination of PolicySet, Policy and Rule target (absent, '
       'empty, matching, not matching, failing) x condition (absent, true, false, '
       'failing) x effect x algorithm; every choice of 4 attribute driven '
       'targets over one set, one policy and two rules x 4 requests x 4 '
       'sections; 30 condition / match results including 26 non-boolean ones in '
       'conditions, nested calls and matches; 13 expression forms below a '
       'Condition',
       'thorough': 'same space (finite, explored completely)'},
      ['a value counts as boolean when it is Python\'s bool or an XACML boolean '
       'attribute value'])

check('C04',
      sharded('structure', 4) + both('bags', 'direction', 'cross') +
      sharded('multi', 2) + sharded('long', 3),
      {'quick': 'every target shape with <=4 matches distributed over sections '
       'and entries x 3^n outcomes of the matches (match, no match, failure); '
       'every bag of <=4 values over 3; two entries of two matches over 3 values '
       'x 8 value sets; argument order of match functions; entries of <=130 '
       'matches and sections of <=1100 entries with one different at every '
       'position; features that decide nothing (ids, issuers, further subjects, '
       'resources and attributes) varied throughout',
       'thorough': 'as quick with <=5 matches'},
      ['shapes beyond the bound behave like smaller ones'],
      sharded('structure', 16) + both('bags', 'direction', 'cross') +
      sharded('multi', 2) + sharded('long', 4))

check('C05',
      sharded('pairs', 4) + both('foreign', 'types', 'mbp', 'many'),
      {'quick': 'every request with <=2 attributes from a universe of 38 (id x '
       'type x issuer x values, near-miss ids, empty issuer), in one or split '
       'over two subjects / resources, x 12 designators (type x issuer x '
       'MustBePresent) x 4 sections; every pair of the 15 implemented standard data types; '
       'MustBePresent in every position a designator can have; requests of <=1100 '
       'attributes, subjects or resources with one selected at every position',
       'thorough': 'as quick plus every triple over a sub-universe, and every '
       'pair through XML as well'},
      ['the order of values in a bag is not significant'])

check('C06',
      sharded('points', 3) + both('environment', 'contexterror') +
      sharded('types', 2) + sharded('nearly', 1),
      {'quick': 'every subset of failing calls in 27 policies of up to 5 '
       'targets / conditions (26 kinds of exception at every single call '
       'point), each on two PDPs, then recovery on the same PDP; failing PIP '
       'and selector with every kind; every combination of absent request '
       'sections; 11 functions x every list of <=2 out of 9 argument kinds; every pair of 19 attributes '
       'that nearly are the one that must be present (4 sections, 3 issuers, '
       '5 positions)',
       'thorough': 'as quick with argument lists of 3'},
      ['failures are Python Exceptions (not SystemExit / KeyboardInterrupt)'],
      sharded('points', 3) + both('environment', 'contexterror') +
      sharded('types', 4) + sharded('nearly', 1))

check('C07',
      sharded('wide', 2) + sharded('narrow', 4) + both('confuse'),
      {'quick': 'every history of <=2 operations over 5 policies with equal '
       'ids x 4 requests, and of <=3 over 2 x 2 (evaluate, reload, replace '
       'policy, new or changed request, changed effect / algorithm / rule '
       'order, caller altering or emptying a response, log level), then every '
       'policy on every request, all earlier responses, policies and requests '
       'compared; every ordered pair of 16 near-identical strings in 16 places '
       'of policy and request, never seen before in the process',
       'thorough': 'as quick with 4 operations over 2 x 2 and 3 over 4 x 3'},
      ['a history of operations longer than the bound adds nothing new'],
      sharded('wide', 2) + sharded('narrow', 16) + sharded('mid', 16) +
      both('confuse'))

check('C08',
      sharded('structure', 4) + sharded('texts', 4) + sharded('src', 1) +
      both('pairs', 'bools'),
      {'quick': 'every argument list of <=2 out of 21 operand forms, nested '
       'calls of <=3 operands and 29 levels, every target section of <=2 '
       'entries x <=2 matches, every presence pattern of sections, every list '
       'of <=3 rules, every two-level tree of <=3 children and 11-level chains, '
       'documents with 60 children; 60 texts in 21 places; 15 ways of writing '
       'the XML; 10 kinds of source x 6 loaders; every ordered pair of 5 '
       'documents loaded after each other',
       'thorough': 'as quick with all styles for the largest documents and all '
       'pairwise concatenations of 45 texts'},
      ['XML parsers (expat, libxml2) are trusted'],
      sharded('structure', 8) + sharded('texts', 16) + sharded('src', 1) +
      both('pairs', 'bools'))

check('C09',
      sharded('mutate', 4) + sharded('double', 4) + both('broken', 'ids'),
      {'quick': 'every single mutation (attribute dropped, renamed or given '
       'another value; element dropped, renamed, repeated, wrapped, unwrapped, '
       'swapped, moved anywhere, inserted at both ends of every element, from '
       'this or another namespace) of 4 '
       'documents, judged by a reference grammar; every pair out of a seventh of '
       'the mutations of a small document; every truncation of every document in '
       '3 encodings; every clash of two ids in 6 tree shapes and rule lists of '
       '<=5',
       'thorough': 'as quick with every pair of mutations'},
      ['repeated Target / Condition / match operands, repeated target sections, '
       'forward references and unknown XML attributes are left unspecified'],
      sharded('mutate', 4) + sharded('double', 64) + both('broken', 'ids'))

check('C10',
      sharded('inline', 2) + sharded('files', 3) + both('forms', 'web',
                                                        'isolation', 'custom'),
      {'quick': 'every list of <=3 children out of 16 (policies, sets, '
       'references known, unknown, of the other kind, to the enclosing set); '
       'every content of two referenced files (10 x 10, including circular, '
       'missing, malformed, wrong id) x every root of <=2 references; 6 forms of '
       'reference x 8 locations x 5 ways of loading, with decoys in the working '
       'directory; 100 contents over loopback HTTP; every history of <=3 loads '
       'over 7 documents x 3 finders; custom finders',
       'thorough': 'as quick with <=4 children, roots of <=3'},
      ['a reference to a policy defined later in the document is left '
       'unspecified'],
      sharded('inline', 16) + sharded('files', 8) + both('forms', 'web',
                                                         'isolation', 'custom'))

check('C11',
      sharded('args', 4) + sharded('regexp', 2) + both('bags') +
      sharded('nested', 1) + sharded('composed', 1),
      {'quick': 'each of 62 functions on every argument list of <=2 out of a '
       'universe of up to 60 (all values of its type, values and bags of every '
       'other type, plain booleans and strings) and of 3 out of a smaller one; '
       'every pair of bags of <=3 values over 3; concatenations and bags of '
       '<=4; every regular expression with <=2 operators over 7 atoms on every '
       'string of <=3 characters over 3, by an independent matcher; every '
       'expression of <=2 and / not nodes; every pair of composed operands',
       'thorough': 'as quick with lists of 4, regular expressions and '
       'expressions with 3 operators'},
      ['x500Name-match, rfc822Name-match, round and the xpath-node functions are '
       'left unspecified; x500Name-equal and rfc822Name-equal are only compared '
       'on values that are identical or materially different'],
      sharded('args', 16) + sharded('regexp', 8) + both('bags') +
      sharded('nested', 4) + sharded('composed', 2))

check('C12',
      sharded('history', 4) + sharded('policies', 1) + both('values', 'algs'),
      {'quick': 'every history of <=3 operations out of 28 on a function '
       'registry (look up standard, unimplemented, unknown and extension '
       'functions two ways, load everything, register by factory or path, '
       'register for a standard identifier, 7 failing registrations), then '
       'every look-up; every history of <=5 registrations and policy loads; '
       '600 expressions mixing extension and standard functions; custom '
       'combining algorithms on every vector of <=4 child outcomes',
       'thorough': 'as quick with histories of 4 and 6 and vectors of 5'},
      ['identifiers in the standard namespace that name no standard function '
       'but follow its naming pattern are left unspecified; policies built before an '
       'extension function is registered again may use either'],
      sharded('history', 16) + sharded('policies', 4) + both('values', 'algs'))

check('C13',
      sharded('structure', 2) + sharded('texts', 2) + both('types', 'pairs') +
      sharded('mutate', 2),
      {'quick': 'every list of <=3 attributes out of 8 in every section, every '
       'list of <=3 subject categories, every list of <=2 resources x 6 contents '
       'x attributes, every count of sections and attributes <=2, requests of 40 '
       'sections; 60 texts in 18 places; 15 ways of writing the XML; 29 data '
       'types x 9 texts; every single mutation of 3 documents and every pair '
       'out of a third of the mutations of one, judged by a reference grammar; '
       'every ordered pair of 12 requests, each deciding 32 policies as the '
       'model and as the same request made by hand',
       'thorough': 'as quick with all styles for every request, all pairwise '
       'concatenations of 45 texts and every pair of mutations'},
      ['elements other than Attribute in Subject, Resource, Action and '
       'Environment, repeated Action / Environment / ResourceContent and '
       'elements inside an AttributeValue are left unspecified',
       'values of data types that are not text may be refused'],
      sharded('structure', 4) + sharded('texts', 16) + both('types', 'pairs') +
      sharded('mutate', 16))

check('C14',
      sharded('paths', 4) + both('attributes', 'texts', 'types', 'custom') +
      sharded('decisions', 2) + sharded('history', 1),
      {'quick': 'every content tree of <=4 elements over 2 names (with every '
       'assignment of attributes up to 2 elements) x every path of one step and '
       'a sixth of those of two steps below 2 prefixes or anywhere (child or '
       'descendant axis, name or *, 8 predicates, 3 ways of starting a path), '
       'by an independent evaluator of paths; 2560 paths into the request '
       'attributes of 6 requests in 14 ways of writing the XML; 60 texts; 21 '
       'data types; 128 policies x 5 paths x 42 requests; application selectors '
       'returning every bag of <=3 or failing; every history of 3 operations '
       '(evaluate one of 3 requests, change its content, swap selectors)',
       'thorough': 'as quick with trees of 5, all paths of two steps, histories '
       'of 4'},
      ['paths starting with / or // are taken relative to the Request element; '
       'the value of an element without text is left unspecified, as is that of '
       'text after an element\'s first child element'],
      sharded('paths', 32) + both('attributes', 'texts', 'types', 'custom') +
      sharded('decisions', 2) + sharded('history', 4))

check('C15',
      sharded('lines', 6) + sharded('opcodes', 4, ('lxml',)) +
      sharded('triple', 1),
      {'quick': 'all schedules of two threads with one preemption at any line '
       '(outside one-line accessors) in 44 scenarios: same or other decision '
       'point, own or shared request, cold or warm, never seen patterns, failing '
       'rules, information points, selectors, policy replacement, loading '
       'policies, reading and writing requests, function look-up and '
       'registration; with two preemptions where there are <=12000 such '
       'schedules, and for the pattern cache; at any bytecode instruction with '
       'one preemption in 16 scenarios; three threads with one preemption',
       'thorough': 'two preemptions for every scenario with <=500000 such '
       'schedules, at line and at instruction granularity'},
      ['a thread is only switched at lines / instructions of the library '
       '(the interpreter and C extensions are atomic in between); schedules '
       'with more preemptions than the bound are not explored'],
      sharded('lines', 24) + sharded('opcodes', 24) + sharded('triple', 2))

check('C17',
      sharded('bags', 2) + both('subjects', 'failures') +
      sharded('decisions', 1) + sharded('history', 1),
      {'quick': 'every list of <=2 request values and of distinct information '
       'point values over 3, 2 data types, 3 issuers, 6 forms of answer, asked '
       'three times; <=3 subjects; 120 policies x 19 information points x 12 '
       'requests; 10 kinds of failing answer; every history of 3 operations '
       '(evaluate one of 3 requests, change the information, swap handlers, '
       'change a request) followed by evaluations of all requests',
       'thorough': 'as quick with histories of 4'},
      ['how often a value both in the request and the information point counts '
       'is only specified for requests with one subject; answers repeating a '
       'value, and requests without a subject, are left unspecified'],
      sharded('bags', 2) + both('subjects', 'failures') +
      sharded('decisions', 2) + sharded('history', 8))

check('C21',
      sharded('requests', 2) + both('texts', 'responses', 'evaluated', 'invalid',
                                    'mixed') + sharded('documents', 2),
      {'quick': 'every request of the bounds of C13 made by hand and read in 2 of '
       '15 styles of XML, written, compared by an independent parser, read again '
       'and pretty printed; 57 texts in 18 places; every list of <=2 results '
       'out of 16 and every vector of 4 decisions, a response of 60 results, in '
       '15 styles; responses of a decision point; 13 false decisions and 15 '
       'misplaced elements; every sequence of 3 operations on two requests and '
       'a response sharing content; 25693 small documents (every chain of 2 '
       'elements out of 3 names x 9 sets of namespace declarations x 6 sets of '
       'attributes, of 3 out of 27, mixed content of <=4 items) pretty printed, '
       'and written as content of a resource',
       'thorough': 'as quick with all styles, pairwise concatenated texts, lists '
       'of 3 results, sequences of 4'},
      ['status and obligations of results are not written by the library and '
       'left out', 'values other than text and texts with carriage returns are '
       'left out', 'pretty printed text may differ in white space'],
      sharded('requests', 8) + sharded('texts', 8) + both(
          'responses', 'evaluated', 'invalid', 'mixed') +
      sharded('documents', 2))

check('C16',
      sharded('states', 1, ('lxml',)) + sharded('construct', 1, ('lxml',)) +
      sharded('histories', 4, ('lxml',)) + sharded('objects', 1) +
      sharded('uniq', 2, ('lxml',)) + sharded('keys', 1, ('lxml',)) +
      sharded('vetted', 1, ('lxml',)),
      {'quick': 'every content of <=4 elements for 7 element types, every one of '
       'up to ~500 operations on it (arguments of <=2 items of right and wrong '
       'type in 5 kinds of iterables, failing half way included); every sequence '
       'of 3 operations on one list; all 26 collections of policies, requests '
       'and responses: every operation with each of 33 kinds of wrong elements '
       'and every pair of operations; every sequence of 3 operations on lists '
       'without duplicates, filtered dictionaries and (2) dictionaries with '
       'fixed keys', 'thorough': 'contents of <=5, sequences of 4 (3 for fixed '
       'keys)'},
      ['of the list without duplicates append, extend and += are checked, of '
       'the dictionary with fixed keys item assignment and update'],
      sharded('states', 8, ('lxml',)) + sharded('construct', 1, ('lxml',)) +
      sharded('histories', 16, ('lxml',)) + sharded('objects', 1) +
      sharded('uniq', 16, ('lxml',)) + sharded('keys', 1, ('lxml',)) +
      sharded('vetted', 1, ('lxml',)))

check('C19',
      sharded('vocabulary', 1, ('lxml',)) + sharded('comparison', 1, ('lxml',)) +
      sharded('copies', 1, ('lxml',)) + sharded('results', 1, ('lxml',)) +
      sharded('evaluations', 2) + sharded('rules', 1),
      {'quick': 'every single edit of every word of the vocabularies and 25 '
       'objects of other kinds: constructed, set, assigned, compared; every '
       'pair of objects, constants, copies and texts compared; copies of copies '
       '(copy, deepcopy, pickle protocols 2..) with every sequence of 2 changes; '
       'every pair of 6 policies x requests x 10 changes of the returned '
       'responses, then evaluated again; every 2 changes of rule effects',
       'thorough': 'as quick'},
      ['StatusCode isn\'t compared or copied: the library gives it no '
       'comparison'])

check('C20',
      sharded('single', 2) + sharded('sequences', 2) + both('decisions'),
      {'quick': 'all 201 attributes of 47 classes x 118 objects of every kind '
       'and up to 12 identifiers, on a new and on two completely set objects, '
       'each twice; every sequence of 3 assignments (<=4 values per attribute, '
       'good and bad) per class; every refused assignment to each of 14 parts of '
       'a loaded policy set followed by evaluations; 8 accepted ones',
       'thorough': 'as quick with sequences of 4'},
      ['the underlying XML element, resource content and status detail may be '
       'anything', 'whether a truth value is an integer is left unspecified'],
      sharded('single', 2) + sharded('sequences', 12) + both('decisions'))

check('C18',
      sharded('histories', 4) + sharded('decisions', 2) + sharded('readers', 1),
      {'quick': 'every sequence of <=3 operations out of 40 (value classes and '
       'readers of two types registered, replaced, refused; policies and requests '
       'with them read), then both types and all 16 standard ones looked up and '
       'read; 168 policies with values of two structured types, in 2 of 15 '
       'styles, x 300 requests; every sequence of <=2 registrations of readers '
       'for 8 kinds of elements',
       'thorough': 'sequences of 4 of the successful operations, all styles, '
       'sequences of 3 readers'},
      ['readers registered for parts inside other readers that don\'t ask the '
       'factory (nested expressions) are left out'],
      sharded('histories', 8) + sharded('decisions', 8) + sharded('readers', 4))

check('C22',
      both('make', 'comparison', 'lookup', 'bags') + sharded('histories', 2),
      {'quick': 'every one of 15 data types made of and set to each of 139 objects '
       '(native values of all kinds, subclasses, look-alikes, values); every pair '
       'of 159 values compared in 4 ways; each identifier and its one-character '
       'neighbours; bags of <=2 values x 5 operations x 139 objects; every '
       'sequence of 3 out of 13 assignments on two values of a type and one of '
       'another',
       'thorough': 'as quick with sequences of 4'},
      ['whether a truth value is a whole number is left unspecified'])

check('C23',
      both('names', 'calls', 'directories'),
      {'quick': '533 names (modules, packages, nested objects, missing and '
       'malformed ones) with cold and warm module cache, each with every base '
       'class; 16 objects x 8 argument lists x 4 keyword sets; every sequence of 2 '
       'out of 53 calls with directories (present, missing, none; modules that '
       'are found twice, that fail to load in 4 ways), started also with an empty '
       'search path',
       'thorough': 'as quick with sequences of 3'},
      ['single thread; modules don\'t change the search path themselves'],
      sharded('directories', 2) + both('names', 'calls'))

check('C24',
      [('lxml', j) for j in ('content', 'statuses', 'redirections', 'places')] +
      sharded('proxies', 2, ['lxml']),
      {'quick': '18 bodies (empty to 1 MB) x 8 ways of transfer x 3 addresses x 3 '
       'ways of reading, each cut at up to 4 places; every status 200-206, '
       '300-399, 400-599, 4 malformed answers, every sequence of 3 out of 5 '
       'answers; every chain of <=2 redirections out of 5 kinds x 3 ends x 3 '
       'addresses, loops; files and 13 addresses that lead nowhere; every '
       'no_proxy list of <=2 out of 9 entries in 2-4 spellings x 5 hosts x '
       'proxy set or not, against servers on the loopback network',
       'thorough': 'as quick with sequences of 4, chains and lists of 3'},
      ['plain HTTP and files; entries of no_proxy that match a part of a host '
       'or name a port are left unspecified'],
      [('lxml', j) for j in ('content', 'statuses', 'redirections', 'places')] +
      sharded('proxies', 8, ['lxml']))

check('C25',
      sharded('request', 4) + both('value', 'response', 'policy') +
      sharded('independent', 3),
      {'quick': 'every request of C13 (lists of <=3 attributes, <=3 sections) by hand '
       'and read, 57 texts in each place: copy, deep copy and pickle protocols '
       '2-5 of the request and (every 4th) its parts, copies of copies (every '
       '16th), decisions of 32 policies on the copies (every 6th); 154 values of '
       'all types; 600 results, responses of <=3 of 11 results and of decisions; '
       'every single and every 4th pair of 46 changes on the copy or the original '
       'of 5 requests; 330 policies copied, decided on 18 requests and changed',
       'thorough': 'as quick without the thinning'},
      ['a request with an XPath selector of the library is not pickled (lxml '
       'objects refuse it); policies are copied, not pickled; pickle protocols 0 '
       'and 1 are left out (elements of the standard library refuse them)'],
      sharded('request', 8) + both('value') + sharded('response', 4) +
      sharded('independent', 8) + sharded('policy', 4))

check('C26',
      sharded('choice', 4, ['lxml']) + both('history') +
      sharded('agree', 4, ['lxml']),
      {'quick': '6 configurations (lxml present or absent, choice unset, True, '
       'False): each of 97 modules imported first (a sixth of them in 4 of the '
       'configurations), then all others; every sequence of <=4 out of 8 steps '
       '(set the choice in 3 ways, import, lxml gone, there again, broken in 2 ways); the 5 '
       'working configurations compared on 70000 cases: policy and '
       'request documents with mutations, 43 pieces of text at every place of 4 '
       'documents with and without a DTD (a 6th), XPath selections of C14, '
       'requests and responses written, decisions on read policies and requests',
       'thorough': 'as quick without the thinning; sequences of 5'},
      ['Config.use_lxml is set before other modules of the package are imported; '
       'documents that one of the libraries says are not well-formed need to be '
       'refused by that one only'],
      sharded('choice', 4, ['lxml']) + sharded('history', 4) +
      sharded('agree', 8, ['lxml']))


check('C27',
      both('part') + sharded('wrong', 2) + both('context') + both('cwrong') +
      both('owrong') + both('loader') + both('evaluate'),
      {'quick': '1638 parts of policies (all 22 kinds of elements with a reader), 1100 '
       'requests and responses with all their parts, each read alone from element, '
       'stream and path and within its document, in 2 of 8 styles; each of 23 '
       'readers given every other of 35 elements with its own or this content, 16 '
       'names like its own, 11 things that are no document; the same for 9 parts of '
       'requests and responses; 9 writers given 163 objects; 8 finders x 11 reader '
       'factories; 121 things that are no requests asked by 10 designators and '
       'selectors; 2 back ends',
       'thorough': 'as quick in all 8 styles, 3300 requests'},
      ['elements are told apart by their local names; the target parts of a policy '
       'named like a section of a request are not told apart from it'])


check('C28', sharded('singles', 1) + sharded('pairs', 8),
      {'quick': '108 features (12 sources of values - designators of 4 sections, with '
       'issuer and required, of anyURI, of a custom type, completed by an '
       'information point, 3 selectors - in 4 places, in 2 or 3 forms) alone, in 6 '
       'places policies can be kept x 18 algorithms and effects, and all pairs in 2 '
       'of 3 arrangements, each on every combination of present, different, absent and '
       'repeated values; from documents to documents; 2 back ends',
       'thorough': 'as quick, pairs in all 3 arrangements and 6 places x 5 algorithms '
       'and effects'},
      ['errors that another match or operand masks may show or not'],
      sharded('singles', 1) + sharded('pairs', 64))


def extend(prop, jobs, text, thorough=None):
    """Jobs added to a check."""
    q, t = JOBS[prop]
    JOBS[prop] = (q + jobs, t + (thorough or jobs))
    b = META[prop]['bounds']
    for k in b:
        b[k] += '; ' + text


extend('C07', sharded('soak', 2), 'one decision point for over 2200 evaluations '
       'of cycles of 1 to 1100 different requests, 3 to 1100 decision points '
       'that differ in one string used in turn', sharded('soak', 4))
extend('C08', both('long'), 'documents with 130 to 1100 rules, policies, sets, '
       'matches, entries, operands, of 60 levels, texts of 1000 to 65537 '
       'characters in every place')
extend('C10', sharded('long', 1), '300 references, definitions and files, '
       'chains of 25 files, identifiers of 5000 characters')
extend('C11', both('long'), 'lists of 5 to 1100 operands, bags and texts with '
       'one different at 40 positions, 60 levels, patterns of 1100 characters')
extend('C12', both('long'), '30 to 1100 extension functions registered in 3 '
       'orders, each deciding')
extend('C13', both('long'), '130 to 1100 attributes, values, subjects, '
       'resources, texts of 1000 to 65537 characters in every place')
extend('C14', both('long'), 'contents of 1100 and 60 nested elements, texts of '
       '65537 characters')
extend('C16', both('long'), 'lists of 30 to 1100 elements, every operation')
extend('C17', both('long'), '1100 values, 2500 queries by one handler')
extend('C18', both('long'), '30 to 1100 custom types')
extend('C21', both('long'), 'requests of 130 to 1100 attributes, values, '
       'subjects, resources, responses of 1100 results, texts of 65537 '
       'characters')
extend('C25', both('long'), 'requests of 130 to 1100 attributes, values, '
       'subjects, resources, responses of 1100 results, texts of 65537 '
       'characters')
extend('C08', both('order'), 'every part of an element that occurs once moved '
       'anywhere in it (read with the same meaning or refused)')
extend('C14', sharded('ends', 2, ['lxml']), 'every path of one step continued to '
       'attributes, texts, parents, unions (lxml)')
extend('C12', both('standard'), 'all 213 standard identifiers set, read, and '
       'registered for another function, in 4 registries')
extend('C19', both('identifiers'), 'every published identifier (22 attributes '
       'and categories, 4 of targets, 16 data types, 4 status codes) compared '
       'with the standard\'s and deciding for requests with each of the others')
extend('C24', sharded('hops', 1), 'every redirection over 2 and 3 of 3 hosts '
       'with every list of up to 3 entries, with and without a proxy')
extend('C05', both('mixed'), 'attributes of declared type one of 3 with 1 to 3 '
       'values of 3 types, alone and with a second attribute, 4 sections')
extend('C07', sharded('edit', 2), 'a policy set changed in place: all sequences '
       'of up to 2 of 34 changes, evaluated on 19 requests after each',
       sharded('edit', 8))
extend('C10', both('places') + sharded('namesakes', 2), 'documents below '
       'directories of 32 names (with everything that an URL could make of them '
       'beside), 6 references x 5 ways of loading; files of the same name in 4 '
       'directories, referred to in every order of 2 and 3',
       both('places') + sharded('namesakes', 12))
extend('C04', sharded('longbag', 2), 'bags of 130 to 1100 values (one attribute or '
       'many) with one that matches or fails at 30 positions',
       sharded('longbag', 4))
