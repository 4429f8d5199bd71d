# -*- coding: utf-8 -*-
# Executed by mkprops.py.

prop('C01', 'Rule combining algorithms give the standard decision for any rule list',
     'For every policy with any list of rules, the policy\'s decision under deny-overrides, '
     'permit-overrides and first-applicable is the one the XACML 2.0 combining algorithm defines '
     'from the outcomes of its rules, whatever their number, order and mix of Permit, Deny, '
     'NotApplicable and Indeterminate. In particular a matching Deny rule always wins under '
     'deny-overrides and a matching Permit rule always wins under permit-overrides; a rule that '
     'fails and could have produced the overriding effect makes the result Indeterminate '
     'instead of the opposite decision; and first-applicable takes the first rule that is not '
     'NotApplicable.',
     ['inputs'], 'all rule lists: every number, order and mix of rule effects and of target / '
     'condition outcomes (applies, does not apply, fails), for each of the three algorithms',
     'The unit tests evaluate a dozen fixed policies with one to three rules; none covers the '
     'Indeterminate mixes, and the space of vectors is exponential.',
     [C + 'rule_combining_alg.py', C + 'rule.py', C + 'policy.py'],
     [('deny-/permit-overrides and first-applicable loops', C + 'rule_combining_alg.py'),
      ('exceptions of a rule become Indeterminate', C + 'rule.py: evaluate')],
     observe=['decision of the PDP\'s response'])

prop('C02', 'Policy combining algorithms and nested policy sets decide as standardised',
     'For every policy set with any list of child policies and policy sets, nested to any depth, '
     'the decision under deny-overrides, permit-overrides and first-applicable is the one the '
     'XACML 2.0 policy combining algorithm defines from the decisions of its children, in '
     'document order. Under deny-overrides an Indeterminate child yields Deny; under '
     'permit-overrides Deny takes precedence over Indeterminate; a child is only consulted '
     'through its own target and algorithm.',
     ['inputs'], 'all trees of policies and policy sets, combinations of algorithms per level and '
     'child outcomes',
     'Existing tests load a handful of policy sets, always one level with at most three children; '
     'the interaction of levels, algorithms and Indeterminate outcomes is never enumerated.',
     [C + 'policy_combining_alg.py', C + 'policyset.py', C + 'policybase.py'],
     [('policy combining loops', C + 'policy_combining_alg.py'),
      ('target first, then combining algorithm', C + 'policybase.py: evaluate')],
     observe=['decision of the PDP\'s response'])

prop('C03', 'A rule or policy only takes effect when its target and condition hold',
     'A rule contributes its effect exactly when its target matches (or it has none) and its '
     'condition evaluates to boolean true (or it has none); a target that does not match or a '
     'false condition makes it NotApplicable, and an error, or a condition or match result that '
     'is not a boolean, makes it Indeterminate, never its effect. Likewise a policy or policy set '
     'whose target does not match is NotApplicable and its rules are without influence.',
     ['inputs'], 'all combinations of targets and conditions present / absent / matching / failing '
     'on the rule, policy and policy set level, all kinds of results a condition can yield',
     'Tests exercise one level at a time with conditions that are simply true or false.',
     [C + 'rule.py', C + 'policybase.py', C + 'condition.py', C + 'target.py'],
     [('target then condition', C + 'rule.py: evaluate'),
      ('boolean check of condition results', C + 'condition.py: evaluate')],
     observe=['decision of the PDP\'s response'])

prop('C04', 'Targets match as AND of sections, OR of entries, AND of matches',
     'A target matches a request exactly when each of its subjects, resources, actions and '
     'environments sections that is present and not empty has at least one entry all of whose '
     'matches hold; a missing section matches everything. A single match holds exactly when its '
     'function yields true for the policy\'s value as first argument and at least one of the '
     'request\'s values the designator or selector finds; entries and matches '
     'are never merged across each other.',
     ['inputs'], 'all target shapes (sections x entries x matches), all outcomes of the individual '
     'matches, all bags of request values',
     'The test policies contain only a few shapes, mostly one entry with one match per section.',
     [C + 'target.py', C + 'match.py', C + 'subject.py', C + 'environment.py'],
     [('section / entry / match loops', C + 'target.py: match'),
      ('any-of over the attribute bag', C + 'match.py: evaluate')],
     observe=['decision of the PDP\'s response'])

prop('C05', 'Attribute designators select exactly the request attributes asked for',
     'A subject, resource, action or environment designator yields all values, and only the '
     'values, of the attributes in its own section of the request whose identifier and data '
     'type are equal to its own and, if it names an issuer, whose issuer is equal too, over all '
     'subjects or resources of the request. If none is found the bag is empty, unless the designator is marked '
     'MustBePresent: then evaluation fails and the enclosing rule, policy or policy set is '
     'Indeterminate.',
     ['inputs'], 'all requests (attributes varying in section, id, type, issuer, number of values, '
     'distribution over subjects and resources) against all designators',
     'Tests use requests where each designator has one obvious answer; wrong issuer, equal id with '
     'another type, split bags and equal ids in another section do not occur together.',
     [C + 'attributedesignator.py', C + 'context/request.py', C + 'attribute.py'],
     [('attribute filter', C + 'attributedesignator.py: evaluate of the four classes'),
      ('missing attribute error', C + 'attributedesignator.py')],
     observe=['decision of the PDP\'s response', 'values returned by the designator'])

prop('C06', 'Evaluation fails closed: any error becomes Indeterminate, never an effect',
     'Whatever fails while a decision is computed - a function given arguments of the wrong type '
     'or number, a missing attribute or request section, an unusable selector, a failing '
     'information point or extension function, of any exception type - evaluation returns a '
     'response with exactly one result and does not raise, and the rule or policy where it '
     'happened counts as Indeterminate for the combining algorithms above it. The next request on '
     'the same decision point is decided as if nothing had happened.',
     ['inputs', 'fault_sequences'], 'every point in the evaluation at which a call can fail x kinds '
     'of exception, all subsets of failing calls, argument lists of any type and arity',
     'Tests contain one or two failing conditions; which of many call points fails, alone or '
     'together, and with what, is not enumerated.',
     [C + 'rule.py', C + 'policybase.py', C + 'context/pdp.py', C + 'context/exceptions.py'],
     [('exception handlers around rule and policy evaluation', C + 'rule.py, ' + C +
       'policybase.py')],
     observe=['decision of the PDP\'s response', 'exceptions leaving the PDP'],
     technique='exhaustive fault injection at every call point of the real code against a '
     'reference model')

prop('C07', 'Decisions depend only on the current policy and request, never on history',
     'Evaluating a request gives the decision its current policy and its current content define, '
     'regardless of what was evaluated, loaded, changed or logged before on this or other '
     'decision points, and evaluating it again gives the same. Evaluation changes neither the '
     'policy nor the request nor responses returned earlier, and callers changing a response do '
     'not influence later decisions.',
     ['histories'], 'all histories of evaluations, policy replacement and editing, request editing, '
     'response editing and log level changes',
     'Unit tests evaluate from a fresh state; caches, shared singletons and aliasing only show in '
     'sequences.',
     [C + 'context/pdp.py', C + 'policybase.py', C + 'context/result.py',
      C + 'functions/v1/regexp_match.py', C + 'functions/__init__.py'],
     [('stateless evaluation', C + 'policybase.py'),
      ('new response and result per evaluation', C + 'policybase.py: evaluateResponse'),
      ('compiled pattern cache', C + 'functions/v1/regexp_match.py')],
     state=[('pattern cache', 'class level dictionary of compiled patterns',
             C + 'functions/v1/regexp_match.py'),
            ('function map', 'lazily filled registry', C + 'functions/__init__.py')],
     observe=['decisions', 'policy, request and earlier responses after a history'])

prop('C08', 'Reading a policy document preserves its meaning',
     'A policy document with supported content is read into a policy with exactly the identifiers, '
     'descriptions, algorithms, targets, rules, effects, expressions, values and children it '
     'spells out, in document order, whatever kind of source it comes from and however the XML is '
     'written (namespace prefixes, comments, white space between elements, character references, '
     'CDATA sections, encodings). The decisions of a policy read from a document are the ones of the '
     'same policy built in the program.',
     ['inputs'], 'all policy documents within the supported language x all equivalent ways of '
     'writing them x kinds of source x XML back ends',
     'The repository tests read about ten fixed documents, all written in one XML style, and '
     'spot-check a few fields.',
     [P + 'policyreader.py', P + 'policysetreader.py', P + 'rulereader.py', P + 'targetreader.py',
      P + 'applyreader.py', P + 'attributevaluereader.py', 'ndg/xacml/utils/etree.py'],
     [('one reader per element', 'ndg/xacml/parsers/etree/'),
      ('local names, text of an element', P + '__init__.py')],
     observe=['policy object after reading', 'decisions of the policy read'])

prop('C09', 'A malformed or unsupported policy document is rejected as a whole',
     'A policy document that is not well-formed XML, has an element in a place where it does not '
     'belong (a second target or condition included), lacks a required attribute or element, has an invalid effect or '
     'MustBePresent value, names an unknown or unsupported algorithm, function or data type, or '
     'defines the same identifier twice for rules of a policy, for policies or for policy sets is never '
     'loaded: reading it fails with an exception. A decision point that fails to load a '
     'document keeps deciding with the policy it had.',
     ['inputs', 'histories'], 'all documents obtained from valid ones by (combinations of) '
     'dropping, renaming, repeating, moving, wrapping, inserting and truncating',
     'A dozen negative tests each break one thing in one place; which element ignores which '
     'stray child cannot be sampled.',
     [P + 'policybasereader.py', P + 'policyreader.py', P + 'policysetreader.py',
      P + 'rulereader.py', P + 'conditionreader.py', P + 'matchreader.py',
      C + 'context/pdp.py'],
     [('missing / unknown attribute and child errors', P + '*reader.py'),
      ('policy replaced only after successful parsing', C + 'context/pdp.py: '
       'setPolicyFromSource')],
     observe=['exception or policy from reading', 'policy of the decision point afterwards'],
     technique='exhaustive enumeration of document mutations on the real readers against a '
     'reference grammar')

prop('C10', 'Policy references resolve to the policy they name or loading fails',
     'A policy or policy set reference stands for the policy or policy set of that kind whose '
     'identifier is the referenced one: one defined earlier in the documents being read or, '
     'with the URL finder, the one in the document which the reference locates (an absolute path or URL, or a path '
     'relative to the finder\'s base path, by default the directory of the policy file). A '
     'reference that is dangling, circular, of the other kind, or to a document '
     'that does not define that identifier makes loading fail; what other loads defined is not visible.',
     ['inputs', 'histories'], 'all sets of documents and references between them, all forms of '
     'reference, all finders, all histories of loads',
     'Tests cover one good reference per finder; the wrong-document, wrong-kind, circular, '
     'decoy and cross-load cases need combinations of documents.',
     ['ndg/xacml/finder/urlpolicyfinder.py', 'ndg/xacml/finder/localpolicyfinder.py',
      P + 'policysetreader.py', 'ndg/xacml/utils/urlfetcher.py', C + 'policybase.py'],
     [('reference lookup', 'ndg/xacml/finder/urlpolicyfinder.py: _findPolicyFromReference'),
      ('ids known in a load', P + 'common.py')],
     observe=['policy object after reading', 'decisions'])

F = C + 'functions/'

prop('C11', 'Standard functions give the standard value and refuse bad operands',
     'For every operand list, equal functions are true exactly for two equal values of their '
     'type, regexp-match when the pattern in the first operand matches the second one from its '
     'start, is-in/at-least-one-member-of when the bags share a value, concatenate joins all '
     'its strings in order, and bag, one-and-only, and / not are as XACML 2.0 defines them. A '
     'wrong number of operands, or one of the wrong data type or of the wrong kind (bag or '
     'value), is an error and never a result. Operands are left unchanged, and a call nested '
     'in another gives the same value as its result written out.',
     ['inputs'], 'all implemented standard functions, all operand lists and nestings of calls',
     'Tests call most functions with one well-typed pair; wrong types in each position, bags in '
     'place of values and repeated members of bags are not touched.',
     [F + 'v1/equal.py', F + 'v1/regexp_match.py', F + 'v1/at_least_one_member_of.py',
      F + 'v1/bag.py', F + 'v1/one_and_only.py', F + 'v2/concatenate.py',
      F + 'v2/regexp_match.py'],
     [('function classes made per data type', F + '__init__.py'),
      ('bags compared member by member', F + 'v1/at_least_one_member_of.py')],
     observe=['value or exception of evaluating an expression'])

prop('C12', 'Function and algorithm identifiers mean what was registered, nothing else',
     'An extension function registered under an identifier is called with the operands of the '
     'expression and its result used, in every policy read or made afterwards; a standard '
     'function identifier always means the standard function and cannot be registered for '
     'another one, and an identifier that is unknown or not implemented is refused. A '
     'registration that fails, and the order and number of look-ups and registrations, change '
     'none of this. A custom rule or policy combining algorithm is given the rules or policies '
     'in document order and its decision is used.',
     ['inputs', 'histories'], 'all histories of registrations, look-ups and policy loads',
     'The registry caches classes lazily in shared maps, so a defect shows only after a '
     'particular sequence of look-ups and registrations; tests perform one each.',
     [F + '__init__.py', X + 'utils/factory.py', X + 'utils/__init__.py',
      C + 'apply.py', C + 'match.py', C + 'policy.py', C + 'policyset.py'],
     [('lazy function map', F + '__init__.py: FunctionMap'),
      ('class factories per namespace', F + '__init__.py: FunctionClassFactoryBase')],
     state=[('functionMap', 'identifier to class, shared by all policies', F + '__init__.py')],
     observe=['function class found', 'decision of the PDP\'s response'])

prop('C15', 'Concurrent use gives each thread the result it would get alone',
     'Threads that evaluate requests at the same time on the same decision point, each with its own '
     'or with a shared request, or on different decision points, each get the decision they would get alone, '
     'however they are interleaved; a policy replaced meanwhile takes effect entirely or not at '
     'all for each request. Policies and requests read or written in several threads, and '
     'functions registered or looked up, come out as when done one after another.',
     ['schedules'], 'all interleavings of threads evaluating, reading, writing, registering and '
     'replacing policies',
     'A race needs a thread switch between two particular lines; tests are single threaded.',
     [C + 'context/pdp.py', C + 'apply.py', C + 'attributedesignator.py',
      C + 'attributeselector.py', F + '__init__.py', P + 'common.py', X + 'utils/__init__.py'],
     [('per-evaluation state only in locals and contexts', C + 'context/pdp.py'),
      ('parsing state per load', P + 'common.py')],
     observe=['decision of each thread', 'policy or request each thread read'],
     technique='stateless exploration of thread schedules of the real code with bounded preemption')

prop('C13', 'Reading a request document gives exactly that request or fails',
     'Reading a request document gives its subjects (with category, access-subject when none is '
     'written), resources (with content), action and environment, each with exactly the '
     'attributes written there: identifier, data type, issuer and all values, in order and with '
     'their text unaltered, whatever the prefixes, comments, CDATA or encoding used. What is '
     'absent stays absent, the document itself is not changed, and the request decides as the same '
     'one made by hand. A document whose root is not a Request, with an unknown '
     'element (outside resource content), a second action, environment or content of a resource, or '
     'with an Attribute lacking identifier, data type or values or of an unknown data type, is refused with an exception.',
     ['inputs'], 'all request documents and single changes to them',
     'Tests read a few fixed requests in one style of XML; the combinations of repeated '
     'sections, issuers, empty values and styles are not sampled.',
     [P + 'context.py', C + 'attribute.py', C + 'context/request.py', P + '__init__.py'],
     [('reading the context elements', P + 'context.py: fromXML'),
      ('text of an element', P + '__init__.py: getElementText')],
     observe=['request object after reading', 'decisions on it'])

prop('C14', 'Attribute selectors yield exactly what their path selects',
     'A selector yields one value of its data type for each element that its path selects in the '
     'request it is evaluated for, as that request is at the time, with the text of the element: '
     'no more, none twice and none less, with either XML library, wherever selectors can stand '
     'in a policy. A path starting with / or // starts at the Request element. When nothing is '
     'selected the result is an empty bag, or an error if the selector has MustBePresent; a '
     'request without a selector object, or a data type that is unknown or cannot hold text, is an error.',
     ['inputs', 'histories'], 'all request contents, all paths of names, *, / and // with '
     'attribute, child and position predicates, all policies with selectors',
     'Tests use six policies with one plain path each; the two XML libraries evaluate paths by '
     'entirely different code.',
     [C + 'attributeselector.py', X + 'utils/xpath_selector.py', C + 'match.py',
      P + '__init__.py'],
     [('bag of texts', C + 'attributeselector.py: evaluate'),
      ('path evaluation per XML library', X + 'utils/xpath_selector.py: selectText')],
     observe=['bag of a selector', 'decision of the PDP\'s response'])

prop('C17', 'Subject designators are completed by the information point, and only they',
     'If a request carries a context handler, a subject designator also yields the values the '
     'handler\'s information point query returns for exactly that designator and that request, '
     'each time it is evaluated; a value the request has already isn\'t added again, and '
     'MustBePresent is satisfied by them. Other designators are never completed, the answer and '
     'the request are left unchanged, no answer leaks into another request or evaluation, and a '
     'failing query or a value of another type is an error (Indeterminate).',
     ['inputs', 'histories'], 'all requests and answers of the information point, all policies with '
     'designators, all histories of evaluations with changing information',
     'Tests have one information point that gives one fixed value.',
     [C + 'attributedesignator.py', C + 'context/handlerinterface.py', C + 'context/request.py'],
     [('query of the handler', C + 'attributedesignator.py: SubjectAttributeDesignator.evaluate')],
     observe=['bag of a designator', 'queries the handler received', 'decision of the PDP'])

prop('C21', 'Requests and responses written to XML are exactly that content and read back',
     'A request or response written to XML is a XACML 2.0 context document with exactly its '
     'content (sections, category, attributes, content; results in order with ResourceId and '
     'decision) and reads back as an equal one; writing twice gives the same, and neither writing '
     'nor pretty printing changes the object or document it came from. The pretty printed form of any '
     'document is the same document up to white space and comments. A '
     'response document with an unknown decision or element, or a result without exactly one '
     'decision, is refused; objects of other kinds aren\'t written.',
     ['inputs'], 'all requests with action and environment set, all responses, all texts',
     'Tests write three fixed requests and look at few parts of the result.',
     [P + 'context.py', X + 'utils/etree.py', P + '__init__.py'],
     [('writing and reading context elements', P + 'context.py: toXML, fromXML'),
      ('pretty printing', X + 'utils/etree.py: prettyPrint')],
     observe=['XML document as an independent parser reads it', 'objects read back'])

prop('C16', 'Collections hold only elements of their kind and otherwise act as lists',
     'Whatever sequence of list operations is applied to a typed list, such as the collections '
     'of policies, targets, requests and responses (append, extend, +=, insert, item or slice '
     'assignment, deletion), it behaves as a plain list of the same content, except that an element '
     'of another type is refused with TypeError; any refused or failing operation leaves it as it '
     'was, and it can\'t be replaced by a plain list. A list without duplicates never '
     'gains an item equal to one it has by append, extend or +=; a dictionary with fixed keys '
     'never gains a key by assignment or update (KeyError, unchanged); a filtered dictionary holds '
     'exactly the pairs both its filters accept.',
     ['inputs', 'histories'], 'all operation sequences on the four kinds of containers',
     'Tests append one good and one bad element; slices, in-place extension, iterators that '
     'fail half way and sequences of operations are not covered.',
     [X + 'utils/__init__.py', C + 'target.py', C + 'policy.py', C + 'context/request.py'],
     [('typed list', X + 'utils/__init__.py: TypedList'),
      ('filtered dictionary', X + 'utils/__init__.py: VettedDict')],
     observe=['content of the container', 'exception of the operation'])

prop('C18', 'Custom data types and readers act as registered and disturb no others',
     'The value class registered for a data type identifier (the first one, unless overwriting was '
     'asked for) and the data type reader last registered for it are used for every value of that type '
     'in policies read afterwards, the class in requests read afterwards too; a policy with a value of a '
     'type that lacks either is refused. Values of such types decide through functions registered '
     'for them as standard ones do. A reader registered for a kind of policy element reads all of '
     'those elements in policies read afterwards. A registration, accepted or refused (for something '
     'that is no value class or reader, or an identifier that is not text), never changes standard '
     'types, other types, factories with a map of their own, or policies already read.',
     ['inputs', 'histories'], 'all histories of registrations and loads; all sets of values in policy '
     'and request',
     'The registries are shared by all readers and factories, so what one registration breaks shows '
     'in another type or in a later load; tests register one type once.',
     [C + 'attributevalue.py', P + 'attributevaluereader.py', P + 'factory.py',
      X + 'utils/__init__.py', F + 'v1/bag.py', F + 'v1/at_least_one_member_of.py'],
     [('registry of value classes', C + 'attributevalue.py: AttributeValueClassFactory'),
      ('registry of data type readers',
       P + 'attributevaluereader.py: DataTypeReaderClassFactory'),
      ('registry of element readers', P + 'factory.py: ReaderFactory')],
     state=[('IDENTIFIER2CLASS_MAP', 'data type to class, shared', C + 'attributevalue.py'),
            ('MAP', 'data type to reader, shared', P + 'attributevaluereader.py'),
            ('READER_CLASS_MAP', 'element to reader, shared', P + 'factory.py')],
     observe=['class and content of values read', 'decisions', 'errors'])

prop('C19', 'Decisions, effects and status codes are closed and shared constants fixed',
     'A decision, rule or obligation effect or status code can only be made of, or set to, one of the '
     'words XACML defines, exactly as written; anything else is refused and leaves the value as it '
     'was. Decisions and effects are equal exactly when their words are, comparing them with '
     'anything else is an error, and an effect is true exactly for Permit. The constants can '
     'never be changed, copies (also pickled) are independent, and nothing done to a returned '
     'response or to the effect of one rule alters another response, rule or evaluation. The '
     'identifiers published for attributes, data types and statuses are those of XACML.',
     ['inputs', 'histories'], 'all texts and objects, all histories of changes, copies and '
     'evaluations',
     'Tests compare a few constants; neighbours of the words, copies and the sharing of '
     'constants between results are not looked at.',
     [C + 'context/result.py', C + 'rule.py', C + 'obligation.py', C + 'policybase.py'],
     [('closed vocabulary', C + 'context/result.py: Decision, StatusCode'),
      ('effect', C + 'rule.py: Effect'), ('effect', C + 'obligation.py: Effect')],
     observe=['value, text and comparison of the objects', 'decisions of evaluations'])

prop('C20', 'Attributes of library objects accept only values of their kind',
     'Assigning to an attribute of a policy, request or result object succeeds exactly for values of '
     'its kind: text for identifiers, versions, descriptions, data types, issuers, categories, paths '
     'and messages; True or False for flags; objects of the respective class (or a subclass) for '
     'targets, conditions, expressions, effects, values and so on. Anything else, None included, '
     'is refused with TypeError, an unknown or unimplemented function or combining algorithm with '
     'an error, and a refused assignment leaves the object as it was and deciding as before. An '
     'accepted value is what the object has from then on; no other attribute (except the designator and '
     'selector of a match, which replace each other, and what a function or algorithm '
     'identifier stands for) and no other object changes. Attributes without setter can\'t be '
     'assigned.',
     ['inputs', 'histories'], 'all attributes of all classes, all values, all assignment histories',
     'Tests check one or two wrong values for a few attributes.',
     [C + 'policy.py', C + 'policyset.py', C + 'rule.py', C + 'match.py', C + 'apply.py',
      C + 'attributedesignator.py', C + 'attribute.py', C + 'context/request.py',
      C + 'context/result.py'],
     [('checking setters', C + '*.py'), ('identifier restored if refused', C + 'match.py')],
     observe=['attributes after assignment', 'decisions of the PDP'])

prop('C22', 'Attribute values hold only native values of their type and compare by them',
     'Each standard data type identifier stands for one class of values, any other text (unless '
     'registered) for none. A value of string, anyURI, x500Name, rfc822Name, ipAddress or dnsName '
     'holds only text; of integer or hexBinary whole numbers; of boolean True or False; of double '
     'floating point numbers; of date, time or dateTime date-times; of a duration type a time '
     'span. Making a value of, or setting it to, anything else is refused with TypeError and '
     'leaves it as it was; what it accepted is exactly what it holds, whatever happens to other '
     'values. Two values of a type are equal (==, != and in) exactly when what they hold is; '
     'comparing a value with one of another type or with anything else is a TypeError. A bag of a '
     'type takes only values of that type.',
     ['inputs', 'histories'], 'all data types, all objects, all pairs of values, all histories',
     'Tests make a few values of some types and compare equal ones of the same type.',
     [C + 'attributevalue.py', X + 'utils/__init__.py'],
     [('value setter', C + 'attributevalue.py: AttributeValue.value'),
      ('comparison', C + 'attributevalue.py: AttributeValue.__eq__'),
      ('look-up by identifier', C + 'attributevalue.py: AttributeValueClassFactory')],
     observe=['value, data type and comparison of the objects', 'TypeErrors'])

prop('C23', 'Objects named by module and name are exactly those, the search path unharmed',
     'Naming an object as "module:object.path", "module.object" or by module and object name '
     'gives exactly the object that an import of the module and look-up of its attributes gives, '
     'or an error if there is none; never another one. If a base class is demanded, anything not '
     'a subclass of it is refused with TypeError. Calling it passes exactly the given arguments '
     'and keyword arguments and hands its result or exception on. A directory given for the '
     'module is searched after the normal search path and for this call only: whether the '
     'call succeeds or fails in any way, the module search path is afterwards as it was before; '
     'a directory that does not exist is an error (OSError).',
     ['inputs', 'histories', 'fault_sequences'], 'all names, base classes, arguments, directories and '
     'failing modules, all sequences of such calls',
     'There is a single test, without directories, nested names or failures.',
     [X + 'utils/factory.py'],
     [('look-up', X + 'utils/factory.py: importModuleObject'),
      ('call with directory', X + 'utils/factory.py: callModuleObject')],
     state=[('sys.path', 'module search path of the process', X + 'utils/factory.py')],
     observe=['object or result returned', 'exceptions', 'search path afterwards'])

prop('C24', 'Documents fetched by URL are complete or an error, listed hosts go direct',
     'Fetching a document by URL gives exactly the bytes the server (after following '
     'redirections) or file has, however they are split up or transferred, and makes one request '
     'per hop. An answer other than success (status 300-599 that is not a redirection, 4xx and '
     '5xx whatever the body), no answer, a malformed answer, a redirection that loops or leads '
     'nowhere, a missing file or an unusable URL is an error, never content; data cut '
     'short by the server is an error when fetched as data. With a proxy configured, a host that the '
     'no_proxy variable lists (comma separated, spaces ignored, as it is at the time '
     'of the call) is asked directly and the proxy never; any other host (outside the listed domains) is '
     'asked through the proxy only, also after a redirection from one to the other.',
     ['inputs', 'fault_sequences', 'histories'], 'all bodies, answers, redirections, cuts, no_proxy lists',
     'There is no test of fetching by HTTP.',
     [X + 'utils/urlfetcher.py'],
     [('opening', X + 'utils/urlfetcher.py: open_url'),
      ('choice of the proxy', X + 'utils/urlfetcher.py: _should_use_proxy')],
     observe=['bytes or exception', 'requests that servers and proxy received'])

prop('C25', 'Copied and unpickled requests, responses and policies equal their originals',
     'A copy (copy.copy, copy.deepcopy) or an unpickled pickle (protocol 2 or higher) of a request, '
     'a response or any part of one (subject, resource, action, environment, attribute, value, list '
     'of these; result, status, status code, decision, obligation), put together by hand or read from '
     'a document, has the type and all the content of the original in the same order: categories, '
     'identifiers, data types, issuers, values, resource content; decision, resource id, status '
     'code, message and detail, obligation; lists accept and refuse the same items. Every '
     'policy decides the copy as the original. A copy or deep copy of a policy '
     'has the content of the original and decides every request as it does. Making the copy does not '
     'change the original, and changing a deep copy or an unpickled object never changes the '
     'original, nor the other way round. (Requests that hold an XPath selector and pickled '
     'policies are left out.)',
     ['inputs', 'histories'], 'all requests, results, values and policies, all ways of copying, all '
     'sequences of changes to either side',
     'Tests pickle one request and one response and compare a few of its fields.',
     [C + '__init__.py', C + 'attribute.py', C + 'attributevalue.py',
      C + 'context/request.py', C + 'context/result.py', X + 'utils/__init__.py'],
     [('state of objects', C + '__init__.py: XacmlCoreBase.__getstate__'),
      ('requests', C + 'context/request.py: Request.__getstate__'),
      ('typed lists', X + 'utils/__init__.py: TypedList.__reduce__')],
     observe=['content of copy and original', 'decisions', 'refused additions'])

prop('C26', 'Which XML library is installed or chosen makes no difference to results',
     'If Config.use_lxml is set before other modules of the package are imported, True makes every '
     'part of the package use lxml (ImportError if it is not installed) and False the standard library '
     'only: lxml is then never imported. If it is not set, lxml is used if it can be imported, else the '
     'standard library, and Config.use_lxml tells which from the first use on, until it is set again; '
     'importElementTree always returns the library it says. In '
     'every such configuration each policy or request document that both libraries can parse is accepted '
     'or refused alike and read as the same policy or request; XPath selections both support give '
     'the same texts; decisions are the same, and requests and responses are written as the same documents '
     '(names, attributes, texts).',
     ['configurations', 'inputs', 'histories'], 'all configurations, first imports and sequences of choices; all '
     'documents, selections and decisions',
     'Tests run in one configuration and never force the other library where lxml is installed.',
     [X + '__init__.py', P + '__init__.py', X + 'utils/etree.py',
      X + 'utils/xpath_selector.py'],
     [('choice', X + '__init__.py: importElementTree'),
      ('helpers for either library', P + '__init__.py'),
      ('selection', X + 'utils/xpath_selector.py: EtreeXPathSelector')],
     state=[('Config.use_lxml', 'the choice, process wide', X + '__init__.py')],
     observe=['module in use', 'objects read', 'selected texts', 'documents written',
              'decisions'])

prop('C27', 'Every reader and writer takes exactly the element or object it is for',
     'The reader of each policy element (Policy, PolicySet, defaults, Rule, Target and its parts, Condition, '
     'Apply, AttributeValue, designators, AttributeSelector) reads exactly the element with that local name '
     '(the two defaults share one reader; the reader of roots takes Policy and PolicySet), from an element, '
     'stream or path, and gives what this element is within a whole document; every other element is refused '
     'with XMLParseError, whatever is in it, and what is no element or document with an error. The '
     'same holds for fromXML of Request, Subject, Resource, Action, Environment, Attribute, Response, '
     'Result and Decision; toXML of these takes exactly the objects of its class, writes each as it is written '
     'within the whole, and raises TypeError for all else. Loading a policy with something that is not a reader '
     'factory or policy finder raises TypeError and leaves a decision point as it was. Designators and '
     'selectors asked about anything that is not a Request raise TypeError, and it never gets Permit or '
     'Deny from a policy that asks them.',
     ['inputs', 'configurations'], 'all elements, all objects, all readers and writers',
     'Tests read whole documents whose elements are where they belong.',
     [P + 'policyreader.py', P + 'policysetreader.py', P + 'rulereader.py', P + 'targetreader.py',
      P + 'targetchildreader.py', P + 'matchreader.py', P + 'applyreader.py', P + 'conditionreader.py',
      P + 'attributevaluereader.py', P + 'attributedesignatorreader.py',
      P + 'attributeselectorreader.py', P + 'policydefaultsreader.py', P + 'policybasereader.py',
      P + 'context.py', C + 'policybase.py', C + 'attributedesignator.py', C + 'attributeselector.py'],
     [('element names', P + 'policyreader.py: PolicyReader.processElement'),
      ('objects written', P + 'context.py: RequestElementTree.toXML'),
      ('arguments', C + 'policybase.py: PolicyBase.fromSource')],
     state=[],
     observe=['object read or error', 'document written or error', 'decision'])

prop('C28', 'A request document is answered by the response document policies define',
     'An application that reads policies from documents, reads a request document, gives the request itself as '
     'context handler and a selector over the document, evaluates it and writes the response gets the '
     'document with the decision the policies define for exactly the values in the request document, those '
     'its path selects in it, and those its information point adds. This is so for every combination of '
     'the parts: policies inline, nested, referred to by identifier or in files of their own (also through a '
     'policy set in a file); values from designators of any section, with issuer or required, of '
     'standard or application-defined data types, from selectors or the information point; standard functions '
     'or ones of the application; in the target of a set, policy or rule, or in a condition; with any '
     'combining algorithms; and whatever way of writing XML the documents use.',
     ['inputs', 'configurations'], 'all combinations of features in policies, requests and their documents',
     'Tests use one feature at a time, mostly on requests made in code, and look at the decision object.',
     [C + 'context/pdp.py', C + 'context/handler.py', C + 'policyset.py', C + 'policybase.py',
      C + 'attributedesignator.py', C + 'attributeselector.py', C + 'match.py', C + 'functions/__init__.py',
      P + 'context.py', P + 'policysetreader.py', X + 'finder/urlpolicyfinder.py'],
     [('request and response documents', P + 'context.py: RequestElementTree.fromXML'),
      ('policies in other documents', P + 'policysetreader.py: PolicySetReader'),
      ('decision', C + 'context/pdp.py: PDP.evaluate'),
      ('values', C + 'attributedesignator.py: SubjectAttributeDesignator.evaluate')],
     state=[],
     observe=['response document', 'policies read'])
