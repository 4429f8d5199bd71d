"""Hand-written parts of DESIGN.md; tools/mkdesign.py puts them together with
the bounds from mc/jobs.py and the planted changes in seeded/."""

INTRO = '''# Model checking ndg_xacml

This directory decides %(n)d properties of ndg_xacml by explicit-state model
checking of the real code. (This file is put together by `tools/mkdesign.py`
from `tools/design_text.py`, the bounds in `mc/jobs.py` and `seeded/`.)

## Approach

ndg_xacml is a deterministic library: given the policy, the request, the
registrations made and (with threads) the schedule, its answer is determined.
So the state space is the tree of *choices a user makes*: which document, which
operand list, which sequence of operations, which schedule, which call fails.
Every check enumerates a bounded part of that tree completely, drives the real
classes along every path, and compares what can be observed after every step
with a reference model that is executed alongside:

* `mc/spec.py` is an executable semantics of XACML 2.0 for the supported subset,
  written from the standard over its own abstract syntax (named tuples). It is
  a relation, `decide(policy, request) -> set of allowed decisions`: where the
  standard or the property leaves room (evaluation order and short-circuits, an
  error hidden behind a result that is already determined) it allows several.
* `mc/build.py` maps abstract policies and requests to (a) XML text in 15 ways
  of writing it, (b) library objects made by hand, and maps library objects
  back to abstract ones (`a_policy`, `a_request`).
* Checks on containers, registries, vocabularies, setters, references and
  documents have their own small models (a Python list, a map of registrations,
  a reference grammar, a resolver over a set of documents, an XPath evaluator, a
  backtracking-free regular expression matcher, ...), always in `mc/cNN.py`.
* `mc/sched.py` is a controlled scheduler: real threads, of which one runs at a
  time, switched at traced lines or bytecode instructions of ndg_xacml; it
  enumerates all schedules with a bounded number of preemptions.

There is **no separate model that could drift from the code**: each explored
transition is an execution of the implementation, so every model trace is its
own conformance check. "traces" in the evidence counts executions compared;
"states" the distinct configurations visited.

Every job runs in a fresh interpreter, once per XML library the code supports:
`lxml` (/opt/venv) and the standard library's ElementTree (/opt/venv-nolxml);
jobs are split into shards that run in parallel. A watchdog makes a
non-terminating execution a violation. A violation is written to
`evidence/replays/` and replayed with `python3 run.py --replay FILE`.

    python3 run.py C05                  # quick, /repo
    python3 run.py C05 --tier thorough
    MC_REPO=/tmp/copy python3 run.py C05    # against another tree

No hook was needed in /repo; the code under test is imported, never patched,
except that extension points the library offers (functions, finders, handlers,
readers) are used to observe and to inject failures, and that loggers are
switched between silent and debug.

Exit codes: 0 held, 1 violation, 2 the check itself failed (a worker crashed
outside the code under test, or its time ran out) - never reported as success.

## What this family cannot do here

Nothing listed in properties.jsonl is beyond it: `not_applicable` is empty. The
limits are those of bounded exploration: sizes beyond the bounds are argued (the
combining algorithms keep a few flags; the readers treat children one by one)
and partly covered by long thin families (1100 rules, 60 nested calls) and the
thorough tier. Value domains (texts, identifiers, dates) are represented by
chosen classes of values, all of which are combined.

'''

PROPS = {
'C01': '''*Model*: the three rule combining algorithms over the outcomes P, D, N, I(P),
I(D) in `spec.combine_rules`. *Enumerated*: lists of rules built from every kind
of target and condition; the same policy driven by all request vectors (so that
one loaded policy is evaluated in all outcomes); lists in which rules share
objects; long lists with the decisive rule at each position. *Observed*: the
decision in the response, for policies read from XML and built by hand, forward
and backward over the requests, with logging off and in debug.
*Why tests can't*: 5^n outcome vectors; the interesting ones contain
Indeterminate outcomes, which tests never mix.''',
'C02': '''As C01 one level up: policy combining over P, D, N, I of children, mixing
Policy and PolicySet children, trees and chains of sets with each target
outcome on each level.''',
'C03': '''*Model*: `spec.decide` for rules, policies and sets. *Enumerated*: the
matrix of target x condition outcomes on each of the levels at once, each section
of the target, every kind of value a condition or match function can yield (true
strings, numbers, None, bags, subclasses of bool-like objects) via registered
functions.''',
'C04': '''*Model*: AND of sections / OR of entries / AND of matches over match
outcomes true, false, error, where an error may be masked by a short circuit
(set-valued). *Enumerated*: all shapes with bounded entries and matches x all
outcomes, request-driven; operand order through a recording function; bags of
several values, selectors.''',
'C05': '''*Model*: a filter over the attributes of the section. *Enumerated*: pairs (thorough: triples) of
attributes from a universe in which they differ in exactly one of the fields the
designator looks at, in all distributions over two subjects or resources, against
all designators. A recording function shows the bag itself, not only the decision.''',
'C06': '''*Fault injection*: policies in which each target and condition calls a
distinct "call point"; every subset of points is made to fail, with 26 kinds of
exceptions at single points; failing information points and selectors; absent
request sections; ill-typed and ill-sized argument lists for the functions;
attributes that nearly are the one that must be present. *Oracle*: `spec.decide` with
the failing calls; and afterwards the same PDP must decide normally.''',
'C07': '''*Histories*: all sequences (bounded length) of operations on two PDPs:
evaluate each of several requests, replace or edit the policy, edit a request,
edit an earlier response, change log level, load another document. After every
step, decisions must be those of a fresh PDP in the reference model; snapshots of policy,
request and earlier responses must be unchanged.''',
'C08': '''*Model*: the abstract policy itself. *Enumerated*: policies over the supported
language (expression lists, nesting, all target shapes, rule lists, trees) x 15 XML
styles; 60 awkward texts in 21 places; 10 kinds of source x 6 loaders; pairs of
documents. *Observed*: `a_policy(loaded) == policy`, descriptions, versions,
defaults.''',
'C09': '''*Model*: a reference grammar (`c09.Reader`) that maps a document to accept
(with meaning), reject or unspecified. *Enumerated*: every single mutation and pairs
of mutations of base documents, truncation at every byte, clashes of identifiers in
all positions. A decision point with an old policy must keep it after a rejection, and
an accepted document must have the meaning the grammar gives it. Unspecified: repeated
Target / Condition / match operands, forward references, unknown XML attributes,
elements with a policy name in another namespace.''',
'C10': '''*Model*: resolution over a set of documents. *Enumerated*: sets of up to three
documents with references of both kinds between all identifiers; reference forms
(relative, absolute, file: URL, http: with a local server on the loopback), wrong,
decoy, circular and dangling targets; several loads after each other; custom
finders. Chains of URL references that come back to their start end in an
error (RecursionError), which counts as failing.''',
'C11': '''*Model*: a Python reference of each function, including a small regular
expression matcher of its own. *Enumerated*: operand lists over values of all types, wrong
types in each position, bags in place of values; nested calls against the same with
the inner call written out.''',
'C12': '''*Histories* of registrations (accepted and refused), look-ups and loads,
against a map model; policies calling registered functions with recorded operands;
combining algorithms of one's own, registered and used in policies and sets.''',
'C13': '''*Model*: the abstract request. *Enumerated*: requests (sections, categories,
attributes, content) x 15 styles, awkward texts in each place, single mutations
judged by a reference grammar. *Observed*: request object, decisions of a PDP on it, and
that the document is unchanged.''',
'C14': '''*Model*: an evaluator of the supported path subset over a plain tree. *Enumerated*:
element trees of bounded size x all paths of bounded length (names, *, / and //,
predicates), texts, selectors in every place of a policy, data types, edits of the
request between evaluations. Both XML libraries must agree with the model. Paths to
attributes and text() work with lxml only and are checked only there.''',
'C15': '''*Schedules*: two threads (three in one job), switched at every line (bytecode
instruction for small scenarios) of ndg_xacml, all schedules within a preemption
bound; scenarios cover evaluating on a shared PDP, shared or separate requests, first
look-ups of functions, reading policies and requests, replacing the policy, registering,
writing XML. *Oracle*: the result each thread gets alone (or, for a replaced
policy, with the old or new policy entirely). Beyond the bound and inside C code of the
interpreter nothing is explored.''',
'C16': '''*Model*: plain list / dict with a type test. *Enumerated*: all sequences (bounded
length) of operations, including slices, iterators that fail half way and self-extension, on
each typed collection of the library; after a refused operation the content must be what it was.''',
'C17': '''*Model*: bag of the request plus the answer, values already there not added again.
*Enumerated*: attribute sets x answers x designators, two subjects, policies with
several designators, failing or ill-typed answers, histories with changing answers. How
often the point is asked when a request has several subjects is left open.''',
'C18': '''*Histories* of registrations of value classes, data type readers and element
readers (accepted and refused, with and without overwriting) and of loads, against
a map model; decisions over values of such types.''',
'C19': '''*Enumerated*: every single-character edit of the words and objects of other kinds for
each class; comparisons of all pairs; copies by all pickle protocols; histories of
assignments to results, responses and effects of rules with the decisions of other
evaluations watched.''',
'C20': '''*Enumerated*: each attribute of each class x pool of values of all kinds; sequences
of two (three) assignments; the decision of policies before and after refused
assignments. *Model*: per attribute a predicate of acceptable values and the list of
attributes it influences.''',
'C21': '''*Model*: abstract request / response; an independent parser (ElementTree of the
standard library) reads what was written. *Enumerated*: requests as in C13, texts in each
place, lists of results, all small documents (namespaces, mixed content) pretty printed and
as resource content, objects of wrong kinds, writes interleaved with reads.
Not covered because not supported by the code: obligations and status of a result, requests
without action or environment.''',
'C22': '''*Enumerated*: every data type x object, every pair of values, neighbours of every
identifier, bags, sequences of assignments to three values. *Model*: the Python type each data
type holds; equality of what is held. Runs the real classes; tests look at single values.''',
'C23': '''*Enumerated*: all names over a tree of modules written to scratch directories
(packages, nested classes, modules that shadow each other, fail to compile, to import, raise),
all argument lists, all sequences of calls with directories. *Model*: a search over the tree with
the set of modules loaded so far.''',
'C24': '''*Enumerated*: bodies x transfers, every status, sequences of answers, chains of
redirections, cuts, addresses, no_proxy lists x hosts x proxy. *Model*: what the scripted server
(raw sockets on the loopback network) sends; direct exactly if listed. The servers record what was asked.''',
'C25': '''*Model*: the content of the original. *Enumerated*: the requests of C13 by hand and
read, texts, values of all types, results with every field, responses, policies of
C08 x all ways of copying (also copies of copies); sequences of changes on one side.
*Observed*: all content of both, what lists refuse, decisions on or of the copies.''',
'C26': '''*Model*: a two-state choice; for results, agreement. *Enumerated*: one
interpreter per configuration and module that is imported first; sequences of choices
with lxml disappearing and returning; documents (also those other properties leave
unspecified), selections, decisions, written documents, each computed by one program
per configuration, compared case by case.''',
'C27': '''*Model*: the table of element names and classes; a part alone is the part of the
whole (the abstract syntax it was built from). *Enumerated*: all parts of a corpus of policies,
requests and responses, read alone in every way and inside their documents; all pairs of a reader
and another element, with the content of either, and of a reader and a name like its own; all pairs
of a writer and an object of any class of the library, lookalikes and derived classes; all pairs of
reader factory and finder; everything that is no request asked by every designator.''',
'C28': '''*Model*: the decision model of C01-C06 with what the information point and the selector
give; application functions and types with their models. *Enumerated*: every feature (source of
values x place x function) alone in every route by which policies can be kept and all combining
algorithms and effects; every pair of features, in the same rule or target, two rules, two
policies; for each the full product of the states (present, different, absent, both) of the
sources in it, each a request document in one of 10 styles. *Executed*: the complete path, documents to
documents: `PDP.fromPolicySource` from path, file or stream with policies in real files, a context
handler that parses, evaluates, writes; the response read back. Reaches interactions of parts that
the other checks drive one at a time.''',
}

UNSPEC = '''## Left unspecified, and known limits of ndg_xacml

These are behaviours that were seen while building the checks, are not claimed by
any property, and are not repaired (they are features that don't exist, or the intended
behaviour isn't determined):

* SubjectCategory of designators; VariableDefinition / VariableReference; obligations in
  policies; CombinerParameters: not implemented. The readers refuse the documents, except
  SubjectCategory, which isn't looked at.
* Functions rfc822Name-match, x500Name-match, round and xpath-node-*: partly written,
  unreachable or not working.
* base64Binary and hexBinary values are not usable.
* Pickling of policies (copying works), child status codes (no way to set them).
* `Response.fromXML` refuses a Status; Status and Obligations aren't written.
* An empty AttributeValue in a policy is refused (in a request it is the empty string);
  a selector that selects an empty element fails with an error.
* Repeated Target, Condition or match operands: the last one counts.
* `RestrictedKeyNamesDict.setdefault` and `|=`, and insert / item assignment /
  construction of `UniqList`, do not apply the check.

## Genuine defects

All genuine defects the checks found are repaired, one "fix:" commit each, and listed in
`known_findings.txt` with the property that reports them. No finding is suppressed.

## False alarms met while building, and what was done

* C04/C06: an error in a match that is masked because another match, entry or section
  already settled the outcome: the model is now set-valued.
* C08: descriptions are compared without surrounding white space.
* C09: repeated elements, forward references, text mixed with elements (also elements in
  XPathVersion) are "unspecified" in the reference grammar.
* C14: order of values is compared only where a path determines it; predicates that the
  two libraries read differently (`//a[1]`) are restricted to those XPath defines.
* C15: schedules in which a thread blocks in the import lock are run to completion
  without preemption there.
* C17: how often the information point is asked.
* C20: assignments of subclasses and of objects that compare equal are accepted.

'''
