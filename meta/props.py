"""The properties, and how each is decided.  gen.py derives
properties.jsonl, MANIFEST.json and the table in DESIGN.md from this."""
P = []


def prop(id, title, statement, over, quant, tests, files, mech, tech=None,
		level_note=None, na=None, design=''):
	P.append(dict(id=id, title=title, statement=statement, over=over,
			quant=quant, tests=tests, files=files, mech=mech, tech=tech,
			level_note=level_note, na=na, design=design))


prop('P01', 'Parent pointers agree with the lists of children',
	'In a parented tree, a node is in the list of children of exactly the '
	'node its parent pointer refers to, after construction and after every '
	'item, slice, append, extend, insert, pop, remove or '
	'delete operation. A node that is removed no longer has a parent, and an '
	'operation that is refused (e.g., because the node already has a parent) '
	'leaves lists and pointers in agreement. No code outside the tree class '
	'alters the pointers or bypasses these operations.',
	['histories', 'inputs'],
	'every sequence of operations on every parented tree, including the ones '
	'which raise an error half way',
	'the tests apply each operation to one or two small trees; index kinds '
	'(negative, stepped slices, repeated nodes) and refused operations are '
	'hardly sampled',
	['discodop/tree.py', 'discodop/treebanktransforms.py',
	'discodop/treetransforms.py', 'discodop/punctuation.py'],
	[('ParentedTree overrides of all list operations', 'discodop/tree.py '
	'class ParentedTree'), ('_setparent / _delparent', 'discodop/tree.py')],
	'typestate / pairing dataflow over canonicalised expressions, with inlined helpers, and a layering query',
	'Every path through each overridden operation pairs each change of the '
	'list with the corresponding pointer updates, checks before the first '
	'change, and nobody else writes the pointers. Assumes list primitives '
	'behave as in CPython; does not bound recursion or aliasing created by '
	'users that write .children or ._parent directly.',
	design='Flow analysis of each ParentedTree method (helpers inlined); '
	'values are canonical expressions (index normalisation, slices over '
	'range(*slice.indices())). For each path: the set of children leaving = '
	'the set given to _delparent, entering = given to _setparent; all checks '
	'(dry_run) precede the first write; stores to _parent occur only in '
	'_setparent/_delparent; no code outside writes .children of a node that '
	'may be parented, except reorderings.')

prop('P02', 'Immutable trees reject every change of their children',
	'On an immutable (also immutable parented) tree, every operation that '
	'would add, remove, replace or reorder children raises an error and '
	'leaves the tree unchanged.',
	['histories', 'inputs'],
	'every list operation, in every immutable tree class, any argument',
	'the tests do not attempt modifications of immutable trees; an operation '
	'that is newly added or inherited is never covered',
	['discodop/tree.py'],
	[('overrides that raise', 'discodop/tree.py class ImmutableTree'),
	('method resolution order of ImmutableParentedTree', 'discodop/tree.py')],
	'effect analysis over the resolved method table (MRO) of the immutable classes',
	'All methods reachable on the immutable classes are resolved along the '
	'MRO; those with a structural effect on self must raise on every path '
	'before the effect. Direct writes to .children by a user are not '
	'operations and out of scope.',
	design='For each subclass of ImmutableTree every method found along the '
	'MRO is summarised for writes to self.children (directly or by calling a '
	'mutator on self); such a method must have no normal exit and perform no '
	'write before the raise. List-protocol methods not defined by Tree are '
	'listed too.')

prop('P04', 'Inspecting a tree or sentence never changes it',
	'Functions that query, compare, print, draw, write, evaluate, or extract '
	'grammar rules, features or dependencies from a tree leave the trees and '
	'token lists they are given unchanged: children, their order, labels, '
	'function and morphology tags, and tokens are the same after the call as '
	'before. Functions documented to work in place are excluded.',
	['inputs', 'programs'],
	'every tree and sentence given to about 120 reading functions, with any '
	'options',
	'tests compare results, not the state of arguments after the call; '
	'a change shows only with particular trees and options',
	['discodop/tree.py', 'discodop/treebank.py', 'discodop/treetransforms.py',
	'discodop/grammar.py', 'discodop/heads.py', 'discodop/eval.py',
	'discodop/treedist.py', 'discodop/punctuation.py'],
	[('deep copies before destructive work', 'discodop/eval.py, '
	'discodop/grammar.py, discodop/treedist.py'),
	('non-destructive traversals', 'discodop/tree.py')],
	'interprocedural mutation (effect) and points-to analysis',
	'A summary-based effect analysis of all modules computes for each '
	'function which objects reachable from its parameters it may modify; the '
	'table of reading functions must have no such effect. Calls into compiled '
	'modules and the standard library are modelled by hand.',
	design='Points-to/effect summaries for all functions (access paths up to '
	'a bound, class-hierarchy call resolution, copy() / convert() / freeze() '
	'modelled as fresh, checked by P05). A frozen table of 117 functions with '
	'the parameters that must not be modified is compared to the summaries.')

prop('P05', 'Copies share nothing mutable with the original',
	'A deep copy, conversion or frozen version of a tree, and the trees '
	'returned by functions which prepare a tree for evaluation, comparison '
	'or grammar extraction, share no node, list of children or other mutable '
	'object with the tree they were made from; the copy has the class asked '
	'for and has every annotation of the original. Therefore '
	'changing the one afterwards never changes the other.',
	['inputs', 'histories'],
	'every tree, tree class, and later sequence of modifications of the '
	'copy or the original',
	'tests do not modify a copy and look at the original afterwards; sharing '
	'shows only with specific later modifications of particular nodes',
	['discodop/tree.py', 'discodop/treedist.py', 'discodop/grammar.py',
	'discodop/eval.py'],
	[('Tree.convert, copy, freeze', 'discodop/tree.py'),
	('TreeDecorator.decorate, prepare, eval.transform',
	'discodop/grammar.py, discodop/treedist.py, discodop/eval.py')],
	'interprocedural points-to analysis (reachability from returned values)',
	'Summaries give all objects reachable from the result; none may be a '
	'mutable object of the argument. By induction on the height of the tree '
	'for the recursive conversion. Lists of strings in annotations '
	'(source) must be copied as well.',
	design='With the engine of P04, in refined mode (leaves and nodes told '
	'apart by isinstance tests): the closure of the returned value under '
	'fields contains no location of the argument except labels and strings. '
	'The fields set by the constructors must all be transferred.')

prop('P10', 'No code path uses a variable before it has a value',
	'No function reads a local variable that was not assigned on the path '
	'taken: every combination of options, stages and inputs either works or '
	'fails with a deliberate error, never because a variable is unbound.',
	['inputs', 'configurations', 'programs'],
	'every feasible path through every Python function of the package and '
	'web apps, for all configurations',
	'the failing paths need rare combinations of options (stage modes, '
	'tagging methods, corpus formats) which tests do not execute',
	['discodop/*.py', 'web/*.py'],
	[('branches and loops that bind results', 'all modules')],
	'path-sensitive definite-assignment dataflow',
	'All functions are analysed with correlated branch conditions; 13 '
	'(function, variable) pairs whose paths were shown infeasible by reading '
	'are excepted by name. Compiled .pyx modules are not covered.',
	design='Definite assignment over a structured CFG with disjuncts for '
	'correlated branch facts (including value sets of compared constants), '
	'infeasible pairs excepted one by one in the checker.')

prop('P11', 'Command line options are accepted, looked up, and documented '
	'alike',
	'Every option a discodop command looks up is one that can be given on '
	'its command line, every option it accepts (other than --help and options '
	'that name the default) has an influence because the command looks it '
	'up, options without a '
	'value are not looked up for their value, every option in the manual page '
	'of a command is accepted with a value exactly if documented so, and every '
	'command that is listed exists.',
	['configurations', 'inputs'],
	'every option of all ten command line interfaces and web servers, in any '
	'combination',
	'tests run the underlying functions, not the commands; '
	'an option that is ignored raises no error',
	['discodop/cli.py', 'discodop/fragments.py', 'discodop/eval.py',
	'discodop/parser.py', 'discodop/treesearch.py', 'web/*.py',
	'docs/cli/*.rst'],
	[('option tables and look ups', 'discodop/cli.py, '
	'discodop/fragments.py, discodop/treesearch.py'),
	('manual pages', 'docs/cli/*.rst')],
	'agreement between declarations and uses (constant propagation of option keys)',
	'The option tables passed to getopt are folded to constants; the '
	'dictionary of options is followed through aliases, loops and '
	'calls; all keys looked up are compared with the table and with the '
	'manual pages. Does not decide whether the effect of an option is the '
	'documented one.',
	design='Constant folding of the arguments of gnu_getopt (through names, '
	'concatenation, split, comprehensions); alias tracking of the resulting '
	'dictionary, loop variables over it, and parameters of helpers. Rules: '
	'undeclared-option, ignored-option, flag-value, documented-option, '
	'missing-command.')

prop('P12', 'Documented option values are implemented, unknown values are '
	'rejected',
	'For each option with a fixed set of values: a value outside the set never '
	'goes through silently but raises an exception (or exits with an error), '
	'whatever the other options are, and every documented value is accepted and '
	'distinguished by the code that implements it. Rejection: functions, '
	'morphology, punct, and lemmas of CorpusReader; fmt of writetree; action '
	'and lemmaaction of handlemorphology; factor of binarize; names passed to '
	'treebanktransforms.transform; --outputfmt of discodop treetransforms; model '
	'and --dopestimator of discodop grammar; --engine of discodop treesearch; '
	'mode, estimator, objective, binarization and postagging method, and names '
	'of stage options in parameter files. Acceptance: the values documented for '
	'those options, where every value accepted by CorpusReader is implemented by '
	'handlefunctions, handlemorphology, or applypunct; every format in READERS '
	'and WRITERS; every transformation in PRESETS; every transformation that '
	'reversetransform can undo is one that transform knows, and each of the 19 '
	'reversible transformations is undone.',
	['configurations', 'inputs'],
	'every value of every such option, in combination with all other options',
	'tests use a few valid values; an unknown value that is ignored produces '
	'plausible output',
	['discodop/treebank.py', 'discodop/treebanktransforms.py',
	'discodop/punctuation.py', 'discodop/treetransforms.py',
	'discodop/cli.py', 'discodop/parser.py', 'discodop/treesearch.py'],
	[('validation of options', 'discodop/treebank.py, '
	'discodop/parser.py'),
	('dispatch on names of transformations', 'discodop/treebanktransforms.py')],
	'constant propagation with an opaque unequal value (interprocedural)',
	'Decides which outcomes (return, exception) are reachable for an unknown or '
	'a documented value, over all values of other parameters. Does not decide '
	'whether the implementation of a value does what its documentation says.',
	design='Abstract interpretation with constants, a string that '
	'differs from all constants of the program, known sequences and records, '
	'and unknown; branches are taken unless the condition is known to '
	'be false; loops over known sequences are unrolled; calls to functions '
	'of the repository are followed. The result of getopt and of reading a '
	'parameter file is replaced by a record with one chosen value. Rules: '
	'unknown-accepted (a normal return is reachable for the opaque value), '
	'documented-rejected, unimplemented (value never compared equal to a '
	'constant), unlisted, abstract.')

prop('P08', 'Labels and words are escaped in HTML and SVG output',
	'Node labels, function tags, words, node properties, and dependency labels '
	'end up in the output of DrawTree.svg(), DrawTree.text(html=True), and '
	'DrawDependencies.svg() only after having been escaped for HTML (html.escape '
	'or equivalent), whatever the other options, so that a label or word that '
	'contains markup is shown as text.',
	['inputs', 'configurations'],
	'every label and word, and every option of these functions',
	'tests draw trees without special characters',
	['discodop/tree.py', 'web/'],
	[('DrawTree.svg, DrawTree.text, DrawDependencies.svg',
	'discodop/tree.py')],
	'interprocedural taint analysis from the attributes that hold labels, '
	'words, and properties to the returned text, with the escaping functions '
	'as sanitizers and html=True as assumption on conditions',
	'sound for the three functions up to the modelled string operations',
	design='Values carry a set of tags (where text of a tree was read); tags '
	'flow through string operations, containers, closures, and calls of '
	'functions in the repository, and are removed by escaping functions. A tag '
	'that reaches the return value is a violation. Colours and other values '
	'given by the caller are not text from trees.')
prop('P24', 'Tokens with brackets survive the bracket formats',
	'tree.escape and tree.ptbescape return a token without parentheses and '
	'whitespace of their own, and tree.unescape and tree.ptbunescape are their '
	'inverses (where a frontier non-terminal, None, and the empty token are the '
	'same); writebrackettree and writediscbrackettree apply escape to each word '
	'they write; brackettree, discbrackettree, BracketCorpusReader, and '
	'DiscBracketCorpusReader apply unescape to each word they read.',
	['inputs'], 'every token, except those that contain the escape sequences',
	'tests use the tokens of a sample treebank',
	['discodop/tree.py', 'discodop/treebank.py'],
	[('escape, unescape, ptbescape, ptbunescape; writebrackettree, '
	'writediscbrackettree, brackettree, discbrackettree', 'discodop/tree.py'),
	('BracketCorpusReader, DiscBracketCorpusReader', 'discodop/treebank.py')],
	'each escape function is reduced to cases of (condition on token, sequence '
	'of literal replacements), for which the inverse is checked case by case; '
	'taint analysis from words to output of the writers, and from input text '
	'to the sentence returned by the readers, with the escape functions as '
	'sanitizers',
	'sound for tokens that do not contain escape sequences',
	design='The reduction handles conditionals, tables, loops over literal '
	'tables, chained replace() calls, and helper functions. A replacement '
	'old -> new of the escape function must occur as new -> old on the general '
	'case of the inverse, must not touch the result of earlier replacements, '
	'and parentheses must be replaced on each general case. Special tokens are '
	'mapped back by evaluating the table of the inverse.')
prop('P25', 'Coarse-to-fine label mappings refine each other',
	'In each table of treebanktransforms.MAPPINGS the levels are numbered from '
	'0, every level maps the same set of treebank labels, each label belongs to '
	'exactly one coarse label of a level, and two labels that a level maps to '
	'different coarse labels are not mapped to the same label by the next '
	'(finer) level.',
	['configurations'], 'every label of every table',
	'tests do not use the multi-level coarse-to-fine mappings',
	['discodop/treebanktransforms.py'],
	[('MAPPINGS', 'discodop/treebanktransforms.py')],
	'evaluation of the module level constant in the source, followed by a '
	'comparison of the partitions it defines',
	'complete for the tables in the source',
	design='The value of MAPPINGS is computed from its defining expression '
	'(literals, set operations, comprehensions, helper functions); each level '
	'must be a partition of the same labels, and a refinement of the previous '
	'one.')
prop('P28', 'Regular expressions are sound and missing matches are handled',
	'Every constant regular expression compiles, and none of them takes '
	'exponential time to match. A group that is read from a match by number or '
	'name exists in the pattern, and unpacking groups() expects as many values '
	'as there are groups. The result of match(), search(), or fullmatch() is '
	'tested for None before it is dereferenced, unless the pattern matches any '
	'string. A group that does not participate in every match is tested before '
	'it is dereferenced, indexed, concatenated, formatted, used as a key, '
	'converted to a number, or passed to a function in the repository that does '
	'not test it.',
	['inputs'], 'every string a pattern is applied to',
	'tests apply patterns to well-formed lines and labels, in which optional '
	'parts are present or handled',
	['discodop/treebank.py', 'discodop/treetransforms.py',
	'discodop/grammar.py', 'discodop/tree.py', 'discodop/parser.py',
	'discodop/treesearch.py', 'discodop/heads.py', 'web/'],
	[('patterns and uses of match objects', 'discodop/, web/')],
	'flow-sensitive nullness analysis of matches and groups, with the sets of '
	'groups that can participate together computed from the syntax tree of the '
	'pattern; exponential ambiguity decided on the Glushkov automaton',
	'patterns composed at runtime, and matches stored in containers other than '
	'sequences, are not followed',
	design='The constant argument of each re function is parsed. A match '
	'carries the set of patterns it can come from through variables, tuples, '
	'sequences, comprehensions, callbacks of sub(), and arguments of functions. '
	'Conditions establish that a match or group is (not) None; other groups of '
	'the same match follow from the sets of groups that can participate '
	'together (alternatives). A pattern is exponential iff a state of its '
	'position automaton has two different paths to itself over the same '
	'string (strongly connected components of the product automaton).')
prop('P29', 'Messages and output can be formatted: formats agree with their values',
	'Every %-format, str.format() template, and logging message that is a '
	'constant (possibly named or concatenated) is a valid format, and it is '
	'applied to as many values as it has conversions; named conversions have a '
	'value with that name; a numeric conversion is not applied to a string, '
	'None, list or tuple. An exception with a format as message is formatted '
	'before it is raised. So an error is reported as the intended exception, and '
	'output code does not fail with a TypeError or KeyError of its own.',
	['inputs'], 'every message, including those of error paths',
	'tests rarely reach the error paths in which most messages are formatted',
	['discodop/', 'web/'],
	[('format expressions', 'discodop/, web/')],
	'syntax-directed arity and type check of format expressions, with constant '
	'formats resolved through names and modules, and shallow type inference',
	'formats composed at runtime, and values whose type is not inferred (counted '
	'in the evidence), are not decided',
	design='Each format is parsed into its conversions. Values are a tuple '
	'display, a variable assigned tuples of one length, a dict display, or a '
	'single value; the type of a single value is inferred from literals, '
	'built-in calls, return values of repository functions, single '
	'assignments, and the methods called on a variable.')
prop('P09', 'Results do not depend on hash seeds or the order of directories',
	'The Python code gives the same output in every run for the same input: no '
	'result, file, or table is in the order of a set of strings or objects, '
	'takes an arbitrary element of one, numbers its elements, or lets its order '
	'decide ties (sorting by frequency, most_common) or which of several values '
	'for a key is kept; file names that match a pattern are put in a defined '
	'order; and random numbers are only used to generate sentences (gen) and '
	'identifiers. Diagnostic messages (exceptions, assertions, log) are '
	'excepted, and so is the order in which parallel jobs finish.',
	['inputs', 'schedules'], 'every value of PYTHONHASHSEED and every order in '
	'which a directory can be listed',
	'a test runs with one hash seed and one directory order',
	['discodop/', 'web/'],
	[('consumers of unordered collections', 'discodop/*.py, web/*.py')],
	'whole-program inference of the kinds of values (which expressions are '
	'certainly sets), and a dataflow analysis of collections in arbitrary '
	'order to order-sensitive operations, including commutativity of loop '
	'bodies',
	'sets of integers are iterated in the same order in each run and are not '
	'restricted; compiled modules are not analysed; sets stored in attributes '
	'or passed as arguments of unknown type are not followed',
	design='Expressions that are certainly sets (not of integers) and directory '
	'listings are followed through variables (reaching definitions), calls, '
	'and results. Accepted: len, membership, set operations, sorted() with a '
	'key that is injective, min/max without ties, dictionaries that are only '
	'looked up, loops whose body commutes (set and keyed updates, counters, '
	'worklists). Reported: join, list, print, most_common, enumerate, zip, '
	'next, pop, break, append without subsequent sort, yield, stored sequences.')
prop('P17', 'A one-shot iterator is consumed once, and not used as a sequence',
	'A generator, generator expression, map, filter, zip, or similar one-shot '
	'iterator (or open file that is not rewound) is not gone over when it may '
	'already have been consumed on some path: not in the same function, in a '
	'loop, through a derived iterator, or by a function that goes over its '
	'parameter more than once. It is not tested for truth, measured, indexed, '
	'concatenated or searched repeatedly, and no attribute that is iterated over '
	'holds one. So no part of the trees, rules or results is silently skipped.',
	['inputs'], 'every path of every Python function',
	'an exhausted iterator yields nothing without an error, so that only the '
	'contents of the output are wrong, in the configuration that takes this path',
	['discodop/', 'web/'],
	[('functions that go over a parameter or local variable', 'discodop/, web/')],
	'typestate analysis (new, partly consumed, consumed) of iterator objects '
	'with interprocedural summaries, on inferred types',
	'iterators stored in containers are not followed; a loop with break or '
	'return counts as consuming in part',
	design='Allocation sites of iterators are found with the inferred types; '
	'their state is tracked on every path (vlib/flow.py). Wrappers such as map() '
	'and zip() are linked to the iterator they draw from. A summary per function '
	'says which parameters it consumes at most once, in part, or more than once.')
prop('P35', 'Labels and words are escaped in LaTeX output',
	'The LaTeX code produced for a tree (tikznode, tikzmatrix, tikzqtree) '
	'contains no part of a label, function tag, or word in which one of the '
	'special characters # $ % & _ { } ~ ^ or backslash is left as is, except in '
	'a comment on a single line. So any tree, including trees with punctuation '
	'tags or words supplied by a user of the website, gives a valid document '
	'that shows its text, and cannot execute LaTeX commands.',
	['inputs'], 'every tree and sentence',
	'the tests do not produce LaTeX, and most treebank labels happen to have no '
	'special characters',
	['discodop/tree.py', 'web/treedraw.py'],
	[('discodop.tree.DrawTree.tikznode, tikzmatrix, tikzqtree, latexlabel',
	'discodop/tree.py')],
	'taint analysis with one tag per special character; constant folding of '
	'replacement tables and patterns',
	'colors and other parameters are trusted',
	design='Text of labels and words carries a tag for each special character; '
	'a replacement, translation table, regular expression, or test for '
	'membership removes the tags of those characters for which the replacement '
	'is well-formed LaTeX (vlib/checks/p35.py, vlib/consteval.py). Text of more '
	'than one line has a tag for line breaks, which may not end up in a comment.')
prop('P33', 'Pages with corpus data require the password',
	'When a password file is given, the web interfaces for treebank search and '
	'browsing show corpus data only to a request with a user name and the '
	'password of that user: every page that uses the corpora or data derived '
	'from them is registered with the password check in place, the check lets a '
	'request through only when no passwords are used or the user name and '
	'password match, and a password file that cannot be read or parsed does not '
	'silently disable the protection.',
	['inputs'], 'every page and request',
	'the tests do not run the web interfaces',
	['web/treesearch.py', 'web/browse.py'],
	[('web.treesearch.requires_auth, check_auth', 'web/treesearch.py'),
	('web.browse.requires_auth, check_auth', 'web/browse.py')],
	'enumeration of pages with decorator order and call graph; path analysis of '
	'the decorator with a truth table of the conditions',
	'Flask registers the function that is given to route()',
	design='Pages are functions with a route decorator or given to '
	'add_url_rule. A page that reaches a variable loaded at start-up (through '
	'any function of the module) must have requires_auth applied before it is '
	'registered. All paths through the wrapper and check_auth are enumerated; '
	'a path that calls the page must imply PASSWD is None, or membership and '
	'equality with the stored password. The handler around reading of the '
	'password file may only catch errors for a file that is not there '
	'(vlib/checks/p33.py).')

prop('P34', 'Requests and corpus text are escaped in the web pages',
	'Parts of a request, text from the corpora (sentences, trees, matches), and '
	'error messages are escaped before they become part of a HTML page of the '
	'web interfaces (search, browse, parser, tree drawing), including templates, '
	'scripts inside templates, and links; other responses are declared as plain '
	'text, JSON, or an image. Requests do not determine file names, commands, or '
	'code. So a link or a corpus cannot insert scripts in a page or make the '
	'server read other files.',
	['inputs'], 'every request and corpus',
	'the tests do not run the web interfaces; escaping only matters for unusual '
	'queries and words',
	['web/treesearch.py', 'web/browse.py', 'web/parse.py', 'web/treedraw.py',
	'web/templates'],
	[('web.treesearch.counts, trees, sents, fragmentsinresults, applyhighlight, '
	'draw, browsetrees, browsesents', 'web/treesearch.py'),
	('web.browse.browsetrees, browsesents', 'web/browse.py'),
	('web.parse.parse', 'web/parse.py'),
	('web.treedraw.draw, drawtrees', 'web/treedraw.py')],
	'taint analysis of Python code and templates',
	'names of texts, metadata, and language codes are trusted; drawings are '
	'escaped (P08); Flask escapes variables in .html templates',
	design='Sources are attributes of the request, results of searches and '
	'parsers, words and trees of corpora, and caught exceptions; tags are '
	'removed by html.escape, urlencode, numeric formats and conversions, tests '
	'for membership, and drawing methods with html=True; the analysis is run '
	'for each value of a variable that decides whether to produce HTML. '
	'Templates are parsed: filters, the context of each variable (text, '
	'attribute, script), loops, and inheritance '
	'(vlib/checks/p34.py, vlib/taint.py).')
prop('P19', 'Cached results are only reused for the same inputs',
	'A search or parse that is answered from a cache gives the result that would '
	'have been computed: for the same query, file, interval of sentences, limit '
	'on the number of results, and presentation options (function labels, '
	'morphology, discontinuities, brackets, HTML). This holds for every history of '
	'previous searches and parses.',
	['history'], 'every sequence of searches, parses, and tree comparisons',
	'tests run each query once, with a fresh object; a wrong key only shows with '
	'a second query that differs in the right parameter',
	['discodop/treesearch.py', 'web/parse.py', 'discodop/treedist.py',
	'discodop/grammar.py'],
	[('TgrepSearcher, FragmentSearcher, RegexSearcher: counts, trees, sents',
	'discodop/treesearch.py'), ('parse', 'web/parse.py'),
	('geteditstats', 'discodop/treedist.py')],
	'backward slice of each value stored in a cache, with reaching definitions; '
	'comparison of keys; evaluation of conditions on limits',
	'attributes of the object other than the cache do not change while results '
	'are cached; cached objects are not mutated by the caller; files do not '
	'change while a search object is in use',
	design='For each mapping that outlives a function which both looks up and '
	'stores results (vlib/checks/p19.py, vlib/defs.py): (1) the definitions of '
	'the variables in both keys are the same; (2) each parameter in the backward '
	'slice (data and control) of the stored value is in the key, except for a '
	'limit that is stored with the value, in which case the condition for reuse is '
	'evaluated for all cases of requested and stored limit, and the result must be '
	'truncated; (3) in a loop over keys, an accumulated result is made anew for '
	'each key.')
prop('P47', 'Parallel processing gives the results of sequential processing',
	'Searching, fragment extraction, and parsing with any number of processes '
	'gives the same results, in the same order, as with a single process: '
	'regardless of the order in which jobs are completed, each result is '
	'attributed to its own file, sentence, or fragment; together the jobs cover all '
	'of the work exactly once; and they use the same settings.',
	['schedules', 'inputs'], 'every number of processes and every order in which '
	'jobs are completed',
	'the tests use a single process; with more, the order of completion is '
	'typically that of submission for small inputs',
	['discodop/treesearch.py', 'discodop/fragments.py', 'discodop/runexp.py',
	'discodop/parser.py'],
	[('CorpusSearcher and subclasses', 'discodop/treesearch.py'),
	('regular, recurringfragments, workload', 'discodop/fragments.py'),
	('doparsing', 'discodop/runexp.py'), ('doparsing', 'discodop/parser.py')],
	'analysis of values in order of completion and the effects of loops over them; '
	'definitions of variables captured by jobs; equivalence of alternative '
	'functions and initializers; division of work into intervals',
	'jobs have no effects other than their results; evaluation counts can be '
	'updated in any order',
	design='(1) Iterables in order of completion (as_completed, imap_unordered, and '
	'functions that return these) are followed through variables and '
	'calls; a loop over them may only store results by a key of the job in '
	'a mapping whose keys were added before, count, log, or fill a list that is '
	'sorted before it is used. (2) A lambda or nested function that is submitted '
	'may not refer to a variable that is assigned later or in the same loop; jobs '
	'for processes must be functions of a module. (3) Where sequential and parallel '
	'alternatives are chosen by numproc, the functions must be the same or a '
	'wrapper that passes on each parameter with the same default; initializers '
	'get the same arguments. (4) Slices and intervals that divide work have steps '
	'that fit, start at 0, include the remainder, and cannot be empty '
	'(vlib/checks/p47.py).')
prop('P49', 'Settings do not carry over from earlier tasks and reach every process',
	'Each task (a command, a request to a web service, a call of an exported '
	'function) depends only on its own arguments: each setting kept in a module '
	'variable (PARAMS of fragments and parser, INTERNALPARAMS of runexp) '
	'that the task reads has been set by that same task on every path, or is a '
	'constant that is set when the program starts and never changed; settings that '
	'a worker process reads have been given to that process.',
	['history', 'schedules'], 'every sequence of tasks in one process, and every '
	'way of starting worker processes',
	'the tests run a single task per process, and with a single process',
	['discodop/fragments.py', 'discodop/parser.py', 'discodop/runexp.py',
	'web/treesearch.py'],
	[('PARAMS, main, regular, recurringfragments, initworker', 'discodop/fragments.py'),
	('PARAMS, initworker, doparsing', 'discodop/parser.py'),
	('INTERNALPARAMS, initworker', 'discodop/runexp.py'),
	('fragmentsinresults', 'web/treesearch.py')],
	'interprocedural must-analysis of the keys of settings variables that have been '
	'set, with summaries of the keys each function requires and sets',
	'a worker process does not inherit the state of its parent',
	design='Settings variables are found as module variables that start out empty '
	'and are set and read by functions. For each function a summary is computed to a '
	'fixed point: the keys that may be read before they are set '
	'(requirements), and the keys that have been set on every path to its '
	'end; dictionaries that are passed as argument are expanded at each call. '
	'Violations are requirements of tasks that remain, except for keys set when '
	'the module of the task is loaded that its functions do not change, and '
	'requirements of the functions run by a pool that its initializer, with '
	'the arguments that it is given, does not set (vlib/checks/p49.py).')
prop('P21', 'Every name is defined and every call fits its signature',
	'No code path fails because of a name that is not defined anywhere, an '
	'import or module attribute that does not exist in the module it is taken '
	'from, an attribute which no object has, a call of a '
	'function, method, or constructor of this package (including the compiled '
	'modules) or of the standard library with '
	'arguments that its signature does not accept, or a %-format with '
	'the wrong number of values.',
	['programs', 'configurations'],
	'every expression in every Python module, including branches for '
	'rare options and error handling',
	'such errors are raised only when the statement is executed; about half '
	'of the functions and most error branches are not executed by tests',
	['discodop/*.py', 'web/*.py', 'discodop/*.pyx'],
	[('dispatch on options, stages and formats', 'discodop/runexp.py, '
	'discodop/parser.py, discodop/treebanktransforms.py'),
	('compiled modules', 'discodop/*.pyx signatures')],
	'name resolution and call-signature conformance over the whole program',
	'Names, imports, attributes of self, attributes of modules, calls and '
	'formats are resolved in all modules, with signatures of compiled modules '
	'read from the .pyx sources and those of the standard library from '
	'Python. The receiver of other attribute references is not '
	'known; these are compared to all attributes that any object can have.',
	design='Scopes and imports are resolved; calls are matched with parameter '
	'lists (positional, keyword, required, variadic); .pyx signatures are '
	'scanned from the text. Methods of unknown receivers: at least one method '
	'of that name must accept the call. Attributes with unknown receiver '
	'must exist in the union of all classes, library types and keys of '
	'parameter objects. Names of third-party attributes are listed.')

prop('N01', 'The parser returns a most probable derivation',
	'For every grammar and sentence, the chart parser finds a parse exactly '
	'when the grammar derives the sentence, and the best derivation it '
	'reports has maximal probability among all derivations.',
	['inputs', 'programs'],
	'every PCFG or PLCFRS grammar and every sentence',
	'tests parse a few sentences with small grammars and cannot enumerate '
	'derivations',
	['discodop/pcfg.pyx', 'discodop/plcfrs.pyx', 'discodop/parser.py'],
	[('CKY and agenda-based parsers', 'discodop/pcfg.pyx, '
	'discodop/plcfrs.pyx')],
	na='optimality over runtime charts and floating point weights; the '
	'algorithms are in Cython code which is not even built here, and no '
	'structural clause is both necessary and decidable from the source shape')
prop('N02', 'k-best lists are exact, sorted, and without duplicates',
	'The list of k-best derivations contains the k most probable distinct '
	'derivations of the chart in order of decreasing probability.',
	['inputs'], 'every chart and every k',
	'tests compare k-best lists for one or two small charts',
	['discodop/kbest.pyx', 'discodop/disambiguation.pyx'],
	[('lazy k-best extraction', 'discodop/kbest.pyx')],
	na='quantifies over the numerical contents and ordering of runtime charts')
prop('N03', 'Rule probabilities and weights have the documented values',
	'Relative frequencies, DOP reductions, smoothing and outside estimates '
	'have the numerical values given by their definitions, and the '
	'probabilities of the expansions of each category sum to one.',
	['inputs'], 'every treebank and every estimator',
	'tests compare the weights of one or two toy treebanks',
	['discodop/grammar.py', 'discodop/lexicon.py', 'discodop/estimates.pyx'],
	[('estimators', 'discodop/grammar.py')],
	na='numerical results; the normaliser structure alone (which sum is '
	'divided by) does not determine the value')
prop('N04', 'Writing and reading back a tree gives the same tree',
	'For every tree and sentence a format can represent, reading what was '
	'written gives an equal tree and sentence.',
	['inputs'], 'every tree, every format, any option',
	'tests cover the trees of a sample treebank',
	['discodop/treebank.py', 'discodop/tree.py'],
	[('readers and writers', 'discodop/treebank.py')],
	na='round-trip equality quantifies over runtime strings; the structural '
	'parts (escape tables and fields of reader and writer agree) are split '
	'off where claimed separately')
prop('N05', 'Binarisation and splitting are reversible on every tree',
	'Undoing binarisation, discontinuity removal or a collapsing transform '
	'restores the original tree for every input tree.',
	['inputs'], 'every tree and all parameter settings',
	'tests cover the trees of one sample treebank and a few settings',
	['discodop/treetransforms.py', 'discodop/treebanktransforms.py'],
	[('binarize / unbinarize, splitdiscnodes / mergediscnodes',
	'discodop/treetransforms.py')],
	na='equality of runtime tree shapes; only the agreement of markers used '
	'by both directions is visible in the source')
prop('N06', 'Extracted fragments are maximal and counted exactly',
	'Fragment extraction finds exactly the largest common fragments of each '
	'pair of trees, and the counts are the numbers of occurrences.',
	['inputs'], 'every pair of treebanks',
	'tests compare one sample treebank to itself',
	['discodop/fragments.py', 'discodop/_fragments.pyx'],
	[('fast tree kernel', 'discodop/_fragments.pyx')],
	na='functional correctness of a kernel over runtime bit sets in Cython '
	'code which is not built here')
prop('N07', 'Tree edit distance and evaluation scores have correct values',
	'Precision, recall, F-measure, tree edit distance, leaf ancestor and '
	'dependency scores equal their definitions for every pair of trees.',
	['inputs'], 'every pair of gold and candidate trees',
	'tests compare scores for small hand-made treebanks',
	['discodop/eval.py', 'discodop/treedist.py'],
	[('scoring functions', 'discodop/eval.py')],
	na='numerical results over runtime multisets')
prop('N08', 'Parallel workers give the same result as a single process',
	'With any number of worker processes, results equal those of a '
	'sequential run, whatever the order in which workers finish.',
	['schedules', 'configurations'],
	'every schedule of workers and every number of processes',
	'tests run with a single process',
	['discodop/runexp.py', 'discodop/fragments.py',
	'discodop/treesearch.py'],
	[('result collection by sentence or chunk', 'discodop/runexp.py')],
	na='equality of the histories of separate processes; the algorithms '
	'merged (counts, sets, dictionaries keyed by sentence) live behind '
	'compiled code and pickled state that a source-level argument does not '
	'bound')
