C = 'discodop/cli.py'
F = 'discodop/fragments.py'
E_ = 'discodop/eval.py'
S = 'discodop/treesearch.py'
CASES = [
('bug', 'no dashes', [(C, "encoding = opts.get('--outputenc', 'utf8')", "encoding = opts.get('outputenc', 'utf8')")]),
('bug', 'renamed option', [(C, "'punct= headrules= ", "'punctuation= headrules= ")]),
('bug', 'flag became option lost', [(C, "leftmostunary='--leftunary' in opts,", "leftmostunary=bool(opts.get('--leftunary')),")]),
('bug', 'wrong short', [(C, "revhorzmarkov=int(opts.get('-H', 0)),", "revhorzmarkov=int(opts.get('-R', 0)),")]),
('bug', 'ignored', [(C, "			lemmas=opts.get('--lemmas'))", "			lemmas=None)")]),
('bug', 'fragments flag', [(F, "if PARAMS['approx'] or PARAMS['nofreq']:", "if PARAMS['approx']:"), (F, "FLAGS = ('approx', 'indices', 'nofreq',", "FLAGS = ('approx', 'indices', 'no-freq',")]),
('bug', 'eval option takes value', [(E_, "'cutofflen=', 'headrules=',", "'cutofflen', 'headrules=',")]),
('bug', 'treesearch arity', [(S, "'engine= macros= numproc= max-count= slice= '", "'engine= macros= numproc= max-count slice= '")]),
('bug', 'short arity', [('discodop/parser.py', "'hb:s:m:x'", "'hb:s:mx'")]),
('bug', 'command gone', [(C, "		'gen': 'Generate", "		'generate': 'Generate")]),
('bug', 'helper lookup', [(C, "	sentid = '--sentid' in opts\n", "	sentid = '--sentid' in opts\n") ] + [(C, "			sentid = '--sentid' in opts\n", "			sentid = _has(opts, '--sentid')\n"), (C, "def treetransforms():", "def _has(options, key):\n	return options.get('sentid')\n\n\ndef treetransforms():")][:0] + [(C, "			sentid = '--sentid' in opts\n", "			sentid = _sentid(opts)\n"), (C, "def treetransforms():", "def _sentid(options):\n	return 'sentid' in options\n\n\ndef treetransforms():")]),
('same', 'helper lookup', [(C, "			sentid = '--sentid' in opts\n", "			sentid = _sentid(opts)\n"), (C, "def treetransforms():", "def _sentid(options):\n	return '--sentid' in options\n\n\ndef treetransforms():")]),
('same', 'options as module constant', [(C, "	flags = ('help', 'abbr', 'plain', 'frontier', 'secedge')\n", "	flags = DRAWFLAGS\n"), (C, "def treedraw():", "DRAWFLAGS = ('help', 'abbr', 'plain', 'frontier', 'secedge')\n\n\ndef treedraw():")]),
('same', 'list option spec', [(C, "	options = ('fmt=', 'encoding=', 'functions=', 'morphology=', 'numtrees=',\n			'output=')\n", "	options = tuple(a + '=' for a in ('fmt', 'encoding', 'functions', 'morphology', 'numtrees', 'output'))\n")]),
('same', 'key constant', [(C, "	output = opts.get('--output', 'text')\n", "	outkey = '--output'\n	output = opts[outkey] if outkey in opts else 'text'\n")]),
('same', 'flag as not None', [(C, "leftmostunary='--leftunary' in opts,", "leftmostunary=opts.get('--leftunary') is not None,")]),
('same', 'any', [(S, "	ignorecase = '--ignore-case' in opts or '-i' in opts\n", "	ignorecase = any(a in opts for a in ('--ignore-case', '-i'))\n")]),
]
CASES = [c for c in CASES if c[1] != 'helper lookup' or c[0] == 'same'] + [
('bug', 'helper lookup', [(C, "			sentid = '--sentid' in opts\n", "			sentid = _sentid(opts)\n"), (C, "def treetransforms():", "def _sentid(options):\n	return 'sentid' in options\n\n\ndef treetransforms():")]),
]
CASES += [
('bug', 'flag declared with value', [(C, "	flags = ('help', 'abbr', 'plain', 'frontier', 'secedge')\n", "	flags = ('help', 'abbr', 'plain', 'frontier', 'secedge=')\n")]),
('same', 'short form in loop', [(S, "	ignorecase = '--ignore-case' in opts or '-i' in opts\n", "	ignorecase = False\n	for opt, _val in opts.items():\n		if opt in ('--ignore-case', '-i'):\n			ignorecase = True\n")]),
]
