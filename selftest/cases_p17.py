D = 'discodop/'
T = D + 'treebank.py'
E = D + 'eval.py'
G = D + 'gen.py'
C = D + 'cli.py'
TT = D + 'treebanktransforms.py'
TR = D + 'treetransforms.py'
CASES = [
('bug', 'map', [(T, "	components = [int(a) if re.match(r'[0-9]+$', a) else a for a in components]", "	components = (int(a) if re.match(r'[0-9]+$', a) else a for a in components)")]),
('bug', 'genexp argument', [(C, "markovthreshold([item.tree for _, item in trees],", "markovthreshold((item.tree for _, item in trees),")]),
('bug', 'map argument', [(C, "markovthreshold([item.tree for _, item in trees],", "markovthreshold(map(lambda x: x[1].tree, trees),")]),
('bug', 'truth', [(TT, "			nk = [a for a in pp if a not in ac]", "			nk = filter(lambda a: a not in ac, pp)")]),
('bug', 'membership', [(TT, "			ac = [a for a in pp if function(a) in addtopp]", "			ac = (a for a in pp if function(a) in addtopp)")]),
('bug', 'table', [(T, "	table = [exportsplit(x) for x in block[1:-1]]", "	table = map(exportsplit, block[1:-1])")]),
('bug', 'two steps', [(T, "	table = [exportsplit(x) for x in block[1:-1]]", "	lines = iter(block[1:-1])\n	table = map(exportsplit, lines)")]),
('bug', 'helper', [(T, "	table = [exportsplit(x) for x in block[1:-1]]", "	table = exportfields(block)"), (T, "def exportsplit(line):", "def exportfields(block):\n	for x in block[1:-1]:\n		yield exportsplit(x)\n\n\ndef exportsplit(line):")]),
('bug', 'weights', [(G, "		weights = [float(w) for w in weights]", "		weights = map(float, weights)")]),
('bug', 'length', [(G, "	nonterminals = list(enumerate([\"Epsilon\", \"ROOT\"]", "	nonterminals = (enumerate([\"Epsilon\", \"ROOT\"]")]),
('bug', 'loop', [(TR, "	newlabels = {}\n	for label, freq in freqs.items():", "	newlabels = {}\n	occ = (x for x in freqs)\n	for label, freq in freqs.items():\n		if label not in occ:\n			continue")]),
('bug', 'file', [(D+'treebanktransforms.py', "			FTBCOMPOUNDS.update(inp.read().splitlines())", "			if not any(line.strip() for line in inp):\n				return\n			FTBCOMPOUNDS.update(inp.read().splitlines())")]),
('bug', 'highlight', [(E, "			highlightfunc = [a for a in tree.subtrees()\n					if all((bracketing(a), b) in self.candfun & self.goldfun\n						for b in functions(a))]", "			highlightfunc = filter(lambda a: all((bracketing(a), b) in self.candfun & self.goldfun\n						for b in functions(a)), tree.subtrees())")]),
('bug', 'attribute', [(E, "		self.golddep, self.canddep = [], []", "		self.golddep, self.canddep = [], []\n		self.lengths = map(len, [self.goldpos if 0 else 'a'])"), (E, "	def add(self, pair):", "	def longest(self):\n		return max(self.lengths)\n\n	def add(self, pair):")]),
('same', 'map once', [(T, "	for n, source in enumerate(table):\n		children[source[PARENT]].append((n, source))", "	for n, source in zip(range(len(table)), iter(table)):\n		children[source[PARENT]].append((n, source))")]),
('same', 'list of map', [(T, "	table = [exportsplit(x) for x in block[1:-1]]", "	table = map(exportsplit, block[1:-1])\n	table = list(table)")]),
('same', 'generator helper', [(T, "	table = [exportsplit(x) for x in block[1:-1]]", "	table = list(exportfields(block))"), (T, "def exportsplit(line):", "def exportfields(block):\n	for x in block[1:-1]:\n		yield exportsplit(x)\n\n\ndef exportsplit(line):")]),
('same', 'branches', [(T, "	table = [exportsplit(x) for x in block[1:-1]]", "	lines = iter(block[1:-1])\n	if comment:\n		table = [exportsplit(x) for x in lines]\n	else:\n		table = list(map(exportsplit, lines))")]),
('same', 'next then loop', [(T, "	table = [exportsplit(x) for x in block[1:-1]]", "	lines = iter(block)\n	next(lines)\n	table = [exportsplit(x) for x in lines][:-1]")]),
('same', 'chained', [(C, "markovthreshold([item.tree for _, item in trees],", "markovthreshold(list(map(lambda x: x[1].tree, trees)),")]),
('same', 'none or generator', [(T, "	table = [exportsplit(x) for x in block[1:-1]]", "	table = None\n	if len(block) > 1:\n		table = (exportsplit(x) for x in block[1:-1])\n	table = list(table) if table else []")]),
('same', 'rebound in loop', [(TR, "	newlabels = {}\n	for label, freq in freqs.items():", "	newlabels = {}\n	for label, freq in freqs.items():\n		occ = (x for x in freqs)\n		if label not in occ:\n			continue")]),
('same', 'tee', [(T, "	table = [exportsplit(x) for x in block[1:-1]]", "	from itertools import tee\n	lines, other = tee(block[1:-1])\n	table = [exportsplit(x) for x in lines]\n	del other")]),
('same', 'search loop', [(T, "	table = [exportsplit(x) for x in block[1:-1]]", "	lines = iter(block)\n	for x in lines:\n		if x.startswith('#BOS'):\n			break\n	table = [exportsplit(x) for x in lines][:-1]")]),
]
GR = D + 'grammar.py'
CASES += [
('bug', 'finditer', [(GR, "	order = {x.group(2): \"{%d}\" % n\n			for n, x in enumerate(FRONTIERORTERM.finditer(prod))}\n", "	found = FRONTIERORTERM.finditer(prod)\n	order = {x.group(2): \"{%d}\" % n\n			for n, x in enumerate(found)}\n	assert all(x.group(3) for x in found)\n")]),
('same', 'finditer', [(GR, "	order = {x.group(2): \"{%d}\" % n\n			for n, x in enumerate(FRONTIERORTERM.finditer(prod))}\n", "	found = FRONTIERORTERM.finditer(prod)\n	order = {x.group(2): \"{%d}\" % n\n			for n, x in enumerate(found)}\n")]),
('bug', 'subtrees twice', [(E, "		self.candfun = Counter((bracketing(a), b)\n				for a in self.ctree.subtrees()", "		nodes = self.ctree.subtrees()\n		self.ccat = Counter(bracketing(a) for a in nodes)\n		self.candfun = Counter((bracketing(a), b)\n				for a in nodes")]),
('bug', 'argument indexed by callee', [(TR, "	newlabels = {}\n	for label, freq in freqs.items():", "	newlabels = {}\n	_first(x for x in freqs)\n	for label, freq in freqs.items():"), (TR, "def markovthreshold(", "def _first(seq):\n	return seq[0]\n\n\ndef markovthreshold(")]),
('same', 'argument indexed or not', [(TR, "	newlabels = {}\n	for label, freq in freqs.items():", "	newlabels = {}\n	_first((x for x in freqs), True)\n	for label, freq in freqs.items():"), (TR, "def markovthreshold(", "def _first(seq, lazy):\n	if lazy:\n		return next(seq)\n	return seq[0]\n\n\ndef markovthreshold(")]),
]
