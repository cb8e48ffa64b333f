D = 'discodop/'
CASES = [
('bug', 'treedist shallow', [(D+'treedist.py', "	tree = Tree.convert(tree)\n", "	if not isinstance(tree, Tree):\n		tree = Tree.convert(tree)\n")]),
('bug', 'exporttree sorts', [(D+'treebank.py', "	agenda = list(tree)\n	while agenda:\n		node = agenda.pop()\n		if not node or", "	agenda = tree.children\n	while agenda:\n		node = agenda.pop()\n		if not node or")]),
('bug', 'writer escapes in place', [(D+'treebank.py', """		if not word:
			# raise""", """		sent[n] = word or '...'
		if not word:
			# raise""")]),
('bug', 'wordpos sort', [(D+'treebank.py', """	elif fmt == 'export':
		result = writeexporttree""", """	elif fmt == 'export':
		for node in tree.subtrees():
			node.children.sort(key=lambda n: n.leaves()[0] if isinstance(n, Tree) else n)
		result = writeexporttree""")]),
('bug', 'headfinder marks', [(D+'heads.py', """	# check if we already have head information:
	for child in tree:
		if child.type == HEAD:
			return child""", """	# check if we already have head information:
	for child in tree:
		if child.type == HEAD:
			child.type = None
			return child""")]),
('bug', 'decorate', [(D+'grammar.py', "			dectree = Tree.convert(tree.copy(True))\n", "			dectree = tree\n")]),
('bug', 'decorate shallow', [(D+'grammar.py', "			dectree = Tree.convert(tree.copy(True))\n", "			dectree = tree.copy()\n")]),
('bug', 'abbr', [(D+'tree.py', """			if self.tree is tree:
				self.tree = self.tree.copy(True)
			for n in""", """			for n in""")]),
('bug', 'drawtree sent', [(D+'tree.py', "		self.sent = [ptbunescape(token) for token in self.sent]\n", "		for n, token in enumerate(self.sent):\n			self.sent[n] = ptbunescape(token)\n")]),
('bug', 'nodefreq', [(D+'grammar.py', """	# only add counts when dectree.label is actually an interior node,""", """	if isinstance(tree[0], Tree):
		tree.type = None
	# only add counts when dectree.label is actually an interior node,""")]),
('bug', 'subtrees', [(D+'tree.py', "				agenda.extend(node[::-1])\n\n	def postorder", "				node.children.reverse()\n				agenda.extend(node)\n\n	def postorder")]),
('bug', 'helper indirect', [(D+'treebank.py', "	deps = dependencies(tree)\n", "	deps = dependencies(_normalize(tree))\n"), (D+'treebank.py', "def dependencies(root):", """def _normalize(tree):
	for node in tree.subtrees():
		if node.source is not None:
			_clean(node.source)
	return tree


def _clean(src):
	for n, a in enumerate(src):
		if a == '--':
			src[n] = ''


def dependencies(root):""")]),
('same', 'complexity', [(D+'treetransforms.py', "def fanout(tree):\n", "def fanout(tree):\n	addbitsets(tree)\n")]),
('bug', 'replacerare', [(D+'lexicon.py', "	for n, word in enumerate(sent):\n		if YEARRE", "	sent[:] = [a.strip() for a in sent]\n	for n, word in enumerate(sent):\n		if YEARRE")]),
('same', 'treedist copy', [(D+'treedist.py', "	tree = Tree.convert(tree)\n", "	result = Tree.convert(tree)\n	tree = result\n")]),
('same', 'export list', [(D+'treebank.py', "	agenda = list(tree)\n	while agenda:\n		node = agenda.pop()\n		if not node or", "	agenda = [child for child in tree]\n	while len(agenda) > 0:\n		node = agenda.pop()\n		if not node or")]),
('same', 'export helper', [(D+'treebank.py', "	agenda = list(tree)\n	while agenda:\n		node = agenda.pop()\n		if not node or", "	agenda = _start(tree)\n	while len(agenda) > 0:\n		node = agenda.pop()\n		if not node or"), (D+'treebank.py', "def writeexporttree(", """def _start(tree):
	result = []
	for child in tree:
		result.append(child)
	return result


def writeexporttree(""")]),
('same', 'deps as generator', [(D+'treebank.py', """	deps = []
	for child in root:
		deps.append((_makedep(child, deps), 'root', 0))
""", """	deps = []
	extra = [(_makedep(child, deps), 'root', 0) for child in root]
	deps.extend(extra)
""")]),
('same', 'local copies sorted', [(D+'treebank.py', "	deps = dependencies(tree)\n", """	deps = dependencies(tree)
	words = sent[:]
	words.reverse()
	tags = {}
	for a, b in tree.pos():
		tags[a] = b
	items = list(tree.subtrees())
	items.sort(key=lambda n: n.label)
	items.pop()
""")]),
('same', 'decorate', [(D+'grammar.py', "			dectree = Tree.convert(tree.copy(True))\n", "			copied = tree.copy(deep=True)\n			dectree = Tree.convert(copied)\n")]),
]
