D = 'discodop/'
G = D + 'grammar.py'
E = D + 'eval.py'
T = D + 'treebank.py'
X = D + 'treetransforms.py'
CASES = [
('bug', 'gen', [(D+'gen.py', "		+ sorted(set(str(nt) for (rule, yf), weight in rules for nt in rule)\n			- {\"Epsilon\", \"ROOT\"})))", "		+ list(set(str(nt) for (rule, yf), weight in rules for nt in rule)\n			- {\"Epsilon\", \"ROOT\"})))")]),
('bug', 'glob', [(T, "self._filenames = sorted(glob(path))", "self._filenames = glob(path)")]),
('bug', 'numbase', [(T, "sorted(sorted(glob(path)), key=numbase)", "sorted(glob(path), key=numbase)")]),
('bug', 'lexicon', [(G, "	for word in lexical:\n		lexicon.append", "	for word in {w for w in lexical}:\n		lexicon.append")]),
('bug', 'lexicon keys', [(G, "	for word in lexical:\n		lexicon.append", "	words = set(lexical)\n	for word in words - {'-NONE-'}:\n		lexicon.append")]),
('bug', 'yield', [(X, "def raisediscnodes(", "def labels(tree):\n	\"\"\"All labels.\"\"\"\n	return list({node.label for node in tree.subtrees()})\n\n\ndef raisediscnodes(")]),
('bug', 'ties', [(E, "				key=lambda x: (-len(acc.goldbcat[x]), x))", "				key=lambda x: -len(acc.goldbcat[x]))")]),
('bug', 'closure', [(E, "	for elem in sorted(edges):", "	for elem in list(set(edges)):")]),
('bug', 'ostag', [(G, "for adjsite in sorted(nodepairs[node.label]):", "for adjsite in nodepairs[node.label]:")]),
('bug', 'closed class', [(D+'lexicon.py', "' '.join(sorted(closedclasswords))", "' '.join(closedclasswords)")]),
('bug', 'random', [(D+'tree.py', "rand.randint(0, 4)", "random.randint(0, 4)")]),
('bug', 'ids', [(D+'treebanktransforms.py', "sorted(result - {'*', '--'})", "(result - {'*', '--'})")]),
('bug', 'winner', [(E, "dict(sorted(acc.goldbatt - acc.candbatt))", "{key: label for key, label in acc.goldbatt - acc.candbatt}")]),
('bug', 'most_common', [(E, "					in sorted(acc.candbatt - acc.goldbatt)\n", "					in acc.candbatt - acc.goldbatt\n")]),
('bug', 'next', [(D+'runexp.py', "	if len(roots) != 1:\n		raise ValueError('expected unique ROOT label: %r' % roots)\n	top = roots.pop()", "	top = next(iter(roots))")]),
('same', 'loop append then sort', [(G, "	for r, yf in sorted(difference):\n		print(", "	missing = []\n	for rule in difference:\n		missing.append(rule)\n	missing.sort()\n	for r, yf in missing:\n		print(")]),
('same', 'list sorted', [(G, "	for r, yf in sorted(difference):", "	missing = list(difference)\n	for r, yf in sorted(missing):")]),
('same', 'glob list', [(T, "self._filenames = sorted(glob(path))", "filenames = list(glob(path))\n			filenames.sort()\n			self._filenames = filenames")]),
('same', 'key tuple', [(T, "sorted(sorted(glob(path)), key=numbase)", "sorted(glob(path), key=lambda a: (numbase(a), a))")]),
('same', 'set counts', [(G, "	if not difference:\n		return True", "	if len(list(difference)) == 0 or not any(True for _ in difference):\n		return True")]),
('same', 'set to dict', [(G, "	if not difference:\n		return True", "	known = {r: yf[0] for r, yf in sorted(difference)}\n	seen = {a: True for a in difference}\n	if not seen or not known:\n		return True")]),
('same', 'worklist', [(E, "			eqelem = agenda.pop()\n			seen.add(eqelem)\n			eqclasses[elem].add(eqelem)\n			agenda.update(edges[eqelem] - seen)", "			eqelem = agenda.pop()\n			if eqelem not in seen:\n				seen.add(eqelem)\n				eqclasses[elem].add(eqelem)\n				agenda |= edges[eqelem] - seen")]),
('same', 'helper', [(E, "		freqcats = sorted(set(acc.goldbcat) | set(acc.candbcat),\n				key=lambda x: (-len(acc.goldbcat[x]), x))", "		freqcats = self._byfreq(set(acc.goldbcat) | set(acc.candbcat), acc)"), (E, "	def catbreakdown(", "	def _byfreq(self, labels, acc):\n		\"\"\"Sort.\"\"\"\n		return sorted(labels, key=lambda x: (-len(acc.goldbcat[x]), x))\n\n	def catbreakdown(")]),
('same', 'helper set', [(G, "	difference = set(map(itemgetter(0), a)) - set(map(itemgetter(0), b))", "	difference = _rules(a) - _rules(b)"), (G, "def subsetgrammar(", "def _rules(g):\n	\"\"\"Rules.\"\"\"\n	return {rule for rule, _ in g}\n\n\ndef subsetgrammar(")]),
('same', 'int set', [(X, "		leaves = set(st.leaves())\n", "		leaves = set(st.leaves())\n		order = list({a - 1 for a in range(3)})\n		assert order\n")]),
('bug', 'csv columns', [(D+'treesearch.py', "		columns = sorted({col for res in results.values()\n					for col in res})", "		columns = list({col for res in results.values()\n					for col in res})")]),
('bug', 'global random', [(D+'tree.py', "		rand = random.Random(0)", "		rand = random")]),
]
