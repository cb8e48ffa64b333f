D = 'discodop/'
G = D + 'grammar.py'
X = D + 'treetransforms.py'
CASES = [
('bug', 'group number', [(X, r"SPLITLABELRE = re.compile(r'(.*)\*(?:([0-9]+)([^!]+![^!]+)?)?$')", r"SPLITLABELRE = re.compile(r'(.*)\*(?:([0-9]+)(?:[^!]+![^!]+)?)?$')")]),
('bug', 'group name', [(G, r"\t(?P<RULE2>(?P<LHS2>[^ \t]+).*)$')", r"\t(?P<RULE2>(?P<LHS>[^ \t]+).*)$')")]),
('bug', 'optional', [(D+'tree.py', "INDEXRE = re.compile(r' ([0-9]+)\\)')", "INDEXRE = re.compile(r' ([0-9]+)?\\)')")]),
('bug', 'markov', [(X, "			if match.group(4):\n				newlabel +=", "			if vertmarkov:\n				newlabel +=")]),
('bug', 'unguarded', [(X, "			if not match:\n				node.append(child)\n				continue\n			label, part", "			label, part")]),
('bug', 'part', [(X, "			if part:\n				nextlabel", "			if merge[child.label]:\n				nextlabel")]),
('bug', 'syntax', [(D+'treebank.py', "POSRE = re.compile(r'\\(([^() ]+)\\s+", "POSRE = re.compile(r'\\((([^() ]+)\\s+")]),
('bug', 'exponential', [(D+'treebank.py', "LEAVESRE = re.compile(r' (?=\\))| ([^ ()]+)\\s*(?=[\\s)])')", "LEAVESRE = re.compile(r' (?=\\))| ((?:[^ ()]+)+)\\s*(?=[\\s)])')")]),
('bug', 'template', [(D+'treesearch.py', "lambda g: g.group(1) + g.group(2), line)", "r'\\1\\3', line)")]),
('bug', 'frontier', [(G, "m.group(1) or ''), frag)", "m.group(1)), frag)")]),
('bug', 'export', [(D+'treebank.py', "			if m:\n				child = ParentedTree(label, getchildren(m.group(1)))", "			if m or source[WORD].startswith('#'):\n				child = ParentedTree(label, getchildren(m.group(1)))")]),
('bug', 'morph', [(D+'treebanktransforms.py', "			if case:\n				node.label += '/'", "			if node.source:\n				node.label += '/'")]),
('bug', 'tags', [(D+'parser.py', "				for match in labels if match.group(3)} | {", "				for match in labels} | {")]),
('same', 'is None', [(X, "			if not match:\n				node.append(child)\n				continue\n			label, part", "			if match is None:\n				node.append(child)\n				continue\n			label, part")]),
('same', 'else', [(D+'treebank.py', "			if m:\n				child = ParentedTree(label, getchildren(m.group(1)))\n			else:", "			if m is None:\n				child = None\n			else:\n				child = ParentedTree(label, getchildren(m.group(1)))\n			if child is None:")]),
('same', 'walrus', [(D+'treebank.py', "		m = EXPORTNONTERMINAL.match(source[WORD])\n		if m:\n			children[m.group(1)] = []", "		if (m := EXPORTNONTERMINAL.match(source[WORD])) is not None:\n			children[m.group(1)] = []")]),
('same', 'noncapture', [(X, r"MARKOVRE = re.compile(r'^(.*)\|<(.*;)?(.*)>(\^<.*>)?(.*)?$')", r"MARKOVRE = re.compile(r'^(.*)\|<((?:.*);)?(.*)>(\^<.*>)?(.*)$')")]),
('same', 'variable', [(X, "			if match.group(4):\n				newlabel += '^<%s>' % ','.join(\n						match.group(4).split", "			parents = match.group(4)\n			if parents is not None:\n				newlabel += '^<%s>' % ','.join(\n						parents.split")]),
('same', 'helper', [(X, "			match = MARKOVRE.match(label)\n			if not match:", "			match = _markov(label)\n			if not match:"), (X, "def raisediscnodes(", "def _markov(label):\n	\"\"\"Match label.\"\"\"\n	return MARKOVRE.match(label)\n\n\ndef raisediscnodes(")]),
('same', 'inline', [(D+'treebank.py', "			m = EXPORTNONTERMINAL.match(source[WORD])\n			label", "			m = re.match(r'^#([5-9][0-9]{2})$', source[WORD])\n			label")]),
('same', 'groups', [(G, "		label = x.group(1)  # label\n		word = x.group(4)", "		label, _, _, word = x.groups()")]),
('same', 'def', [(G, "	return LEAVESRE.sub(lambda m: ' %d=%s' % (next(cnt), m.group(1) or ''), frag)", "	def repl(m):\n		\"\"\"Add index.\"\"\"\n		word = m.group(1)\n		if word is None:\n			word = ''\n		return ' %d=%s' % (next(cnt), word)\n	return LEAVESRE.sub(repl, frag)")]),
('same', 'try', [(D+'heads.py', "					label, direction, heads = HEADRULERE.match(line).groups()\n				except AttributeError:\n					print('no match:', line)\n					raise", "					m = HEADRULERE.match(line)\n					label, direction, heads = m.group(1), m.group(2), m.group(3)\n				except AttributeError:\n					print('no match:', line)\n					raise")]),
('same', 'assert', [(D+'treebanktransforms.py', "			if case:\n				node.label += '/'", "			if case is None:\n				continue\n			elif case:\n				node.label += '/'")]),
('bug', 'm freq', [('discodop/grammar.py', "freq += float((match.group('FREQ1') or match.group('FREQ2')))", "freq += float(match.group('FREQ1') if match.group('RULE1') or match.group('LHS2') else match.group('FREQ2'))")]),
('bug', 'm compre', [('discodop/treebanktransforms.py', '\t\t\t\t\tif FTBREGULARCOMPOUNDPATTERNS[base_label].match(cmpd_str):', '\t\t\t\t\tif FTBREGULARCOMPOUNDPATTERNS[base_label].match(cmpd_str).end() == len(cmpd_str):')]),
('same', 'freq ifexp', [('discodop/grammar.py', "freq += float((match.group('FREQ1') or match.group('FREQ2')))", "freq += float(match.group('FREQ1') if match.group('RULE1') else match.group('FREQ2'))")]),
('same', 'freq ifexp 2', [('discodop/grammar.py', "freq += float((match.group('FREQ1') or match.group('FREQ2')))", "freq += float(match.group('FREQ2') if match.group('FREQ1') is None else match.group('FREQ1'))")]),
('same', 'dict compound', [('discodop/treebanktransforms.py', "					if FTBREGULARCOMPOUNDPATTERNS[base_label].match(cmpd_str):", "					compound = FTBREGULARCOMPOUNDPATTERNS[base_label].match(cmpd_str)\n					if compound is not None and compound.end() >= 0:")]),
('same', 'freq ifexp 3', [('discodop/grammar.py', "freq += float((match.group('FREQ1') or match.group('FREQ2')))", "freq += float(match['FREQ1'] if match['RULE1'] else match['FREQ2'])")]),
]
