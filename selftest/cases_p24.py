D = 'discodop/'
T = D + 'tree.py'
B = D + 'treebank.py'
M = D + 'treebanktransforms.py'
CASES = [
('bug', 'drop', [(T, ".replace('#LRB#', '(').replace('#RRB#', ')').replace('\\\\/', '/'))", ".replace('#LRB#', '(').replace('#RRB#', ')'))")]),
('bug', 'swap', [(T, "			'#LRB#', '(').replace('#RRB#', ')')\n\n\ndef ptb", "			'#RRB#', '(').replace('#LRB#', ')')\n\n\ndef ptb")]),
('bug', 'lcb', [(T, "		return '-LCB-'", "		return '-LCB'")]),
('bug', 'none', [(T, "	if token in ('', '#FRONTIER#', None):", "	if token is None:")]),
('bug', 'empty', [(T, "	if token is None:\n		return ''\n", "	if token is None:\n		return '-NONE-'\n")]),
('bug', 'writer', [(T, "			lambda x: ' %s)' % escape(sent[int(x.group(1))]),", "			lambda x: ' %s)' % sent[int(x.group(1))],")]),
('bug', 'writer conditional', [(T, "			lambda x: ' %s=%s)' % (x.group(1), escape(sent[int(x.group(1))])),", "			lambda x: ' %s=%s)' % (x.group(1),\n				escape(sent[int(x.group(1))]) if x.group(1) != '0'\n				else sent[0] or ''),")]),
('bug', 'reader', [(B, "			sent[idx] = unescape(token)", "			sent[idx] = token")]),
('bug', 'reader escape', [(B, "sent = [token and unescape(token) for", "sent = [token and escape(token) for")]),
('bug', 'reader brackettree', [(T, "			sent.append(unescape(x))", "			sent.append(x or None)")]),
('bug', 'reader disc', [(T, "		sent[idx] = unescape(word)\n		return", "		sent[idx] = word if len(word) == 1 else unescape(word)\n		return")]),
('same', 'helper', [(T, "	return '' if text is None else text.replace(\n			'(', '#LRB#').replace(')', '#RRB#')\n", "	if text is None:\n		return ''\n	return _esc(text)\n\n\ndef _esc(text):\n	text = text.replace(')', '#RRB#')\n	return text.replace('(', '#LRB#')\n")]),
('same', 'table', [(T, "	elif token == '{':\n		return '-LCB-'\n	elif token == '}':\n		return '-RCB-'\n	elif token == '[':\n		return '-LSB-'\n	elif token == ']':\n		return '-RSB-'\n	return (token.replace('(', '-LRB-').replace(')', '-RRB-')\n			.replace('/', '\\\\/'))", "	if token in PTBTABLE:\n		return PTBTABLE[token]\n	for old, new in (('(', '-LRB-'), (')', '-RRB-'), ('/', '\\\\/')):\n		token = token.replace(old, new)\n	return token"), (T, "def ptbescape(token):", "PTBTABLE = {'{': '-LCB-', '}': '-RCB-', '[': '-LSB-', ']': '-RSB-'}\n\n\ndef ptbescape(token):")]),
('same', 'table get', [(T, "	elif token == '-LCB-':\n		return '{'\n	elif token == '-RCB-':\n		return '}'\n	elif token == '-LSB-':\n		return '['\n	elif token == '-RSB-':\n		return ']'\n	return (token", "	special = {'-LCB-': '{', '-RCB-': '}', '-LSB-': '[', '-RSB-': ']'}\n	if token in special:\n		return special[token]\n	return (token")]),
('same', 'walrus loop', [(B, "		sent = [token and unescape(token) for token in LEAVESRE.findall(block)]", "		sent = []\n		for token in LEAVESRE.findall(block):\n			sent.append(unescape(token) if token else token)")]),
('same', 'map', [(B, "		sent = [token and unescape(token) for token in LEAVESRE.findall(block)]", "		sent = list(map(unescape, LEAVESRE.findall(block)))")]),
('same', 'nested def', [(T, "			lambda x: ' %s)' % escape(sent[int(x.group(1))]),", "			_terminal(sent),"), (T, "def escape(text):", "def _terminal(sent):\n	\"\"\"Return function to write terminal.\"\"\"\n	def result(x):\n		word = escape(sent[int(x.group(1))])\n		return ' ' + word + ')'\n	return result\n\n\ndef escape(text):")]),
('same', 'presc', [(T, "			lambda x: ' %s)' % escape(sent[int(x.group(1))]),", "			lambda x: ' %s)' % words[int(x.group(1))],"), (T, "	return INDEXRE.sub(\n			lambda x: ' %s)'", "	words = [escape(a) for a in sent]\n	return INDEXRE.sub(\n			lambda x: ' %s)'")]),
('bug', 'm unesclower', [('discodop/tree.py', "return None if text in ('', '#FRONTIER#') else", "return None if text in ('', '#FRONTIER#', '-NONE-') else")]),
('bug', 'm idx1', [('discodop/tree.py', "INDEXRE = re.compile(r' ([0-9]+)\\)')", "INDEXRE = re.compile(r' ([0-9]{1,2})\\)')")]),
('bug', 'm count1', [('discodop/tree.py', "escape(sent[int(x.group(1))]),\n\t\t\tstr(tree)) + '\\n'", "escape(sent[int(x.group(1))]),\n\t\t\tstr(tree), count=99) + '\\n'")]),
('bug', 'm splitrev', [('discodop/tree.py', "\t\t\tidx, word = x.split('=', 1)\n\t\t\tidx = int(idx)\n\t\t\tsent[idx] = unescape(word)\n\t\t\treturn idx\n\n\t\ttree = ParentedTree.parse(\n\t\t\t\tSUP", "\t\t\tidx, word = x.rsplit('=', 1)\n\t\t\tidx = int(idx)\n\t\t\tsent[idx] = unescape(word)\n\t\t\treturn idx\n\n\t\ttree = ParentedTree.parse(\n\t\t\t\tSUP")]),
('bug', 'm split2', [('discodop/treebank.py', "\t\t\tidx, token = x.split('=', 1)", "\t\t\tidx, token = x.split('=')[:2]")]),
('bug', 'm leavesre', [('discodop/treebank.py', "LEAVESRE = re.compile(r' (?=\\))| ([^ ()]+)\\s*(?=[\\s)])')", "LEAVESRE = re.compile(r' (?=\\))| ([^ ()=]+)\\s*(?=[\\s)])')")]),
('bug', 'm brsent', [('discodop/treebank.py', 'sent = [token and unescape(token) for token in LEAVESRE.findall(block)]', "sent = [token and unescape(token.strip('-')) for token in LEAVESRE.findall(block)]")]),
('bug', 'm brsent2', [('discodop/treebank.py', 'sent = [token and unescape(token) for token in LEAVESRE.findall(block)]', 'sent = [unescape(token) for token in LEAVESRE.findall(block) if token]')]),
('bug', 'm writesent', [('discodop/tree.py', "escape(sent[int(x.group(1))]),\n\t\t\tstr(tree)) + '\\n'", "escape(sent[int(x.group(1))] or '-NONE-'),\n\t\t\tstr(tree)) + '\\n'")]),
('bug', 'm tmpl', [('discodop/tree.py', "\t\t\tlambda x: ' %s=%s)' % (x.group(1), escape(sent[int(x.group(1))])),", "\t\t\tlambda x: x.expand(' \\\\1=%s)' % escape(sent[int(x.group(1))])),")]),
('same', 'partition', [(T, "			idx, word = x.split('=', 1)\n			idx = int(idx)\n			sent[idx] = unescape(word)\n			return idx\n\n		tree = ParentedTree.parse(\n				SUP", "			idx, _, word = x.partition('=')\n			idx = int(idx)\n			sent[idx] = unescape(word)\n			return idx\n\n		tree = ParentedTree.parse(\n				SUP")]),
('same', 'digits', [(T, "INDEXRE = re.compile(r' ([0-9]+)\\)')", "INDEXRE = re.compile(r' (\\d+)[)]')")]),
('same', 'lookahead', [(T, "INDEXRE = re.compile(r' ([0-9]+)\\)')", "INDEXRE = re.compile(r'(?<= )([0-9]+)(?=\\))')"), (T, "lambda x: ' %s)' % escape(", "lambda x: '%s' % escape("), (T, "lambda x: ' %s=%s)' % (", "lambda x: '%s=%s' % (")]),
('same', 'leavesre', [(B, "LEAVESRE = re.compile(r' (?=\\))| ([^ ()]+)\\s*(?=[\\s)])')", "LEAVESRE = re.compile(r' (?=\\))| ([^ ()]*[^ ()])\\s*(?=[\\s)])')")]),
('same', 'strip', [(B, "			sent[idx] = unescape(token)", "			sent[idx] = unescape(token.strip())")]),
]
