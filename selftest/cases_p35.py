D = 'discodop/'
T = D + 'tree.py'
ESC = "	return text.translate(LATEXESCAPE)\n"
CASES = [
('bug', 'leaf', [(T, "						label = latexescape(label)\n", "						label = node\n")]),
('bug', 'func', [(T, "latexescape(funcsep), funccolor, latexescape(func))", "latexescape(funcsep), funccolor, func)")]),
('bug', 'dropchar', [(T, "'{': r'\\{', '}': r'\\}', ", "")]),
('bug', 'badchar', [(T, "'%': r'\\%'", "'%': r'%%'")]),
('bug', 'pretty', [(T, "		result = ['% ' + writediscbrackettree(self.tree, self.sent).rstrip(),", "		result = ['% ' + writediscbrackettree(self.tree, self.sent,\n				pretty=True).rstrip(),")]),
('bug', 'binlabel', [(T, "				latexescape(cat), latexescape(siblings))", "				latexescape(cat), siblings)")]),
('bug', 'shortcut', [(T, "						label = latexlabel(cat)\n", "						label = latexlabel(cat) if '|' in cat else cat\n")]),
('bug', 'qtree word', [(T, "return '{%s}' % latexescape(self.sent[node] or '')", "return '{%s}' % (self.sent[node] or '')")]),
('bug', 'qtree label', [(T, "return '[.{%s}%s%s ]' % (latexlabel(node.label), sep,", "return '[.{%s}%s%s ]' % (node.label, sep,")]),
('bug', 'replace chain', [(T, ESC, "	for a in '#$%&_{}':\n		text = text.replace(a, '\\\\' + a)\n	return text\n")]),
('bug', 'regex', [(T, ESC, "	return re.sub(r'([#$%&_{}~])', r'\\\\\\1', text)\n")]),
('bug', 'comment in', [(T, "		result += [';']\n", "		result += ['%% %s' % self.tree.pprint(), ';']\n")]),
('same', 'comment', [(T, "		result += [';']\n", "		result += ['%% %s' % self.tree.label, ';']\n")]),
('same', 'replaces', [(T, ESC, "	text = text.replace('\\\\', r'\\textbackslash ')\n	text = text.replace('#', r'\\#').replace('$', r'\\$').replace('%', r'\\%')\n	text = text.replace('&', r'\\&').replace('_', r'\\_').replace('~', r'\\~{}')\n	text = text.replace('{', r'\\{').replace('}', r'\\}').replace('^', r'\\^{}')\n	return text\n")]),
('same', 'dictget', [(T, "	return text.translate(LATEXESCAPE)\n", "	return ''.join(LATEXESC.get(a, a) for a in text)\n\n\nLATEXESC = {chr(a): b for a, b in LATEXESCAPE.items()}\n")]),
('same', 'dictif', [(T, "	return text.translate(LATEXESCAPE)\n", "	return ''.join([LATEXESC[a] if a in LATEXESC else a for a in text])\n\n\nLATEXESC = {chr(a): b for a, b in LATEXESCAPE.items()}\n")]),
('same', 'loop', [(T, "	return text.translate(LATEXESCAPE)\n", "	res = []\n	for a in text:\n		if a == '\\\\':\n			res.append('\\\\textbackslash{}')\n		elif a in '~^':\n			res.append('{\\\\char%d}' % ord(a))\n		elif a in '#$%&_{}':\n			res.append('\\\\' + a)\n		else:\n			res.append(a)\n	return ''.join(res)\n")]),
('same', 'resub', [(T, "	return text.translate(LATEXESCAPE)\n", "	return LATEXRE.sub(lambda m: LATEXESC[m.group()], text)\n\n\nLATEXESC = {chr(a): b for a, b in LATEXESCAPE.items()}\nLATEXRE = re.compile('[%s]' % re.escape(''.join(LATEXESC)))\n")]),
('same', 'inline', [(T, "						label = latexescape(label)\n", "						label = label.translate(LATEXESCAPE)\n")]),
('same', 'helper', [(T, "						label = latexescape(label)\n", "						label = self._leaf(n)\n"), (T, "	def _tikzedges(self):", "	def _leaf(self, n):\n		return latexescape(self.nodes[n])\n\n	def _tikzedges(self):")]),
('same', 'order', [(T, "					if n not in self.highlight:\n						color = 'black'\n					line.append(", "					color = color if n in self.highlight else 'black'\n					line.append(")]),
('same', 'fstring', [(T, "			'% ' + writebrackettree(self.tree, self.sent).rstrip(),", "			f'% {writebrackettree(self.tree, self.sent).rstrip()}',")]),
('bug', 'm funcsep', [(T, '\t\t\t\t\t\t\tlatexescape(funcsep), funccolor, latexescape(func))', '\t\t\t\t\t\t\tfuncsep, funccolor, latexescape(func))')]),
('bug', 'm par', [(T, "latexescape(parents.strip('<>')))", "latexescape(parents).replace(r'\\^', '^').replace(r'\\_', '_'))")]),
('bug', 'm trunc', [(T, "\t\t\t\treturn '{%s}' % latexescape(self.sent[node] or '')", "\t\t\t\treturn '{%s}' % latexescape(self.sent[node] or '')[:20]")]),
('bug', 'm double', [(T, "\t\t\treturn '[.{%s}%s%s ]' % (latexlabel(node.label), sep,", "\t\t\treturn '[.{%s}%s%s ]' % (latexlabel(node.label).replace(r'\\$', '$'), sep,")]),
]
