D = 'discodop/'
CASES = [
('bug', 'svg cat', [(D+'tree.py', "					color, htmlescape(cat)))\n", "					color, cat))\n")]),
('bug', 'svg func', [(D+'tree.py', "							else 'black', htmlescape(func))", "							else 'black', func)")]),
('bug', 'text', [(D+'tree.py', "				if html:\n					text = [htmlescape(a) for a in text]", "				if html and not nodeprops:\n					text = [htmlescape(a) for a in text]")]),
('bug', 'text label', [(D+'tree.py', "						htmlescape(node.label),\n", "						node.label,\n")]),
('bug', 'dep', [(D+'tree.py', "mid, arrow + 15, htmlescape(deplabel)))", "mid, arrow + 15, deplabel or 'dep'))")]),
('bug', 'unescape', [(D+'tree.py', "			if (funcsep and isinstance(node, Tree) and funcsep in label\n", "			result.append('<!-- %s -->' % label)\n			if (funcsep and isinstance(node, Tree) and funcsep in label\n")]),
('bug', 'title', [(D+'tree.py', "			result[-1] += '</text>'\n", "			result[-1] += '</text>'\n			if isinstance(node, Tree) and node.source:\n				result.append('<title>%s</title>' % node.source[0])\n")]),
('same', 'early', [(D+'tree.py', "			label = self.labels[n]\n			x = column", "			label = htmlescape(self.labels[n])\n			x = column"), (D+'tree.py', "					color, htmlescape(cat)))\n", "					color, cat))\n"), (D+'tree.py', "							else 'black', htmlescape(func))", "							else 'black', func)")]),
('same', 'helper', [(D+'tree.py', "					color, htmlescape(cat)))\n", "					color, self._esc(cat)))\n"), (D+'tree.py', "	def svg(self, hscale=40,", "	@staticmethod\n	def _esc(s):\n		return htmlescape(s, quote=True)\n\n	def svg(self, hscale=40,")]),
('same', 'loop', [(D+'tree.py', "					text = [htmlescape(a) for a in text]", "					lines = []\n					for a in text:\n						a = htmlescape(a)\n						lines.append(a)\n					text = lines")]),
('same', 'map', [(D+'tree.py', "					text = [htmlescape(a) for a in text]", "					text = list(map(htmlescape, text))")]),
('same', 'import', [(D+'tree.py', "from html import escape as htmlescape", "import html as htmllib\n\n\ndef htmlescape(text):\n	\"\"\"Escape.\"\"\"\n	return htmllib.escape(text)\n\n")]),
('bug', 'noquote', [(D+'tree.py', "					htmlescape(node.label),\n						','.join", "					htmlescape(node.label, quote=False),\n						','.join")]),
('same', 'noquote in text', [(D+'tree.py', "					color, htmlescape(cat)))", "					color, htmlescape(cat, quote=False)))")]),
('bug', 'undo', [(D+'tree.py', "					color, htmlescape(cat)))", "					color, htmlescape(cat).replace('&lt;', '<')))")]),
('same', 'newline', [(D+'tree.py', "					color, htmlescape(cat)))", "					color, htmlescape(cat).replace('&#x27;', '&apos;')))")]),
]
