D = 'discodop/'
CASES = [
('bug', 'reader forgets lemmas', [(D+'treebank.py', """				(lemmas, (None, 'no', 'add', 'replace', 'between'))):
			if""", """				):
			if""")]),
('bug', 'reader accepts typo', [(D+'treebank.py', "'prune', 'root')),", "'prune', 'root', 'raise')),")]),
('bug', 'reader rejects moveall', [(D+'treebank.py', "(punct, (None, 'no', 'move', 'moveall', ", "(punct, (None, 'no', 'move', ")]),
('bug', 'substring', [(D+'treebank.py', "			if opt not in opts:\n				raise Val", "			if opt is not None and not any(opt.startswith(a or '') for a in opts):\n				raise Val")]),
('bug', 'preset typo', [(D+'treebanktransforms.py', "subConjType,VPfeat,noHead", "subConjType,VPFeat,noHead")]),
('bug', 'case renamed', [(D+'treebanktransforms.py', "	elif name == 'properChunks':", "	elif name == 'properchunks':")]),
('bug', 'fallthrough unknown', [(D+'treebanktransforms.py', "		else:\n			raise ValueError('unrecognized transformation %r' % name)", "		elif not name:\n			raise ValueError('unrecognized transformation %r' % name)")]),
('bug', 'negra else true', [(D+'cli.py', "	if opts.get('--dopestimator', 'rfe') not in (\n			'rfe', 'ewe', 'bon', 'shortest'):", "	if opts.get('--dopestimator', 'rfe') in (\n			'rel', 'mle'):")]),
('bug', 'punct root missing', [(D+'punctuation.py', "	elif method == 'root':", "	elif method == 'raise':")]),
('bug', 'objective not checked', [(D+'parser.py', "			assert stage.objective in (", "			assert stage.dop == 'ostag' or stage.objective in (")]),
('bug', 'reverse name', [(D+'treebanktransforms.py', "		if name == 'FANOUT':\n			removefan", "		if name == 'FANOUTS':\n			removefan")]),
('bug', 'writer fmt', [(D+'treebank.py', "	elif fmt in ('conll', 'mst'):", "	elif fmt == 'mst':")]),
('same', 'checks in helper', [(D+'treebank.py', """			if opt not in opts:
				raise ValueError('Expected one of %r. Got: %r' % (opts, opt))
""", """			self._checkoption(opt, opts)
"""), (D+'treebank.py', "	def itertrees(self, start=None, end=None):\n		\"\"\"\n		:returns: an iterator", """	@staticmethod
	def _checkoption(value, allowed):
		if value in allowed:
			return
		raise ValueError('Expected one of %r. Got: %r' % (allowed, value))

	def itertrees(self, start=None, end=None):
		\"\"\"
		:returns: an iterator""")]),
('same', 'while loop', [(D+'treebank.py', """			if opt not in opts:
				raise ValueError('Expected one of %r. Got: %r' % (opts, opt))
""", """			ok = False
			n = 0
			while n < len(opts):
				if opts[n] == opt:
					ok = True
				n += 1
			if not ok:
				raise ValueError('Expected one of %r. Got: %r' % (opts, opt))
""")]),
('same', 'writer dispatch', [(D+'treebank.py', "	elif fmt in ('conll', 'mst'):", "	elif fmt == 'mst' or fmt == 'conll':"), (D+'treebank.py', "	if fmt == 'bracket':\n		result", "	if not fmt != 'bracket':\n		result")]),
('same', 'expand', [(D+'treebanktransforms.py', """		elif (negratransforms(name, tree, sent)
				or lassytransforms(name, tree, sent)
				or ptbtransforms(name, tree, sent)
				or ftbtransforms(name, tree, sent)):
			pass
		else:
			raise""", """		elif not any(func(name, tree, sent) for func in (
				negratransforms, lassytransforms,
				ptbtransforms, ftbtransforms)):
			raise""")]),
('same', 'expand2', [(D+'treebanktransforms.py', """		elif (negratransforms(name, tree, sent)
				or lassytransforms(name, tree, sent)
				or ptbtransforms(name, tree, sent)
				or ftbtransforms(name, tree, sent)):
			pass
		else:
			raise ValueError('unrecognized transformation %r' % name)""", """		else:
			handled = negratransforms(name, tree, sent)
			if not handled:
				handled = lassytransforms(name, tree, sent)
			if not handled:
				handled = ptbtransforms(name, tree, sent)
			if not handled:
				handled = ftbtransforms(name, tree, sent)
			if not handled:
				raise ValueError('unrecognized transformation %r' % name)""")]),
('same', 'cli', [(D+'cli.py', "	if opts.get('--outputfmt', treebank.WRITERS[0]) not in treebank.WRITERS:", "	outputfmt = opts.get('--outputfmt', treebank.WRITERS[0])\n	if all(outputfmt != a for a in treebank.WRITERS):")]),
]
