D = 'discodop/'
CASES = [
('bug', 'keyword renamed at one call', [(D+'runexp.py', "binarizetree(t, binarization, relationalrealizational)", "binarizetree(t, binarization, relational=relationalrealizational)")]),
('bug', 'parameter added without default', [(D+'treetransforms.py', "def mergediscnodes(tree):", "def mergediscnodes(tree, sep):")]),
('bug', 'wrong module attribute', [(D+'runexp.py', "lexicon.externaltagging(", "lexicon.externaltags(")]),
('bug', 'missing import', [(D+'treetransforms.py', "		'canonicalizealpino', ", "		'canonicalizealpino',")] + [(D+'parser.py', "from .treetransforms import binarizetree, binarize, splitdiscnodes", "from .treetransforms import binarizetrees, binarize, splitdiscnodes")]),
('bug', 'undefined name', [(D+'treesearch.py', "		self.numproc = numproc or cpu_count()\n", "		self.numproc = numproc or cpucount()\n")]),
('bug', 'method signature', [(D+'parser.py', "	def noparse(self, stage, sent, tags, lastsuccessfulparse, n):", "	def noparse(self, stage, sent, tags, lastsuccessfulparse):")]),
('bug', 'attribute of self', [(D+'treesearch.py', "concurrent.futures.as_completed(", "self.pools.as_completed(")]),
('bug', 'format', [(D+'runexp.py', "'%d test sentences after length restriction <= %d',", "'%d test sentences after length restriction <= %d (%s)',")]),
('bug', 'format tuple', [(D+'gen.py', """print("[%s] %s + %s = " % (rule.prob * p1 * p2, l1, l2), end='')""", """print("[%s] %s + %s = " % (rule.prob * p1 * p2, l1), end='')""")]),
('bug', 'library call', [('web/treesearch.py', "htmlescape(str(err).splitlines()[-1])", "htmlescape(str(err).splitlines()[-1], quotes=True)")]),
('bug', 'tree method', [(D+'treebanktransforms.py', "tree.subtrees(lambda n: n and isinstance(n[0], int)):", "tree.subtree(lambda n: n and isinstance(n[0], int)):")]),
('same', 'keyword arguments', [(D+'runexp.py', "binarizetree(t, binarization, relationalrealizational)", "binarizetree(tree=t, binarization=binarization, relationalrealizational=relationalrealizational)")]),
('same', 'parameter added with default', [(D+'treetransforms.py', "def mergediscnodes(tree):", "def mergediscnodes(tree, sep=None):")]),
('same', 'alias import', [(D+'gen.py', "import sys\n", "import os.path as path\nimport sys\nX = path.join('a', path.basename('b')).casefold()\n")] ) ,
('same', 'helper', [(D+'gen.py', "def compose(rule, left", "def _helper(*args, **kwargs):\n	return len(args) + kwargs.get('x', 0)\n\n\ndef compose(rule, left"), (D+'gen.py', "	result = []\n", "	_helper(1, 2, x=3)\n	result = []\n")]),
]
_G, _E, _C, _TD = 'discodop/grammar.py', 'discodop/eval.py', 'discodop/cli.py', 'discodop/treedist.py'
_F = 'discodop/fragments.py'
CASES += [
('bug', 'format values', [(_E, "print('leaf-ancestor score: %6.3g' % self.lascore)", "print('leaf-ancestor score: {:6.3g} {}'.format(self.lascore))")]),
('same', 'format values', [(_E, "print('leaf-ancestor score: %6.3g' % self.lascore)", "print('leaf-ancestor score: {:6.3g}'.format(self.lascore))")]),
('bug', 'format types', [(_C, "	print('%s: transformed %d trees' % (args[0] if args else 'stdin', cnt),", "	print('%s: transformed %d trees' % (cnt, args[0] if args else 'stdin'),")]),
('bug', 'slots', [(_TD, "	__slots__ = ('distance', 'matched', 'editscript')", "	__slots__ = ('distance', 'match', 'editscript')")]),
('bug', 'initializer arguments', [(_F, "initargs=(trees, list(sents), None, None, params))", "initargs=(trees, list(sents), None, None, params, None))")]),
('bug', 'key function', [(_TD, "class EditStats(object):", "def bysize(a, b):\n	return a[0] - b[0]\n\n\ndef ordered(x):\n	return sorted(x, key=bysize)\n\n\nclass EditStats(object):")]),
('same', 'key function', [(_TD, "class EditStats(object):", "def bysize(a, b=0):\n	return a[0] - b\n\n\ndef ordered(x):\n	return sorted(x, key=bysize)\n\n\nclass EditStats(object):")]),
('bug', 'property called', [('discodop/punctuation.py', "del node[child.parent_index]", "del node[child.parent_index()]")]),
]
