T = 'discodop/tree.py'
D = 'discodop/'
CONV = """			children = [cls.convert(child) for child in val]
			tree = cls(val.label, children)
			tree.source = None if val.source is None else val.source[:]
			tree.type = val.type
"""
CASES = [
('bug', 'source shared', [(T, "None if val.source is None else val.source[:]", "val.source")]),
('bug', 'same type returned', [(T, "			children = [cls.convert(child) for child in val]\n", "			if type(val) is cls:\n				return val\n			children = [cls.convert(child) for child in val]\n")]),
('bug', 'preterminals shared', [(T, "[cls.convert(child) for child in val]", "[cls.convert(child) if isinstance(child, Tree) and child and isinstance(child[0], Tree) else child for child in val]")]),
('bug', 'type lost', [(T, "			tree.type = val.type\n", "")]),
('bug', 'deep copy shallow', [(T, "		return self.__class__.convert(self)\n", "		return self.__class__(self.label, [c.copy() if isinstance(c, Tree) else c for c in self])\n")]),
('bug', 'freeze self', [(T, "		frozen_class = self._frozen_class()\n", "		frozen_class = self._frozen_class()\n		if len(self) == 0:\n			return self\n")]),
('bug', 'init shares', [(T, "		self.children = list(children)\n", "		self.children = children if isinstance(children, list) else list(children)\n")]),
('bug', 'prepare', [(D+'treedist.py', "	tree = Tree.convert(tree)\n", "	tree = tree.copy() if includeterms else Tree.convert(tree)\n")]),
('bug', 'decorate', [(D+'grammar.py', "			dectree = Tree.convert(tree.copy(True))\n", "			dectree = Tree(tree.label, tree)\n")]),
('bug', 'extractinit', [(D+'grammar.py', "			else Tree.convert(foot) if a is root\n", "			else foot if a is root\n")]),
('same', 'explicit loop', [(T, CONV, """			tree = cls(val.label, [])
			children = []
			for child in val:
				if isinstance(child, Tree):
					child = cls.convert(child)
				children.append(child)
			tree = cls(val.label, children)
			if val.source is not None:
				tree.source = list(val.source)
			tree.type = val.type
""")]),
('same', 'inverted', [(T, "		if isinstance(val, Tree):\n			children = [cls", "		if not isinstance(val, Tree):\n			return val\n		else:\n			children = [cls")]),
('same', 'setattr', [(T, "			tree.type = val.type\n", "			for attr in ('type', ):\n				setattr(tree, attr, getattr(val, attr))\n")]),
('same', 'cond children', [(T, "[cls.convert(child) for child in val]", "[cls.convert(child) if isinstance(child, Tree) else child for child in val]")]),
('same', 'helper', [(T, "			tree.source = None if val.source is None else val.source[:]\n			tree.type = val.type\n", "			cls._annotations(val, tree)\n"), (T, "	def copy(self, deep=False):\n", """	@staticmethod
	def _annotations(old, new):
		new.source = None if old.source is None else old.source[:]
		new.type = old.type

	def copy(self, deep=False):
""")]),
('same', 'copy else', [(T, "		if not deep:\n			return self.__class__(self.label, self)\n		return self.__class__.convert(self)\n", "		cls = self.__class__\n		if deep:\n			result = cls.convert(self)\n		else:\n			result = cls(self.label, self)\n		return result\n")]),
('same', 'init', [(T, "		self.children = list(children)\n", "		children = [child for child in children]\n		self.children = children\n")]),
('same', 'extractinit loop', [(D+'grammar.py', """	return Tree(tree.label, [
			a if isinstance(a, int)
			else Tree.convert(foot) if a is root
			else extractinit(a, root, foot)
			for a in tree])
""", """	result = []
	for a in tree:
		if isinstance(a, int):
			result.append(a)
		elif a is root:
			result.append(Tree.convert(foot))
		else:
			result.append(extractinit(a, root, foot))
	return Tree(tree.label, result)
""")]),
('bug', 'class of children', [(D+'tree.py', "			children = [cls.convert(child) for child in val]\n", "			children = [child.convert(child) if isinstance(child, Tree) else child for child in val]\n")]),
('bug', 'class of copy', [(D+'tree.py', "		return self.__class__.convert(self)\n", "		return Tree.convert(self)\n")]),
('bug', 'frozen class', [(D+'tree.py', "		return ImmutableParentedTree\n", "		return ImmutableTree\n")]),
('same', 'class var', [(D+'tree.py', "		return self.__class__.convert(self)\n", "		mycls = type(self)\n		return mycls.convert(self)\n")]),
('same', 'frozen inline', [(D+'tree.py', "			newcopy = frozen_class.convert(self)\n		else", "			newcopy = self._frozen_class().convert(self)\n		else")]),
]
