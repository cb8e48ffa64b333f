T = 'discodop/tree.py'
BLK = "		raise ValueError('ImmutableTrees may not be modified')\n"
CASES = [
('bug', 'base order', [(T, "class ImmutableParentedTree(ImmutableTree, ParentedTree):", "class ImmutableParentedTree(ParentedTree, ImmutableTree):")]),
('bug', 'no remove', [(T, """	def remove(self, _):
""" + BLK + """
	def __hash__""", """	def __hash__""")]),
('bug', 'pop only warns', [(T, """	def pop(self, _=None):
""" + BLK, """	def pop(self, index=None):
		if index is not None:
			raise ValueError('ImmutableTrees may not be modified')
		return super().pop()
""")]),
('bug', 'extend empty', [(T, """	def extend(self, _):
""" + BLK, """	def extend(self, children):
		if self._hash is not None:
			raise ValueError('ImmutableTrees may not be modified')
		super().extend(children)
""")]),
('bug', 'new mutator in base', [(T, """	def index(self, child):""", """	def sort(self, key=None):
		self.children.sort(key=key)

	def index(self, child):""")]),
('bug', 'new splice in ParentedTree', [(T, """	def prune(self):""", """	def swap(self):
		self.children[0], self.children[1] = self.children[1], self.children[0]

	def prune(self):""")]),
('same', 'iadd dropped', [(T, """	def __iadd__(self, _):
""" + BLK + "\n", '')]) ,
('bug', 'disctree override', [(T, """	def __repr__(self):
		return "DisctTree""", """	def append(self, child):
		Tree.append(self, child)

	def __repr__(self):
		return "DisctTree""")]),
('same', 'helper', [(T, """	def append(self, _):
""" + BLK, """	def _reject(self):
		raise ValueError('ImmutableTrees may not be modified')

	def append(self, _):
		self._reject()
""")]),
('same', 'alias', [(T, """	def append(self, _):
""" + BLK, """	def append(self, _):
		raise ValueError('ImmutableTrees may not be modified')

	add_child = append
"""), (T, """	def extend(self, _):
""" + BLK, """	extend = append
""")]),
('same', 'module helper', [(T, """	def append(self, _):
""" + BLK, """	def append(self, _):
		_ = None
		reject()
"""), (T, "class Tree(object):", """def reject():
	msg = 'ImmutableTrees may not be modified'
	raise ValueError(msg)


class Tree(object):""")]),
]
