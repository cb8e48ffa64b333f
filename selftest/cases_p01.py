T = 'discodop/tree.py'
D = 'discodop/'
CASES = [
('bug', 'append no setparent', [(T, """		if isinstance(child, Tree):
			self._setparent(child, len(self))
		super().append(child)

	def extend""", """		super().append(child)

	def extend""")]),
('bug', 'pop no delparent', [(T, """		if isinstance(self[index], Tree):
			self._delparent(self[index], index)
		return super().pop(index)""", """		return super().pop(index)""")]),
('bug', 'del wrong bounds', [(T, """			for i in range(start, stop):
				if isinstance(self[i], Tree):
					self._delparent(self[i], i)
			# Delete""", """			for i in range(start, stop - 1):
				if isinstance(self[i], Tree):
					self._delparent(self[i], i)
			# Delete""")]),
('bug', 'extend delegates', [(T, """		for child in children:
			if isinstance(child, Tree):
				self._setparent(child, len(self))
			super().append(child)""", """		super().extend(children)""")]),
('bug', 'extend del override', [(T, """	def extend(self, children):
		for child in children:
			if isinstance(child, Tree):
				self._setparent(child, len(self))
			super().append(child)

""", '')]),
('bug', 'slice dry run dropped', [(T, """			for i, child in enumerate(value):
				if isinstance(child, Tree):
					self._setparent(child, start + i, dry_run=True)
""", '')]),
('bug', 'slice set only first', [(T, """			for i, child in enumerate(value):
				if isinstance(child, Tree):
					self._setparent(child, start + i)
			# finally""", """			for i, child in enumerate(value):
				if isinstance(child, Tree) and i < stop - start:
					self._setparent(child, start + i)
			# finally""")]),
('bug', 'no parent check', [(T, """		if child._parent is not None:
			raise ValueError('Cannot insert a subtree that already '
					'has a parent.')
""", '')]),
('bug', 'iterator consumed', [(T, """			if not isinstance(value, (list, tuple)):
				value = list(value)
			# Check""", """			# Check""")]),
('bug', 'write elsewhere', [('discodop/treetransforms.py', None, """

def reattach(node, parent):
	node._parent = parent
""")]),
('bug', 'children elsewhere', [('discodop/treetransforms.py', None, """

def reattach(node, parent):
	parent.children.append(node)
""")]),
('bug', 'disown direct', [(T, """		self[:] = []
		return children""", """		self.children = []
		return children""")]),
('bug', 'detach direct', [(T, """		return self.parent.pop(self.parent_index)
""", """		return self.parent.children.pop(self.parent_index)
""")]),
('bug', 'setitem order', [(T, """			# if the value is not changing, do nothing.
			if value is self[index]:
				return
			# Set the new child's parent pointer.
			if isinstance(value, Tree):
				self._setparent(value, index)
			# Remove""", """			# Set the new child's parent pointer.
			if isinstance(value, Tree):
				self._setparent(value, index)
			if value is self[index]:
				return
			# Remove""")]),
('bug', 'delparent conditional', [(T, """		assert self[index] is child and child._parent is self
		child._parent = None""", """		assert self[index] is child
		if child._parent is self and len(self) > 1:
			child._parent = None""")]),
('bug', 'init no parents', [(T, """		for i, child in enumerate(self.children):
			if isinstance(child, Tree):
				self._setparent(child, i)

	def _frozen""", """		for i, child in enumerate(children):
			if isinstance(child, Tree):
				self._setparent(child, i)

	def _frozen""")]),
('bug', 'insert wrong child', [(T, """		if isinstance(child, Tree):
			self._setparent(child, index)
		super().insert(index, child)""", """		if isinstance(child, ParentedTree) and len(child) > 0:
			self._setparent(child, index)
		super().insert(index, child)""")]),
('same', 'helper', [(T, """			for i in range(start, stop):
				if isinstance(self[i], Tree):
					self._delparent(self[i], i)
			# Delete the""", """			self._clearparents(start, stop)
			# Delete the"""), (T, """			for i in range(start, stop):
				if isinstance(self[i], Tree):
					self._delparent(self[i], i)
			# set""", """			self._clearparents(start, stop)
			# set"""), (T, """	def append(self, child):
		if isinstance(""", """	def _clearparents(self, start, stop):
		for i in range(start, stop):
			node = self[i]
			if not isinstance(node, Tree):
				continue
			self._delparent(node, i)

	def append(self, child):
		if isinstance(""")]),
('same', 'helper single', [(T, """		if isinstance(self[index], Tree):
			self._delparent(self[index], index)
		return super().pop(index)""", """		self._release(index)
		return super().pop(index)"""), (T, """		if isinstance(self[index], Tree):
			self._delparent(self[index], index)
		super().remove(child)""", """		self._release(index)
		super().remove(child)"""), (T, """	def append(self, child):
		if isinstance(""", """	def _release(self, i):
		old = self[i]
		if isinstance(old, Tree):
			self._delparent(old, i)

	def append(self, child):
		if isinstance(""")]),
('same', 'loops over slices', [(T, """			for i in range(start, stop):
				if isinstance(self[i], Tree):
					self._delparent(self[i], i)
			# Delete the""", """			for i, child in enumerate(self.children[start:stop], start):
				if isinstance(child, Tree):
					self._delparent(child, i)
			# Delete the"""), (T, """			for i, child in enumerate(value):
				if isinstance(child, Tree):
					self._setparent(child, start + i)
			# finally""", """			pos = start
			for child in value:
				if isinstance(child, Tree):
					self._setparent(child, pos)
			# finally""")]),
('same', 'remove rewritten', [(T, """		index = self.index(child)
		if isinstance(self[index], Tree):
			self._delparent(self[index], index)
		super().remove(child)""", """		pos = self.index(child)
		node = self[pos]
		if isinstance(node, Tree):
			self._delparent(node, pos)
		super().__delitem__(pos)""")]),
('same', 'remove via del', [(T, """		index = self.index(child)
		if isinstance(self[index], Tree):
			self._delparent(self[index], index)
		super().remove(child)""", """		del self[self.index(child)]""")]),
('same', 'extend via append', [(T, """			if isinstance(child, Tree):
				self._setparent(child, len(self))
			super().append(child)""", """			self.append(child)""")]),
('same', 'noop', [(T, """		# Handle negative indexes. Note that if index < -len(self),
""", """		_ = None
		pass
""")]),
('same', 'early return', [(T, """	def append(self, child):
		if isinstance(child, Tree):
			self._setparent(child, len(self))
		super().append(child)""", """	def append(self, child):
		if not isinstance(child, Tree):
			super().append(child)
			return
		self._setparent(child, len(self))
		super().append(child)""")]),
('same', 'value list always', [(T, """			if not isinstance(value, (list, tuple)):
				value = list(value)
			# Check""", """			newchildren = list(value)
			value = newchildren
			# Check""")]),
('same', 'checkduplicates inline', [(T, """			self._checkduplicates(value)
""", """			ids = [id(child) for child in value if isinstance(child, Tree)]
			if len(set(ids)) != len(ids):
				raise ValueError('dup')
""")]),
('same', 'property used', [(T, """		if child._parent is not None:
			raise ValueError('Cannot insert a subtree that already '
					'has a parent.')
		if not dry_run:
			child._parent = self""", """		if child.parent is not None:
			raise ValueError('Cannot insert a subtree that already '
					'has a parent.')
		if dry_run:
			return
		child._parent = self""")]),
('bug', 'nodup', [(D+'tree.py', "			self._checkduplicates(value)\n", "")]),
('bug', 'nodup init', [(D+'tree.py', "		self._checkduplicates(self.children)\n", "")]),
('bug', 'bounds below', [(D+'util.py', "	start = max(0, len(seq) + start) if start < 0 else start\n", "	start = len(seq) + start if start < 0 else start\n")]),
('bug', 'bounds zero stop', [(D+'util.py', "	stop = len(seq) if stop is None else stop\n", "	stop = stop or len(seq)\n")]),
('bug', 'bounds empty', [(D+'util.py', "	if stop > 0:  # Make", "	if stop > 1:  # Make")]),
('bug', 'bounds step', [(D+'util.py', "	elif slice_obj.step not in (None, 1):", "	elif slice_obj.step == 0:")]),
('same', 'bounds start after stop', [(D+'util.py', "	start = min(start, stop)\n", "")]),
('same', 'bounds len', [(D+'util.py', '''		try:  # Avoid calculating len(seq), may be expensive for lazy sequences
			seq[stop - 1]
		except IndexError:
			stop = len(seq)
''', '''		stop = min(stop, len(seq))
''')]),
('same', 'bounds indices', [(D+'util.py', '''	start = 0 if start is None else start
	stop = len(seq) if stop is None else stop
	start = max(0, len(seq) + start) if start < 0 else start
	stop = max(0, len(seq) + stop) if stop < 0 else stop
	if stop > 0:  # Make sure stop doesn't go past the end of the list.
		try:  # Avoid calculating len(seq), may be expensive for lazy sequences
			seq[stop - 1]
		except IndexError:
			stop = len(seq)
''', '''	start, stop, _ = slice_obj.indices(len(seq))
''')]),
('same', 'dups inline', [(D+'tree.py', "			self._checkduplicates(value)\n", '''			seen = set()
			for child in value:
				if isinstance(child, Tree):
					if id(child) in seen:
						raise ValueError('Cannot insert the same subtree twice.')
					seen.add(id(child))
''')]),
]
