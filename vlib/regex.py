"""Properties of regular expressions, decided on their syntax tree."""
import re
try:
	from re import _parser as sre_parse, _constants as sre
except ImportError:  # Python < 3.11
	import sre_parse
	import sre_constants as sre

MAXPOS = 1200
SAMPLES = None


class Pattern:
	def __init__(self, text, flags=0):
		self.text, self.flags = text, flags
		self.error = None
		self.groups, self.names, self.tree = 0, {}, None
		try:
			re.compile(text, flags)
			self.tree = sre_parse.parse(text, flags)
		except (re.error, OverflowError, ValueError, TypeError) as err:
			self.error = str(err)
			return
		state = self.tree.state
		self.groups = state.groups - 1
		self.names = dict(state.groupdict)
		self.flags = state.flags

	def hasgroup(self, g):
		if isinstance(g, str):
			return g in self.names
		return 0 <= g <= self.groups

	def index(self, g):
		return self.names[g] if isinstance(g, str) else g

	def canavoid(self, groups, present=(), absent=()):
		"""Whether there is a match in which none of groups participate,
		where groups in present do, and groups in absent do not."""
		groups = frozenset(self.index(g) for g in groups)
		if 0 in groups:
			return False
		every = self.participation()
		if every is None:
			return avoid(self.tree, groups)
		present = frozenset(self.index(g) for g in present) - {0}
		absent = frozenset(self.index(g) for g in absent)
		return any(not a & groups and present <= a and not a & absent
				for a in every)

	def participation(self):
		"""Sets of groups that can participate in a match together."""
		if not hasattr(self, '_part'):
			try:
				self._part = participation(self.tree)
			except TooBig:
				self._part = None
		return self._part

	def nullable(self):
		"""Whether the pattern matches at every position of any string."""
		return nullable(self.tree)

	def __repr__(self):
		return repr(self.text)


def nullable(tree):
	return all(nullable1(op, av) for op, av in tree)


def nullable1(op, av):
	"""Matches the empty string regardless of context."""
	if op in (sre.MAX_REPEAT, sre.MIN_REPEAT) or str(op) == (
			'POSSESSIVE_REPEAT'):
		return av[0] == 0 or nullable(av[2])
	if op is sre.SUBPATTERN:
		return nullable(av[3])
	if op is sre.BRANCH:
		return any(nullable(a) for a in av[1])
	if str(op) == 'ATOMIC_GROUP':
		return nullable(av)
	return False  # NB: assertions may fail


def hasgroup(tree, groups):
	return not avoid(tree, groups) or any(True for g in allgroups(tree)
			if g in groups)


def allgroups(tree):
	for op, av in tree:
		if op is sre.SUBPATTERN:
			if av[0] is not None:
				yield av[0]
			yield from allgroups(av[3])
		elif op in (sre.MAX_REPEAT, sre.MIN_REPEAT) or str(op) == (
				'POSSESSIVE_REPEAT'):
			yield from allgroups(av[2])
		elif op is sre.BRANCH:
			for a in av[1]:
				yield from allgroups(a)
		elif op in (sre.ASSERT, sre.ASSERT_NOT):
			yield from allgroups(av[1])
		elif str(op) == 'ATOMIC_GROUP':
			yield from allgroups(av)
		elif op is sre.GROUPREF_EXISTS:
			for a in av[1:]:
				if a is not None:
					yield from allgroups(a)


def avoid(tree, groups):
	return all(avoid1(op, av, groups) for op, av in tree)


def avoid1(op, av, groups):
	if op is sre.SUBPATTERN:
		return av[0] not in groups and avoid(av[3], groups)
	if op in (sre.MAX_REPEAT, sre.MIN_REPEAT) or str(op) == (
			'POSSESSIVE_REPEAT'):
		if av[0] == 0 and not (op is sre.MAX_REPEAT and av[1] > 0
				and nullable(av[2])):
			return True
		return avoid(av[2], groups)
	if op is sre.BRANCH:
		return any(avoid(a, groups) for a in av[1])
	if op is sre.ASSERT:
		return avoid(av[1], groups)
	if str(op) == 'ATOMIC_GROUP':
		return avoid(av, groups)
	return True


def subtree(tree, n):
	"""Syntax tree of a group."""
	for op, av in tree:
		if op is sre.SUBPATTERN:
			if av[0] == n:
				return av[3]
			r = subtree(av[3], n)
		elif op is sre.BRANCH:
			r = next((x for x in (subtree(a, n) for a in av[1])
					if x is not None), None)
		elif op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
			r = subtree(av[2], n)
		else:
			continue
		if r is not None:
			return r
	return None


class TooBig(Exception):
	pass


def participation(tree):
	res = {frozenset()}
	for op, av in tree:
		new = participation1(op, av)
		if new != {frozenset()}:
			res = {a | b for a in res for b in new}
		if len(res) > 512:
			raise TooBig
	return res


def participation1(op, av):
	if op is sre.SUBPATTERN:
		res = participation(av[3])
		return {a | {av[0]} for a in res} if av[0] is not None else res
	if op in (sre.MAX_REPEAT, sre.MIN_REPEAT) or str(op) == (
			'POSSESSIVE_REPEAT'):
		one = res = participation(av[2])
		if av[1] > 1:
			for _ in range(4):
				res = res | {a | b for a in res for b in one}
				if len(res) > 512:
					raise TooBig
		if av[0] == 0 and not (op is sre.MAX_REPEAT and av[1] > 0
				and nullable(av[2])):
			res = res | {frozenset()}
		return res
	if op is sre.BRANCH:
		return set().union(*(participation(a) for a in av[1]))
	if op is sre.ASSERT:
		return participation(av[1])
	if str(op) == 'ATOMIC_GROUP':
		return participation(av)
	return {frozenset()}


# -- ambiguity: Glushkov automaton with multiplicities
class Auto:
	def __init__(self, pattern):
		self.chars = []  # position -> set of sample characters
		self.follow = []  # position -> {position: multiplicity}
		self.flags = pattern.flags
		self.bytes = isinstance(pattern.text, bytes)
		self.alphabet = self.samples(pattern)
		self.build(pattern.tree)

	def samples(self, pattern):
		chars = {0, 10, 32, 48, 65, 95, 97, 0x80 if self.bytes else 0x4e00}
		def visit(tree):
			for op, av in tree:
				if op in (sre.LITERAL, sre.NOT_LITERAL):
					chars.update((av, av + 1))
				elif op is sre.IN:
					visit(av)
				elif op is sre.RANGE:
					chars.update((max(av[0] - 1, 0), av[0], av[1],
							av[1] + 1))
				elif op is sre.SUBPATTERN:
					visit(av[3])
				elif op in (sre.MAX_REPEAT, sre.MIN_REPEAT) or str(op) == (
						'POSSESSIVE_REPEAT'):
					visit(av[2])
				elif op is sre.BRANCH:
					for a in av[1]:
						visit(a)
		visit(pattern.tree)
		top = 255 if self.bytes else 0x10ffff
		return sorted(c for c in chars if c <= top)

	def new(self, chars):
		if len(self.chars) >= MAXPOS:
			raise TooBig
		self.chars.append(frozenset(chars))
		self.follow.append({})
		return len(self.chars) - 1

	def charset(self, op, av):
		ignore = self.flags & re.IGNORECASE
		if op is sre.LITERAL:
			c = chr(av)
			return {a for a in self.alphabet if a == av or (ignore
					and chr(a).lower() == c.lower())}
		if op is sre.NOT_LITERAL:
			return set(self.alphabet) - self.charset(sre.LITERAL, av)
		if op is sre.ANY:
			return set(self.alphabet) - (set() if self.flags & re.DOTALL
					else {10})
		if op is sre.IN:
			res, neg = set(), False
			for o, a in av:
				if o is sre.NEGATE:
					neg = True
				else:
					res |= self.charset(o, a)
			return set(self.alphabet) - res if neg else res
		if op is sre.RANGE:
			return {a for a in self.alphabet if av[0] <= a <= av[1]
					or ignore and (av[0] <= ord(chr(a).swapcase()[0])
					<= av[1])}
		if op is sre.CATEGORY:
			name = str(av)
			cls = ('\\d' if 'DIGIT' in name else '\\s' if 'SPACE' in name
					else '\\w')
			rx = re.compile(cls, re.ASCII if self.flags & re.ASCII else 0)
			res = {a for a in self.alphabet if rx.match(chr(a))}
			return set(self.alphabet) - res if 'NOT' in name else res
		return None

	def build(self, tree):
		self.first, self.last, self.empty = self.seq(tree)

	def connect(self, last, first):
		for p, m in last.items():
			for q, n in first.items():
				self.follow[p][q] = min(2, self.follow[p].get(q, 0) + m * n)

	def seq(self, tree):
		first, last, empty = {}, {}, 1
		for op, av in tree:
			f, l, e = self.one(op, av)
			self.connect(last, f)
			if empty:
				first = add(first, f)
			last = add(l, last) if e else l
			empty = empty and e
		return first, last, empty

	def one(self, op, av):
		cs = self.charset(op, av)
		if cs is not None:
			p = self.new(cs)
			return {p: 1}, {p: 1}, 0
		if op is sre.SUBPATTERN:
			return self.seq(av[3])
		if str(op) == 'ATOMIC_GROUP':
			return self.seq(av)
		if op is sre.BRANCH:
			first, last, empty = {}, {}, 0
			for a in av[1]:
				f, l, e = self.seq(a)
				first, last = add(first, f), add(last, l)
				empty = empty or e
			return first, last, empty
		if op in (sre.MAX_REPEAT, sre.MIN_REPEAT) or str(op) == (
				'POSSESSIVE_REPEAT'):
			lo, hi, body = av
			star = hi is sre.MAXREPEAT or hi > 30
			first, last, empty = {}, {}, 1
			copies = min(lo, 3) if star else min(hi, 30)
			for n in range(copies):
				f, l, e = self.seq(body)
				self.connect(last, f)
				if empty:
					first = add(first, f)
				opt = e or n >= lo
				last = add(l, last) if opt else l
				empty = empty and opt
			if star:
				f, l, e = self.seq(body)
				self.connect(l, f)
				self.connect(last, f)
				if empty:
					first = add(first, f)
				last = add(l, last)
			return first, last, empty
		# assertions and references: match the empty string
		return {}, {}, 1

	def exponential(self):
		"""A position at which the automaton is exponentially ambiguous."""
		n = len(self.chars)
		reach = scc(n, lambda p: self.follow[p])
		for p in range(n):
			for q, m in self.follow[p].items():
				if m > 1 and reach[p] == reach[q] and (p != q
						or q in self.follow[p]):
					return p
		# two different paths from (p, p) to (p, p)
		comps = {}
		for p in range(n):
			comps.setdefault(reach[p], []).append(p)
		for comp in comps.values():
			inside = set(comp)
			if len(comp) < 2 or len(comp) > 250:
				continue
			succ = {}
			for p in comp:
				for q in comp:
					if p > q or not self.chars[p] & self.chars[q]:
						continue
					succ[p, q] = set()
			for p, q in succ:
				for a in self.follow[p]:
					for b in self.follow[q]:
						if a in inside and b in inside and (
								self.chars[a] & self.chars[b]):
							succ[p, q].add((a, b) if a <= b else (b, a))
			keys = list(succ)
			num = {k: i for i, k in enumerate(keys)}
			ids = scc(len(keys), lambda i: [num[k] for k in succ[keys[i]]])
			diag = {ids[num[k]] for k in keys if k[0] == k[1]}
			for k in keys:
				if k[0] != k[1] and ids[num[k]] in diag:
					return k[0]
		return None


def add(a, b):
	res = dict(a)
	for k, v in b.items():
		res[k] = min(2, res.get(k, 0) + v)
	return res


def scc(n, succ):
	"""Component number for each node (Tarjan, iterative)."""
	index, low, comp = [None] * n, [0] * n, [None] * n
	stack, counter = [], 0
	ncomp = 0
	for root in range(n):
		if index[root] is not None:
			continue
		work = [(root, iter(list(succ(root))))]
		index[root] = low[root] = counter
		counter += 1
		stack.append(root)
		while work:
			v, it = work[-1]
			for w in it:
				if index[w] is None:
					index[w] = low[w] = counter
					counter += 1
					stack.append(w)
					work.append((w, iter(list(succ(w)))))
					break
				elif comp[w] is None:
					low[v] = min(low[v], index[w])
			else:
				work.pop()
				if work:
					u = work[-1][0]
					low[u] = min(low[u], low[v])
				if low[v] == index[v]:
					while True:
						w = stack.pop()
						comp[w] = ncomp
						if w == v:
							break
					ncomp += 1
	return comp


def exponential(pattern):
	"""True, False, or None (too large)."""
	try:
		return Auto(pattern).exponential() is not None
	except (TooBig, RecursionError):
		return None
