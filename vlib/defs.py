"""Reaching definitions and backward slices within a function."""
import ast
from .flow import Flow


class Param:
	"""The definition of a parameter (or variable of an enclosing scope)."""
	def __init__(self, name):
		self.name = name
		self.lineno = 0

	def __repr__(self):
		return 'param %s' % self.name


class _Defs(Flow):
	track_facts = False
	raise_states = 'both'

	def __init__(self, func, owner):
		self.owner = owner
		super().__init__(func)

	def init(self):
		return {p: frozenset([self.owner.param(p)])
				for p in self.func.params}

	def copy(self, dom):
		return dict(dom)

	def join(self, a, b):
		return {k: a.get(k, frozenset()) | b.get(k, frozenset())
				for k in set(a) | set(b)}

	def on_expr(self, node, dom):
		self.owner.record(node, dom)
		return dom

	def on_assign(self, target, value, dom, stmt):
		for n in ast.walk(target):
			if isinstance(n, ast.Name):
				if isinstance(n.ctx, ast.Load):
					self.owner.record(n, dom)
					continue
				if isinstance(stmt, ast.AugAssign):
					self.owner.record(n, dom, True)
				self.owner.stmts[id(n)] = stmt
				self.owner.keep.append((n, stmt))
				dom[n.id] = frozenset([n])
		return dom

	def on_branch(self, test, truth, dom):
		self.owner.record(test, dom)
		return dom

	def on_stmt(self, node, dom):
		self.owner.record(node, dom)
		return dom

	def on_return(self, node, ds):
		if node is not None and getattr(node, 'value', None) is not None:
			for _, dom in ds:
				self.owner.record(node.value, dom)

	def on_def(self, node, dom):
		# free variables of nested functions
		for n in ast.walk(node):
			if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
				self.owner.record(n, dom)
		return dom


class Defs:
	"""Definitions that reach each use of a variable in a function."""
	def __init__(self, func):
		self.func = func
		self.uses = {}  # id(Name) -> set of defs
		self.params = {}
		self.ignore = ()  # tests that do not matter for slices
		self.stmts = {}  # id(def) -> statement
		self.keep = []  # ensure that id of nodes remains unique
		self.nodes = {}
		self.flow = _Defs(func, self)
		self.flow.run()
		self.mutations = {}  # name -> [(statement node, expressions)]
		for n in ast.walk(func.node):
			if isinstance(n, ast.Subscript) and isinstance(
					n.ctx, ast.Store):
				base = n.value
				while isinstance(base, (ast.Subscript, ast.Attribute)):
					base = base.value
				st = self.stmt(n)
				if isinstance(base, ast.Name) and hasattr(st, 'value'):
					self.mutations.setdefault(base.id, []).append(
							(base, [n.slice, st.value], st))
			elif isinstance(n, ast.Call) and isinstance(
					n.func, ast.Attribute) and n.func.attr in (
					'append', 'extend', 'update', 'add', 'insert',
					'appendleft', 'setdefault', 'writerow', 'write'):
				base = n.func.value
				while isinstance(base, (ast.Subscript, ast.Attribute)):
					base = base.value
				if isinstance(base, ast.Name):
					self.mutations.setdefault(base.id, []).append((base,
							list(n.args) + [k.value for k in n.keywords],
							self.stmt(n)))

	def param(self, name):
		if name not in self.params:
			self.params[name] = Param(name)
		return self.params[name]

	@staticmethod
	def stmt(n):
		while not isinstance(n, ast.stmt):
			n = n._parent
		return n

	def record(self, node, dom, store=False):
		for n in ast.walk(node):
			# NB: skip nodes made during the analysis, whose id is not unique
			if isinstance(n, ast.Name) and (store or isinstance(
					n.ctx, ast.Load)) and hasattr(n, '_parent'):
				self.nodes[id(n)] = n
				self.uses[id(n)] = self.uses.get(
						id(n), frozenset()) | dom.get(n.id, frozenset())

	def defs(self, name):
		"""Definitions that reach this ast.Name node."""
		return self.uses.get(id(name), frozenset())

	def bound(self, name):
		"""Whether name is bound by a comprehension or lambda around it."""
		n = name
		while n is not self.func.node and n is not None:
			p = getattr(n, '_parent', None)
			if isinstance(p, (ast.ListComp, ast.SetComp, ast.DictComp,
					ast.GeneratorExp)):
				for g in p.generators:
					if any(isinstance(a, ast.Name) and a.id == name.id
							for a in ast.walk(g.target)) and not (
							n is p.generators[0] and self.inside(
							name, p.generators[0].iter)):
						return g
			elif isinstance(p, ast.Lambda):
				a = p.args
				if name.id in [x.arg for x in a.args + a.kwonlyargs
						+ a.posonlyargs]:
					return p
			n = p
		return None

	@staticmethod
	def inside(n, root):
		return any(a is n for a in ast.walk(root))

	def sources(self, d):
		"""Expressions that determine the value of definition d."""
		st = self.stmts.get(id(d))
		if st is None:
			return []
		if isinstance(st, ast.Assign):
			for t in st.targets:
				if isinstance(t, (ast.Tuple, ast.List)) and isinstance(
						st.value, (ast.Tuple, ast.List)) and len(
						t.elts) == len(st.value.elts):
					for a, b in zip(t.elts, st.value.elts):
						if a is d:
							return [b]
			return [st.value]
		if isinstance(st, ast.AnnAssign):
			return [st.value] if st.value is not None else []
		if isinstance(st, ast.AugAssign):
			return [st.value, d]
		if isinstance(st, (ast.For, ast.AsyncFor)):
			return [st.iter]
		if isinstance(st, (ast.With, ast.AsyncWith)):
			return [i.context_expr for i in st.items]
		if isinstance(st, ast.NamedExpr):
			return [st.value]
		return []

	def control(self, node):
		"""Conditions that decide whether this node is executed."""
		res = []
		n = node
		while n is not self.func.node:
			p = getattr(n, '_parent', None)
			if p is None:
				break
			if isinstance(p, (ast.If, ast.While)) and n is not p.test:
				res.append(p.test)
			elif isinstance(p, ast.IfExp) and n is not p.test:
				res.append(p.test)
			for field in ('body', 'orelse', 'finalbody'):
				seq = getattr(p, field, None)
				if isinstance(seq, list) and n in seq:
					for s in seq[:seq.index(n)]:
						for x in ast.walk(s):
							if isinstance(x, ast.If) and any(isinstance(
									y, (ast.Continue, ast.Break, ast.Return))
									for z in x.body + x.orelse
									for y in ast.walk(z)):
								res.append(x.test)
			n = p
		return [a for a in res if id(a) not in self.ignore]

	def slice(self, exprs, cut=lambda name, defs: False, seen=None):
		"""Return (definitions, names) that determine these expressions.

		:param cut: given a Name node and its definitions, return True to not
			follow it further."""
		todo = list(exprs)
		visited, leaves = set(), set()
		while todo:
			e = todo.pop()
			if id(e) in visited:
				continue
			visited.add(id(e))
			for n in ast.walk(e):
				if not isinstance(n, ast.Name):
					continue
				ds = self.uses.get(id(n))
				if ds is None:
					continue
				if self.bound(n) is not None or cut(n, ds):
					continue
				for d in ds:
					if isinstance(d, Param):
						leaves.add((d, n))
						continue
					if ('d', id(d)) in visited:
						continue
					visited.add(('d', id(d)))
					leaves.add((d, n))
					todo.extend(self.sources(d))
					todo.extend(self.control(self.stmts[id(d)]))
				for base, args, st in self.mutations.get(n.id, ()):
					if self.defs(base) & ds and ('m', id(base)) not in visited:
						visited.add(('m', id(base)))
						todo.extend(args)
						todo.extend(self.control(st))
		return leaves
