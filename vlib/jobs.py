"""Data of parallel jobs: order of parallel lists, job numbers, merging."""
import ast
from .project import Func as Function, dotted, own_nodes, src
from .defs import Defs, Param

MAPS = {'map', 'imap'}
LOGS = {'debug', 'info', 'warning', 'error', 'log', 'exception'}
KEEP = {'list', 'tuple', 'iter', 'enumerate', 'dict', 'OrderedDict'}
MIX = {'sorted', 'reversed', 'set', 'frozenset'}
INPLACE = {'sort', 'reverse', 'shuffle'}


def within(n, root):
	while n is not None:
		if n is root:
			return True
		n = getattr(n, '_parent', None)
	return False


def islog(n):
	"""Whether node is part of a message."""
	while n is not None and not isinstance(n, ast.stmt):
		if isinstance(n, ast.Call):
			if isinstance(n.func, ast.Attribute) and n.func.attr in LOGS:
				return True
			if dotted(n.func) == 'print':
				return True
		n = getattr(n, '_parent', None)
	return False


class Jobs:
	def __init__(self, checker):
		self.c = checker
		self.res = checker.res

	def functions(self, f, node, depth=0):
		"""Functions that an expression refers to."""
		if isinstance(node, ast.IfExp):
			return self.functions(f, node.body, depth) + self.functions(
					f, node.orelse, depth)
		if isinstance(node, ast.Name) and depth < 4:
			res = []
			D = self.c.defs(f)
			for d in D.defs(node):
				if not isinstance(d, Param):
					for s in D.sources(d):
						if s is not d:
							res += self.functions(f, s, depth + 1)
			if res:
				return res
		r = self.c.resolve(f, node)
		return [r] if isinstance(r, Function) else []

	def ismap(self, f, node, depth=0):
		"""Whether this refers to map() or an ordered map of a pool."""
		if isinstance(node, ast.IfExp):
			return self.ismap(f, node.body, depth) or self.ismap(
					f, node.orelse, depth)
		if isinstance(node, ast.Attribute):
			return node.attr in MAPS or node.attr == 'imap_unordered'
		if isinstance(node, ast.Name):
			if node.id == 'map' and 'map' not in f.locals:
				return True
			if depth < 4:
				D = self.c.defs(f)
				return any(self.ismap(f, s, depth + 1)
						for d in D.defs(node) if not isinstance(d, Param)
						for s in D.sources(d) if s is not d)
		return False

	def maps(self, f):
		"""Calls that map a worker function over a list of jobs."""
		for n in own_nodes(f.node):
			if isinstance(n, ast.Call) and len(n.args) >= 2 and (
					not isinstance(n.func, ast.Name) or n.func.id != 'map'
					or 'map' in f.locals) and self.ismap(f, n.func):
				fns = [g for g in self.functions(f, n.args[0])]
				if fns:
					yield n, fns

	# -- parallel lists
	def reorders(self, f, node, seen=None):
		"""Places where the order or number of elements is changed."""
		seen = set() if seen is None else seen
		if node is None or id(node) in seen:
			return set()
		seen.add(id(node))
		D = self.c.defs(f)
		if isinstance(node, ast.Name):
			b = D.bound(node)
			if b is not None:
				return set()
			res = set()
			for d in D.defs(node):
				if isinstance(d, Param):
					continue
				st = D.stmts.get(id(d))
				if isinstance(st, (ast.For, ast.AsyncFor)):
					continue
				for s in D.sources(d):
					if s is not d:
						res |= self.reorders(f, s, seen)
				# x.sort(), x.reverse()
				for u in D.nodes.values():
					p = getattr(u, '_parent', None)
					if d in D.defs(u):
						if isinstance(p, ast.Attribute) and (
								p.attr in INPLACE) and isinstance(
								p._parent, ast.Call):
							res.add(p._parent)
						elif isinstance(p, ast.Call) and (
								dotted(p.func) or '').split('.')[-1] in (
								INPLACE):
							res.add(p)
			return res
		if isinstance(node, ast.Call):
			name = (dotted(node.func) or '').split('.')[-1]
			if name in MIX:
				return {node} | (self.reorders(f, node.args[0], seen)
						if node.args else set())
			if name in KEEP and node.args:
				return self.reorders(f, node.args[0], seen)
			if isinstance(node.func, ast.Attribute) and node.func.attr in (
					'keys', 'values', 'items', 'copy'):
				return self.reorders(f, node.func.value, seen)
			if self.ismap(f, node.func) and len(node.args) >= 2:
				return self.reorders(f, node.args[1], seen)
			return set()
		if isinstance(node, (ast.ListComp, ast.GeneratorExp)):
			res = self.reorders(f, node.generators[0].iter, seen)
			if any(g.ifs for g in node.generators):
				res = res | {node}
			# chunks of another list
			for x in ast.walk(node.elt):
				if isinstance(x, ast.Subscript) and isinstance(
						x.slice, ast.Slice):
					res = res | self.reorders(f, x.value, seen)
			return res
		if isinstance(node, ast.Subscript) and isinstance(
				node.slice, ast.Slice):
			res = self.reorders(f, node.value, seen)
			step = node.slice.step
			if isinstance(step, ast.UnaryOp) or (
					isinstance(step, ast.Constant) and step.value != 1
					and step.value is not None):
				res = res | {node}
			return res
		return set()

	def alignment(self, f):
		"""The results of jobs are combined with the list of elements that the
		jobs were made from, in the same order."""
		D = self.c.defs(f)
		results = {}  # def of list -> map call
		for m, _ in self.maps(f):
			loop = None
			for n in own_nodes(f.node):
				if isinstance(n, ast.For) and self.fromcall(f, n.iter, m):
					loop = n
			if loop is None:
				continue
			for n in ast.walk(loop):
				if isinstance(n, ast.Call) and isinstance(
						n.func, ast.Attribute) and n.func.attr in (
						'extend', 'append') and isinstance(
						n.func.value, ast.Name):
					for d in D.defs(n.func.value):
						results[d] = m
				elif isinstance(n, ast.AugAssign) and isinstance(
						n.target, ast.Name):
					for d in D.defs(n.target) | {n.target}:
						results[d] = m
		if not results:
			return
		for n in own_nodes(f.node):
			pairs = []
			if isinstance(n, ast.Call) and dotted(n.func) == 'zip':
				pairs = n.args
			elif isinstance(n, ast.Return) and isinstance(
					n.value, ast.Tuple):
				pairs = n.value.elts
			names = [a for a in pairs if isinstance(a, ast.Name)
					and any(d in results for d in D.defs(a))]
			for a in names:
				m = next(results[d] for d in D.defs(a) if d in results)
				left = self.reorders(f, m.args[1])
				for b in pairs:
					if b is a or not isinstance(b, (ast.Name, ast.Call,
							ast.Subscript)):
						continue
					self.res.count('parallel lists')
					self.res.sample('parallel lists', f.loc(n))
					right = self.reorders(f, b)
					mine = left | self.reorders(f, a)
					for x in sorted(mine ^ right, key=lambda x: x.lineno):
						self.c.finding('parallel', f, x, 'order or number of'
								' elements is changed for %s but not for %s,'
								' which are combined in line %d' % (
								(src(a), src(b), n.lineno) if x in mine else
								(src(b), src(a), n.lineno)))

	def fromcall(self, f, node, call, depth=0):
		if node is call:
			return True
		if isinstance(node, ast.Call) and dotted(node.func) in (
				'list', 'iter', 'enumerate') and node.args:
			return self.fromcall(f, node.args[0], call, depth)
		if isinstance(node, ast.Name) and depth < 4:
			D = self.c.defs(f)
			return any(self.fromcall(f, s, call, depth + 1)
					for d in D.defs(node) if not isinstance(d, Param)
					for s in D.sources(d) if s is not d)
		return False

	# -- number of jobs
	def procs(self, f, node, depth=0, seen=None):
		"""Return expression with number of processes in this expression."""
		seen = set() if seen is None else seen
		todo = [node]
		D = self.c.defs(f)
		while todo:
			n = todo.pop()
			if isinstance(n, ast.Slice) or isinstance(n, ast.Lambda):
				continue
			if isinstance(n, ast.IfExp):
				todo += [n.body, n.orelse]
				continue
			if isinstance(n, ast.Compare):
				continue
			if isinstance(n, ast.Attribute) and n.attr == 'numproc' or (
					isinstance(n, ast.Name) and n.id == 'numproc'):
				return n
			if isinstance(n, ast.Name) and depth < 4:
				if D.bound(n) is not None:
					continue
				for d in D.defs(n):
					if isinstance(d, Param) or id(d) in seen:
						continue
					seen.add(id(d))
					if isinstance(D.stmts.get(id(d)), (ast.For,
							ast.AsyncFor)):
						continue
					for s in D.sources(d):
						if s is not d and isinstance(s, (ast.BinOp,
								ast.Name, ast.Attribute, ast.Call)) and (
								self.procs(f, s, depth + 1, seen) is not None):
							return n
				continue
			if isinstance(n, ast.Call) and depth and dotted(
					n.func) not in ('int', 'min', 'max', 'round', 'abs'):
				continue
			todo.extend(ast.iter_child_nodes(n))
		return None

	def numbers(self, f):
		"""The number of processes and jobs does not determine results."""
		from .checks.p47 import SUBMIT
		for n in own_nodes(f.node):
			if isinstance(n, ast.Call) and isinstance(
					n.func, ast.Attribute) and n.func.attr in (
					'submit', '_submit', 'apply_async'):
				for a in n.args[1:] + [k.value for k in n.keywords]:
					x = self.procs(f, a)
					if x is not None:
						self.c.finding('numproc', f, x, 'argument %s of a job'
								' depends on the number of processes' % src(a))
		for m, fns in self.maps(f):
			it = m.args[1]
			for x in ast.walk(it):
				if isinstance(x, ast.Slice) and not isinstance(
						it, (ast.ListComp, ast.GeneratorExp)):
					for b in (x.lower, x.upper):
						if b is not None and self.procs(f, b) is not None:
							self.c.finding('numproc', f, x._parent, 'which work'
									' is done depends on the number of'
									' processes: %s' % src(it))
			for pos in self.jobnumbers(f, it):
				for g in fns:
					self.jobnumber(g, pos)
			for g in fns:
				self.interval(g)

	def jobnumbers(self, f, it, depth=0):
		"""Positions in tuples of work with the number of the job."""
		res = set()
		D = self.c.defs(f)
		if isinstance(it, ast.Name) and depth < 4:
			for d in D.defs(it):
				if not isinstance(d, Param):
					for s in D.sources(d):
						if s is not d:
							res |= self.jobnumbers(f, s, depth + 1)
		elif isinstance(it, (ast.ListComp, ast.GeneratorExp)) and isinstance(
				it.elt, ast.Tuple) and len(it.generators) == 1:
			g = it.generators[0]
			idx = None
			if isinstance(g.iter, ast.Call) and dotted(
					g.iter.func) == 'enumerate' and isinstance(
					g.target, ast.Tuple) and isinstance(
					g.target.elts[0], ast.Name):
				idx = g.target.elts[0].id
			for n, e in enumerate(it.elt.elts):
				if isinstance(e, ast.Name) and e.id == idx:
					res.add(n)
				elif isinstance(e, ast.Call) and dotted(e.func) == 'len' or (
						self.procs(f, e) is not None
						and not isinstance(e, ast.Subscript)
						and not (isinstance(e, ast.BinOp))):
					res.add(n)
		return res

	def wrapped(self, g, depth=0):
		"""The function itself, and functions to which it passes its
		parameter."""
		yield g
		if depth < 3:
			for n in own_nodes(g.node):
				if isinstance(n, ast.Call) and n.args and isinstance(
						n.args[0], ast.Name) and g.params and (
						n.args[0].id == g.params[0]):
					r = self.c.resolve(g, n.func)
					if isinstance(r, Function) and r is not g:
						yield from self.wrapped(r, depth + 1)

	def unpacked(self, g):
		"""Names of elements of the first parameter."""
		for n in own_nodes(g.node):
			if isinstance(n, ast.Assign) and isinstance(
					n.value, ast.Name) and g.params and (
					n.value.id == g.params[0]) and isinstance(
					n.targets[0], ast.Tuple):
				yield n, n.targets[0].elts

	def jobnumber(self, g0, pos):
		for g in self.wrapped(g0):
			D = self.c.defs(g)
			self.res.count('workers with job numbers')
			for _, elts in self.unpacked(g):
				if pos >= len(elts) or not isinstance(elts[pos], ast.Name):
					continue
				name = elts[pos].id
				for n in own_nodes(g.node):
					if isinstance(n, ast.Name) and n.id == name and isinstance(
							n.ctx, ast.Load) and not islog(n) and (
							elts[pos] in D.defs(n)):
						if self.onlylogs(n) or self.passedlog(g, n):
							continue
						self.c.finding('jobnumber', g, n, 'the number of the'
								' job or of jobs (%s) is used for something'
								' else than a message' % name)
			for n in own_nodes(g.node):
				if isinstance(n, ast.Subscript) and isinstance(
						n.value, ast.Name) and g.params and (
						n.value.id == g.params[0]) and isinstance(
						n.slice, ast.Constant) and n.slice.value == pos and (
						not islog(n)):
					st = Defs.stmt(n)
					if isinstance(st, ast.Assign) and st.value is n and (
							isinstance(st.targets[0], ast.Name)) and all(
							islog(u) for u in own_nodes(g.node)
							if isinstance(u, ast.Name) and isinstance(
							u.ctx, ast.Load)
							and u.id == st.targets[0].id):
						continue
					self.c.finding('jobnumber', g, n, 'the number of the job'
							' or of jobs (%s) is used for something else than'
							' a message' % src(n))

	def passedlog(self, g, n):
		"""Whether passed to a function that uses it for messages only."""
		call, arg = n._parent, n
		while call is not None and not isinstance(call, (ast.Call, ast.stmt)):
			call, arg = call._parent, call
		if not isinstance(call, ast.Call):
			return False
		r = self.c.resolve(g, call.func)
		if not isinstance(r, Function):
			return False
		names = [p for p, a in zip(r.params, call.args) if a is arg] + [
				k.arg for k in call.keywords if k is arg or k.value is arg]
		return bool(names) and all(islog(u) or self.onlylogs(u)
				for u in own_nodes(r.node) if isinstance(u, ast.Name)
				and isinstance(u.ctx, ast.Load) and u.id in names)

	@staticmethod
	def onlylogs(n):
		"""Whether expression is stored in variable used in messages only, or
		is a test that guards messages only."""
		st = Defs.stmt(n)
		if isinstance(st, ast.If) and within(n, st.test):
			return all(isinstance(s, ast.Pass) or isinstance(s, ast.Expr)
					and islog(s.value) for s in st.body + st.orelse)
		if isinstance(st, ast.Assign) and isinstance(
				st.targets[0], ast.Name) and len(st.targets) == 1:
			root = st
			while not isinstance(root, (ast.FunctionDef, ast.Module)):
				root = root._parent
			return all(islog(u) for u in ast.walk(root)
					if isinstance(u, ast.Name) and isinstance(u.ctx, ast.Load)
					and u.id == st.targets[0].id)
		return False

	def interval(self, g0):
		"""The bounds of an interval are not altered by the worker."""
		for g in self.wrapped(g0):
			self.res.count('workers')
			for st, elts in self.unpacked(g):
				names = {e.id for e in elts if isinstance(e, ast.Name)}
				for n in own_nodes(g.node):
					if isinstance(n, ast.AugAssign) and isinstance(
							n.target, ast.Name) and n.target.id in names and (
							isinstance(n.op, (ast.Add, ast.Sub))) and (
							isinstance(n.value, ast.Constant)
							and isinstance(n.value.value, int)):
						self.c.finding('chunks', g, n, 'the job is changed:'
								' %s' % src(n))
					elif isinstance(n, ast.Assign) and isinstance(
							n.targets[0], ast.Name) and (
							n.targets[0].id in names) and isinstance(
							n.value, ast.BinOp) and isinstance(n.value.op, (
							ast.Add, ast.Sub)) and isinstance(
							n.value.left, ast.Name) and (
							n.value.left.id == n.targets[0].id) and isinstance(
							n.value.right, ast.Constant):
						self.c.finding('chunks', g, n, 'the job is changed:'
								' %s' % src(n))
				for n in own_nodes(g.node):
					if not (isinstance(n, ast.Call)):
						continue
					args = [a for a in n.args if not isinstance(
							a, ast.Starred)]
					used = [a for a in args if isinstance(a, ast.BinOp)
							and isinstance(a.op, (ast.Add, ast.Sub))
							and isinstance(a.left, ast.Name)
							and a.left.id in names
							and isinstance(a.right, ast.Constant)]
					if not islog(n) and len(elts) == 2 and any(isinstance(
							a, ast.Name) and a.id in names for a in args):
						for a in used:
							self.c.finding('chunks', g, a, 'the job is changed:'
									' %s' % src(a))

	# -- merging
	def approxtest(self, f, test):
		"""True (False) if this holds when results are counts (or not)."""
		if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
			t = self.approxtest(f, test.operand)
			return None if t is None else not t
		if isinstance(test, ast.Subscript) and isinstance(
				test.slice, ast.Constant) and test.slice.value == 'approx':
			return True
		if isinstance(test, ast.Name):
			D = self.c.defs(f)
			vals = {self.approxtest(f, s) for d in D.defs(test)
					if not isinstance(d, Param) for s in D.sources(d)
					if s is not d}
			if len(vals) == 1:
				return vals.pop()
		return None

	def guard(self, f, n, stop):
		"""Whether the results are counts according to the tests around n."""
		while n is not stop and n is not None:
			p = n._parent
			if isinstance(p, ast.If) and n is not p.test:
				t = self.approxtest(f, p.test)
				if t is not None:
					return t if n in p.body else not t
			elif isinstance(p, ast.IfExp) and n is not p.test:
				t = self.approxtest(f, p.test)
				if t is not None:
					return t if n is p.body else not t
			for field in ('body', 'orelse'):
				seq = getattr(p, field, None)
				if isinstance(seq, list) and n in seq:
					for s in seq[:seq.index(n)]:
						if isinstance(s, ast.If) and self.approxtest(
								f, s.test) is not None:
							t = self.approxtest(f, s.test)
							if s.body and isinstance(s.body[-1], (
									ast.Continue, ast.Return)):
								return not t
			n = p
		return None

	def merging(self, f):
		"""Counts of different jobs for the same fragment are added."""
		if not any(isinstance(n, ast.Subscript) and isinstance(
				n.slice, ast.Constant) and n.slice.value == 'approx'
				and isinstance(n.ctx, ast.Load) for n in own_nodes(f.node)):
			return
		D = self.c.defs(f)
		for m, fns in self.maps(f):
			for loop in own_nodes(f.node):
				if not isinstance(loop, ast.For) or not self.fromcall(
						f, loop.iter, m):
					continue
				targets = {a.id for a in ast.walk(loop.target)
						if isinstance(a, ast.Name)}
				for n in ast.walk(loop):
					bad = None
					if isinstance(n, ast.Call) and isinstance(
							n.func, ast.Attribute) and n.func.attr in (
							'update', 'setdefault') and isinstance(
							n.func.value, ast.Name) and any(isinstance(
							a, ast.Name) and a.id in targets
							for x in n.args for a in ast.walk(x)):
						# Counter.update() adds
						if any(isinstance(x, ast.Call) and (dotted(
								x.func) or '').split('.')[-1] == 'Counter'
								for d in D.defs(n.func.value)
								if not isinstance(d, Param)
								for v in D.sources(d) for x in ast.walk(v)):
							continue
						bad = n.func.value
					elif isinstance(n, ast.Subscript) and isinstance(
							n.ctx, ast.Store) and isinstance(
							n.value, ast.Name) and isinstance(
							Defs.stmt(n), ast.Assign):
						st = Defs.stmt(n)
						if any(src(x) == src(n) or isinstance(
								x, ast.Call) and isinstance(
								x.func, ast.Attribute)
								and x.func.attr == 'get'
								and src(x.func.value) == src(n.value)
								for x in ast.walk(st.value)):
							continue
						bad = n.value
					if bad is None or all(not isinstance(d, Param)
							and within(d, loop) for d in D.defs(bad)):
						continue
					self.res.count('merged results')
					if self.guard(f, n, f.node) is not False:
						self.c.finding('merge', f, n, 'counts of an earlier job'
								' are overwritten instead of added to: %s'
								% src(n))
