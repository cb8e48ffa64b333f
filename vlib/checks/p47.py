"""Parallel processing gives the same results as sequential processing."""
import ast
from ..project import Func as Function, dotted, own_nodes, src
from ..defs import Defs, Param
from ..jobs import Jobs, islog

TITLE = 'parallel processing gives the same results as sequential processing'
SOURCES = {'imap_unordered', 'as_completed'}
ORDERED = {'sorted', 'set', 'frozenset', 'sum', 'len', 'min', 'max', 'any',
		'all', 'Counter', 'collections.Counter'}
PASS = {'enumerate', 'zip', 'list', 'tuple', 'iter', 'map', 'filter',
		'reversed', 'chain', 'islice', 'dict', 'OrderedDict', 'chain.from_iterable',
		'itertools.chain', 'itertools.islice', 'itertools.chain.from_iterable',
		'collections.OrderedDict'}
APPEND = {'append', 'extend', 'insert', 'appendleft', 'extendleft'}
WRITE = {'write', 'writelines', 'writerow', 'writerows'}
SUBMIT = {'submit', '_submit', 'apply_async', 'map_async', 'imap', '_map',
		'imap_unordered', 'starmap'}


def within(n, root):
	while n is not None:
		if n is root:
			return True
		n = getattr(n, '_parent', None)
	return False


class Checker:
	def __init__(self, project, res):
		self.project, self.res = project, res
		self.unordered = set()  # functions that return results in any order
		self.cache = {}

	def defs(self, f):
		if f.id not in self.cache:
			self.cache[f.id] = Defs(f)
		return self.cache[f.id]

	def finding(self, rule, f, node, msg):
		self.res.finding(rule, f.id, f.loc(node), msg)

	def resolve(self, f, node):
		d = dotted(node)
		if d is None:
			return None
		if d.startswith('self.') and d.count('.') == 1:
			owner = f
			while owner is not None and owner.cls is None:
				owner = owner.parent
			if owner is not None:
				m = owner.cls.find(d[5:])
				if m is not None:
					return m
		return self.project.resolve_name(f.module, d, f)

	# -- order
	def issource(self, f, node, depth=0):
		"""Whether calling this gives results in order of completion."""
		if isinstance(node, ast.Attribute) and node.attr in SOURCES:
			return True
		if isinstance(node, ast.Name) and node.id in SOURCES:
			return True
		r = self.resolve(f, node)
		if isinstance(r, Function) and r.id in self.unordered:
			return True
		if isinstance(node, ast.Name) and depth < 4:
			D = self.defs(f)
			for d in D.defs(node):
				if isinstance(d, Param):
					continue
				for s in D.sources(d):
					if isinstance(s, (ast.Name, ast.Attribute)) and (
							self.issource(f, s, depth + 1)):
						return True
					if isinstance(s, ast.IfExp) and any(self.issource(
							f, b, depth + 1) for b in (s.body, s.orelse)
							if isinstance(b, (ast.Name, ast.Attribute))):
						return True
		return False

	def isunordered(self, f, node, tainted, depth=0):
		if depth > 12 or node is None:
			return False

		def rec(n):
			return self.isunordered(f, n, tainted, depth + 1)

		if isinstance(node, ast.Call):
			name = dotted(node.func)
			if self.issource(f, node.func):
				return True
			if name in ORDERED:
				return False
			if name in PASS:
				return any(rec(a) for a in node.args)
			if isinstance(node.func, ast.Attribute):
				if node.func.attr in ('join', 'from_iterable'):
					return any(rec(a) for a in node.args)
				if node.func.attr in ('items', 'values', 'keys', 'copy'):
					return rec(node.func.value)
			return False
		if isinstance(node, ast.Name):
			D = self.defs(f)
			if D.bound(node) is not None:
				return False
			ds = D.defs(node)
			if any(d in tainted for d in ds):
				return True
			if not ds and f.parent is not None:
				# a set of jobs made by the enclosing function
				return any(isinstance(x, ast.Assign) and isinstance(
						x.value, ast.SetComp) and any(isinstance(t, ast.Name)
						and t.id == node.id for t in x.targets)
						and self.isunordered(f.parent, x.value, set())
						for x in own_nodes(f.parent.node))
			for d in ds:
				if isinstance(d, Param):
					continue
				st = D.stmts[id(d)]
				if isinstance(st, (ast.For, ast.AsyncFor)):
					continue
				if isinstance(st, ast.Assign) and not any(
						t is d for t in st.targets) and not any(
						isinstance(t, (ast.Tuple, ast.List)) and isinstance(
						st.value, (ast.Tuple, ast.List))
						for t in st.targets):
					continue  # part of a result
				if any(s is not d and rec(s) for s in D.sources(d)):
					return True
			return False
		if isinstance(node, ast.SetComp):
			return any(isinstance(c, ast.Call) and isinstance(
					c.func, ast.Attribute) and c.func.attr in SUBMIT
					for c in ast.walk(node.elt))
		if isinstance(node, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
			return any(rec(g.iter) for g in node.generators)
		if isinstance(node, ast.IfExp):
			return rec(node.body) or rec(node.orelse)
		if isinstance(node, ast.Subscript):
			return isinstance(node.slice, ast.Slice) and rec(node.value)
		if isinstance(node, ast.Starred):
			return rec(node.value)
		if isinstance(node, (ast.Tuple, ast.List)):
			return any(rec(a) for a in node.elts)
		if isinstance(node, ast.BinOp):
			return rec(node.left) or rec(node.right)
		if isinstance(node, ast.NamedExpr):
			return rec(node.value)
		return False

	def order(self, f):
		"""Check order of results in function; return True if it changed
		the set of functions with unordered results."""
		D = self.defs(f)
		tainted = set()
		for _ in range(5):
			before = len(tainted)
			for n in own_nodes(f.node):
				if isinstance(n, (ast.For, ast.AsyncFor)) and (
						self.isunordered(f, n.iter, tainted)):
					self.loop(f, n, tainted, False)
			if len(tainted) == before:
				break
		# a list that is sorted afterwards
		for n in own_nodes(f.node):
			if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute
					) and n.func.attr == 'sort' and isinstance(
					n.func.value, ast.Name):
				for d in D.defs(n.func.value):
					if d in tainted and all(u.lineno >= n.lineno or within(
							u, l) for u in D.nodes.values()
							if d in D.defs(u) for l in [self.loopof(f, d, u)]):
						tainted.discard(d)
		changed = False
		for n in own_nodes(f.node):
			if isinstance(n, (ast.For, ast.AsyncFor)):
				if self.isunordered(f, n.iter, tainted):
					self.loop(f, n, tainted, True)
			elif isinstance(n, ast.Return) and self.isunordered(
					f, n.value, tainted):
				if f.name.startswith('_') or f.parent is not None:
					if f.id not in self.unordered:
						self.unordered.add(f.id)
						changed = True
				else:
					self.finding('order', f, n, 'returns results in the order'
							' in which jobs are completed')
			elif isinstance(n, (ast.Yield, ast.YieldFrom)) and n.value and (
					self.isunordered(f, n.value, tainted)):
				self.finding('order', f, n, 'yields results in the order in'
						' which jobs are completed')
			elif isinstance(n, ast.Call):
				name = dotted(n.func)
				if name == 'zip' and len({self.isunordered(f, a, tainted)
						for a in n.args if not self.numbering(a)}) == 2:
					self.finding('order', f, n, 'results are combined with'
							' other values in the order in which jobs are'
							' completed')
				if isinstance(n.func, ast.Attribute) and n.func.attr in (
						WRITE) and any(self.isunordered(f, a, tainted)
						for a in n.args):
					self.finding('order', f, n, 'writes results in the order'
							' in which jobs are completed')
				elif name == 'print' and any(self.isunordered(
						f, a, tainted) for a in n.args):
					self.finding('order', f, n, 'prints results in the order'
							' in which jobs are completed')
		return changed

	def loopof(self, f, d, u):
		"""The loop over unordered results around this use."""
		n = u
		while n is not None and n is not f.node:
			if isinstance(n, (ast.For, ast.AsyncFor)):
				return n
			n = getattr(n, '_parent', None)
		return None

	def local(self, D, name, loop):
		"""Whether variable is made anew in each iteration."""
		ds = D.defs(name)
		return bool(ds) and all(not isinstance(d, Param) and within(d, loop)
				for d in ds)

	def base(self, node):
		while isinstance(node, (ast.Subscript, ast.Attribute, ast.Call)):
			node = node.func if isinstance(node, ast.Call) else node.value
		return node

	def loop(self, f, loop, tainted, report):
		D = self.defs(f)
		if report:
			self.res.count('loops over unordered results')
			self.res.sample('loops over unordered results', f.loc(loop))

		def find(node, msg):
			if report:
				self.finding('order', f, node, msg)

		index = set()
		it = loop.iter
		if isinstance(it, ast.Call) and dotted(it.func) == 'enumerate' and (
				isinstance(loop.target, ast.Tuple)) and isinstance(
				loop.target.elts[0], ast.Name):
			index.add(loop.target.elts[0])
		items = {n for n in ast.walk(loop.target)
				if isinstance(n, ast.Name)} - index

		def names(node):
			return [n for n in ast.walk(node) if isinstance(n, ast.Name)
					and isinstance(n.ctx, ast.Load)]

		def derived(node, roots, depth=0):
			for n in names(node):
				for d in D.defs(n):
					if d in roots:
						return True
					if depth < 6 and not isinstance(d, Param) and within(
							d, loop) and any(s is not d and derived(
							s, roots, depth + 1) for s in D.sources(d)):
						return True
			return False

		def mark(name, node):
			for d in D.defs(name):
				if isinstance(d, Param) or not within(d, loop):
					tainted.add(d)

		stack = [s for s in loop.body]
		inner = []
		while stack:
			n = stack.pop()
			inner.append(n)
			if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
				continue
			stack.extend(ast.iter_child_nodes(n))
		for n in inner:
			if isinstance(n, (ast.Yield, ast.YieldFrom)):
				find(n, 'yields results in the order in which jobs are'
						' completed')
			elif isinstance(n, ast.Return) or (isinstance(n, ast.Break)
					and self.loopstmt(n) is loop):
				find(n, 'the first job that is completed determines which'
						' results are used')
			elif index and isinstance(n, ast.If) and derived(
					n.test, index) and any(isinstance(x, (ast.Subscript,
					ast.Attribute)) and isinstance(x.ctx, ast.Store)
					for s in n.body + n.orelse for x in ast.walk(s)):
				find(n, 'the order in which jobs are completed determines'
						' what is stored (%s)' % src(n.test))
			elif isinstance(n, ast.Delete):
				for t in n.targets:
					if isinstance(t, ast.Subscript) and isinstance(
							t.value, ast.Name) and not self.local(
							D, t.value, loop):
						mark(t.value, n)
			elif isinstance(n, ast.Call) and isinstance(
					n.func, ast.Attribute):
				if n.func.attr in ('pop', 'move_to_end') and isinstance(
						n.func.value, ast.Name) and n.args and derived(
						n.args[0], items) and not isinstance(
						n._parent, ast.Subscript) and self.restored(
						D, n.func.value, loop):
					mark(n.func.value, n)
				if n.func.attr in WRITE:
					b = self.base(n.func.value)
					if dotted(n.func.value) in ('sys.stderr', ) or (
							isinstance(b, ast.Name)
							and self.local(D, b, loop)):
						continue
					find(n, 'writes results in the order in which jobs are'
							' completed')
				elif n.func.attr in APPEND:
					b = self.base(n.func.value)
					if not isinstance(b, ast.Name) or self.local(D, b, loop):
						continue
					if isinstance(n.func.value, ast.Subscript) and derived(
							n.func.value.slice, items):
						continue
					if isinstance(n.func.value, ast.Name):
						mark(b, n)
					elif derived(n, items):
						find(n, 'results are added to %s in the order in which'
								' jobs are completed' % src(n.func.value))
				elif n.func.attr == 'update' and isinstance(
						n.func.value, ast.Name) and not self.local(
						D, n.func.value, loop) and not self.counter(
						D, n.func.value):
					mark(n.func.value, n)
			elif isinstance(n, ast.Call) and dotted(n.func) == 'print':
				kw = {k.arg: k.value for k in n.keywords}
				if 'file' in kw and dotted(kw['file']) == 'sys.stderr':
					continue
				find(n, 'prints results in the order in which jobs are'
						' completed')
			elif isinstance(n, ast.Subscript) and isinstance(
					n.ctx, ast.Store):
				st = Defs.stmt(n)
				value = getattr(st, 'value', None)
				if value is None:
					continue
				b = self.base(n)
				if isinstance(b, ast.Name) and self.local(D, b, loop):
					continue
				if isinstance(st, ast.AugAssign):
					continue
				if index and (derived(n, index) or derived(value, index)):
					find(n, 'results are stored under or with the number of'
							' the job in the order of completion (%s)' % ', '
							.join(sorted(i.id for i in index)))
				elif derived(value, items) and not self.keyed(
						n, items, derived):
					find(n, 'the last job that is completed determines'
							' %s' % src(n))
				elif isinstance(n.value, ast.Name) and not self.prefilled(
						f, D, n.value, loop):
					mark(n.value, n)
			elif isinstance(n, ast.AugAssign) and isinstance(
					n.target, ast.Name):
				if self.local(D, n.target, loop):
					continue
				if isinstance(n.op, ast.Add) and not self.number(
						D, n.target, loop):
					mark(n.target, n)
					tainted.add(n.target)
			elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and (
					report):
				st = Defs.stmt(n)
				if not isinstance(st, ast.Assign) or not derived(
						st.value, items | index):
					continue
				for u in D.nodes.values():
					if n in D.defs(u) and not within(u, loop) and not (
							isinstance(Defs.stmt(u), ast.Delete)):
						find(n, 'the last job that is completed determines %s,'
								' which is used in line %d' % (
								n.id, u.lineno))
						break

	@staticmethod
	def restored(D, name, loop):
		"""Whether items of this mapping are also added in this loop."""
		return any(isinstance(n, ast.Subscript) and isinstance(
				n.ctx, ast.Store) and isinstance(n.value, ast.Name)
				and n.value.id == name.id for n in ast.walk(loop)) or any(
				isinstance(n, ast.Attribute) and n.attr == 'move_to_end'
				for n in ast.walk(loop))

	@staticmethod
	def numbering(node):
		return isinstance(node, ast.Call) and dotted(node.func) in (
				'range', 'count', 'itertools.count')

	@staticmethod
	def loopstmt(n):
		while not isinstance(n, (ast.For, ast.While, ast.AsyncFor)):
			n = n._parent
		return n

	@staticmethod
	def keyed(n, items, derived):
		while isinstance(n, (ast.Subscript, ast.Attribute)):
			if isinstance(n, ast.Subscript) and derived(n.slice, items):
				return True
			n = n.value
		return False

	@staticmethod
	def counter(D, name):
		for d in D.defs(name):
			if isinstance(d, Param):
				return False
			for s in D.sources(d):
				if not (isinstance(s, ast.Set) or isinstance(
						s, ast.Call) and (dotted(s.func) or '').split('.')[-1]
						in ('set', 'Counter')):
					return False
		return True

	@staticmethod
	def number(D, name, loop):
		for d in D.defs(name):
			if isinstance(d, Param):
				return False
			if within(d, loop):
				continue
			for s in D.sources(d):
				if not (isinstance(s, ast.Constant) and isinstance(
						s.value, (int, float))) and not (isinstance(
						s, ast.Call) and (dotted(s.func) or '').split('.')[-1]
						in ('Counter', 'set', 'int', 'float')):
					return False
		return True

	def prefilled(self, f, D, name, loop):
		"""Whether all keys are added to mapping in a fixed order before."""
		for d in D.defs(name):
			if isinstance(d, Param):
				continue
			for s in D.sources(d):
				if isinstance(s, ast.DictComp):
					return True
				if isinstance(s, ast.Call) and (s.args or s.keywords):
					return True
				if isinstance(s, ast.Dict) and s.keys:
					return True
		for n in own_nodes(f.node):
			if isinstance(n, (ast.For, ast.AsyncFor)) and n is not loop and (
					n.lineno < loop.lineno) and not within(loop, n):
				if self.definite(n.body, name, D):
					return True
		return False

	def definite(self, body, name, D):
		for st in body:
			if isinstance(st, ast.Assign):
				for t in st.targets:
					if isinstance(t, ast.Subscript) and isinstance(
							t.value, ast.Name) and t.value.id == name.id and (
							D.defs(t.value) & D.defs(name)):
						return True
			elif isinstance(st, ast.Expr) and isinstance(
					st.value, ast.Call) and isinstance(
					st.value.func, ast.Attribute) and (
					st.value.func.attr == 'setdefault') and isinstance(
					st.value.func.value, ast.Name) and (
					st.value.func.value.id == name.id):
				return True
			elif isinstance(st, ast.If):
				if self.definite(st.body, name, D) and self.definite(
						st.orelse, name, D):
					return True
			elif isinstance(st, ast.Try):
				if self.definite(st.finalbody, name, D) or (
						(self.definite(st.body, name, D)
						or self.definite(st.orelse, name, D))
						and all(self.definite(h.body, name, D)
						for h in st.handlers)):
					return True
			elif isinstance(st, ast.With):
				if self.definite(st.body, name, D):
					return True
		return False

	# -- jobs that refer to variables
	def closures(self, f):
		D = self.defs(f)
		for n in own_nodes(f.node):
			if not (isinstance(n, ast.Call) and isinstance(
					n.func, ast.Attribute) and n.func.attr in SUBMIT):
				continue
			self.res.count('submitted jobs')
			if not n.args:
				continue
			fn = n.args[0]
			alts = [fn.body, fn.orelse] if isinstance(
					fn, ast.IfExp) else [fn]
			self.process(f, n, fn)
			for a in alts:
				node = None
				if isinstance(a, ast.Lambda):
					node = a
				elif isinstance(a, ast.Name):
					r = self.resolve(f, a)
					if isinstance(r, Function) and r.parent is f:
						node = r.node
				if node is None:
					continue
				self.res.count('closures in jobs')
				self.closure(f, D, n, node)

	def closure(self, f, D, call, node):
		a = node.args
		bound = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
		for x in (a.vararg, a.kwarg):
			if x is not None:
				bound.add(x.arg)
		body = node.body if isinstance(node.body, list) else [node.body]
		loads = {}
		for s in body:
			for x in ast.walk(s):
				if isinstance(x, ast.Name):
					if isinstance(x.ctx, ast.Store):
						bound.add(x.id)
					else:
						loads.setdefault(x.id, x)
		loops = []
		p = call
		while p is not None and p is not f.node:
			if isinstance(p, (ast.For, ast.While)):
				loops.append(p)
			p = getattr(p, '_parent', None)
		for name in sorted(set(loads) - bound):
			if name not in f.locals:
				continue
			for x in own_nodes(f.node):
				if not (isinstance(x, ast.Name) and x.id == name
						and isinstance(x.ctx, (ast.Store, ast.Del))):
					continue
				if self.compvar(x):
					continue
				shared = any(within(x, l) for l in loops)
				if shared or x.lineno > call.lineno:
					self.finding('closure', f, call, 'the job refers to'
							' variable %s, which is assigned in line %d %s'
							% (name, x.lineno, 'in the same loop' if shared
							else 'while the job may not have been started'))
					break

	@staticmethod
	def compvar(x):
		p = x
		while not isinstance(p, ast.stmt):
			if isinstance(p, ast.comprehension):
				return True
			p = p._parent
		return False

	def process(self, f, call, fn):
		"""Jobs for other processes must be functions in a module."""
		base = dotted(call.func.value)
		cls = f.cls
		if f.parent is not None and cls is None:
			cls = f.parent.cls
		kind = None
		if base in ('self', 'self.pool') and cls is not None:
			kind = self.poolkind(cls)
		elif isinstance(call.func.value, ast.Name):
			D = self.defs(f)
			for d in D.defs(call.func.value):
				if not isinstance(d, Param):
					for s in D.sources(d):
						kind = kind or self.kindof(s)
		if kind != 'process':
			return
		self.res.count('jobs for processes')
		fns = [fn]
		if isinstance(fn, ast.IfExp):
			# alternative for sequential processing need not be checked
			fns = [fn.body, fn.orelse]
			t = self.seqbranch(fn.test)
			if t is not None:
				fns = [fn.orelse if t else fn.body]
		for a in fns:
			if isinstance(a, ast.Lambda):
				self.finding('process', f, a, 'a lambda function cannot be run'
						' in another process')
				continue
			r = self.resolve(f, a)
			if isinstance(r, Function) and r.parent is not None:
				self.finding('process', f, a, 'nested function %s cannot be'
						' run in another process' % r.name)

	@staticmethod
	def kindof(s):
		if isinstance(s, ast.Call):
			name = (dotted(s.func) or '')
			if name.endswith('ProcessPoolExecutor') or (
					name.endswith('Pool') and 'Thread' not in name
					and 'dummy' not in name):
				return 'process'
			if name.endswith('ThreadPoolExecutor'):
				return 'thread'
		return None

	def poolkind(self, cls):
		for c in cls.mro():
			m = c.methods.get('__init__')
			kind = None
			if m is not None:
				for n in own_nodes(m.node):
					if isinstance(n, ast.Assign) and any(dotted(t) ==
							'self.pool' for t in n.targets):
						kind = self.kindof(n.value) or kind
			if kind:
				return kind
		return None

	@staticmethod
	def seqbranch(test):
		"""True (False) if the condition holds for sequential (parallel)."""
		if isinstance(test, ast.Compare) and len(test.ops) == 1:
			a, b, op = test.left, test.comparators[0], test.ops[0]
			if isinstance(a, ast.Constant):
				a, b = b, a
				op = {ast.Lt: ast.Gt(), ast.Gt: ast.Lt(), ast.LtE: ast.GtE(),
						ast.GtE: ast.LtE()}.get(type(op), op)
			if (dotted(a) or '').split('.')[-1] == 'numproc' and isinstance(
					b, ast.Constant) and isinstance(b.value, int):
				if isinstance(op, ast.Eq) and b.value == 1:
					return True
				if isinstance(op, ast.NotEq) and b.value == 1:
					return False
				if isinstance(op, ast.Gt) and b.value == 1:
					return False
				if isinstance(op, ast.LtE) and b.value == 1:
					return True
				if isinstance(op, ast.GtE) and b.value == 2:
					return False
				if isinstance(op, ast.Lt) and b.value == 2:
					return True
		elif isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
			t = Checker.seqbranch(test.operand)
			return None if t is None else not t
		return None

	# -- alternatives
	def alternatives(self, f):
		for n in own_nodes(f.node):
			if isinstance(n, ast.IfExp):
				t = self.seqbranch(n.test)
				if t is not None:
					a, b = n.body, n.orelse
					self.pair(f, n, a if t else b, b if t else a)
			elif isinstance(n, ast.If):
				t = self.seqbranch(n.test)
				if t is None:
					continue
				seq, par = (n.body, n.orelse) if t else (n.orelse, n.body)
				va, vb = self.assigned(seq), self.assigned(par)
				for name in va:
					if name in vb:
						self.pair(f, n, va[name], vb[name])

	@staticmethod
	def assigned(body):
		res = {}
		for st in body:
			if isinstance(st, ast.Assign) and len(st.targets) == 1:
				t, v = st.targets[0], st.value
				if isinstance(t, ast.Name):
					res[t.id] = v
				elif isinstance(t, ast.Tuple) and isinstance(
						v, ast.Tuple) and len(t.elts) == len(v.elts):
					for a, b in zip(t.elts, v.elts):
						if isinstance(a, ast.Name):
							res[a.id] = b
		return res

	def pair(self, f, node, seq, par):
		"""Check that alternatives are equivalent."""
		a, b = self.resolve(f, seq), self.resolve(f, par)
		if isinstance(a, Function) and isinstance(b, Function):
			self.res.count('alternatives')
			self.same(f, node, a, b)
			return
		# (worker(a) for a in work) and pool.map(mpworker, work)
		x, y = self.work(f, seq), self.work(f, par)
		if x and y:
			self.res.count('alternatives')
			if isinstance(x[0], Function) and isinstance(y[0], Function):
				self.same(f, node, x[0], y[0])
			if self.text(x[1]) != self.text(y[1]):
				self.finding('alternative', f, node, 'sequential processing'
						' works on %s, but parallel processing on %s' % (
						src(x[1]), src(y[1])))

	@staticmethod
	def text(node):
		while isinstance(node, ast.Call) and dotted(node.func) in (
				'list', 'iter', 'tuple') and len(node.args) == 1:
			node = node.args[0]
		return src(node)

	def work(self, f, node):
		if isinstance(node, (ast.GeneratorExp, ast.ListComp)) and len(
				node.generators) == 1 and isinstance(
				node.elt, ast.Call) and not node.generators[0].ifs:
			return self.resolve(f, node.elt.func), node.generators[0].iter
		if isinstance(node, ast.Call) and len(node.args) >= 2 and ((
				dotted(node.func) or '').split('.')[-1] in (
				'map', 'imap', 'imap_unordered')):
			return self.resolve(f, node.args[0]), node.args[1]
		return None

	def same(self, f, node, a, b):
		"""Functions are the same or one is a wrapper of the other."""
		if a is b or self.wraps(f, node, b, a) or self.wraps(f, node, a, b):
			return
		# both wrap another function
		ca, cb = self.callees(a), self.callees(b)
		if any(c in ca for c in cb):
			return
		self.finding('alternative', f, node, 'sequential processing calls %s,'
				' but parallel processing calls %s, which does not call'
				' it' % (a.name, b.name))

	def callees(self, f):
		res = set()
		for n in own_nodes(f.node):
			if isinstance(n, ast.Call):
				r = self.resolve(f, n.func)
				if isinstance(r, Function):
					res.add(r.id)
		return res

	def wraps(self, f, node, outer, inner):
		"""Check that outer passes on its arguments to inner."""
		calls = [n for n in own_nodes(outer.node) if isinstance(n, ast.Call)
				and self.resolve(outer, n.func) is inner]
		if not calls:
			return False
		params = [p for p in inner.params if p != 'self']
		oparams = [p for p in outer.params if p != 'self']
		for c in calls:
			self.res.count('wrappers')
			if any(isinstance(a, ast.Starred) for a in c.args) or any(
					k.arg is None for k in c.keywords):
				continue
			given = dict(zip(params, c.args))
			given.update({k.arg: k.value for k in c.keywords})
			for n, p in enumerate(params):
				v = given.get(p)
				if v is None:
					if p in oparams:
						self.finding('alternative', outer, c, 'parameter %s is'
								' not passed on to %s' % (p, inner.name))
				elif isinstance(v, ast.Name) and v.id in oparams and (
						v.id != p and p in oparams):
					self.finding('alternative', outer, c, '%s is passed on as'
							' parameter %s of %s' % (v.id, p, inner.name))
				elif isinstance(v, ast.Constant) and p in oparams:
					self.finding('alternative', outer, c, 'parameter %s is'
							' not passed on to %s' % (p, inner.name))
				elif isinstance(v, ast.Name) and p not in oparams and len(
						params) == len(oparams) and v.id in oparams and (
						oparams.index(v.id) != n):
					self.finding('alternative', outer, c, '%s is passed on as'
							' parameter %s of %s' % (v.id, p, inner.name))
			defaults = self.defaults(inner)
			odefaults = self.defaults(outer)
			for p in params:
				if p in defaults and p in odefaults and (
						src(defaults[p]) != src(odefaults[p])):
					self.finding('alternative', outer, c, 'default value %s of'
							' %s is different from that of %s: %s' % (
							src(odefaults[p]), p, inner.name,
							src(defaults[p])))
		return True

	@staticmethod
	def defaults(f):
		a = f.node.args
		names = [x.arg for x in a.posonlyargs + a.args]
		res = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
		res.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults)
				if d is not None})
		return res

	def initializers(self, f):
		D = self.defs(f)
		for n in own_nodes(f.node):
			if not isinstance(n, ast.Call):
				continue
			kw = {k.arg: k.value for k in n.keywords}
			if 'initializer' not in kw:
				continue
			init = self.resolve(f, kw['initializer'])
			args = kw.get('initargs')
			if isinstance(args, ast.Name):
				srcs = [s for d in D.defs(args) if not isinstance(d, Param)
						for s in D.sources(d)]
				args = srcs[0] if len(srcs) == 1 else args
			if not isinstance(init, Function):
				continue
			self.res.count('initializers')
			if args is not None and not isinstance(args, (
					ast.Tuple, ast.List)):
				continue
			elts = [] if args is None else args.elts
			for c in own_nodes(f.node):
				if isinstance(c, ast.Call) and self.resolve(
						f, c.func) is init:
					if any(isinstance(a, ast.Starred) for a in c.args) or any(
							k.arg is None for k in c.keywords):
						continue
					bound = dict(zip(init.params, c.args))
					bound.update({k.arg: k.value for k in c.keywords})
					par = dict(zip(init.params, elts))
					for p in init.params:
						a, b = bound.get(p), par.get(p)
						if (a is None) != (b is None) or (a is not None
								and self.text(a) != self.text(b)
								and not self.samevalue(D, a, b)):
							self.finding('initializer', f, n, 'parameter %s of'
									' %s is %s in this process but %s in'
									' worker processes' % (p, init.name,
									src(a) if a is not None else 'not given',
									src(b) if b is not None else 'not given'))

	@staticmethod
	def samevalue(D, a, b):
		def expand(n):
			for _ in range(4):
				if not isinstance(n, ast.Name):
					break
				ds = list(D.defs(n))
				if len(ds) != 1 or isinstance(ds[0], Param):
					break
				srcs = D.sources(ds[0])
				if len(srcs) != 1 or not isinstance(
						D.stmts[id(ds[0])], ast.Assign):
					break
				n = srcs[0]
			return Checker.text(n)
		return expand(a) == expand(b)

	# -- division of work
	def steps(self, f, it, depth=0):
		"""Return range(...) call with step that this iterates over."""
		D = self.defs(f)
		while isinstance(it, ast.Call) and dotted(it.func) in (
				'list', 'tuple', 'iter') and len(it.args) == 1:
			it = it.args[0]
		if isinstance(it, ast.Call) and dotted(it.func) in (
				'range', 'xrange') and len(it.args) == 3:
			return it
		if isinstance(it, ast.Name) and depth < 3:
			res = [self.steps(f, s, depth + 1) for d in D.defs(it)
					if not isinstance(d, Param) for s in D.sources(d)]
			res = [r for r in res if r is not None]
			if len(res) == 1:
				return res[0]
		return None

	def chunks(self, f):
		for n in own_nodes(f.node):
			if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
				gens = [(g.target, g.iter, [n.elt]) for g in n.generators]
			elif isinstance(n, ast.For):
				gens = [(n.target, n.iter, n.body)]
			else:
				continue
			for target, it, body in gens:
				var = target
				if isinstance(it, ast.Call) and dotted(
						it.func) == 'enumerate' and isinstance(
						target, ast.Tuple) and len(target.elts) == 2:
					it, var = it.args[0], target.elts[1]
				rng = self.steps(f, it)
				if rng is None or not isinstance(var, ast.Name):
					continue
				for b in body:
					for x in ast.walk(b):
						if isinstance(x, ast.Slice) and isinstance(
								x.lower, ast.Name) and x.lower.id == var.id:
							self.chunk(f, x, rng, var, x.upper,
									x._parent.value)
						elif isinstance(x, ast.Tuple) and len(
								x.elts) == 2 and isinstance(
								x.elts[0], ast.Name) and (
								x.elts[0].id == var.id) and isinstance(
								x.elts[1], ast.BinOp):
							self.chunk(f, x, rng, var, x.elts[1], None)

	def chunk(self, f, node, rng, var, upper, seq):
		D = self.defs(f)
		self.res.count('divisions of work')
		self.res.sample('divisions of work', f.loc(node))
		start, stop, step = rng.args
		node = seq if seq is not None else node
		if not (isinstance(start, ast.Constant) and start.value == 0):
			self.finding('chunks', f, rng, 'the first chunk does not start'
					' at 0')
		if upper is None:
			self.finding('chunks', f, node, 'chunks overlap')
			return
		ok = isinstance(upper, ast.BinOp) and isinstance(upper.op, ast.Add)
		if ok:
			other = upper.right if src(upper.left) == var.id else upper.left
			ok = src(other) == src(step) and all(D.defs(a) == D.defs(b)
					for a in ast.walk(other) if isinstance(a, ast.Name)
					for b in ast.walk(step) if isinstance(b, ast.Name)
					and a.id == b.id) and var.id in (
					src(upper.left), src(upper.right))
		if not ok:
			self.finding('chunks', f, node, 'chunks of %s do not fit steps of'
					' %s' % (src(upper), src(step)))
		if seq is not None:
			text = stop
			if isinstance(stop, ast.Name):
				srcs = [s for d in D.defs(stop) if not isinstance(d, Param)
						for s in D.sources(d)]
				if len(srcs) == 1:
					text = srcs[0]
			if isinstance(text, ast.Call) and dotted(
					text.func) == 'len' and len(text.args) == 1 and src(
					text.args[0]) != src(seq):
				self.finding('chunks', f, node, 'chunks are taken from %s, but'
						' up to the length of %s' % (src(seq),
						src(text.args[0])))
			elif isinstance(text, ast.BinOp):
				self.finding('chunks', f, rng, 'chunks stop at %s instead of'
						' the length of %s' % (src(text), src(seq)))
		if self.zero(D, step):
			self.finding('chunks', f, rng, 'the step %s may be 0' % src(step))

	def zero(self, D, step, depth=0):
		if isinstance(step, ast.Name) and depth < 4:
			for d in D.defs(step):
				if not isinstance(d, Param) and any(self.zero(
						D, s, depth + 1) for s in D.sources(d)):
					return True
			return False
		if isinstance(step, ast.BinOp) and isinstance(step.op, (
				ast.FloorDiv, ast.Div)):
			return True
		if isinstance(step, ast.Call) and dotted(step.func) == 'int' and (
				len(step.args) == 1):
			return self.zero(D, step.args[0], depth + 1)
		if isinstance(step, ast.Call) and dotted(step.func) == 'max':
			return not any(isinstance(a, ast.Constant) and isinstance(
					a.value, int) and a.value > 0 for a in step.args)
		return False

	def partition(self, f):
		"""Consecutive intervals (last, n) with last = n."""
		D = self.defs(f)
		loops = [n for n in own_nodes(f.node)
				if isinstance(n, (ast.For, ast.While))]
		for loop in loops:
			for n in ast.walk(loop):
				if not (isinstance(n, ast.Call) and isinstance(
						n.func, ast.Attribute) and n.func.attr == 'append'
						and isinstance(n.func.value, ast.Name)
						and len(n.args) == 1 and isinstance(
						n.args[0], ast.Tuple) and len(n.args[0].elts) == 2
						and all(isinstance(e, ast.Name)
						for e in n.args[0].elts)):
					continue
				a, b = n.args[0].elts
				sets = [x for x in ast.walk(loop) if isinstance(x, ast.Assign)
						and any(isinstance(t, ast.Name) and t.id == a.id
						for t in x.targets)]
				# start of interval is end of previous interval
				if not any(isinstance(y, ast.Name) and y.id == b.id
						for x in sets for y in ast.walk(x.value)):
					outside = [d for d in D.defs(a) if isinstance(d, Param)
							or not within(d, loop)]
					if outside and not sets and f.name == 'workload':
						self.finding('chunks', f, n, 'intervals overlap: %s is'
								' not changed' % a.id)
					continue
				self.res.count('divisions of work')
				self.res.sample('divisions of work', f.loc(n))
				st = Defs.stmt(n)
				for x in sets:
					if src(x.value) == b.id and x._parent is not st._parent:
						self.finding('chunks', f, x, 'the start of the next'
								' interval is changed without adding an'
								' interval')
					elif src(x.value) != b.id:
						self.finding('chunks', f, x, 'the next interval does'
								' not start at the end of the previous one')
					elif x.lineno < n.lineno:
						self.finding('chunks', f, x, 'the start of the interval'
								' is changed before it is added')
				for d in D.defs(a):
					if isinstance(d, Param) or within(d, loop):
						continue
					for s in D.sources(d):
						if isinstance(s, ast.Constant) and s.value != 0:
							self.finding('chunks', f, d, 'the first interval'
									' starts at %r' % s.value)
				# the last interval
				stop = None
				if isinstance(loop, ast.For) and isinstance(
						loop.iter, ast.Call) and dotted(
						loop.iter.func) == 'range' and loop.iter.args:
					stop = loop.iter.args[min(1, len(loop.iter.args) - 1)]
				rest = [x for x in own_nodes(f.node) if isinstance(x, ast.Tuple)
						and len(x.elts) == 2 and not within(x, loop)
						and src(x.elts[0]) == a.id
						and x.lineno > loop.lineno]
				if not rest:
					self.finding('chunks', f, loop, 'there is no interval for'
							' the remainder')
				elif stop is not None and not any(src(x.elts[1]) == src(stop)
						for x in rest):
					self.finding('chunks', f, rest[0], 'the last interval stops'
							' at %s instead of %s' % (
							src(rest[0].elts[1]), src(stop)))


def check(project, res, tier):
	res.rule('results that arrive in order of completion are collected by key'
			' or sorted; jobs do not refer to variables that are changed after'
			' they are submitted; functions and initializers for sequential and'
			' parallel processing are equivalent; work is divided into'
			' intervals without gaps or overlap')
	res.assume('a job has no effects other than its result; updates of'
			' evaluation counts can be done in any order')
	checker = Checker(project, res)
	jobs = Jobs(checker)
	funcs = [f for m in project.modules.values() for f in m.funcs.values()
			if f.node is not None and not isinstance(f.node, ast.Lambda)]
	keys = SOURCES | SUBMIT
	rel = []
	for f in funcs:
		names = {n.attr if isinstance(n, ast.Attribute) else n.id
				for n in own_nodes(f.node)
				if isinstance(n, (ast.Attribute, ast.Name))}
		if names & (keys | {'Pool', 'numproc', 'ProcessPoolExecutor',
				'ThreadPoolExecutor', '_as_completed'}):
			rel.append(f)
	# functions with unordered results
	for _ in range(4):
		n = len(checker.unordered)
		for f in rel:
			for r in own_nodes(f.node):
				if isinstance(r, ast.Return) and f.name.startswith('_') and (
						r.value is not None
						and checker.isunordered(f, r.value, set())):
					checker.unordered.add(f.id)
		if len(checker.unordered) == n:
			break
	for f in funcs:
		if any(isinstance(n, ast.Attribute) and any(
				u.split('.')[-1] == n.attr for u in checker.unordered)
				for n in own_nodes(f.node)) and f not in rel:
			rel.append(f)
	rel += [f for f in funcs if f not in rel and f.parent in rel]
	for f in rel:
		res.count('functions')
		checker.order(f)
		checker.closures(f)
		checker.alternatives(f)
		checker.initializers(f)
		checker.chunks(f)
		checker.partition(f)
		jobs.alignment(f)
		jobs.numbers(f)
		jobs.merging(f)
	res.require('loops over unordered results', 3)
	res.require('submitted jobs', 5)
	res.require('alternatives', 3)
	res.require('divisions of work', 4)
