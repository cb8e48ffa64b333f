"""Cached results are only reused for the same inputs."""
import ast
from ..project import dotted, own_nodes, src
from ..defs import Defs, Param

TITLE = 'cached results are only reused for the same inputs'
GET, SET = {'get'}, {'set', 'add', 'setdefault'}


class Cache:
	"""Lookups and stores of one mapping in one function."""
	def __init__(self, name):
		self.name = name
		self.lookups = []  # (key, node)
		self.stores = []  # (key, value, node)


def strip(node):
	while isinstance(node, ast.Index) if hasattr(ast, 'Index') else False:
		node = node.value
	return node


def caches(f):
	"""Find mappings that outlive the function and are read and written."""
	res = {}

	def persistent(name):
		if name is None:
			return False
		base = name.split('.')[0]
		if base in ('self', 'cls') and f.params[:1] == [base]:
			return '.' in name
		return base not in f.locals and base in f.module.globals

	for n in own_nodes(f.node):
		if isinstance(n, ast.Subscript):
			name = dotted(n.value)
			if not persistent(name):
				continue
			c = res.setdefault(name, Cache(name))
			if isinstance(n.ctx, ast.Load):
				c.lookups.append((n.slice, n))
			elif isinstance(n.ctx, ast.Store):
				st = Defs.stmt(n)
				if isinstance(st, ast.Assign):
					c.stores.append((n.slice, st.value, n))
		elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
			name = dotted(n.func.value)
			if not persistent(name) or not n.args:
				continue
			if n.func.attr in GET:
				c = res.setdefault(name, Cache(name))
				c.lookups.append((n.args[0], n))
			elif n.func.attr in SET and len(n.args) >= 2:
				c = res.setdefault(name, Cache(name))
				c.stores.append((n.args[0], n.args[1], n))
	if not any(isinstance(n, (ast.Yield, ast.YieldFrom)) or (
			isinstance(n, ast.Return) and n.value is not None)
			for n in own_nodes(f.node)):
		return []
	return [c for c in res.values() if c.lookups and c.stores]


class Checker:
	def __init__(self, project, res, f):
		self.project, self.res, self.f = project, res, f
		self.defs = Defs(f)

	def expand(self, node, depth=0):
		"""Replace a variable for the key by its definition."""
		if isinstance(node, ast.Name) and depth < 4:
			ds = [d for d in self.defs.defs(node)]
			if len(ds) == 1 and not isinstance(ds[0], Param):
				srcs = self.defs.sources(ds[0])
				if len(srcs) == 1 and isinstance(srcs[0], (
						ast.Tuple, ast.Name)) and isinstance(
						self.defs.stmts[id(ds[0])], ast.Assign):
					return self.expand(srcs[0], depth + 1)
		return node

	def elements(self, key):
		key = self.expand(key)
		if isinstance(key, ast.Tuple):
			return [b for a in key.elts for b in self.elements(a)]
		return [key]

	def canonical(self, name):
		"""Definitions that this variable is an unmodified copy of."""
		ds = set(self.defs.defs(name))
		for _ in range(6):
			new = set()
			for d in ds:
				new |= self.origin(d)
			if new == ds:
				break
			ds = new
		return frozenset(ds)

	def origin(self, d):
		if isinstance(d, Param):
			return {d}
		st = self.defs.stmts.get(id(d))
		if isinstance(st, ast.Assign):
			val = self.defs.sources(d)[0]
			if isinstance(val, ast.Name) and d in st.targets:
				return set(self.defs.defs(val)) or {d}
			if isinstance(val, ast.Subscript) and isinstance(
					val.value, ast.Name):
				return self.values(val.value) or {d}
			if isinstance(val, ast.Call) and isinstance(
					val.func, ast.Attribute) and val.func.attr in (
					'pop', 'get') and isinstance(val.func.value, ast.Name):
				return self.values(val.func.value) or {d}
		elif isinstance(st, ast.For):
			it, t = st.iter, st.target
			if isinstance(it, ast.Call) and isinstance(
					it.func, ast.Attribute) and isinstance(
					it.func.value, ast.Name):
				if it.func.attr == 'items' and isinstance(
						t, ast.Tuple) and len(t.elts) == 2 and t.elts[1] is d:
					return self.values(it.func.value) or {d}
				if it.func.attr == 'values' and t is d:
					return self.values(it.func.value) or {d}
			if isinstance(it, ast.Name) and isinstance(t, ast.Tuple) and (
					d in t.elts):
				return self.columns(it, t.elts.index(d), len(t.elts)) or {d}
		return {d}

	def values(self, container):
		"""Definitions of variables stored as values in a dictionary."""
		res = set()
		for base, args, st in self.defs.mutations.get(container.id, ()):
			if not self.defs.defs(base) & self.defs.defs(container):
				continue
			if not isinstance(st, ast.Assign) or not isinstance(
					args[-1], ast.Name):
				return set()
			res |= self.defs.defs(args[-1])
		return res

	def columns(self, container, n, width):
		res = set()
		for base, args, st in self.defs.mutations.get(container.id, ()):
			if not self.defs.defs(base) & self.defs.defs(container):
				continue
			if len(args) != 1 or not isinstance(args[0], ast.Tuple) or len(
					args[0].elts) != width or not isinstance(
					args[0].elts[n], ast.Name):
				return set()
			res |= self.defs.defs(args[0].elts[n])
		return res

	def finding(self, rule, node, msg):
		self.res.finding(rule, self.f.id, self.f.loc(node), msg)

	# -- rules
	def check(self, c):
		self.shared(c)
		lookups = []
		for key, node in c.lookups:
			if node is not None:
				lookups.append((self.elements(key), node))
		for key, value, node in c.stores:
			elts = self.elements(key)
			if all(isinstance(e, ast.Constant) for e in elts):
				continue  # settings
			# lookups for the same kind of value
			cands = [(e, n) for e, n in lookups if self.samekind(e, elts)]
			if not cands:
				continue
			self.res.count('stores in caches')
			self.res.sample('stores in caches', '%s: %s[%s]' % (
					self.f.loc(node), c.name, ', '.join(map(src, elts))))
			for lelts, lnode in cands:
				self.pair(c, lelts, lnode, elts, value, node)

	@staticmethod
	def samekind(a, b):
		ca = [x.value for x in a if isinstance(x, ast.Constant)
				and isinstance(x.value, str)]
		cb = [x.value for x in b if isinstance(x, ast.Constant)
				and isinstance(x.value, str)]
		return ca[:1] == cb[:1]

	def pair(self, c, lelts, lnode, selts, value, snode):
		if len(lelts) != len(selts):
			self.finding('key', snode, 'result is stored in %s under a key with'
					' %d elements, but looked up with %d' % (
					c.name, len(selts), len(lelts)))
			return
		for a, b in zip(lelts, selts):
			self.res.count('parts of keys')
			if isinstance(a, ast.Constant) and isinstance(b, ast.Constant):
				if a.value != b.value:
					self.finding('key', snode, 'result is stored in %s with %r'
							' in the key, but looked up with %r' % (
							c.name, b.value, a.value))
			elif isinstance(a, ast.Name) and isinstance(b, ast.Name):
				da, db = self.canonical(a), self.canonical(b)
				if da != db and a.id == b.id:
					self.finding('key', snode, 'variable %s in the key for %s'
							' has another value when the result is stored'
							' (definitions in lines %s) than when it is looked'
							' up (lines %s)' % (a.id, c.name,
							', '.join(str(l) for l in sorted({
							d.lineno for d in db})), ', '.join(str(l)
							for l in sorted({d.lineno for d in da}))))
				elif a.id != b.id and not (da & db):
					pa = {d for d in da if isinstance(d, Param)}
					pb = {d for d in db if isinstance(d, Param)}
					if pa and pb and pa == da and pb == db:
						self.finding('key', snode, 'result is stored in %s for'
								' %s but looked up for %s' % (
								c.name, b.id, a.id))
		# names that the key determines
		fixed = {}
		for e in lelts + selts:
			for n in ast.walk(e):
				if isinstance(n, ast.Name) and (n is e or self.injective(e)):
					fixed.setdefault(n.id, set()).update(self.defs.defs(n))
					fixed[n.id] |= self.canonical(n)
		limits = self.limits(value, lnode)
		# conditions that hold for the lookup as well
		self.defs.ignore = {id(a) for a in self.defs.control(lnode)}

		def cut(name, ds):
			return name.id in fixed and ds <= fixed[name.id]

		leaves = self.defs.slice([value], cut)
		seen = set()
		for d, n in leaves:
			if isinstance(d, Param) and d.name not in (
					'self', 'cls') and d.name not in seen:
				seen.add(d.name)
				self.res.count('inputs of cached results')
				if d.name in limits:
					continue
				self.finding('input', snode, 'the result stored in %s depends on'
						' %s, which is not part of the key' % (
						c.name, d.name))
		# parts of a request that are used directly
		for text, node in self.requests([value], cut):
			if text not in seen:
				seen.add(text)
				self.finding('input', snode, 'the result stored in %s depends on'
						' %s (line %d), which is not part of the key' % (
						c.name, text, node.lineno))
		self.res.count('inputs of cached results', len(
				{n.id for e in lelts for n in ast.walk(e)
				if isinstance(n, ast.Name)}))
		self.defs.ignore = ()
		self.fresh(c, selts, value, snode)
		self.complete(c, value, snode)
		self.layout(c, value, lnode, snode)
		self.postprocessed(c, value, lnode, snode)

	def shared(self, c):
		"""The cache of an object is not that of another object, which may
		have other settings."""
		parts = c.name.split('.')
		cls = self.f.cls
		if len(parts) != 2 or parts[0] != 'self' or cls is None:
			return
		self.res.count('caches of objects')
		for k in cls.mro():
			for m in k.methods.values():
				for n in own_nodes(m.node):
					if not isinstance(n, (ast.Assign, ast.AnnAssign)):
						continue
					for t in (n.targets if isinstance(n, ast.Assign)
							else [n.target]):
						if dotted(t) != c.name or n.value is None:
							continue
						v = n.value
						name = dotted(v)
						if name and name.split('.')[0] not in m.locals and (
								'.' not in name or name.split('.')[0] in (
								k.name, 'cls')):
							self.res.finding('shared', m.id, m.loc(n), '%s is'
									' %s, which is shared with other objects'
									% (c.name, name))
						return
			if parts[1] in k.attrs:
				self.finding('shared', k.attrs[parts[1]], '%s is an attribute'
						' of the class %s, so that it is shared with objects'
						' that have other settings' % (c.name, k.name))
				return

	def held(self, lnode):
		"""Yield targets that the cached result is assigned to."""
		st = Defs.stmt(lnode)
		if not isinstance(st, ast.Assign) or st.value is not lnode:
			return
		for t in st.targets:
			yield t
			if not isinstance(t, ast.Name):
				continue
			for n in own_nodes(self.f.node):
				if isinstance(n, ast.Assign) and isinstance(
						n.value, ast.Name) and n.value.id == t.id and (
						t in self.defs.defs(n.value)):
					yield from n.targets

	def layout(self, c, value, lnode, snode):
		"""The parts of a result are in the same order when reused."""
		value = self.expand(value)
		if not isinstance(value, ast.Tuple):
			return
		for t in self.held(lnode):
			if not isinstance(t, (ast.Tuple, ast.List)) or any(isinstance(
					e, ast.Starred) for e in t.elts + value.elts):
				continue
			self.res.count('results of several parts')
			if len(t.elts) != len(value.elts):
				self.finding('layout', snode, 'a result of %d parts is stored'
						' in %s, but a result of %d parts is taken from it' % (
						len(value.elts), c.name, len(t.elts)))
				continue
			names = [e.id if isinstance(e, ast.Name) else None
					for e in t.elts]
			for n, e in enumerate(value.elts):
				if isinstance(e, ast.Name) and e.id in names and (
						e.id != names[n]) and names[n] is not None and any(
						isinstance(x, ast.Name) and x.id == names[n]
						for x in value.elts):
					self.finding('layout', snode, '%s is stored in %s at the'
							' place from which %s is taken' % (
							e.id, c.name, names[n]))
					break

	def complete(self, c, value, snode):
		"""A copy of the result is not made before the result is complete."""
		for n in ast.walk(value):
			if not (isinstance(n, ast.Call) and (dotted(n.func) in (
					'list', 'tuple', 'set', 'frozenset', 'dict', 'sorted',
					'len', 'sum', 'copy.copy', 'copy.deepcopy', 'OrderedDict',
					'Counter') and len(n.args) == 1)):
				continue
			a = n.args[0]
			if not isinstance(a, ast.Name):
				continue
			for base, _, st in self.defs.mutations.get(a.id, ()):
				if st.lineno > snode.lineno and (
						self.defs.defs(base) & self.defs.defs(a)) and (
						self.sameloop(st, snode)):
					self.finding('incomplete', snode, 'a copy of %s is stored'
							' in %s, but it is extended in line %d' % (
							a.id, c.name, st.lineno))
					break

	def sameloop(self, st, node):
		loop = node
		while loop is not self.f.node and not isinstance(
				loop, (ast.For, ast.While)):
			loop = loop._parent
		return self.defs.inside(st, loop)

	def postprocessed(self, c, value, lnode, snode):
		"""A cached result is not returned as is when the original was
		converted first, or the other way around."""
		parts = value.elts if isinstance(value, ast.Tuple) else [value]
		stored = {d for e in parts if isinstance(e, ast.Name)
				for d in self.defs.defs(e) if not isinstance(d, Param)}
		cached = {e for t in self.held(lnode) for e in (t.elts if isinstance(
				t, (ast.Tuple, ast.List)) else [t]) if isinstance(e, ast.Name)}
		hit, miss = {}, {}
		for st in own_nodes(self.f.node):
			if not isinstance(st, ast.Assign):
				continue
			if st.value is lnode:
				form, side = True, hit
			elif st.value is value and any(t is snode for t in st.targets):
				form, side = True, miss
			else:
				side = None
				for n in ast.walk(st.value):
					if isinstance(n, ast.Name) and isinstance(
							n.ctx, ast.Load) and (
							self.defs.bound(n) is None):
						ds = self.defs.defs(n)
						if ds and ds <= cached and ds.isdisjoint(stored):
							side = hit
						elif ds and ds <= stored and ds.isdisjoint(cached):
							side = miss
				v = st.value
				while isinstance(v, ast.Subscript) and isinstance(
						v.slice, ast.Slice):
					v = v.value
				form = isinstance(v, ast.Name)
			if side is None:
				continue
			for t in st.targets:
				if isinstance(t, ast.Subscript) and t is not snode and (
						isinstance(t.value, ast.Name)):
					side.setdefault(src(t), []).append((form, st))
		for t in hit.keys() & miss.keys():
			self.res.count('results converted')
			a, b = ({form for form, _ in x[t]} for x in (hit, miss))
			if a == {False} and True in b or b == {False} and True in a:
				self.finding('conversion', snode, '%s is the result stored in'
						' %s in line %d, but is computed from it in line %d' % (
						t, c.name, *[[st.lineno for form, st in hit[t]
						+ miss[t] if form == x][0] for x in (True, False)]))

	def requests(self, exprs, cut):
		"""Attributes of the HTTP request in the slice."""
		todo, seen = list(exprs), set()
		ds = {id(d): d for d, n in self.defs.slice(exprs, cut)
				if not isinstance(d, Param)}
		for d in ds.values():
			todo.extend(self.defs.sources(d))
		for e in todo:
			for n in ast.walk(e):
				if isinstance(n, ast.Attribute) and id(n) not in seen:
					r = self.project.resolve_name(self.f.module,
							dotted(n) or '?', self.f)
					if isinstance(r, tuple) and r[0] == 'ext' and (
							r[1] in ('flask.request.args',
							'flask.request.form', 'flask.request.values')):
						seen.add(id(n))
						p = n._parent
						while isinstance(p, (ast.Attribute, ast.Call)) and (
								not isinstance(p, ast.stmt)):
							n, p = p, p._parent
						yield src(n), n

	@staticmethod
	def injective(e):
		"""Whether an expression has a different value for other values."""
		if isinstance(e, ast.Call) and dotted(e.func) in (
				'tuple', 'str', 'repr', 'json.dumps') and len(e.args) == 1:
			return isinstance(e.args[0], ast.Name)
		return False

	def limits(self, value, lnode):
		"""Parameters that are stored with the result and compared."""
		value = self.expand(value)
		if not isinstance(value, ast.Tuple):
			return set()
		res = set()
		st = Defs.stmt(lnode)
		if not isinstance(st, ast.Assign) or len(st.targets) != 1 or not (
				isinstance(st.targets[0], ast.Tuple)) or len(
				st.targets[0].elts) != len(value.elts):
			return res
		names = st.targets[0].elts
		for n, e in enumerate(value.elts):
			if not isinstance(e, ast.Name) or not isinstance(
					names[n], ast.Name) or e.id not in self.f.params:
				continue
			stored = names[n].id
			for t in own_nodes(self.f.node):
				if not isinstance(t, ast.If):
					continue
				test = self.inline(t.test)
				if {e.id, stored} <= {a.id for a in ast.walk(test)
						if isinstance(a, ast.Name)} and names[n] in [
						d for a in ast.walk(test) if isinstance(a, ast.Name)
						for d in self.defs.defs(a)]:
					self.limit(t, test, e.id, stored, [a.id for m, a
							in enumerate(names)
							if m != n and isinstance(a, ast.Name)])
					res.add(e.id)
		return res

	def inline(self, test, depth=0):
		"""Replace variables in condition by the conditions they stand for."""
		if isinstance(test, ast.Name) and depth < 4:
			ds = list(self.defs.defs(test))
			if len(ds) == 1 and not isinstance(ds[0], Param) and isinstance(
					self.defs.stmts[id(ds[0])], ast.Assign):
				srcs = self.defs.sources(ds[0])
				if len(srcs) == 1 and isinstance(srcs[0], (ast.Compare,
						ast.BoolOp, ast.UnaryOp)):
					return self.inline(srcs[0], depth + 1)
		elif isinstance(test, ast.BoolOp):
			return ast.copy_location(ast.BoolOp(test.op, [
					self.inline(a, depth) for a in test.values]), test)
		elif isinstance(test, ast.UnaryOp):
			return ast.copy_location(ast.UnaryOp(test.op,
					self.inline(test.operand, depth)), test)
		return test

	def limit(self, st, test, param, stored, results):
		"""Check the conditions under which a stored result is reused."""
		self.res.count('limits')

		def uses(body):
			return any(isinstance(a, ast.Name) and a.id in results
					and isinstance(a.ctx, ast.Load)
					and self.cached(a, results) for s in body
					for a in ast.walk(s))

		body, other = uses(st.body), uses(st.orelse)
		if body == other:
			return
		for want, have in ((5, 3), (None, 3), (5, 5), (3, 5), (3, None),
				(None, None)):
			val = evaltest(test, {param: want, stored: have})
			if val is None:
				return  # other conditions
			if val == 'error':
				self.finding('limit', st.test, 'the condition for reusing a'
						' cached result raises an exception when %s=%r and a'
						' result for %r is stored' % (param, want, have))
				return
			reuse = val == 'true' if body else val == 'false'
			enough = have is None or (want is not None and want <= have)
			if reuse and not enough:
				self.finding('limit', st.test, 'a cached result for %s=%r is'
						' used when %s=%r is requested' % (
						param, have, param, want))
				return
			if reuse and want != have and not self.truncated(
					st.body if body else st.orelse, param, results):
				self.finding('limit', st.test, 'a cached result for %s=%r is'
						' returned as a whole when %s=%r is requested' % (
						param, have, param, want))
				return

	def cached(self, name, results):
		return self.defs.bound(name) is None and any(not isinstance(d, Param) and d.id in results
				and isinstance(self.defs.stmts.get(id(d)), ast.Assign)
				and isinstance(self.defs.stmts[id(d)].targets[0], ast.Tuple)
				for d in self.defs.defs(name))

	def truncated(self, body, param, results):
		for s in body:
			for a in ast.walk(s):
				if isinstance(a, ast.Name) and a.id in results and isinstance(
						a.ctx, ast.Load) and self.cached(a, results):
					p = a._parent
					if isinstance(p, ast.Subscript) and isinstance(
							p.slice, ast.Slice) and p.slice.lower is None and (
							isinstance(p.slice.upper, ast.Name)
							and p.slice.upper.id == param):
						continue
					if isinstance(p, ast.Call) and (dotted(p.func) or ''
							).endswith('islice') and len(p.args) == 2 and (
							isinstance(p.args[1], ast.Name)
							and p.args[1].id == param):
						continue
					return False
		return True

	def fresh(self, c, selts, value, snode):
		"""A result for each key must be made anew in a loop over keys."""
		loops = []
		n = snode
		while n is not self.f.node:
			if isinstance(n, (ast.For, ast.While)):
				loops.append(n)
			n = n._parent
		if not loops:
			return
		loop = loops[0]
		keynames = [a for e in selts for a in ast.walk(e)
				if isinstance(a, ast.Name)]
		if not any(not isinstance(d, Param) and self.defs.inside(d, loop)
				for a in keynames for d in self.defs.defs(a)):
			return
		names = [a for a in ast.walk(value) if isinstance(a, ast.Name)
				and isinstance(a.ctx, ast.Load)]
		for a in names:
			muts = [st for base, _, st in self.defs.mutations.get(a.id, ())
					if self.defs.inside(st, loop)
					and self.defs.defs(base) & self.defs.defs(a)]
			muts = [st for st in muts if not any(isinstance(t, ast.Subscript)
					for t in getattr(st, 'targets', []))]
			for d in self.defs.defs(a):
				if not isinstance(d, Param) and isinstance(self.defs.stmts.get(
						id(d)), ast.AugAssign) and self.defs.inside(d, loop):
					muts.append(self.defs.stmts[id(d)])
			outside = [d for d in self.defs.defs(a) if isinstance(d, Param)
					or not self.defs.inside(d, loop)]
			if muts and outside:
				self.finding('accumulate', snode, 'the result stored in %s'
						' (%s) is extended in line %d but not made anew for'
						' each key' % (c.name, a.id, muts[0].lineno))


def evaltest(node, env):
	"""Evaluate a condition on limits: 'true', 'false', 'error' or None."""
	class Unknown(Exception):
		pass

	def ev(n):
		if isinstance(n, ast.Constant):
			return n.value
		if isinstance(n, ast.Name):
			if n.id in env:
				return env[n.id]
			raise Unknown
		if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
			return not ev(n.operand)
		if isinstance(n, ast.BoolOp):
			for v in n.values:
				val = ev(v)
				if bool(val) == isinstance(n.op, ast.Or):
					return val
			return val
		if isinstance(n, ast.Compare):
			left = ev(n.left)
			for op, right in zip(n.ops, n.comparators):
				right = ev(right)
				fn = {ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b,
						ast.Gt: lambda a, b: a > b,
						ast.GtE: lambda a, b: a >= b,
						ast.Eq: lambda a, b: a == b,
						ast.NotEq: lambda a, b: a != b,
						ast.Is: lambda a, b: a is b,
						ast.IsNot: lambda a, b: a is not b}.get(type(op))
				if fn is None:
					raise Unknown
				if not fn(left, right):
					return False
				left = right
			return True
		if isinstance(n, ast.IfExp):
			return ev(n.body) if ev(n.test) else ev(n.orelse)
		raise Unknown

	try:
		return 'true' if ev(node) else 'false'
	except Unknown:
		return None
	except TypeError:
		return 'error'


def check(project, res, tier):
	res.rule('when a result is stored in a mapping that outlives the function'
			' and looked up there, the key is the same in both places, all'
			' parameters and parts of the request that the result depends on'
			' are part of the key (or stored with it and compared), and the'
			' result is made anew for each key')
	res.rule('a result is stored when it is complete, its parts are in the same'
			' order and it is converted in the same cases when it is reused;'
			' a cache kept by an object is not shared with other objects')
	res.assume('attributes of the object other than the cache do not change;'
			' names that are part of a key determine themselves only')
	for module in project.modules.values():
		for f in module.funcs.values():
			if f.node is None or isinstance(f.node, ast.Lambda):
				continue
			found = caches(f)
			if not found:
				continue
			res.count('functions')
			checker = Checker(project, res, f)
			for c in found:
				checker.check(c)
	res.require('stores in caches', 5)
	res.require('parts of keys', 20)
