"""Results do not depend on the arbitrary order of sets and directories."""
import ast
from ..project import dotted, own_nodes, src, Func
from ..reach import reaches, stmt
from ..types import infer, walk_module, elem

TITLE = 'no dependence on hash seeds and directory order'
INSENSITIVE = {'len', 'set', 'frozenset', 'any', 'all', 'sum', 'bool',
		'isinstance', 'hash', 'id', 'type', 'math.fsum', 'issubclass'}
SEQ = {'list', 'tuple', 'iter', 'enumerate', 'reversed', 'map', 'filter',
		'zip', 'itertools.chain', 'itertools.islice', 'collections.deque',
		'itertools.product', 'itertools.zip_longest', 'itertools.combinations',
		'itertools.permutations', 'itertools.chain.from_iterable',
		'itertools.accumulate', 'itertools.takewhile', 'itertools.dropwhile',
		'itertools.cycle', 'numpy.array', 'array.array'}
DICT = {'dict', 'collections.Counter', 'collections.OrderedDict',
		'dict.fromkeys'}
SHOW = {'print', 'str', 'repr', 'format', 'ascii', 'logging.info',
		'logging.warning', 'logging.error', 'logging.debug', 'json.dumps',
		'json.dump', 'pickle.dump', 'pickle.dumps', 'pprint.pprint'}
LISTING = {'glob.glob', 'glob.iglob', 'os.listdir', 'os.scandir', 'os.walk'}
SETMETH = {'add', 'discard', 'remove', 'update', 'difference_update',
		'intersection_update', 'symmetric_difference_update', 'clear',
		'union', 'intersection', 'difference', 'issubset', 'issuperset',
		'isdisjoint', 'copy', 'symmetric_difference'}
MUTSEQ = {'append', 'extend', 'insert', 'appendleft', 'write', 'writelines',
		'writerow', 'writerows',
		'extendleft', 'put', 'send'}
RANDOM = ('random.', 'numpy.random.')


def parent(n):
	return getattr(n, '_parent', None)


class Order:
	def __init__(self, project, res):
		self.p, self.res = project, res
		self.t = infer(project)
		self.reported = set()
		self.visited = set()

	def diagnostic(self, mod, f, node):
		n = node
		while n is not None and not isinstance(n, ast.stmt):
			if isinstance(n, ast.Call) and (self.extname(mod, f, n)
					or '').startswith(('logging.', 'warnings.')):
				return True
			n = parent(n)
		return isinstance(n, (ast.Raise, ast.Assert))

	def bad(self, mod, f, node, why):
		if self.diagnostic(mod, f, node):
			return
		where = f.id if f is not None else mod.name
		n = node
		while not isinstance(n, ast.stmt) and parent(n) is not None:
			n = parent(n)
		key = (where, n.lineno, why)
		if key in self.reported:
			return
		self.reported.add(key)
		line = src(node)[:60].replace('\n', ' ')
		self.res.finding('order', '%s: %s' % (where, line), '%s:%d' % (
				mod.relpath, getattr(node, 'lineno', n.lineno)), why)

	# which expressions
	def arbitrary_set(self, mod, f, node):
		t = [a for a in self.t.ev(mod, f, node) if a != 'none']
		if not t or not all(not isinstance(a, str) and a[0] == 'set'
				for a in t):
			return False
		return self.varies(elem(frozenset(t)))

	def varies(self, t, depth=0):
		"""Hash values of these elements differ between runs."""
		if not t or depth > 3:
			return True
		atoms = set(t)
		if atoms & {'int', 'bool', 'float'} and not atoms & {'str', 'bytes'
				} and all(isinstance(a, str) for a in atoms):
			return False
		for a in atoms:
			if isinstance(a, str):
				if a in ('str', 'bytes', '?'):
					return True
			elif a[0] == 'tuple':
				if any(self.varies(x, depth + 1) for x in a[1]):
					return True
			elif a[0] in ('tuple*', 'set'):
				if self.varies(a[1], depth + 1):
					return True
			elif a[0] in ('inst', 'func', 'class'):
				return True
		return False

	def extname(self, mod, f, call):
		name = dotted(call.func)
		r = self.p.resolve_name(mod, name, f) if name else None
		if isinstance(r, tuple) and r[0] == 'ext':
			return r[1]
		return None

	# contexts
	def total(self, call):
		"""Sorting with this call does not leave the order of ties open."""
		for k in call.keywords:
			if k.arg == 'key':
				v = k.value
				if isinstance(v, ast.Lambda) and len(v.args.args) == 1:
					x = v.args.args[0].arg
					return self.injective(v.body, x)
				return isinstance(v, ast.Name) and v.id in ('str', 'repr')
		return True

	def injective(self, node, x):
		if isinstance(node, ast.Name):
			return node.id == x
		if isinstance(node, (ast.Tuple, ast.List)):
			return any(self.injective(e, x) for e in node.elts)
		if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and (
				node.func.id in ('str', 'repr')) and node.args:
			return self.injective(node.args[0], x)
		return False

	def use(self, mod, f, node, kind):
		"""Check the context of an expression with elements in arbitrary
		order; kind is 'set' (unordered), 'seq' or 'dict'."""
		p = parent(node)
		if isinstance(p, (ast.Expr, ast.Compare, ast.If, ast.While, ast.Assert,
				ast.FormattedValue)) and not isinstance(p, ast.FormattedValue):
			return
		if isinstance(p, ast.UnaryOp) and isinstance(p.op, ast.Not):
			return
		if isinstance(p, ast.IfExp):
			if node is not p.test:
				self.use(mod, f, p, kind)
			return
		if isinstance(p, ast.BoolOp):
			self.use(mod, f, p, kind)
			return
		if isinstance(p, (ast.FormattedValue, )):
			self.bad(mod, f, node, 'formatted in arbitrary order')
			return
		if isinstance(p, ast.NamedExpr):
			if node is p.value and isinstance(p.target, ast.Name):
				self.variable(mod, f, p.target.id, kind, node)
				self.use(mod, f, p, kind)
			return
		if isinstance(p, ast.BinOp):
			if isinstance(p.op, ast.Mod) and node is p.right or isinstance(
					p.op, ast.Mod):
				self.bad(mod, f, node, 'formatted in arbitrary order')
			elif kind == 'set':
				return  # result is a set, visited separately
			elif kind == 'dict':
				self.use(mod, f, p, kind)
			else:
				self.use(mod, f, p, kind)
			return
		if isinstance(p, ast.Tuple) and isinstance(parent(p), ast.BinOp
				) and isinstance(parent(p).op, ast.Mod):
			self.bad(mod, f, node, 'formatted in arbitrary order')
			return
		if isinstance(p, (ast.For, ast.AsyncFor)):
			if node is p.iter:
				self.loop(mod, f, p, node)
			return
		if isinstance(p, ast.comprehension):
			if node is not p.iter:
				return
			c = parent(p)
			if isinstance(c, ast.SetComp):
				return
			if isinstance(c, ast.DictComp):
				self.winner(mod, f, node, c.key, c.value, {x.id
						for x in ast.walk(p.target) if isinstance(x, ast.Name)})
				self.use(mod, f, c, 'dict')
			else:
				self.use(mod, f, c, 'seq')
			return
		if isinstance(p, ast.Starred):
			pp = parent(p)
			if isinstance(pp, ast.Set) or isinstance(pp, ast.Call) and dotted(
					pp.func).split('.')[-1] in ('union', 'intersection', 'max',
					'min', 'update', 'difference', 'zip'):
				return
			self.bad(mod, f, node, 'expanded in arbitrary order')
			return
		if isinstance(p, ast.keyword):
			if kind == 'seq' and p.arg != 'key':
				self.bad(mod, f, node, 'passed on in arbitrary order')
			return
		if isinstance(p, ast.Call) and node in p.args:
			self.argument(mod, f, node, p, kind)
			return
		if isinstance(p, ast.Attribute):
			self.method(mod, f, node, p, kind)
			return
		if isinstance(p, ast.Subscript):
			if node is p.value and kind == 'seq':
				self.bad(mod, f, node, 'arbitrary element selected')
			return
		if isinstance(p, (ast.Assign, ast.AnnAssign)):
			targets = p.targets if isinstance(p, ast.Assign) else [p.target]
			for t in targets:
				if isinstance(t, ast.Name):
					if kind != 'set':
						self.variable(mod, f, t.id, kind, node)
				elif isinstance(t, (ast.Tuple, ast.List)):
					if len(t.elts) > 1 and not self.guarded(f, node):
						self.bad(mod, f, node, 'unpacked in arbitrary order')
				elif kind == 'seq':
					self.bad(mod, f, node, 'stored in arbitrary order')
			return
		if isinstance(p, ast.AugAssign):
			if kind == 'seq' and isinstance(p.target, ast.Name):
				self.variable(mod, f, p.target.id, kind, node)
			elif kind == 'set' and isinstance(p.op, ast.Add):
				self.bad(mod, f, node, 'concatenated in arbitrary order')
			return
		if isinstance(p, (ast.Return, ast.Yield)) or isinstance(
				p, ast.Lambda):
			if kind != 'set':
				self.returned(mod, f, node, kind)
			return
		if isinstance(p, ast.YieldFrom):
			self.bad(mod, f, node, 'yielded in arbitrary order')
			return
		if kind == 'seq' and isinstance(p, (ast.Tuple, ast.List, ast.Dict)):
			self.bad(mod, f, node, 'kept in arbitrary order')

	def guarded(self, f, node):
		"""The size of this collection is compared to one."""
		if f is None:
			return False
		text = ast.dump(node)
		for n in own_nodes(f.node):
			if isinstance(n, ast.Compare) and isinstance(n.left, ast.Call
					) and isinstance(n.left.func, ast.Name) and (
					n.left.func.id == 'len') and ast.dump(n.left.args[0]
					) == text and isinstance(n.comparators[0], ast.Constant
					) and n.comparators[0].value in (1, 2):
				return True
		return False

	def winner(self, mod, f, origin, key, value, names):
		"""Several elements with the same key but different values."""
		ks = {x.id for x in ast.walk(key) if isinstance(x, ast.Name)}
		vs = {x.id for x in ast.walk(value) if isinstance(x, ast.Name)}
		used = {x for x in names if x != '_'}
		if (vs & names) - ks and used - ks:
			self.bad(mod, f, origin, 'last value for a key is arbitrary')

	def keyonly(self, mod, f, call):
		"""Only the component which is the key is used of this minimum."""
		key = [k.value for k in call.keywords if k.arg == 'key'][0]
		if not (isinstance(key, ast.Call) and self.extname(mod, f, key
				) == 'operator.itemgetter' and len(key.args) == 1):
			return False
		p = parent(call)
		if isinstance(p, ast.Subscript):
			return ast.dump(p.slice) == ast.dump(key.args[0])
		if isinstance(p, ast.Assign) and isinstance(p.targets[0], ast.Tuple
				) and isinstance(key.args[0], ast.Constant):
			others = {e.id for i, e in enumerate(p.targets[0].elts)
					if isinstance(e, ast.Name) and i != key.args[0].value}
			return len(p.targets[0].elts) == 2 and not any(
					isinstance(n, ast.Name) and n.id in others and isinstance(
					n.ctx, ast.Load) and reaches(f.node, n.id, p, n)
					for n in own_nodes(f.node))
		return False

	def argument(self, mod, f, node, call, kind):
		name = self.extname(mod, f, call)
		attr = call.func.attr if isinstance(call.func, ast.Attribute) else None
		if name in INSENSITIVE:
			return
		if name in ('min', 'max'):
			if len(call.args) == 1 and not self.total(call) and not (
					self.keyonly(mod, f, call)):
				self.bad(mod, f, call, 'ties broken by arbitrary order')
			return
		if name == 'sorted':
			if not self.total(call):
				self.bad(mod, f, call, 'ties broken by arbitrary order')
			return
		if name == 'next':
			if isinstance(node, ast.Call) and node.args and self.guarded(
					f, node.args[0]):
				return
			self.bad(mod, f, node, 'arbitrary element selected')
			return
		if name in ('enumerate', 'zip', 'itertools.zip_longest'):
			self.bad(mod, f, node, 'paired with numbers or other elements in '
					'arbitrary order')
			return
		if name in SEQ or name in ('map', 'filter'):
			if name == 'iter' and kind == 'seq' or name is None:
				pass
			self.use(mod, f, call, 'seq')
			return
		if name in DICT:
			if name != 'collections.Counter' and kind == 'set':
				self.bad(mod, f, node, 'last value for a key is arbitrary')
			self.use(mod, f, call, 'dict')
			return
		if name in SHOW:
			self.bad(mod, f, node, 'shown in arbitrary order')
			return
		if name in ('heapq.nlargest', 'heapq.nsmallest', 'random.choice',
				'random.sample'):
			self.bad(mod, f, node, 'ties broken by arbitrary order')
			return
		if attr is not None and name is None:
			if attr == 'join':
				self.use(mod, f, call, 'seq')
				return
			if attr in SETMETH:
				base = self.t.ev(mod, f, call.func.value)
				if attr == 'update' and any(not isinstance(a, str)
						and a[0] == 'dict' for a in base):
					if isinstance(call.func.value, ast.Name):
						self.variable(mod, f, call.func.value.id, 'dict', node)
				return
			if attr in ('extend', 'extendleft') and isinstance(
					call.func.value, ast.Name):
				self.variable(mod, f, call.func.value.id, 'seq', node)
				return
			if attr in MUTSEQ and (kind == 'seq' or attr in ('extend',
					'writelines', 'writerow', 'writerows')):
				self.bad(mod, f, node, 'written in arbitrary order')
				return
		if kind == 'seq':
			r = self.p.resolve_name(mod, dotted(call.func), f) if dotted(
					call.func) else None
			if isinstance(r, Func):
				i = call.args.index(node)
				off = 1 if r.is_method and r.posparams and (
						'classmethod' not in r.decorators) else 0
				names = r.posparams[off:]
				if i < len(names):
					self.variable(r.module, r, names[i], kind, node)
			elif name is not None or r is not None:
				self.bad(mod, f, node, 'passed on in arbitrary order')

	def method(self, mod, f, node, p, kind):
		call = parent(p)
		if not (isinstance(call, ast.Call) and call.func is p):
			return
		if kind == 'set':
			if p.attr == 'pop' and not self.guarded(f, node):
				self.worklist(mod, f, node, call)
			return
		if kind == 'dict':
			if p.attr in ('items', 'keys', 'values', 'elements'):
				self.use(mod, f, call, 'seq')
			elif p.attr == 'most_common':
				self.bad(mod, f, call, 'ties broken by arbitrary order')
			elif p.attr == 'popitem':
				self.bad(mod, f, call, 'arbitrary item selected')
			elif p.attr == 'copy':
				self.use(mod, f, call, 'dict')
			return
		if kind == 'seq':
			if p.attr == 'sort':
				return
			if p.attr in ('pop', 'popleft', 'index'):
				self.bad(mod, f, call, 'arbitrary element selected')
			elif p.attr == 'copy':
				self.use(mod, f, call, 'seq')
			elif p.attr in ('split', 'strip', 'rstrip', 'lstrip', 'encode',
					'replace', 'splitlines', 'lower', 'upper'):
				self.use(mod, f, call, 'seq')

	def variable(self, mod, f, name, kind, origin):
		"""All uses of a variable that holds a value in arbitrary order."""
		key = (mod.name, f.id if f else None, name, kind, id(stmt(origin))
				if origin is not None else 0)
		if key in self.visited:
			return
		self.visited.add(key)
		if f is None:
			for g in [None] + list(mod.funcs.values()):
				if g is not None and name in g.locals:
					continue
				self.uses(mod, g, name, kind, None)
			return
		self.uses(mod, f, name, kind, origin)
		for g in mod.funcs.values():
			h = g.parent
			while h is not None:
				if h is f and name not in g.locals:
					self.uses(mod, g, name, kind, None)
				h = h.parent

	def uses(self, mod, f, name, kind, origin):
		nodes = list(own_nodes(f.node)) if f is not None else list(
				walk_module(mod.tree))
		if kind == 'seq':
			# sorted in place after it was made
			for n in nodes:
				if isinstance(n, ast.Call) and isinstance(n.func,
						ast.Attribute) and n.func.attr == 'sort' and isinstance(
						n.func.value, ast.Name) and n.func.value.id == name:
					if not self.total(n):
						self.bad(mod, f, n, 'ties broken by arbitrary order')
					return
		for n in nodes:
			if isinstance(n, ast.Name) and n.id == name and isinstance(
					n.ctx, ast.Load):
				if origin is not None and f is not None and any(
						x is origin for x in ast.walk(f.node)) and not reaches(
						f.node, name, origin, n):
					continue
				self.use(mod, f, n, kind)

	def returned(self, mod, f, node, kind):
		if f is None:
			return
		key = ('ret', f.id, kind)
		if key in self.visited:
			return
		self.visited.add(key)
		sites = []
		for m in self.p.modules.values():
			for g in [None] + list(m.funcs.values()):
				for n in (own_nodes(g.node) if g is not None
						else walk_module(m.tree)):
					if isinstance(n, ast.Call) and dotted(n.func) and (
							dotted(n.func).split('.')[-1] == f.name) and (
							self.p.resolve_name(m, dotted(n.func), g) is f):
						sites.append((m, g, n))
		isyield = isinstance(parent(node), ast.Yield)
		if kind == 'seq' and (not sites or isyield):
			self.bad(mod, f, node, 'returned in arbitrary order')
			return
		for m, g, n in sites:
			self.use(m, g, n, kind)

	# loops
	def loop(self, mod, f, st, node):
		names = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
		for n in ast.walk(st):
			if isinstance(n, ast.Assign):
				for t in n.targets:
					if isinstance(t, ast.Subscript):
						self.winner(mod, f, node, t, n.value, names)
		self.body(mod, f, st, st.body, set(names), node)
		changed = {}  # collection -> keys that the loop adds
		for n in ast.walk(st):
			if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute
					) and n.func.attr in (SETMETH | MUTSEQ | {'pop',
					'setdefault'}) and dotted(n.func.value):
				if n.func.attr in ('issubset', 'issuperset', 'union', 'copy',
						'isdisjoint', 'intersection', 'difference'):
					continue
				changed.setdefault(dotted(n.func.value), []).append(
						ast.dump(n.args[0]) if n.args and n.func.attr in (
						'add', 'discard', 'remove', 'setdefault', 'pop',
						'append') else None)
			elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (
					ast.Store, ast.Del)) and dotted(n.value):
				changed.setdefault(dotted(n.value), []).append(
						ast.dump(n.slice))
		for n in ast.walk(st):
			if isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.In,
					ast.NotIn)) and dotted(n.comparators[0]) in changed:
				key = ast.dump(n.left)
				if any(k != key for k in changed[dotted(n.comparators[0])]
						) and n in list(ast.walk(st)):
					self.bad(mod, f, node, 'what is done for an element '
							'depends on the elements before it')
					return

	def worklist(self, mod, f, node, call):
		"""x = work.pop() in a loop: the rest of the loop must commute."""
		p = call
		while p is not None and not isinstance(p, ast.While):
			if isinstance(p, (ast.FunctionDef, ast.Lambda)):
				p = None
				break
			p = parent(p)
		if p is None:
			self.bad(mod, f, call, 'arbitrary element selected')
			return
		names = set()
		for n in ast.walk(p):
			if isinstance(n, ast.Assign) and any(x is call
					for x in ast.walk(n.value)):
				names |= {x.id for t in n.targets for x in ast.walk(t)
						if isinstance(x, ast.Name)}
		self.body(mod, f, p, p.body, names, call)

	def body(self, mod, f, loop, body, names, origin):
		derived = set(names)
		changed = True
		while changed:
			changed = False
			for n in ast.walk(loop):
				if isinstance(n, (ast.Assign, ast.For, ast.comprehension)):
					v = n.value if isinstance(n, ast.Assign) else n.iter
					if any(isinstance(x, ast.Name) and x.id in derived
							for x in ast.walk(v)):
						for t in (n.targets if isinstance(n, ast.Assign)
								else [n.target]):
							for x in ast.walk(t):
								if isinstance(x, ast.Name) and isinstance(
										x.ctx, ast.Store) and (
										x.id not in derived):
									derived.add(x.id)
									changed = True
		consts = all(isinstance(s, (ast.Break, ast.Pass)) or isinstance(
				s, ast.Assign) and isinstance(s.value, ast.Constant)
				for b in ast.walk(loop) if isinstance(b, ast.If)
				for s in b.body)
		stack = list(body)
		while stack:
			s = stack.pop(0)
			if isinstance(s, (ast.If, ast.While, ast.With, ast.Try)):
				for fld in ('body', 'orelse', 'finalbody'):
					stack.extend(getattr(s, fld, []))
				for h in getattr(s, 'handlers', []):
					stack.extend(h.body)
			elif isinstance(s, ast.For):
				stack.extend(s.body + s.orelse)
			elif isinstance(s, (ast.Continue, ast.Pass, ast.Assert, ast.Raise,
					ast.Import, ast.ImportFrom, ast.FunctionDef)):
				pass
			elif isinstance(s, ast.Break):
				if not consts:
					self.bad(mod, f, origin, 'loop over arbitrary order stops '
							'early')
			elif isinstance(s, ast.Return):
				if s.value is not None and not isinstance(s.value,
						ast.Constant):
					self.bad(mod, f, origin, 'arbitrary element returned')
			elif isinstance(s, ast.Delete):
				pass
			elif isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
				for t in (s.targets if isinstance(s, ast.Assign)
						else [s.target]):
					self.store(mod, f, loop, s, t, derived, origin)
			elif isinstance(s, ast.Expr):
				v = s.value
				if isinstance(v, (ast.Yield, ast.YieldFrom)):
					self.bad(mod, f, origin, 'yielded in arbitrary order')
				elif isinstance(v, ast.Call):
					self.stmtcall(mod, f, v, origin)
			else:
				self.bad(mod, f, origin, 'loop in arbitrary order')

	def store(self, mod, f, loop, st, t, derived, origin):
		if isinstance(t, ast.Name):
			if isinstance(st, ast.AugAssign):
				ty = self.t.ev(mod, f, st.value)
				if any(a in ('str', 'bytes') or not isinstance(a, str)
						and a[0] in ('list', 'tuple') for a in ty) and (
						isinstance(st.op, ast.Add)):
					self.variable(mod, f, t.id, 'seq', origin)
				return
			# overwritten in each iteration: not to be read after the loop
			if isinstance(st, ast.Assign) and isinstance(st.value,
					ast.Constant):
				return
			if f is None or t.id not in f.locals:
				self.bad(mod, f, origin, 'last of arbitrary order is kept')
				return
			inside = {id(x) for x in ast.walk(loop)}
			later = [x for x in own_nodes(f.node) if isinstance(x, ast.Name)
					and x.id == t.id and isinstance(x.ctx, ast.Load)
					and id(x) not in inside and reaches(f.node, t.id, st, x)]
			if later:
				v = st.value
				if isinstance(v, ast.Call) and dotted(v.func) in ('min',
						'max'):
					return
				self.bad(mod, f, origin, 'last of arbitrary order is kept')
		elif isinstance(t, (ast.Tuple, ast.List)):
			for e in t.elts:
				self.store(mod, f, loop, st, e, derived, origin)
		elif isinstance(t, ast.Subscript):
			dep = any(isinstance(x, ast.Name) and x.id in derived
					for x in ast.walk(t))
			if not dep and not isinstance(st, ast.AugAssign) and not (
					isinstance(st, ast.Assign) and isinstance(st.value,
					ast.Constant)):
				self.bad(mod, f, origin, 'last of arbitrary order is kept')
			base = t.value
			ty = self.t.ev(mod, f, base)
			if isinstance(base, ast.Name) and f is not None and (
					base.id in f.locals and base.id not in f.params) and any(
					not isinstance(a, str) and a[0] == 'dict' for a in ty):
				self.variable(mod, f, base.id, 'dict', origin)
		elif isinstance(t, ast.Attribute):
			dep = any(isinstance(x, ast.Name) and x.id in derived
					for x in ast.walk(t))
			if not dep and not isinstance(st, ast.AugAssign):
				self.bad(mod, f, origin, 'last of arbitrary order is kept')

	def stmtcall(self, mod, f, call, origin):
		name = self.extname(mod, f, call)
		if name in SHOW:
			self.bad(mod, f, origin, 'shown in arbitrary order')
			return
		if isinstance(call.func, ast.Attribute):
			attr = call.func.attr
			base = call.func.value
			if attr in ('append', 'extend', 'insert', 'appendleft'):
				if isinstance(base, ast.Name) and f is not None and (
						base.id in f.locals and base.id not in f.params):
					self.variable(mod, f, base.id, 'seq', origin)
				else:
					self.bad(mod, f, origin, 'collected in arbitrary order')
			elif attr in MUTSEQ:
				self.bad(mod, f, origin, 'written in arbitrary order')
			elif attr == 'update' and isinstance(base, ast.Name) and any(
					not isinstance(a, str) and a[0] == 'dict'
					for a in self.t.ev(mod, f, base)):
				self.variable(mod, f, base.id, 'dict', origin)

	# driver
	def run(self):
		for mod in self.p.modules.values():
			for f in [None] + list(mod.funcs.values()):
				nodes = list(own_nodes(f.node)) if f is not None else list(
						walk_module(mod.tree))
				for n in nodes:
					if not isinstance(n, ast.expr) or isinstance(getattr(n,
							'ctx', None), (ast.Store, ast.Del)):
						continue
					if isinstance(n, ast.Call):
						name = self.extname(mod, f, n)
						if name in LISTING:
							self.res.count('directory listings')
							self.use(mod, f, n, 'seq')
							continue
						if name and name.startswith(RANDOM) and not (
								name.endswith(('.seed', '.Random'))):
							self.random(mod, f, n, name)
					elif isinstance(n, ast.Name) and not isinstance(
							parent(n), ast.Attribute) and (
							self.p.resolve_name(mod, n.id, f)
							== ('ext', 'random')):
						# the global generator as a value
						self.random(mod, f, n, 'random')
						continue
					elif not isinstance(n, (ast.Name, ast.Attribute, ast.Set,
							ast.SetComp, ast.BinOp, ast.Subscript,
							ast.IfExp, ast.BoolOp)):
						continue
					if isinstance(parent(n), (ast.Attribute, ast.Call)) and (
							isinstance(n, ast.Attribute)) and isinstance(
							parent(n), ast.Call) and parent(n).func is n:
						continue
					if self.arbitrary_set(mod, f, n):
						self.res.count('uses of unordered collections')
						self.use(mod, f, n, 'set')

	def random(self, mod, f, node, name):
		self.res.count('random numbers')
		where = f.qual if f is not None else ''
		if mod.name == 'discodop.gen' or mod.name.startswith('web.') and (
				where == 'randid' or where == 'generateid'):
			return
		self.bad(mod, f, node, 'random number without a seed')


def check(project, res, tier):
	res.rule('sets whose elements have hash values that differ between runs,'
			' and directory listings, are only consumed by operations that do'
			' not depend on their order')
	o = Order(project, res)
	o.run()
	res.require('uses of unordered collections', 60)
	res.require('directory listings', 5)
