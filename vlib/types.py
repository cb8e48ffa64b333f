"""Whole-program, flow-insensitive inference of the kinds of values that
variables, attributes, and results may have (sets, lists, dictionaries, one-shot
iterators, instances, functions, ...), to a bounded depth of nesting."""
import ast
import builtins
from .project import Func, Class, Module, dotted, own_nodes

UNK = frozenset(['?'])
EMPTY = frozenset()
INT, FLOAT, STR, BYTES, NONE, BOOL = (frozenset([a]) for a in (
		'int', 'float', 'str', 'bytes', 'none', 'bool'))
DEPTH = 3
GENERIC1 = {'list', 'set', 'iter', 'view', 'tuple*', 'deque'}
ONESHOT = {'map', 'filter', 'zip', 'enumerate', 'reversed', 'iter',
		'itertools.chain', 'itertools.islice', 'itertools.count',
		'itertools.product', 'itertools.groupby', 'itertools.takewhile',
		'itertools.dropwhile', 'itertools.starmap', 'itertools.repeat',
		'itertools.cycle', 'itertools.permutations', 'itertools.combinations',
		'itertools.zip_longest', 'itertools.chain.from_iterable',
		'itertools.accumulate', 're.finditer', 'glob.iglob', 'os.walk',
		'os.scandir'}
BUILTINMETHODS = {m for t in (dict, list, set, str, bytes, tuple, frozenset)
		for m in dir(t)} | {'read', 'readlines', 'iter', 'parse', 'search'}
FILES = {'open', 'io.open', 'codecs.open', 'gzip.open', 'io.TextIOWrapper',
		'codecs.getreader', 'discodop.util.openread', 'io.StringIO',
		'io.BytesIO'}


def norm(atoms, d=0):
	"""Merge atoms with the same constructor; limit nesting."""
	res, gen, tuples = set(), {}, {}
	for a in atoms:
		if isinstance(a, str):
			res.add(a)
		elif a[0] in GENERIC1:
			gen[a[0]] = gen.get(a[0], EMPTY) | a[1]
		elif a[0] == 'dict':
			k, v = gen.get('dict', (EMPTY, EMPTY))
			gen['dict'] = (k | a[1], v | a[2])
		elif a[0] == 'tuple':
			tuples.setdefault(len(a[1]), []).append(a[1])
		else:
			res.add(a)
	for k, v in gen.items():
		if d >= DEPTH:
			res.add((k, UNK) if k != 'dict' else (k, UNK, UNK))
		elif k == 'dict':
			res.add(('dict', norm(v[0], d + 1), norm(v[1], d + 1)))
		else:
			res.add((k, norm(v, d + 1)))
	for n, ts in tuples.items():
		if d >= DEPTH:
			res.add(('tuple*', UNK))
		else:
			res.add(('tuple', tuple(norm(frozenset().union(*(t[i]
					for t in ts)), d + 1) for i in range(n))))
	return frozenset(res)


def mk(kind, *args):
	return frozenset([(kind, ) + args])


def elem(t):
	"""Type of elements when iterating over t."""
	res = set()
	for a in t:
		if isinstance(a, str):
			res.add({'str': 'str', 'bytes': 'int', 'range': 'int',
					'file': 'str'}.get(a, '?'))
		elif a[0] in GENERIC1 or a[0] == 'dict':
			res |= a[1]
		elif a[0] == 'tuple':
			for x in a[1]:
				res |= x
		else:
			res.add('?')
	return norm(res)


class TypeInfer:
	def __init__(self, project):
		self._gens = None
		self.p = project
		self.vars = {}  # (func id or module name, var) -> type
		self.attrs = {}  # (class id, attr) -> type
		self.rets = {}
		self.yields = {}
		self.callers = {}
		self.cache = {}
		self.changed = False
		self.run()

	# storage
	def setvar(self, key, t):
		if not t:
			return
		old = self.vars.get(key, EMPTY)
		new = norm(old | t)
		if new != old:
			self.vars[key] = new
			self.changed = True

	def setattr(self, key, t):
		if not t:
			return
		old = self.attrs.get(key, EMPTY)
		new = norm(old | t)
		if new != old:
			self.attrs[key] = new
			self.changed = True

	def setret(self, table, f, t):
		old = table.get(f.id, EMPTY)
		new = norm(old | t)
		if new != old:
			table[f.id] = new
			self.changed = True

	def scope(self, module, func, name):
		f = func
		while f is not None:
			if name in f.globals_declared:
				return (module.name, name)
			if name in f.locals:
				return (f.id, name)
			f = f.parent
		return (module.name, name)

	# driver
	def run(self):
		for rnd in range(10):
			self.changed = False
			for mod in self.p.modules.values():
				self.body(mod, None, [n for n in walk_module(mod.tree)])
				for f in mod.funcs.values():
					self.func(mod, f)
			if not self.changed:
				break
		self.rounds = rnd

	def func(self, mod, f):
		if f.cls is not None and f.posparams and (
				'staticmethod' not in f.decorators):
			if 'classmethod' in f.decorators:
				self.setvar((f.id, f.posparams[0]), mk('class', f.cls.id))
			else:
				self.setvar((f.id, f.posparams[0]), mk('inst', f.cls.id))
		for name, d in f.defaults.items():
			self.setvar((f.id, name), self.ev(mod, f.parent, d))
		if f.vararg:
			self.setvar((f.id, f.vararg), mk('tuple*', EMPTY))
		if f.kwarg:
			self.setvar((f.id, f.kwarg), mk('dict', STR, EMPTY))
		if isinstance(f.node, ast.Lambda):
			self.setret(self.rets, f, self.ev(mod, f, f.node.body))
			self.body(mod, f, list(own_nodes(f.node)))
			return
		self.body(mod, f, list(own_nodes(f.node)))

	def body(self, mod, f, nodes):
		for n in nodes:
			if isinstance(n, ast.Assign):
				t = self.ev(mod, f, n.value)
				for tgt in n.targets:
					self.assign(mod, f, tgt, t)
			elif isinstance(n, ast.AnnAssign) and n.value is not None:
				self.assign(mod, f, n.target, self.ev(mod, f, n.value))
			elif isinstance(n, ast.AugAssign):
				t = self.ev(mod, f, n.value)
				cur = self.ev(mod, f, asload(n.target))
				if any(not isinstance(a, str) and a[0] in ('list', 'deque')
						for a in cur):
					t = mk('list', elem(t))
				elif any(isinstance(a, str) and a in ('int', 'float', 'str')
						for a in cur):
					t = cur | (t & (FLOAT | INT | STR))
				elif any(not isinstance(a, str) and a[0] == 'set'
						for a in cur):
					t = frozenset(a for a in t if not isinstance(a, str)
							and a[0] == 'set')
				self.assign(mod, f, n.target, t)
			elif isinstance(n, ast.NamedExpr):
				self.assign(mod, f, n.target, self.ev(mod, f, n.value))
			elif isinstance(n, (ast.For, ast.comprehension)):
				self.assign(mod, f, n.target, elem(self.ev(mod, f, n.iter)))
			elif isinstance(n, ast.withitem):
				if n.optional_vars is not None:
					self.assign(mod, f, n.optional_vars,
							self.ev(mod, f, n.context_expr))
			elif isinstance(n, ast.Return) and f is not None:
				self.setret(self.rets, f, self.ev(mod, f, n.value)
						if n.value is not None else NONE)
			elif isinstance(n, ast.Yield) and f is not None:
				self.setret(self.yields, f, self.ev(mod, f, n.value)
						if n.value is not None else NONE)
			elif isinstance(n, ast.YieldFrom) and f is not None:
				self.setret(self.yields, f, elem(self.ev(mod, f, n.value)))
			elif isinstance(n, ast.Call):
				self.call(mod, f, n, bind=True)

	def assign(self, mod, f, tgt, t):
		if isinstance(tgt, ast.Name):
			self.setvar(self.scope(mod, f, tgt.id), t)
		elif isinstance(tgt, (ast.Tuple, ast.List)):
			for i, e in enumerate(tgt.elts):
				if isinstance(e, ast.Starred):
					self.assign(mod, f, e.value, mk('list', elem(t)))
					continue
				res = set()
				for a in t:
					if not isinstance(a, str) and a[0] == 'tuple':
						if len(a[1]) == len(tgt.elts):
							res |= a[1][i]
					else:
						res |= elem(frozenset([a]))
				self.assign(mod, f, e, norm(res))
		elif isinstance(tgt, ast.Attribute):
			for a in self.ev(mod, f, tgt.value):
				if not isinstance(a, str) and a[0] in ('inst', 'class'):
					self.setattr((a[1], tgt.attr), t)
				elif not isinstance(a, str) and a[0] == 'mod':
					self.setvar((a[1], tgt.attr), t)
		elif isinstance(tgt, ast.Subscript):
			base = self.ev(mod, f, tgt.value)
			if isinstance(tgt.slice, ast.Slice):
				self.grow(mod, f, tgt.value, lambda a: mk('list', elem(t))
						if a == 'list' else None, base)
				return
			k = self.ev(mod, f, tgt.slice)
			self.grow(mod, f, tgt.value, lambda a: mk('list', t)
					if a == 'list' else mk('dict', k, t)
					if a == 'dict' else None, base)
		elif isinstance(tgt, ast.Starred):
			self.assign(mod, f, tgt.value, mk('list', elem(t)))

	def grow(self, mod, f, node, new, base=None):
		"""Merge new information on elements in the object node denotes."""
		if base is None:
			base = self.ev(mod, f, node)
		t = set()
		for a in base:
			r = new(a if isinstance(a, str) else a[0])
			if r:
				t |= r
		if t:
			self.assign(mod, f, node, frozenset(t))

	# expressions
	def ev(self, mod, f, n):
		r = self._ev(mod, f, n)
		return norm(r) if r else EMPTY

	def _ev(self, mod, f, n):
		if n is None:
			return EMPTY
		if isinstance(n, ast.Constant):
			v = n.value
			if v is None:
				return NONE
			return {bool: BOOL, int: INT, float: FLOAT, str: STR,
					bytes: BYTES}.get(type(v), UNK)
		if isinstance(n, ast.Name):
			return self.name(mod, f, n.id)
		if isinstance(n, ast.JoinedStr):
			return STR
		if isinstance(n, ast.Attribute):
			return self.attr(mod, f, n)
		if isinstance(n, ast.Call):
			return self.call(mod, f, n)
		if isinstance(n, ast.List):
			return mk('list', self.elts(mod, f, n.elts))
		if isinstance(n, ast.Set):
			return mk('set', self.elts(mod, f, n.elts))
		if isinstance(n, ast.Tuple):
			if any(isinstance(e, ast.Starred) for e in n.elts):
				return mk('tuple*', self.elts(mod, f, n.elts))
			return mk('tuple', tuple(self.ev(mod, f, e) for e in n.elts))
		if isinstance(n, ast.Dict):
			k, v = set(), set()
			for a, b in zip(n.keys, n.values):
				if a is None:
					for x in self.ev(mod, f, b):
						if not isinstance(x, str) and x[0] == 'dict':
							k |= x[1]
							v |= x[2]
				else:
					k |= self.ev(mod, f, a)
					v |= self.ev(mod, f, b)
			return mk('dict', norm(k), norm(v))
		if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
			t = self.ev(mod, f, n.elt)
			return mk({'ListComp': 'list', 'SetComp': 'set',
					'GeneratorExp': 'iter'}[type(n).__name__], t)
		if isinstance(n, ast.DictComp):
			return mk('dict', self.ev(mod, f, n.key), self.ev(mod, f, n.value))
		if isinstance(n, ast.IfExp):
			return self.ev(mod, f, n.body) | self.ev(mod, f, n.orelse)
		if isinstance(n, ast.BoolOp):
			res = set()
			for v in n.values:
				res |= self.ev(mod, f, v)
			return frozenset(res)
		if isinstance(n, (ast.Compare, )):
			return BOOL
		if isinstance(n, ast.UnaryOp):
			return BOOL if isinstance(n.op, ast.Not) else self.ev(
					mod, f, n.operand)
		if isinstance(n, ast.BinOp):
			a, b = self.ev(mod, f, n.left), self.ev(mod, f, n.right)
			if isinstance(n.op, ast.Mod) and a & (STR | BYTES):
				return a & (STR | BYTES)
			if isinstance(n.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
				res = {('set', elem(frozenset([x]))) for x in a | b
						if not isinstance(x, str) and (x[0] == 'set'
						or x[0] == 'view')}
				if res:
					if any(not isinstance(x, str) and x[0] in ('inst', )
							for x in a | b):
						res |= a | b
					return frozenset(res)
			if isinstance(n.op, ast.Mult):
				seqs = frozenset(x for x in a | b if x == 'str' or
						not isinstance(x, str) and x[0] in ('list', 'tuple',
						'tuple*'))
				if seqs:
					return frozenset(('tuple*', elem(frozenset([x])))
							if not isinstance(x, str) and x[0] == 'tuple'
							else x for x in seqs)
			if isinstance(n.op, ast.Add):
				ts = [x for x in a | b if not isinstance(x, str)
						and x[0] == 'tuple']
				if ts:
					return frozenset((a | b) - set(ts)) | mk('tuple*',
							elem(frozenset(ts)))
			if isinstance(n.op, ast.Div):
				return FLOAT
			return a | b
		if isinstance(n, ast.Subscript):
			t = self.ev(mod, f, n.value)
			if isinstance(n.slice, ast.Slice):
				res = set()
				for a in t:
					if not isinstance(a, str) and a[0] == 'tuple':
						res.add(('tuple*', elem(frozenset([a]))))
					else:
						res.add(a)
				return frozenset(res)
			res = set()
			for a in t:
				if isinstance(a, str):
					res |= {'str': STR, 'bytes': INT, 'range': INT}.get(
							a, UNK)
				elif a[0] == 'dict':
					res |= a[2]
				elif a[0] == 'tuple' and isinstance(n.slice, ast.Constant
						) and isinstance(n.slice.value, int) and -len(a[1]
						) <= n.slice.value < len(a[1]):
					res |= a[1][n.slice.value]
				elif a[0] in GENERIC1 or a[0] == 'tuple':
					res |= elem(frozenset([a]))
				elif a[0] == 'inst':
					res |= self.invoke(self.method(a[1], '__getitem__'))
				else:
					res.add('?')
			return frozenset(res)
		if isinstance(n, ast.Lambda):
			return mk('func', n._func.id)
		if isinstance(n, ast.Starred):
			return elem(self.ev(mod, f, n.value))
		if isinstance(n, ast.NamedExpr):
			return self.ev(mod, f, n.value)
		if isinstance(n, (ast.Yield, ast.Await)):
			return UNK
		return UNK

	def elts(self, mod, f, elts):
		res = set()
		for e in elts:
			res |= self.ev(mod, f, e)
		return norm(res)

	def name(self, mod, f, name):
		key = self.scope(mod, f, name)
		if key in self.vars:
			return self.vars[key]
		g = f
		while g is not None:
			if name in g.locals and name not in g.nested and (
					self.p._local_import(g, name) is None):
				return EMPTY
			g = g.parent
		r = self.p.resolve_name(mod, name, f)
		return self.entity(r)

	def entity(self, r):
		if isinstance(r, Func):
			return mk('func', r.id)
		if isinstance(r, Class):
			return mk('class', r.id)
		if isinstance(r, Module):
			return mk('mod', r.name)
		if isinstance(r, tuple) and r[0] == 'global':
			return self.vars.get((r[1], r[2]), EMPTY)
		if isinstance(r, tuple) and r[0] == 'ext':
			return mk('ext', r[1])
		return UNK

	def classattr(self, cid, name):
		c = self.p.classes.get(cid)
		res, found = set(), False
		if c is None:
			return UNK
		for k in c.mro():
			if (k.id, name) in self.attrs:
				res |= self.attrs[k.id, name]
				found = True
			if name in k.attrs:
				res |= self.ev(k.module, None, k.attrs[name])
				found = True
		for k in c.all_subclasses():
			if (k.id, name) in self.attrs:
				res |= self.attrs[k.id, name]
				found = True
		return norm(res) if found else UNK

	def method(self, cid, name):
		c = self.p.classes.get(cid)
		if c is None:
			return []
		res = []
		m = c.find(name)
		if m is not None:
			res.append(m)
		for k in c.all_subclasses():
			if name in k.methods and k.methods[name] not in res:
				res.append(k.methods[name])
		return res

	def attr(self, mod, f, n):
		t = self.ev(mod, f, n.value)
		res = set()
		for a in t:
			if isinstance(a, str):
				res.add('?')
			elif a[0] in ('inst', 'class'):
				ms = self.method(a[1], n.attr)
				if ms:
					for m in ms:
						if 'property' in m.decorators:
							res |= self.invoke([m])
						elif a[0] == 'inst':
							res.add(('bound', m.id))
						else:
							res.add(('func', m.id))
				else:
					res |= self.classattr(a[1], n.attr)
			elif a[0] == 'mod':
				m = self.p.modules[a[1]]
				r = self.p._module_attr(m, n.attr, 0)
				if r is None or isinstance(r, tuple) and r[0] == 'global':
					res |= self.vars.get((a[1], n.attr), EMPTY)
				else:
					res |= self.entity(r)
			elif a[0] == 'ext':
				res.add(('ext', a[1] + '.' + n.attr))
		return frozenset(res)

	def generators(self):
		"""Names that only generator methods have; name => methods."""
		if self._gens is None:
			named = {}
			for m in self.p.funcs.values():
				if m.cls is not None:
					named.setdefault(m.name, []).append(m)
			self._gens = {a: b for a, b in named.items() if all(
					m.is_generator and not m.decorators for m in b)
					and a not in BUILTINMETHODS}
		return self._gens

	def invoke(self, funcs):
		res = set()
		for m in funcs:
			if m.is_generator:
				if 'contextmanager' in m.decorators or (
						'contextlib.contextmanager' in m.decorators):
					res |= self.yields.get(m.id, EMPTY)
				else:
					res.add(('iter', self.yields.get(m.id, EMPTY)))
			else:
				res |= self.rets.get(m.id, EMPTY)
		return norm(res)

	def bind(self, m, pos, kw, offset):
		names = m.posparams[offset:]
		for i, t in enumerate(pos):
			if i < len(names):
				self.setvar((m.id, names[i]), t)
			elif m.vararg:
				self.setvar((m.id, m.vararg), mk('tuple*', t))
		for k, t in kw.items():
			if k in m.params:
				self.setvar((m.id, k), t)
			elif m.kwarg:
				self.setvar((m.id, m.kwarg), mk('dict', STR, t))

	def apply(self, fn, pos):
		"""Call the functions in type fn with these positional types."""
		res = set()
		for a in fn:
			if isinstance(a, str):
				res.add('?')
			elif a[0] in ('func', 'bound'):
				m = self.p.funcs[a[1]]
				self.bind(m, pos, {}, int(a[0] == 'bound'))
				res |= self.invoke([m])
			elif a[0] == 'class':
				res.add(('inst', a[1]))
				for m in self.method(a[1], '__init__')[:1]:
					self.bind(m, pos, {}, 1)
			elif a[0] == 'ext':
				res |= self.extcall(None, None, None, a[1], pos, {})
			else:
				res.add('?')
		return norm(res)

	def call(self, mod, f, n, bind=False):
		pos = []
		for x in n.args:
			if isinstance(x, ast.Starred):
				break
			pos.append(self.ev(mod, f, x))
		kw = {k.arg: self.ev(mod, f, k.value) for k in n.keywords if k.arg}
		if isinstance(n.func, ast.Attribute):
			r = self.methodcall(mod, f, n, pos, kw, bind)
			if r is not None:
				return r
		ft = self.ev(mod, f, n.func)
		res = set()
		for a in ft:
			if isinstance(a, str):
				res.add('?')
			elif a[0] in ('func', 'bound'):
				m = self.p.funcs[a[1]]
				if bind:
					off = int(a[0] == 'bound')
					if a[0] == 'func' and 'classmethod' in m.decorators:
						off = 1
					self.bind(m, pos, kw, off)
				res |= self.invoke([m])
			elif a[0] == 'class':
				c = self.p.classes[a[1]]
				new = c.find('__new__')
				res.add(('inst', a[1]))
				if bind:
					m = c.find('__init__')
					for x in (m, new):
						if x is not None:
							self.bind(x, pos, kw, 1)
			elif a[0] == 'ext':
				res |= self.extcall(mod, f, n, a[1], pos, kw)
			elif a[0] == 'inst':
				ms = self.method(a[1], '__call__')
				if bind:
					for m in ms:
						self.bind(m, pos, kw, 1)
				res |= self.invoke(ms) if ms else UNK
			else:
				res.add('?')
		return frozenset(res)

	def extcall(self, mod, f, n, name, pos, kw):
		a0 = pos[0] if pos else EMPTY
		if name in ('set', 'frozenset'):
			return mk('set', elem(a0))
		if name == 'list':
			return mk('list', elem(a0))
		if name == 'sorted':
			if 'key' in kw:
				self.apply(kw['key'], [elem(a0)])
			return mk('list', elem(a0))
		if name == 'tuple':
			return mk('tuple*', elem(a0))
		if name in ('dict', 'collections.OrderedDict'):
			k, v = set(), set()
			for a in a0:
				if not isinstance(a, str) and a[0] == 'dict':
					k |= a[1]
					v |= a[2]
			for a in elem(a0):
				if not isinstance(a, str) and a[0] == 'tuple' and (
						len(a[1]) == 2):
					k |= a[1][0]
					v |= a[1][1]
			for t in kw.values():
				k |= STR
				v |= t
			return mk('dict', norm(k), norm(v))
		if name == 'collections.defaultdict':
			return mk('dict', EMPTY, self.apply(a0, []) if a0 else EMPTY)
		if name == 'collections.Counter':
			k = set()
			for a in a0:
				if not isinstance(a, str) and a[0] == 'dict':
					k |= a[1]
				elif a != 'none':
					k |= elem(frozenset([a]))
			return mk('dict', norm(k), INT)
		if name == 'collections.deque':
			return mk('deque', elem(a0))
		if name == 'enumerate':
			return mk('iter', mk('tuple', (INT, elem(a0))))
		if name == 'zip' or name == 'itertools.zip_longest':
			return mk('iter', mk('tuple', tuple(elem(a) for a in pos))
					if n is not None and len(pos) == len(n.args) else UNK)
		if name == 'map' or name == 'itertools.starmap':
			return mk('iter', self.apply(a0, [elem(a) for a in pos[1:]]))
		if name == 'filter':
			if len(pos) > 1:
				self.apply(a0, [elem(pos[1])])
				return mk('iter', elem(pos[1]))
			return mk('iter', UNK)
		if name in ('reversed', 'iter', 'itertools.islice',
				'itertools.takewhile', 'itertools.dropwhile',
				'itertools.cycle'):
			return mk('iter', elem(pos[-1 if 'while' in name else 0])
					if pos else UNK)
		if name == 'itertools.chain':
			res = set()
			for a in pos:
				res |= elem(a)
			return mk('iter', norm(res))
		if name == 'itertools.chain.from_iterable':
			return mk('iter', elem(elem(a0)))
		if name == 'itertools.count':
			return mk('iter', INT)
		if name == 'itertools.groupby':
			return mk('iter', mk('tuple', (UNK, mk('iter', elem(a0)))))
		if name == 'itertools.product':
			return mk('iter', mk('tuple', tuple(elem(a) for a in pos)))
		if name in ONESHOT:
			return mk('iter', UNK)
		if name in FILES or name.endswith('.openread'):
			return frozenset(['file'])
		if name in ('len', 'int', 'ord', 'hash', 'id'):
			return INT
		if name in ('str', 'repr', 'chr', 'ascii', 'format', 'hex', 'oct',
				'bin', 'input', 'html.escape', 'textwrap.dedent',
				're.sub', 're.escape'):
			return STR
		if name in ('float', 'math.log', 'math.exp', 'math.sqrt'):
			return FLOAT
		if name in ('bool', 'isinstance', 'any', 'all', 'hasattr', 'callable',
				'issubclass'):
			return BOOL
		if name == 'range':
			return frozenset(['range'])
		if name in ('sum', 'min', 'max', 'abs', 'round'):
			if name in ('min', 'max', 'sum'):
				if len(pos) > 1 and name != 'sum':
					return frozenset().union(*pos)
				if 'key' in kw:
					self.apply(kw['key'], [elem(a0)])
				return elem(a0)
			return a0
		if name == 'next':
			return elem(a0) | (pos[1] if len(pos) > 1 else EMPTY)
		if name == 'print':
			return NONE
		if name in ('functools.partial', ):
			return a0
		if name in ('re.split', 're.findall', 'glob.glob', 'os.listdir'):
			return mk('list', STR)
		if name in ('heapq.nlargest', 'heapq.nsmallest'):
			return mk('list', elem(pos[1]) if len(pos) > 1 else UNK)
		if name in ('copy.copy', 'copy.deepcopy', 'tuple'):
			return a0
		if name == 'getattr' and len(pos) > 2:
			return pos[2] | UNK
		return UNK

	def methodcall(self, mod, f, n, pos, kw, bind):
		"""Result of x.method(...); None: not a method of a builtin type."""
		attr = n.func.attr
		t = self.ev(mod, f, n.func.value)
		res, known = set(), False
		for a in t:
			kind = a if isinstance(a, str) else a[0]
			if kind in ('inst', 'class', 'mod', 'ext', 'func'):
				if kind == 'inst' and not self.method(a[1], attr):
					c = self.p.classes[a[1]]
					ext = c.external_bases()
					r = self.builtin('list' if 'list' in ext else 'dict'
							if 'dict' in ext else '?', a, attr, pos, kw, mod,
							f, n, bind)
					ca = self.classattr(a[1], attr)
					if ca != UNK:
						return None
					if r is not None:
						res |= r
						known = True
				continue
			if kind == '?' or kind == 'none':
				continue
			r = self.builtin(kind, a, attr, pos, kw, mod, f, n, bind)
			if r is not None:
				res |= r
				known = True
		if not known:
			# generic names on values of unknown type
			if attr == 'join' or attr in ('strip', 'lstrip', 'rstrip',
					'lower', 'upper', 'decode', 'format', 'zfill') and not any(
					not isinstance(a, str) and a[0] in ('inst', 'mod', 'ext')
					for a in t):
				return STR
			if attr in ('imap', 'imap_unordered', 'map', 'map_async',
					'apply', 'apply_async', 'submit') and pos and not any(
					not isinstance(a, str) and a[0] == 'inst' for a in t):
				if 'apply' in attr or attr == 'submit':
					args = [elem(pos[1])] if attr != 'submit' and len(
							pos) > 1 else pos[1:]
					if attr != 'submit' and len(pos) > 1:
						for x in pos[1]:
							if not isinstance(x, str) and x[0] == 'tuple':
								args = list(x[1])
					return mk('future', self.apply(pos[0], args))
				r = self.apply(pos[0], [elem(a) for a in pos[1:2]])
				return mk('list' if attr == 'map' else 'iter', r)
			if not any(not isinstance(a, str) and a[0] in ('inst', 'mod',
					'ext', 'class', 'func', 'bound') for a in t):
				if attr in ('finditer', 'iterfind', 'scandir'):
					return mk('iter', UNK)
				ms = self.generators().get(attr)
				if ms:
					return self.invoke(ms)
			return None
		rest = frozenset(a for a in t if not isinstance(a, str) and a[0] in (
				'inst', 'class', 'mod', 'ext', 'func'))
		if rest:
			for a in rest:
				if a[0] in ('inst', 'class'):
					ms = self.method(a[1], attr)
					if bind:
						for m in ms:
							self.bind(m, pos, kw, int(m.is_method))
					res |= self.invoke(ms)
		return norm(res)

	def builtin(self, kind, a, attr, pos, kw, mod, f, n, bind):
		e = elem(frozenset([a])) if not isinstance(a, str) and a[0] in (
				GENERIC1 | {'tuple', 'dict'}) else UNK
		p0 = pos[0] if pos else EMPTY
		tgt = n.func.value
		if kind in ('list', 'deque'):
			if attr in ('append', 'appendleft'):
				if bind:
					self.grow(mod, f, tgt, lambda k: mk(k, p0)
							if k in ('list', 'deque') else None)
				return NONE
			if attr == 'insert':
				if bind and len(pos) > 1:
					self.grow(mod, f, tgt, lambda k: mk(k, pos[1])
							if k in ('list', 'deque') else None)
				return NONE
			if attr in ('extend', 'extendleft'):
				if bind:
					self.grow(mod, f, tgt, lambda k: mk(k, elem(p0))
							if k in ('list', 'deque') else None)
				return NONE
			if attr in ('pop', 'popleft'):
				return e
			if attr in ('index', 'count'):
				return INT
			if attr == 'copy':
				return frozenset([a])
			if attr == 'sort' and 'key' in kw:
				self.apply(kw['key'], [e])
			return NONE if attr in ('sort', 'reverse', 'remove', 'clear'
					) else None
		if kind == 'set':
			if attr == 'add':
				if bind:
					self.grow(mod, f, tgt, lambda k: mk(k, p0)
							if k == 'set' else None)
				return NONE
			if attr in ('update', ):
				if bind:
					for p in pos:
						self.grow(mod, f, tgt, lambda k: mk(k, elem(p))
								if k == 'set' else None)
				return NONE
			if attr in ('union', 'intersection', 'difference', 'copy',
					'symmetric_difference'):
				x = set(e)
				if attr in ('union', 'symmetric_difference'):
					for p in pos:
						x |= elem(p)
				return mk('set', norm(x))
			if attr == 'pop':
				return e
			return BOOL if attr in ('issubset', 'issuperset', 'isdisjoint'
					) else NONE
		if kind == 'dict' and not isinstance(a, str):
			k, v = (a[1], a[2]) if a[0] == 'dict' else (UNK, UNK)
			if attr == 'items':
				return mk('view', mk('tuple', (k, v)))
			if attr == 'keys':
				return mk('view', k)
			if attr == 'values':
				return mk('view', v)
			if attr in ('get', 'pop', 'setdefault'):
				d = pos[1] if len(pos) > 1 else NONE
				if attr == 'setdefault' and bind and len(pos) > 1:
					self.grow(mod, f, tgt, lambda x: mk('dict', p0, d)
							if x == 'dict' else None)
				return v | (d if len(pos) > 1 or attr == 'get' else EMPTY)
			if attr == 'update':
				if bind:
					for p in pos:
						kk, vv = set(), set()
						for x in p:
							if not isinstance(x, str) and x[0] == 'dict':
								kk |= x[1]
								vv |= x[2]
							else:
								for y in elem(frozenset([x])):
									if not isinstance(y, str) and (
											y[0] == 'tuple'
											and len(y[1]) == 2):
										kk |= y[1][0]
										vv |= y[1][1]
									else:
										kk |= frozenset([y])
						self.grow(mod, f, tgt, lambda x: mk('dict',
								norm(kk), norm(vv)) if x == 'dict' else None)
				return NONE
			if attr == 'copy':
				return frozenset([a])
			if attr == 'popitem':
				return mk('tuple', (k, v))
			if attr == 'most_common':
				return mk('list', mk('tuple', (k, v)))
			if attr == 'elements':
				return mk('iter', k)
			return NONE if attr in ('clear', 'subtract') else None
		if kind in ('str', 'bytes'):
			s = frozenset([kind])
			if attr in ('split', 'rsplit', 'splitlines'):
				return mk('list', s)
			if attr in ('partition', 'rpartition'):
				return mk('tuple', (s, s, s))
			if attr in ('startswith', 'endswith') or attr.startswith('is'):
				return BOOL
			if attr in ('find', 'rfind', 'count', 'index', 'rindex'):
				return INT
			if attr == 'encode':
				return BYTES
			if attr == 'decode':
				return STR
			return s
		if kind == 'file':
			if attr in ('read', 'readline'):
				return STR
			if attr == 'readlines':
				return mk('list', STR)
			return NONE
		if kind in ('tuple', 'tuple*', 'range', 'view', 'iter'):
			return INT if attr in ('index', 'count') else UNK
		if kind == 'future':
			return a[1] if attr in ('get', 'result') else NONE
		return None


def asload(node):
	return node


def walk_module(tree):
	"""Nodes at module level, including class bodies, not functions."""
	stack = list(tree.body)
	while stack:
		n = stack.pop()
		yield n
		if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
			continue
		if isinstance(n, ast.ClassDef):
			stack.extend(x for x in n.body if not isinstance(x,
					(ast.Assign, ast.AnnAssign)))
			continue
		stack.extend(ast.iter_child_nodes(n))


def infer(project):
	"""Shared between checks of the same run."""
	if getattr(project, '_types', None) is None:
		project._types = TypeInfer(project)
	return project._types
