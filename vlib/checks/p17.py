"""One-shot iterators are consumed once and not used as sequences."""
import ast
from ..flow import Flow
from ..project import own_nodes, src
from ..types import infer, EMPTY

TITLE = 'one-shot iterators'
FULL = {'list', 'tuple', 'set', 'frozenset', 'sorted', 'sum', 'max', 'min',
		'any', 'all', 'dict', 'collections.OrderedDict', 'collections.Counter',
		'collections.deque', 'dict.fromkeys', 'heapq.nlargest',
		'heapq.nsmallest', 'functools.reduce', 'print'}
LAZY = {'map', 'filter', 'zip', 'enumerate', 'itertools.chain',
		'itertools.chain.from_iterable', 'itertools.starmap',
		'itertools.groupby', 'itertools.zip_longest', 'iter',
		'itertools.accumulate', 'itertools.cycle', 'itertools.filterfalse'}
PART = {'itertools.islice', 'itertools.takewhile', 'itertools.dropwhile'}
EAGER = {'itertools.product', 'itertools.permutations', 'itertools.tee',
		'itertools.combinations', 'itertools.combinations_with_replacement'}
METHODS = {'join', 'extend', 'update', 'writelines', 'extendleft', 'union',
		'intersection', 'difference', 'symmetric_difference', 'map', 'imap',
		'imap_unordered', 'map_async', 'executemany', 'fromkeys', 'issuperset',
		'issubset', 'isdisjoint', 'difference_update', 'intersection_update'}
NEW, PARTIAL, USED = 0, 1, 2
FILE = frozenset(['file'])
OTHER = frozenset([('O', )])
ITERATTRS = {'close', 'send', 'throw', '__next__', '__iter__', 'gi_frame',
		'gi_running', 'next'}


def isiter(t):
	"""The value is certainly a one-shot iterator (if not None)."""
	return bool(t) and all(not isinstance(a, str) and a[0] == 'iter'
			for a in t)


class IterFlow(Flow):
	track_facts = True
	raise_states = 'both'

	def __init__(self, check, func):
		super().__init__(func)
		self.c = check
		self.mod = func.module
		self.deps = {}
		self.once, self.twice, self.part = {}, {}, {}
		self.seq = {}  # parameters used as sequences
		self.fixed = {}  # objects of statements of for loops

	# dom: (env, state)
	def init(self):
		env = {}
		for p in self.func.params:
			env[p] = frozenset([('P', p)])
		if self.func.vararg:
			env[self.func.vararg] = OTHER
		if self.func.kwarg:
			env[self.func.kwarg] = OTHER
		return (env, {})

	def copy(self, dom):
		return (dict(dom[0]), dict(dom[1]))

	def join(self, a, b):
		env = dict(a[0])
		for k, v in b[0].items():
			env[k] = env.get(k, EMPTY) | v
		st = dict(a[1])
		for k, v in b[1].items():
			st[k] = max(st.get(k, NEW), v)
		return (env, st)

	def equal(self, a, b):
		return a == b

	def on_expr(self, node, dom):
		self.env, self.st = dom
		self.last = self.E(node)
		self.fixed[id(node)] = self.last
		return (self.env, self.st)

	def on_assign(self, target, value, dom, stmt):
		self.env, self.st = dom
		if isinstance(target, ast.Name):
			if isinstance(stmt, ast.AugAssign):
				self.env[target.id] = EMPTY
			elif value is None:
				self.env[target.id] = OTHER
			else:
				self.env[target.id] = self.fixed.get(id(value), OTHER) or OTHER
		elif isinstance(target, (ast.Tuple, ast.List)):
			pairs = None
			if isinstance(value, (ast.Tuple, ast.List)) and len(
					value.elts) == len(target.elts):
				pairs = list(zip(target.elts, value.elts))
			elif value is not None and value is getattr(stmt, 'value', None):
				self.consume(self.fixed.get(id(value), EMPTY), value)
			for e in target.elts:
				for n in ast.walk(e):
					if isinstance(n, ast.Name) and isinstance(
							n.ctx, ast.Store):
						self.env[n.id] = EMPTY
			for e, v in pairs or ():
				if isinstance(e, ast.Name):
					self.env[e.id] = self.fixed.get(id(v), OTHER) or OTHER
		return (self.env, self.st)

	def st_For(self, st, ds):
		ds = self.ev(st.iter, ds)
		full = not any(isinstance(n, (ast.Break, ast.Return))
				for b in st.body for n in ownloop(b))

		def use(d):
			self.env, self.st = d
			objs = self.fixed.get(id(st.iter), EMPTY)
			self.consume(objs, st.iter, USED if full else PARTIAL)
			return (self.env, self.st)
		ds = self.mapd(ds, use)
		return self._loop(lambda s: (self.assign(st.target, None, s, st), s),
				st.body, st.orelse, ds)

	def on_def(self, node, dom):
		env = dom[0]
		for n in ast.walk(node):
			if isinstance(n, ast.Name) and n.id in env and env[n.id] != OTHER:
				env[n.id] = EMPTY
		return dom

	def on_branch(self, test, truth, dom):
		self.env, self.st = dom
		node = test
		while isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
			node = node.operand
			truth = not truth
		if isinstance(node, ast.Name):
			self.boolean(node)
		elif (isinstance(node, ast.Call) and isinstance(node.func, ast.Name)
				and node.func.id in ('isinstance', 'hasattr') and truth
				and node.args and isinstance(node.args[0], ast.Name)):
			x = node.args[0].id
			if x in self.env:
				self.env[x] = frozenset(o for o in self.env[x]
						if o[0] != 'P') or OTHER
		elif (isinstance(node, ast.Compare) and len(node.ops) == 1
				and isinstance(node.left, ast.Name)
				and isinstance(node.comparators[0], ast.Constant)
				and node.comparators[0].value is None
				and isinstance(node.ops[0], (ast.Is, ast.IsNot))):
			x = node.left.id
			isnone = isinstance(node.ops[0], ast.Is) == truth
			if x in self.env and isnone:
				self.env[x] = OTHER
			elif x in self.env:
				rest = self.env[x] - OTHER
				self.env[x] = rest or OTHER
		return (self.env, self.st)

	# findings
	def definite(self, objs):
		return bool(objs) and all(o[0] == 'A' for o in objs)

	def report(self, rule, node, objs, msg):
		self.c.report(self.func, rule, node, objs, msg)

	def boolean(self, node):
		objs = self.value(node)
		if self.definite(objs) and 'none' not in self.c.t.ev(self.mod,
				self.func, node):
			self.report('truth-value', node, objs, 'an iterator is always'
					' true, also when nothing is left in it')

	def value(self, node):
		if isinstance(node, ast.Name):
			return self.env.get(node.id, EMPTY)
		return EMPTY

	def sequence(self, node, objs, what):
		if self.definite(objs):
			self.report('not-a-sequence', node, objs,
					'an iterator has no %s' % what)
		elif len(objs) == 1:
			for o in objs:
				if o[0] == 'P' and not self.dependent(node, o[1]):
					self.seq.setdefault(o[1], what)

	def dependent(self, node, p):
		"""Whether this is reached depends on other parameters."""
		others = set(self.func.params) - {p}

		def mentions(test):
			return any(isinstance(x, ast.Name) and x.id in others
					for x in ast.walk(test))
		n = node
		while n is not None and n is not self.func.node:
			par = getattr(n, '_parent', None)
			if isinstance(par, (ast.If, ast.IfExp, ast.While)) and (
					n is not par.test) and mentions(par.test):
				return True
			if isinstance(par, ast.BoolOp) and any(mentions(x)
					for x in par.values[:-1]):
				return True
			n = par
		for x in own_nodes(self.func.node):
			if isinstance(x, ast.If) and x.lineno < node.lineno and mentions(
					x.test) and any(isinstance(y, (ast.Return, ast.Continue,
					ast.Break)) for b in x.body + x.orelse
					for y in ast.walk(b)):
				return True
		return False

	def under(self, objs):
		res, todo = set(), list(objs)
		while todo:
			o = todo.pop()
			if o not in res:
				res.add(o)
				todo.extend(self.deps.get(o, ()))
		return res

	def consume(self, objs, node, how=USED):
		for o in self.under(objs):
			if o[0] == 'O':
				continue
			self.c.nconsume.add((self.func.id, node.lineno, node.col_offset))
			old = self.st.get(o, NEW)
			if old == USED:
				if o[0] == 'P':
					self.twice.setdefault(o[1], node)
				elif how == USED or how == PARTIAL:
					self.report('consumed-twice', node, [o], 'the iterator has'
							' been consumed before on some path, so nothing is'
							' left')
			if o[0] == 'P':
				(self.once if how == USED else self.part).setdefault(
						o[1], node)
			self.st[o] = max(old, how)

	# expressions: evaluate and return the set of objects
	def E(self, node):
		if node is None:
			return EMPTY
		m = getattr(self, 'e_' + type(node).__name__, None)
		if m is not None:
			return m(node)
		for ch in ast.iter_child_nodes(node):
			if isinstance(ch, ast.expr):
				self.E(ch)
			elif isinstance(ch, (ast.keyword, ast.FormattedValue)):
				self.E(ch.value)
		return OTHER

	def e_Constant(self, node):
		return OTHER

	def e_Name(self, node):
		return self.env.get(node.id, EMPTY)

	def e_NamedExpr(self, node):
		v = self.E(node.value)
		self.env[node.target.id] = v or OTHER
		return v

	def e_IfExp(self, node):
		self.E(node.test)
		if isinstance(node.test, ast.Name):
			self.boolean(node.test)
		st = dict(self.st)
		a = self.E(node.body)
		st1 = self.st
		self.st = st
		b = self.E(node.orelse)
		for k, v in st1.items():
			self.st[k] = max(self.st.get(k, NEW), v)
		return a | b

	def e_BoolOp(self, node):
		res = set()
		for n, v in enumerate(node.values):
			res |= self.E(v)
			if n < len(node.values) - 1:
				self.boolean(v)
		return frozenset(res)

	def e_UnaryOp(self, node):
		self.E(node.operand)
		if isinstance(node.op, ast.Not):
			self.boolean(node.operand)
		return OTHER

	def e_BinOp(self, node):
		a, b = self.E(node.left), self.E(node.right)
		for x, o in ((node.left, a), (node.right, b)):
			if not isinstance(node.op, ast.Mod) or x is node.left:
				self.sequence(x, o, 'operator %s' % type(node.op).__name__)
		return OTHER

	def e_Compare(self, node):
		objs = [self.E(node.left)] + [self.E(x) for x in node.comparators]
		for n, op in enumerate(node.ops):
			if isinstance(op, (ast.In, ast.NotIn)):
				self.consume(objs[n + 1], node)
			elif isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
				for o in objs[n:n + 2]:
					self.sequence(node, o, 'order')
		return OTHER

	def e_Subscript(self, node):
		o = self.E(node.value)
		self.E(node.slice)
		self.sequence(node, o, 'elements that can be indexed')
		return self.fresh(node)

	def e_Attribute(self, node):
		o = self.E(node.value)
		if node.attr not in ITERATTRS:
			self.sequence(node, o, 'attribute %s' % node.attr)
		return EMPTY

	def e_Starred(self, node):
		self.consume(self.E(node.value), node)
		return OTHER

	def e_Yield(self, node):
		self.E(node.value)
		return EMPTY

	def e_YieldFrom(self, node):
		self.consume(self.E(node.value), node)
		return EMPTY

	def e_Tuple(self, node):
		for e in node.elts:
			self.fixed[id(e)] = self.E(e)
		return OTHER

	e_List = e_Tuple

	def e_Lambda(self, node, repeat=False):
		save = dict(self.env)
		for a in ast.walk(node.args):
			if isinstance(a, ast.arg):
				self.env[a.arg] = EMPTY
		if repeat:
			self.E(node.body)
			self.E(node.body)
		self.env = save
		if not repeat:
			for n in ast.walk(node.body):
				if isinstance(n, ast.Name) and n.id in self.env and (
						self.env[n.id] != OTHER):
					self.env[n.id] = EMPTY
		return OTHER

	def comp(self, node, elts, lazy=False):
		save = dict(self.env)
		first = EMPTY
		for n, g in enumerate(node.generators):
			if n == 0:
				first = self.E(g.iter)
				if not lazy:
					self.consume(first, g.iter)
			else:
				for _ in range(2):
					self.consume(self.E(g.iter), g.iter)
			for x in ast.walk(g.target):
				if isinstance(x, ast.Name):
					self.env[x.id] = EMPTY
			for _ in range(2):
				for t in g.ifs:
					self.E(t)
					if isinstance(t, ast.Name):
						self.boolean(t)
		for _ in range(2):
			for e in elts:
				self.E(e)
		self.env = save
		return first - OTHER

	def e_ListComp(self, node):
		self.comp(node, [node.elt])
		return OTHER

	e_SetComp = e_ListComp

	def e_DictComp(self, node):
		self.comp(node, [node.key, node.value])
		return OTHER

	def e_GeneratorExp(self, node):
		first = self.comp(node, [node.elt], lazy=True)
		res = self.fresh(node)
		for o in res:
			if o[0] == 'A' and first:
				self.deps[o] = first
		return res

	def fresh(self, node):
		t = self.c.t.ev(self.mod, self.func, node)
		if t == FILE and isinstance(node, ast.Call):
			o = ('F', src(node)[:60], node.lineno, node.col_offset)
			self.c.nalloc.add((self.func.id, node.lineno, node.col_offset))
			self.st[o] = NEW
			return frozenset([o])
		if not isiter(t) and isinstance(node, ast.Call) and isinstance(
				node.func, ast.Attribute) and (
				node.func.attr in self.c.t.generators()):
			t = frozenset([('iter', EMPTY)])  # any object with this method
		if not isiter(t):
			return OTHER if t and 'none' not in t and '?' not in t and not any(
					not isinstance(a, str) and a[0] == 'iter' for a in t
					) else EMPTY
		o = ('A', src(node)[:60], node.lineno, node.col_offset)
		self.c.nalloc.add((self.func.id, node.lineno, node.col_offset))
		if not isinstance(node, ast.Subscript):
			self.st[o] = NEW
			self.deps.pop(o, None)
		else:
			return EMPTY
		return frozenset([o])

	def e_Call(self, node):
		fn = node.func
		names = set()
		callees = []
		for a in self.c.t.ev(self.mod, self.func, fn):
			if isinstance(a, str):
				continue
			if a[0] == 'ext':
				names.add(a[1])
			elif a[0] in ('func', 'bound'):
				m = self.c.p.funcs[a[1]]
				callees.append((m, int(a[0] == 'bound' or 'classmethod' in
						m.decorators)))
			elif a[0] == 'class':
				for x in ('__init__', '__new__'):
					m = self.c.p.classes[a[1]].find(x)
					if m is not None:
						callees.append((m, 1))
		recv = None
		if isinstance(fn, ast.Attribute):
			recv = self.E(fn.value)
			if fn.attr in ('seek', 'truncate'):
				for o in recv:
					self.st[o] = NEW
			elif fn.attr in ('read', 'readlines') and not node.args:
				self.consume(frozenset(o for o in recv if o[0] == 'F'), node)
			if fn.attr not in ITERATTRS:
				self.sequence(fn, recv, 'attribute %s' % fn.attr)
		else:
			self.E(fn)
		args = []
		for x in node.args:
			if isinstance(x, ast.Lambda):
				self.e_Lambda(x, repeat=bool(names & (FULL | LAZY)))
				args.append(OTHER)
			else:
				args.append(self.E(x))
		kws = {}
		for k in node.keywords:
			if isinstance(k.value, ast.Lambda):
				self.e_Lambda(k.value, repeat=k.arg == 'key')
				kws[k.arg] = OTHER
			else:
				kws[k.arg] = self.E(k.value)
		under = set()
		if names:
			name = sorted(names)[0] if len(names) == 1 else None
			if name in FULL:
				if name not in ('max', 'min', 'print') or (
						len(args) == 1 and name != 'print'):
					for a in args[-1:] if name.startswith(('heapq', 'functools'
							)) else args[:1]:
						self.consume(a, node)
			elif name in LAZY:
				if name == 'zip' and any(isinstance(x, ast.Call) and isinstance(
						x.func, ast.Name) and x.func.id == 'range'
						for x in node.args):
					pass
				else:
					for a in args:
						under |= a
			elif name in EAGER:
				for a in args:
					self.consume(a, node)
			elif name in PART:
				for a in args:
					for o in a:
						if self.st.get(o, NEW) == NEW:
							self.st[o] = PARTIAL
			elif name == 'len':
				for a in args:
					self.sequence(node, a, 'length')
			elif name == 'reversed':
				for a in args:
					self.sequence(node, a, 'reverse order')
			elif name == 'bool':
				for x in node.args:
					self.boolean(x)
		elif not callees and isinstance(fn, ast.Attribute) and (
				fn.attr in METHODS):
			for a in args:
				self.consume(a, node)
		used = {}
		for m, off in callees:
			once, twice, part, seq = self.c.summary(m)
			pos = m.posparams[off:]
			pairs = list(zip(pos, args)) if not any(isinstance(x, ast.Starred)
					for x in node.args) else []
			pairs += [(k, a) for k, a in kws.items() if k is not None]
			for p, a in pairs:
				if p in seq and self.definite(a):
					self.report('not-a-sequence', node, a, 'an iterator has'
							' no %s, which %s() uses' % (seq[p], m.qual))
				elif p in seq and len(a) == 1:
					for o in a:
						if o[0] == 'P' and not self.dependent(node, o[1]):
							self.seq.setdefault(o[1], seq[p])
				if p in twice:
					for o in a:
						if o[0] == 'A':
							self.report('consumed-twice', node, [o],
									'%s() goes over its argument %s more than'
									' once' % (m.qual, p))
						elif o[0] == 'P':
							self.twice.setdefault(o[1], node)
				if p in once and m.is_generator and len(callees) == 1:
					under |= a
				elif p in once or p in part:
					how = USED if p in once else PARTIAL
					used[a] = max(how, used.get(a, NEW))
		for a, how in used.items():
			self.consume(a, node, how)
		res = self.fresh(node)
		under -= OTHER
		for o in res:
			if o[0] == 'A' and under:
				self.deps[o] = frozenset(under)
		return res


def ownloop(n):
	"""Nodes from which a break or return leaves the loop."""
	stack = [(n, False)]
	while stack:
		n, inner = stack.pop()
		if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
			continue
		if not (inner and isinstance(n, ast.Break)):
			yield n
		inner = inner or isinstance(n, (ast.For, ast.While))
		for ch in ast.iter_child_nodes(n):
			stack.append((ch, inner))


class Check:
	def __init__(self, project, res):
		self.p, self.res = project, res
		self.t = infer(project)
		self.memo = {}
		self.nalloc, self.nconsume = set(), set()

	def summary(self, f):
		if f.id not in self.memo:
			self.memo[f.id] = ({}, {}, {}, {})
			fl = IterFlow(self, f)
			fl.run()
			self.memo[f.id] = (fl.once, fl.twice, fl.part, fl.seq)
		return self.memo[f.id]

	def report(self, f, rule, node, objs, msg):
		o = sorted(objs)[0]
		self.res.finding(rule, '%s: %s' % (f.id, o[1]),
				'%s:%d' % (f.module.relpath, node.lineno), msg)


def attributes(c, res):
	"""Attributes that only hold iterators are consumed at one place."""
	uses = {}
	for mod in c.p.modules.values():
		for f in mod.funcs.values():
			for n in own_nodes(f.node):
				if isinstance(n, (ast.For, ast.comprehension)):
					it = n.iter
				elif isinstance(n, ast.Call) and n.args and isinstance(
						n.func, ast.Name) and n.func.id in FULL:
					it = n.args[0]
				else:
					continue
				if isinstance(it, ast.Attribute):
					for a in c.t.ev(mod, f, it.value):
						if not isinstance(a, str) and a[0] == 'inst' and (
								(a[1], it.attr) in c.t.attrs):
							uses.setdefault((a[1], it.attr), []).append(
									(f, it))
	for (cid, attr), lst in sorted(uses.items()):
		res.count('attributes iterated over')
		if not isiter(c.t.attrs[cid, attr]):
			continue
		for f, it in lst:
			if f.name != '__init__' or len(lst) > 1:
				res.finding('attribute', '%s.%s' % (cid, attr), '%s:%d' % (
						f.module.relpath, it.lineno), 'the attribute holds a'
						' one-shot iterator, which %s() consumes' % f.name)
				break


def check(project, res, tier):
	res.rule("a one-shot iterator (generator, map, zip, ...) is not consumed"
			" when it may have been consumed before, by the same function or"
			" the functions it is passed to")
	res.rule("a one-shot iterator is not tested for truth, measured, indexed,"
			" or concatenated; an attribute iterated over does not hold one")
	c = Check(project, res)
	for mod in project.modules.values():
		for f in mod.funcs.values():
			c.summary(f)
			res.count('functions')
	attributes(c, res)
	res.count('iterators created', len(c.nalloc))
	res.count('places where an iterator is consumed', len(c.nconsume))
	res.require('functions', 500)
	res.require('iterators created', 100)
