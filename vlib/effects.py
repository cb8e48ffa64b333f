"""Interprocedural points-to / mutation-effect analysis.

Every function gets a summary: which objects reachable from its parameters,
free variables, module globals and mutable defaults it may modify; what it
returns; and what it stores where.  Locations are

('P', root, path, deep)   object reached from parameter/free variable `root`
                          through `path` (at most 2 fields; `deep`: anything
                          reachable from there)
('G', name, path, deep)   idem for a module or class level object
('A', id, cls)            object allocated in the function under analysis
('FN', id), ('CLS', id), ('EXT', name)   functions, classes, externals

Field '*' stands for elements; `x.children` is identified with `x` itself.
Locals are tracked flow-sensitively (strong updates), the heap of allocated
objects flow-insensitively per function.
"""
import ast
from .flow import Flow
from .project import Func, Class, Module, dotted, own_nodes

EMPTY = frozenset()
DEBUG = False
MAXPATH = 2
MAXVISITS = 40
IMMUTABLE_ATTRS = {'label', 'type', '__name__', '__doc__', 'name'}
# memo of an immutable tree: cannot become stale, not observable
CACHEATTRS = {'_leaves', 'bitset'}
UPATTRS = {'parent', '_parent', 'root', 'left_sibling', 'right_sibling'}
MUTATORS = {'append', 'add', 'insert', 'extend', 'update', 'remove',
		'discard', 'pop', 'popitem', 'clear', 'sort', 'reverse', 'setdefault',
		'appendleft', 'popleft', 'extendleft', 'rotate', 'move_to_end',
		'intersection_update', 'difference_update',
		'symmetric_difference_update', 'subtract', '__setitem__',
		'__delitem__', '__iadd__', 'setvalue'}
STORING = {'append': (0, 0), 'add': (0, 0), 'insert': (1, 0),
		'extend': (0, 1), 'update': (0, 1), 'setdefault': (1, 0),
		'appendleft': (0, 0), 'extendleft': (0, 1), '__setitem__': (1, 0)}
TREEMUT = {'detach', 'disown', 'prune', 'spliceabove', 'splicebelow'}
TREEMUTATORS = TREEMUT | {'append', 'insert', 'extend', 'remove', 'pop'}
TRAVERSE = {'subtrees', 'postorder', 'find', 'iter', 'itersiblings'}
SCALAR_METHODS = {'split', 'rsplit', 'join', 'format', 'strip', 'lstrip',
		'rstrip', 'replace', 'startswith', 'endswith', 'upper', 'lower',
		'encode', 'decode', 'count', 'index', 'rindex', 'isdigit', 'isupper',
		'islower', 'isalpha', 'isalnum', 'title', 'capitalize', 'partition',
		'rpartition', 'splitlines', 'rfind', 'ljust', 'rjust',
		'center', 'zfill', 'translate', 'casefold', 'height', 'treepositions',
		'leaf_treeposition', 'treeposition_spanning_leaves', 'match',
		'search', 'fullmatch', 'sub', 'group', 'groups', 'span', 'start',
		'end', 'read', 'readline', 'readlines', 'write', 'writelines',
		'getvalue', 'bit_length', 'isspace', 'expandtabs', 'tostring'}
COPYING = {'copy', 'items', 'keys', 'values', 'get', 'most_common',
		'elements', 'union', 'intersection', 'difference', 'issubset',
		'issuperset', 'isdisjoint', 'symmetric_difference', 'pos', 'leaves'}
PURE_BUILTINS = {'len', 'int', 'str', 'float', 'bool', 'isinstance',
		'issubclass', 'repr', 'hash', 'ord', 'chr', 'abs', 'round', 'sum',
		'any', 'all', 'hasattr', 'callable', 'print', 'id', 'range', 'type',
		'format', 'divmod', 'pow', 'hex', 'bin', 'open', 'bytes', 'complex',
		'super', 'ValueError', 'TypeError', 'IndexError', 'KeyError',
		'RuntimeError', 'NotImplementedError', 'vars', 'dir', 'object',
		'slice', 'input', 'exec', 'eval', 'globals', 'locals'}
CONTAINER_BUILTINS = {'list', 'tuple', 'set', 'frozenset', 'sorted',
		'reversed', 'iter', 'dict', 'collections.OrderedDict',
		'collections.Counter', 'collections.defaultdict',
		'collections.deque', 'itertools.chain', 'itertools.islice',
		'itertools.chain.from_iterable', 'itertools.product',
		'itertools.permutations', 'itertools.combinations', 'filter', 'map',
		'heapq.nlargest', 'heapq.nsmallest', 'itertools.groupby',
		'itertools.takewhile', 'itertools.dropwhile', 'itertools.starmap',
		'functools.reduce', 'itertools.repeat', 'itertools.count',
		'itertools.zip_longest', 'itertools.cycle'}
ARG0_MUT = {'heapq.heappush', 'heapq.heappop', 'heapq.heapify',
		'heapq.heapreplace', 'heapq.heappushpop', 'random.shuffle',
		'bisect.insort', 'bisect.insort_left', 'bisect.insort_right',
		'operator.setitem', 'operator.delitem', 'setattr', 'delattr',
		'random.Random.shuffle'}


def norm(value, limit=10):
	"""Widen large value sets: collapse all paths of a root to `deep`, and
	remove locations subsumed by a deep location."""
	if len(value) <= 3:
		return value
	deep = {l[:3] for l in value if len(l) == 4 and l[3]}
	if deep:
		value = frozenset(l for l in value if len(l) != 4
				or not any((l[0], l[1], l[2][:n]) in deep
					for n in range(len(l[2]) + (0 if l[3] else 1))
					if n < len(l[2]) or (l[3] is False and n == len(l[2])
						and l[2])))
	if len(value) <= limit:
		return value
	res, cnt = set(), {}
	for l in value:
		if len(l) == 4:
			cnt[l[:2]] = cnt.get(l[:2], 0) + 1
	for l in value:
		if len(l) == 4 and cnt[l[:2]] > 2 and l[2]:
			res.add((l[0], l[1], (), True))
		else:
			res.add(l)
	return frozenset(res)


class Summary:
	__slots__ = ('mut', 'ret', 'stores', 'heap', 'calls')

	def __init__(self):
		self.mut = {}  # loc -> provenance
		self.ret = EMPTY
		self.stores = {}  # (loc, field) -> value
		self.heap = {}  # aid -> {field: value}
		self.calls = {}  # root -> list of arg values (callback params)

	def size(self):
		return (len(self.mut), len(self.ret),
				sum(len(v) for v in self.stores.values()),
				sum(len(v) for h in self.heap.values() for v in h.values()),
				sum(sum(len(x) for x in v) + 1 + len(v)
						for v in self.calls.values()))


class Engine:
	def __init__(self, project, modules=None, assume=None):
		self.project = project
		self.refine = assume is not None
		self.assume = assume or {}
		self.summ = {}
		self.funcs = {fid: f for fid, f in project.funcs.items()
				if modules is None or f.module.name in modules}
		self.treebase = project.cls('tree.Tree')
		self.parented = project.cls('tree.ParentedTree')
		self.coremethods = {}
		for cid in ('tree.Tree', 'tree.ParentedTree', 'tree.ImmutableTree',
				'tree.ImmutableParentedTree'):
			for n, m in project.cls(cid).methods.items():
				self.coremethods[m.id] = m
		self.records = {}
		self.deps = {}  # callee id -> set of caller ids
		self.mutglobals = {}

	def istree(self, cls):
		return isinstance(cls, Class) and self.treebase in cls.mro()

	def isparented(self, cls):
		return isinstance(cls, Class) and self.parented in cls.mro()

	def isrecord(self, cls):
		"""Whether arbitrary attributes are set from keyword arguments."""
		if not isinstance(cls, Class):
			return False
		if cls.id not in self.records:
			init = cls.find('__init__')
			self.records[cls.id] = init is not None and any(
					isinstance(n, ast.Attribute) and n.attr == '__dict__'
					for n in ast.walk(init.node)) and bool(init.kwarg)
		return self.records[cls.id]

	def summary(self, fid, caller=None):
		if caller is not None:
			self.deps.setdefault(fid, set()).add(caller)
		s = self.summ.get(fid)
		if s is None:
			s = self.summ[fid] = Summary()
		return s

	def run(self):
		work = sorted(self.funcs)
		inwork = set(work)
		self.steps = 0
		visits = {}
		while work:
			fid = work.pop(0)
			inwork.discard(fid)
			visits[fid] = visits.get(fid, 0) + 1
			if visits[fid] > MAXVISITS:
				continue  # widening flips between equivalent representations
			f = self.funcs[fid]
			old = self.summary(fid).size()
			self.steps += 1
			EffFlow(self, f).analyze()
			if self.summary(fid).size() != old:
				for c in sorted(self.deps.get(fid, ())):
					if c not in inwork:
						inwork.add(c)
						work.append(c)
			if DEBUG and self.steps % 100 == 0:
				print(self.steps, len(work), fid, self.summary(fid).size())
			if self.steps > 12000:
				raise RuntimeError('effects fixpoint does not converge')
		return self


class EffFlow(Flow):
	track_facts = False

	def __init__(self, engine, func):
		super().__init__(func)
		self.track_facts = True
		self.interesting = self._interesting()
		if len(self.interesting) > 2:
			self.track_facts = False
			self.interesting = set()
		self.eng = engine
		self.project = engine.project
		self.s = engine.summary(func.id)
		self.heap = self.s.heap
		self.changed = False
		self.isinit = func.cls is not None and func.name == '__init__'
		self.me = (func.posparams[0] if func.is_method and func.posparams
				else None)
		self.env = {}

	# --- Flow interface; dom is env dict ---
	def init(self):
		env = {}
		for p in self.func.params:
			env[p] = frozenset([('P', p, (), False)])
		for name, nf in self.func.nested.items():
			env.setdefault(name, frozenset([('FN', nf.id)]))
		return env

	def copy(self, dom):
		return dict(dom)

	def join(self, a, b):
		res = dict(a)
		for k, v in b.items():
			if k in res:
				res[k] = res[k] | v
			elif '.' not in k:
				res[k] = v
		for k in a:
			if '.' in k and k not in b:
				del res[k]
		return res

	def equal(self, a, b):
		return a == b

	def analyze(self):
		for _ in range(5):
			before = self.s.size()
			self.returns, self.raises = [], []
			self.run()
			if self.s.size() == before:
				break

	def on_expr(self, node, dom):
		self.env = dom
		self.E(node)
		return self.env

	def leafrefine(self, test, truth, dom):
		"""On paths where x is known not to be a Tree, x is a leaf."""
		while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
			truth = not truth
			test = test.operand
		if isinstance(test, ast.BoolOp):
			if isinstance(test.op, ast.And) == truth:
				for t in test.values:
					dom = self.leafrefine(t, truth, dom)
			return dom
		if (isinstance(test, ast.Call) and dotted(test.func) == 'isinstance'
				and len(test.args) == 2
				and isinstance(test.args[0], ast.Name)):
			classes = {dotted(a).split('.')[-1] for a in (
					test.args[1].elts if isinstance(test.args[1], ast.Tuple)
					else [test.args[1]])}
			x = test.args[0].id
			if x in dom and (not truth and classes & {'Tree', 'cls'}
					or truth and classes <= {'int', 'str'}):
				dom = dict(dom)
				dom[x] = frozenset(l for l in dom[x] if l[0] != 'P'
						or l[2] and l[2][-1] != '*' or l[3])
		return dom

	def on_branch(self, test, truth, dom):
		if self.eng.refine:
			dom = self.leafrefine(test, truth, dom)
			if isinstance(test, ast.Name) and (
					self.eng.assume.get((self.func.name, test.id))
					is (not truth)):
				return None
		# x is (not) y: remove identical locations on the branch where the
		# objects differ.
		if (isinstance(test, ast.Compare) and len(test.ops) == 1
				and isinstance(test.ops[0], (ast.Is, ast.IsNot))
				and truth == isinstance(test.ops[0], ast.IsNot)):
			left, right = dotted(test.left), dotted(test.comparators[0])
			for a, b in ((left, right), (right, left)):
				vb = dom.get(b)
				if a in dom and vb is not None and len(vb) == 1:
					(loc, ) = vb
					if loc[0] == 'P' and not loc[3]:
						dom = dict(dom)
						dom[a] = dom[a] - vb
		return dom

	def on_return(self, node, ds):
		for _, dom in ds:
			self.env = dom
			if node.value is not None and not self.func.is_generator:
				self.s.ret = self.s.ret | self.E(node.value)

	def on_assign(self, target, value, dom, stmt):
		self.env = dom
		if isinstance(stmt, ast.AugAssign):
			self.augassign(stmt)
			return self.env
		if value is None:
			if isinstance(stmt, ast.For):
				v = self.deref(self.E(stmt.iter), '*')
			else:
				v = EMPTY
		else:
			v = self.E(value)
			if isinstance(stmt, (ast.With, ast.AsyncWith)):
				pass
		self.bind(target, v)
		return self.env

	def on_delete(self, target, dom):
		self.env = dom
		if isinstance(target, (ast.Subscript, ast.Attribute)):
			base = self.E(target.value)
			self.mutate(base, target, 'del')
			if isinstance(target, ast.Subscript):
				self.E(target.slice)
		elif isinstance(target, (ast.Tuple, ast.List)):
			for t in target.elts:
				self.on_delete(t, self.env)
		return self.env

	def on_def(self, node, dom):
		if isinstance(node, ast.FunctionDef):
			f = getattr(node, '_func', None)
			if f is not None:
				dom[node.name] = frozenset([('FN', f.id)])
		return dom

	# --- heap ---
	def alloc(self, node, cls, tag=''):
		aid = (self.func.id, getattr(node, 'lineno', 0),
				getattr(node, 'col_offset', 0),
				type(node).__name__ + tag)
		self.heap.setdefault(aid, {})
		return ('A', aid, cls)

	def hset(self, aid, field, value):
		h = self.heap.setdefault(aid, {})
		old = h.get(field, EMPTY)
		if not value <= old:
			h[field] = norm(old | value)

	def newlist(self, node, elems, cls='list', tag=''):
		a = self.alloc(node, cls, tag)
		self.hset(a[1], '*', elems)
		return frozenset([a])

	def deref(self, value, field):
		if field == 'children':
			return frozenset(l for l in value if l[0] in 'PGA')
		res = set()
		for loc in value:
			k = loc[0]
			if k == 'P' or k == 'G':
				if (self.isinit and loc == ('P', self.me, (), False)
						and field != '*'):
					pass
				elif loc[3] or field in UPATTRS:
					res.add((k, loc[1], loc[2], True))
				elif len(loc[2]) < MAXPATH:
					res.add((k, loc[1], loc[2] + (field, ), False))
				else:
					res.add((k, loc[1], loc[2], True))
				res |= self.s.stores.get((loc, field), EMPTY)
				if loc[3] or len(loc[2]) == MAXPATH:
					res |= self.s.stores.get((loc, '?'), EMPTY)
					res |= self.s.stores.get(((k, loc[1], (), True), '?'),
							EMPTY)
			elif k == 'A':
				h = self.heap.get(loc[1], {})
				res |= h.get(field, EMPTY)
				if field not in h and self.eng.isrecord(loc[2]):
					res |= h.get('*', EMPTY)
				if field in UPATTRS:
					res.add(loc)
				elif field != '*' and isinstance(loc[2], str):
					# attribute of untyped object (e.g. external result)
					if loc[2] == 'ext':
						res |= h.get('*', EMPTY)
		return norm(frozenset(res))

	def closure(self, value):
		res, todo = set(), list(value)
		while todo:
			loc = todo.pop()
			if loc in res:
				continue
			res.add(loc)
			if loc[0] in 'PG' and loc[0] != 'FN' and len(loc) == 4:
				d = (loc[0], loc[1], loc[2], True)
				res.add(d)
				for (l2, _f), v in self.s.stores.items():
					if (l2[:2] == loc[:2] and l2[2][:len(loc[2])] == loc[2]):
						todo.extend(v)
			elif loc[0] == 'A':
				for v in self.heap.get(loc[1], {}).values():
					todo.extend(v)
		return norm(frozenset(res))

	def mutate(self, value, node, what, prov=None):
		for loc in value:
			if loc[0] in ('P', 'G'):
				if (self.isinit and loc == ('P', self.me, (), False)):
					continue
				if loc not in self.s.mut:
					self.s.mut[loc] = prov or '%s %s' % (
							self.func.loc(node), what)
			elif loc[0] == 'CLS':
				g = ('G', loc[1], (), False)
				if g not in self.s.mut:
					self.s.mut[g] = prov or '%s %s' % (
							self.func.loc(node), what)

	def store(self, value, field, new, node, what='store'):
		"""Store `new` in field of objects `value` (a mutation)."""
		self.mutate(value, node, what)
		new = frozenset(l for l in new if l[0] != 'EXT')
		if field == 'children':
			field, new = '*', self.deref(new, '*')
		for loc in value:
			if loc[0] in ('P', 'G'):
				self.addstore(loc, field, new)
			elif loc[0] == 'A':
				self.hset(loc[1], field, new)
				if field == '*' and self.eng.isparented(loc[2]):
					self.mutate(new, node, 'sets parent pointer of')

	def addstore(self, loc, field, new):
		if loc[3]:
			loc, field = (loc[0], loc[1], (), True), '?'
			new = frozenset(l for l in new if l[:2] != loc[:2])
		elif len(loc[2]) == MAXPATH:
			field = '?'
		new = frozenset(l for l in new if l != (loc[0], loc[1], (), True))
		if not new:
			return
		old = self.s.stores.get((loc, field), EMPTY)
		if not new <= old:
			self.s.stores[loc, field] = norm(old | new)

	# --- binding ---
	def killpaths(self, root):
		for k in [k for k in self.env if k.startswith(root + '.')]:
			del self.env[k]

	def bind(self, target, v):
		if isinstance(target, ast.Name):
			self.env[target.id] = v
			self.killpaths(target.id)
			if target.id in self.func.globals_declared:
				g = ('G', self.func.module.name + '.' + target.id, (), False)
				self.mutate([g], target, 'rebinds global')
			elif target.id in self.func.nonlocals_declared:
				key = ('P', target.id, (), False), '='
				self.s.stores[key] = self.s.stores.get(key, EMPTY) | v
		elif isinstance(target, (ast.Tuple, ast.List)):
			for t in target.elts:
				if isinstance(t, ast.Starred):
					self.bind(t.value, self.newlist(t, self.deref(v, '*')))
				else:
					self.bind(t, self.deref(v, '*'))
		elif isinstance(target, ast.Attribute):
			base = self.E(target.value)
			if not (target.attr in ('label', 'type') and not base):
				if target.attr not in CACHEATTRS:
					self.store(base, target.attr, v, target,
							'assigns .%s' % target.attr)
			if isinstance(target.value, ast.Name):
				self.env['%s.%s' % (target.value.id, target.attr)] = v
		elif isinstance(target, ast.Subscript):
			base = self.E(target.value)
			self.E(target.slice)
			new = v
			if isinstance(target.slice, ast.Slice):
				new = self.deref(v, '*')
			self.store(base, '*', new, target, 'assigns item')
		elif isinstance(target, ast.Starred):
			self.bind(target.value, v)

	def augassign(self, stmt):
		t = stmt.target
		v = self.E(stmt.value)
		listlike = any(l[0] == 'A' and l[2] != 'ext' for l in v)
		if isinstance(t, ast.Name):
			old = self.E(ast.copy_location(
					ast.Name(id=t.id, ctx=ast.Load()), t))
			if listlike or any(l[0] == 'A' and l[2] in ('list', 'set', 'dict')
					for l in old):
				self.store(old, '*', self.deref(v, '*'), t, 'augments')
			if t.id in self.func.globals_declared:
				self.bind(t, old | v)
			else:
				self.env[t.id] = old | v if listlike else old
		elif isinstance(t, ast.Attribute):
			base = self.E(t.value)
			self.store(base, t.attr, v, t, 'assigns .%s' % t.attr)
			if listlike:
				old = self.deref(base, t.attr)
				self.store(old, '*', self.deref(v, '*'), t, 'augments')
		elif isinstance(t, ast.Subscript):
			base = self.E(t.value)
			self.E(t.slice)
			self.store(base, '*', v, t, 'assigns item')
			if listlike and isinstance(stmt.value, (ast.List, ast.ListComp,
					ast.Tuple, ast.Set, ast.SetComp, ast.Dict, ast.Subscript)
					) and not (isinstance(stmt.value, ast.Subscript)
					and not isinstance(stmt.value.slice, ast.Slice)):
				self.store(self.deref(base, '*'), '*', self.deref(v, '*'), t,
						'augments')

	# --- expressions ---
	def E(self, node):
		m = getattr(self, 'e_' + type(node).__name__, None)
		if m is not None:
			return m(node)
		for ch in ast.iter_child_nodes(node):
			if isinstance(ch, ast.expr):
				self.E(ch)
		return EMPTY

	def e_Constant(self, node):
		return EMPTY

	def e_JoinedStr(self, node):
		for ch in ast.walk(node):
			if isinstance(ch, ast.FormattedValue):
				self.E(ch.value)
		return EMPTY

	def e_Name(self, node):
		if node.id in self.env:
			return self.env[node.id]
		f = self.func
		if node.id in f.locals:
			return EMPTY
		# free variable of an enclosing function
		p = f.parent
		while p is not None:
			if node.id in p.nested:
				return frozenset([('FN', p.nested[node.id].id)])
			if node.id in p.locals:
				return frozenset([('P', node.id, (), False)])
			p = p.parent
		return self.globalvalue(self.project.resolve_name(
				f.module, node.id, f))

	def globalvalue(self, r):
		if isinstance(r, Func):
			return frozenset([('FN', r.id)])
		if isinstance(r, Class):
			return frozenset([('CLS', r.id)])
		if isinstance(r, tuple) and r[0] == 'global':
			vals = self.project.modules[r[1]].globals.get(r[2], [])
			if vals and all(isinstance(v, ast.Constant) or (
					isinstance(v, ast.Call) and dotted(v.func) in (
					're.compile', 'frozenset', 'itemgetter',
					'operator.itemgetter')) for v in vals):
				return EMPTY
			return frozenset([('G', r[1] + '.' + r[2], (), False)])
		if isinstance(r, tuple) and r[0] == 'ext':
			return frozenset([('EXT', r[1])])
		return EMPTY

	def e_Attribute(self, node):
		d = dotted(node)
		root = d.split('.')[0] if d else ''
		if root and root not in self.env and root not in self.func.locals:
			r = self.project.resolve_name(self.func.module, d, self.func)
			if isinstance(r, (Func, Class)) or isinstance(r, tuple):
				v = self.globalvalue(r)
				if v or not isinstance(r, tuple):
					return v
		if node.attr == '__class__' and self.func.cls is not None and dotted(
				node.value) == self.me:
			return frozenset([('CLS', self.func.cls.id)])
		base = self.E(node.value)
		if isinstance(node.value, ast.Name):
			k = '%s.%s' % (node.value.id, node.attr)
			if k in self.env:
				return self.env[k]
		if node.attr in IMMUTABLE_ATTRS:
			return EMPTY
		res = set(self.deref(base, node.attr))
		for loc in base:
			cls = None
			if loc[0] == 'CLS':
				cls = self.project.classes[loc[1]]
			elif loc[0] == 'A' and isinstance(loc[2], Class):
				cls = loc[2]
			elif (loc[0] == 'P' and loc[1] == self.me and not loc[2]
					and not loc[3]):
				cls = self.func.cls
			if cls is not None:
				m = cls.find(node.attr)
				if m is not None:
					res.add(('FN', m.id))
				val = cls.find_attr(node.attr)
				if val is not None and isinstance(val, (ast.List, ast.Dict,
						ast.Set, ast.Call, ast.ListComp, ast.DictComp)) and (
						not isinstance(val, ast.Call) or dotted(val.func)
						not in ('property', 're.compile', 'namedtuple')):
					for c in cls.mro():
						if node.attr in c.attrs:
							res.add(('G', '%s.%s' % (c.id, node.attr), (),
									False))
							break
		return frozenset(res)

	def e_Subscript(self, node):
		base = self.E(node.value)
		self.E(node.slice)
		if isinstance(node.slice, ast.Slice):
			if not base:
				return EMPTY
			return self.newlist(node, self.deref(base, '*'), tag='slice')
		return self.deref(base, '*')

	def e_Slice(self, node):
		for x in (node.lower, node.upper, node.step):
			if x is not None:
				self.E(x)
		return EMPTY

	def _display(self, node, elts, cls):
		vals = set()
		for e in elts:
			if isinstance(e, ast.Starred):
				vals |= self.deref(self.E(e.value), '*')
			else:
				vals |= self.E(e)
		return self.newlist(node, frozenset(vals), cls)

	def e_List(self, node):
		return self._display(node, node.elts, 'list')

	def e_Tuple(self, node):
		return self._display(node, node.elts, 'tuple')

	def e_Set(self, node):
		return self._display(node, node.elts, 'set')

	def e_Dict(self, node):
		vals = set()
		for k, v in zip(node.keys, node.values):
			if k is None:
				vals |= self.deref(self.E(v), '*')
			else:
				vals |= self.E(k) | self.E(v)
		return self.newlist(node, frozenset(vals), 'dict')

	def _comp(self, node, elts, cls):
		saved = dict(self.env)
		bound = set()
		for g in node.generators:
			v = self.deref(self.E(g.iter), '*')
			self.bind(g.target, v)
			bound.update(n.id for n in ast.walk(g.target)
					if isinstance(n, ast.Name))
			for c in g.ifs:
				self.E(c)
		vals = set()
		for e in elts:
			vals |= self.E(e)
		for b in bound:
			if b in saved:
				self.env[b] = saved[b]
			else:
				self.env.pop(b, None)
		return self.newlist(node, frozenset(vals), cls)

	def e_ListComp(self, node):
		return self._comp(node, [node.elt], 'list')

	def e_SetComp(self, node):
		return self._comp(node, [node.elt], 'set')

	def e_GeneratorExp(self, node):
		return self._comp(node, [node.elt], 'gen')

	def e_DictComp(self, node):
		return self._comp(node, [node.key, node.value], 'dict')

	def e_BoolOp(self, node):
		res = EMPTY
		for v in node.values:
			res = res | self.E(v)
		return res

	def e_IfExp(self, node):
		self.E(node.test)
		if self.eng.refine:
			old = self.env
			self.env = self.leafrefine(node.test, True, dict(old))
			a = self.E(node.body)
			self.env = self.leafrefine(node.test, False, dict(old))
			b = self.E(node.orelse)
			self.env = old
			return a | b
		return self.E(node.body) | self.E(node.orelse)

	def e_BinOp(self, node):
		a, b = self.E(node.left), self.E(node.right)
		if isinstance(node.op, (ast.Add, ast.Mult, ast.BitOr, ast.Sub,
				ast.BitAnd)):
			el = self.deref(a, '*') | self.deref(b, '*')
			if any(l[0] == 'A' for l in a | b) and not all(
					l[0] != 'A' or l[2] == 'ext' for l in a | b):
				return self.newlist(node, el)
			return EMPTY
		return EMPTY

	def e_NamedExpr(self, node):
		v = self.E(node.value)
		self.bind(node.target, v)
		return v

	def e_Lambda(self, node):
		f = getattr(node, '_func', None)
		return frozenset([('FN', f.id)]) if f is not None else EMPTY

	def e_Starred(self, node):
		return self.E(node.value)

	def e_Yield(self, node):
		v = self.E(node.value) if node.value is not None else EMPTY
		self.s.ret = self.s.ret | self.newlist(
				self.func.node, v, 'gen', tag='yield')
		return EMPTY

	def e_YieldFrom(self, node):
		v = self.deref(self.E(node.value), '*')
		self.s.ret = self.s.ret | self.newlist(
				self.func.node, v, 'gen', tag='yield')
		return EMPTY

	def e_Await(self, node):
		return self.E(node.value)

	# --- calls ---
	def e_Call(self, node):
		args, star = [], EMPTY
		for a in node.args:
			if isinstance(a, ast.Starred):
				star = star | self.deref(self.E(a.value), '*')
			else:
				args.append(self.E(a))
		kw = {}
		for k in node.keywords:
			v = self.E(k.value)
			if k.arg is None:
				star = star | self.deref(v, '*')
			else:
				kw[k.arg] = v
		fn = node.func
		if isinstance(fn, ast.Attribute):
			return self.methodcall(node, fn, args, kw, star)
		if isinstance(fn, ast.Name) and fn.id == 'super':
			return EMPTY
		if (isinstance(fn, ast.Name) and fn.id == 'type' and len(node.args)
				== 1 and self.func.cls is not None
				and dotted(node.args[0]) == self.me):
			return frozenset([('CLS', self.func.cls.id)])
		target = self.E(fn)
		if isinstance(fn, ast.Call) and dotted(fn.func) == 'type':
			# type(x)(...)
			if self.func.cls is not None:
				return self.construct(self.func.cls, node, args, kw, star)
		res = EMPTY
		handled = False
		for loc in target:
			if loc[0] in ('FN', 'CLS', 'EXT'):
				handled = True
				res = res | self.applyloc(loc, node, args, kw, star)
			elif loc[0] == 'P':
				if loc[1] == self.me and 'classmethod' in (
						self.func.decorators):
					handled = True
					res = res | self.construct(self.func.cls, node, args, kw,
							star)
				elif not loc[3] and not loc[2]:
					# callback parameter
					self.addcall(loc[1], args)
		if not handled:
			res = res | self.unknown(node, args, kw, star)
		return res

	def addcall(self, root, args):
		old = self.s.calls.setdefault(root, [])
		while len(old) < len(args):
			old.append(EMPTY)
		for n, a in enumerate(args):
			old[n] = old[n] | a

	def applyloc(self, loc, node, args, kw, star, selfval=None):
		if loc[0] == 'FN':
			f = self.project.funcs.get(loc[1])
			if f is None:
				return EMPTY
			if selfval is None and f.cls is not None and f.is_method:
				if 'classmethod' in f.decorators:
					return self.apply(f, node, args, kw, star,
							frozenset([('CLS', f.cls.id)]))
				# unbound C.m(self, ...) or bound method value
				if isinstance(node.func, ast.Attribute):
					return self.apply(f, node, args, kw, star)
				base = self.env.get(self.me, EMPTY) if self.me else EMPTY
				return self.apply(f, node, args, kw, star, base)
			return self.apply(f, node, args, kw, star, selfval)
		if loc[0] == 'CLS':
			return self.construct(self.project.classes[loc[1]], node, args,
					kw, star)
		return self.external(loc[1], node, args, kw, star)

	def construct(self, cls, node, args, kw, star):
		if self.eng.istree(cls) and cls.qual in ('Tree', 'ParentedTree',
				'ImmutableTree', 'ImmutableParentedTree'):
			a = self.alloc(node, cls)
			el = EMPTY
			if len(args) > 1:
				el = self.deref(args[1], '*')
			elif 'children' in kw:
				el = self.deref(kw['children'], '*')
			el = el | star
			if self.eng.isparented(cls):
				self.mutate(el, node, 'becomes child of new ParentedTree:')
			self.hset(a[1], '*', el)
			return frozenset([a])
		ext = cls.external_bases()
		a = self.alloc(node, cls)
		v = frozenset([a])
		if self.eng.isrecord(cls):
			self.setfields(a, args, kw, star)
			return v
		if any(b in ('dict', 'list', 'set', 'tuple', 'defaultdict',
				'OrderedDict', 'Counter') for b in ext):
			for x in args:
				self.hset(a[1], '*', self.deref(x, '*'))
			for x in kw.values():
				self.hset(a[1], '*', x)
		if any('namedtuple' in b for b in ext) or not cls.find('__init__'):
			for x in args:
				self.hset(a[1], '*', x)
			for n, x in kw.items():
				self.hset(a[1], n, x)
				self.hset(a[1], '*', x)
			if star:
				self.hset(a[1], '*', star)
		init = cls.find('__init__')
		if init is not None:
			self.apply(init, node, args, kw, star, v)
		return v

	def setfields(self, a, args, kw, star):
		"""Attributes of an object given as keyword arguments."""
		for x in args:
			self.hset(a[1], '*', self.deref(x, '*'))
		for n, x in kw.items():
			self.hset(a[1], n, x)
		if star:
			self.hset(a[1], '*', star)

	def methodcall(self, node, fn, args, kw, star):
		name = fn.attr
		# module-level or class-level callable?
		d = dotted(fn)
		root = d.split('.')[0] if d else ''
		if root and root not in self.env and root not in self.func.locals:
			r = self.project.resolve_name(self.func.module, d, self.func)
			isfree = False
			p = self.func.parent
			while p is not None:
				isfree = isfree or root in p.locals
				p = p.parent
			if not isfree and (isinstance(r, (Func, Class)) or (
					isinstance(r, tuple) and r[0] == 'ext')):
				res = EMPTY
				for loc in self.globalvalue(r):
					if (isinstance(r, Func) and r.cls is not None
							and 'classmethod' in r.decorators
							and self.eng.istree(r.cls)):
						c = self.project.resolve_name(self.func.module,
								d.rpartition('.')[0], self.func)
						return self.treeclsmethod(c, name, node, args)
					res = res | self.applyloc(loc, node, args, kw, star)
				return res
		# super().m()
		if isinstance(fn.value, ast.Call) and dotted(
				fn.value.func) == 'super' and self.func.cls is not None:
			me = self.env.get(self.me, EMPTY)
			for c in self.func.cls.mro()[1:]:
				if name in c.methods:
					return self.apply(c.methods[name], node, args, kw, star,
							me)
			return self.builtinmethod(name, me, node, args, kw, star)
		recv = self.E(fn.value)
		res = EMPTY
		if isinstance(fn.value, ast.Attribute) and fn.value.attr == 'children':
			# the list itself, not the node
			return self.builtinmethod(name, recv, node, args, kw, star)
		rest = set()
		for loc in recv:
			cls = None
			if loc[0] == 'CLS':
				c = self.project.classes[loc[1]]
				m = c.find(name)
				if m is not None:
					if 'classmethod' in m.decorators:
						if self.eng.istree(c):
							res = res | self.treeclsmethod(c, name, node,
									args)
						else:
							res = res | self.apply(m, node, args, kw, star,
									frozenset([loc]))
					else:
						res = res | self.apply(m, node, args, kw, star)
				continue
			if loc[0] in ('FN', 'EXT'):
				continue
			if loc[0] == 'A' and isinstance(loc[2], Class):
				cls = loc[2]
			elif (loc[0] == 'P' and loc[1] == self.me and not loc[2]
					and not loc[3] and self.func.cls is not None):
				cls = self.func.cls
			if name == 'update' and loc[0] == 'A' and self.eng.isrecord(cls):
				self.setfields(loc, args, kw, star)
				continue
			if cls is not None and not (self.eng.istree(cls)
					and name in TRAVERSE | COPYING):
				ms = [cls.find(name)]
				if loc[0] == 'P':
					ms += [c.methods.get(name)
							for c in cls.all_subclasses()]
				ms = [m for m in ms if m is not None]
				if ms:
					for m in ms:
						sv = frozenset([loc])
						res = res | self.apply(m, node, args, kw, star,
								None if 'staticmethod' in m.decorators
								else sv)
					continue
			rest.add(loc)
		if rest or not recv:
			rest = frozenset(rest)
			known = (name in MUTATORS or name in TREEMUT or name in TRAVERSE
					or name in SCALAR_METHODS or name in COPYING)
			if not known and rest:
				ms = [m for m in self.project.methods_by_name.get(name, [])
						if m.id in self.eng.funcs]
				if ms and any(l[0] in 'PG' for l in rest):
					rest = frozenset(l for l in rest if l[0] != 'A'
							or l[2] != 'ext')
					for m in ms:
						res = res | self.apply(m, node, args, kw, star,
								None if 'staticmethod' in m.decorators
								else rest)
					return res
				# function value stored in attribute
			res = res | self.builtinmethod(name, rest, node, args, kw, star)
		return res

	def treeclsmethod(self, cls, name, node, args):
		if name == 'convert':
			return self.freshtree(node, args[0] if args else EMPTY, cls)
		a = self.alloc(node, cls if isinstance(cls, Class) else 'list')
		return frozenset([a])

	def freshtree(self, node, old, cls):
		a = self.alloc(node, cls, tag='copy')
		self.hset(a[1], '*', frozenset([a]))
		src_ = self.newlist(node, EMPTY, tag='source')
		self.hset(a[1], 'source', src_)
		return frozenset([a])

	def builtinmethod(self, name, recv, node, args, kw, star):
		allargs = EMPTY
		for a in list(args) + list(kw.values()) + [star]:
			allargs = allargs | a
		fns = [l for l in allargs if l[0] == 'FN']
		for l in fns:
			self.callback(l, self.closure(recv) | (allargs - frozenset(fns)),
					node)
		if name in TREEMUT:
			self.mutate(recv, node, 'calls .%s()' % name)
			if name == 'disown':
				return self.newlist(node, self.deref(recv, '*'))
			return recv
		if name in MUTATORS:
			if name == 'index':
				return EMPTY
			self.mutate(recv, node, 'calls .%s()' % name)
			if name in STORING:
				pos, elems = STORING[name]
				if len(args) > pos:
					v = args[pos]
					if elems:
						v = self.deref(v, '*')
					self.store(recv, '*', v, node, 'calls .%s()' % name)
				for v in kw.values():
					if name == 'update':
						self.store(recv, '*', v, node, 'calls .update()')
			if name in ('pop', 'popitem', 'popleft', 'setdefault'):
				el = self.deref(recv, '*')
				if name == 'popitem':
					return self.newlist(node, el, 'tuple')
				for a in args[1:]:
					el = el | a
				return el
			return EMPTY
		if name in TRAVERSE:
			return self.newlist(node, frozenset(
					l for l in self.closure(recv)
					if not (l[0] == 'A' and l[2] in ('list', 'tuple', 'gen'))),
					'gen')
		if name in SCALAR_METHODS:
			return EMPTY
		if name == 'leaves':
			# immutable trees return a precomputed list
			return self.newlist(node, EMPTY) | frozenset(
					l for l in self.deref(recv, '_leaves')
					if l[0] in 'PG') if recv else EMPTY
		if name == 'pos':
			inner = self.newlist(node, self.closure(recv), 'tuple', 'postup')
			return self.newlist(node, inner)
		if name == 'copy':
			deep = any(isinstance(a, ast.Constant) and a.value
					for a in node.args) or any(k.arg == 'deep'
					for k in node.keywords)
			if deep:
				return self.freshtree(node, recv, self.eng.treebase)
			return self.newlist(node, self.deref(recv, '*'), tag='copy')
		if name == 'get':
			res = self.deref(recv, '*')
			for a in args[1:]:
				res = res | a
			return res
		if name in ('items', 'most_common'):
			if not recv:
				return EMPTY
			inner = self.newlist(node, self.deref(recv, '*'), 'tuple', 'item')
			return self.newlist(node, inner, 'gen')
		if name in ('keys', 'values', 'elements', 'union', 'intersection',
				'difference', 'symmetric_difference'):
			el = self.deref(recv, '*')
			for a in args:
				el = el | self.deref(a, '*')
			return self.newlist(node, el, 'gen') if recv else EMPTY
		if name in COPYING:
			return EMPTY
		return self.unknown(node, args, kw, star, recv)

	def callback(self, loc, values, node):
		"""A function value is called with some of these values."""
		f = self.project.funcs.get(loc[1])
		if f is None or f.cls is not None:
			return
		el = values | self.deref(values, '*')
		self.apply(f, node, [el] * len(f.posparams), {}, EMPTY)

	def unknown(self, node, args, kw, star, recv=EMPTY):
		allargs = set(star)
		for a in list(args) + list(kw.values()):
			allargs |= a
		allargs |= recv
		vals = frozenset(l for l in allargs if l[0] not in ('EXT', ))
		fns = [l for l in vals if l[0] == 'FN']
		for l in fns:
			self.callback(l, vals - frozenset(fns), node)
		vals = frozenset(l for l in vals if l[0] in ('P', 'G', 'A'))
		if not vals:
			return EMPTY
		return self.newlist(node, vals, 'ext')

	def external(self, name, node, args, kw, star):
		allargs = set(star)
		for a in list(args) + list(kw.values()):
			allargs |= a
		short = name
		fns = [l for l in allargs if l[0] == 'FN']
		if name in ARG0_MUT:
			if args:
				if name == 'setattr' and len(args) > 2:
					self.store(args[0], '?', args[2], node, 'setattr')
				else:
					self.mutate(args[0], node, 'calls %s()' % name)
					if len(args) > 1:
						self.store(args[0], '*', args[1], node, 'calls %s()'
								% name)
				return self.deref(args[0], '*')
			return EMPTY
		if short in PURE_BUILTINS:
			return EMPTY
		if name in ('min', 'max', 'next', 'functools.reduce'):
			res = EMPTY
			for a in args:
				res = res | self.deref(a, '*')
			if name in ('min', 'max') and len(args) > 1:
				for a in args:
					res = res | a
			for l in fns:
				self.callback(l, res, node)
			return res
		if name == 'getattr':
			res = EMPTY
			if len(node.args) > 1 and isinstance(node.args[1], ast.Constant):
				res = self.deref(args[0], str(node.args[1].value))
			elif args:
				res = self.deref(args[0], '?')
			for a in args[2:]:
				res = res | a
			return res
		if name in ('enumerate', 'zip', 'itertools.zip_longest'):
			el = EMPTY
			for a in args:
				el = el | self.deref(a, '*')
			inner = self.newlist(node, el, 'tuple', 'zip')
			return self.newlist(node, inner, 'gen')
		if name in ('copy.deepcopy', ):
			return self.freshtree(node, EMPTY, self.eng.treebase)
		if name == 'copy.copy':
			return self.newlist(node, self.deref(args[0], '*'))
		if name in CONTAINER_BUILTINS:
			el = set(star)
			for a in args:
				el |= self.deref(frozenset(l for l in a if l[0] != 'FN'), '*')
			if name.endswith('from_iterable') or name == 'itertools.starmap':
				el |= self.deref(frozenset(el), '*')
			for v in kw.values():
				if name in ('dict', 'collections.OrderedDict'):
					el |= v
			el = frozenset(l for l in el if l[0] in ('P', 'G', 'A'))
			res = EMPTY
			if name == 'map' or name == 'itertools.starmap':
				out = set()
				for loc in (args[0] if args else ()):
					if loc[0] == 'FN':
						f = self.project.funcs.get(loc[1])
						if f is not None:
							if name == 'map':
								aa = [self.deref(a, '*') for a in args[1:]]
							else:
								aa = [el] * len(f.posparams)
							out |= self.apply(f, node, aa, {}, EMPTY)
					elif loc[0] == 'CLS':
						out |= self.construct(self.project.classes[loc[1]],
								node, [self.deref(a, '*') for a in args[1:]],
								{}, EMPTY)
				return self.newlist(node, frozenset(out), 'gen')
			for l in fns:
				self.callback(l, el, node)
			cls = {'list': 'list', 'sorted': 'list', 'set': 'set',
					'dict': 'dict', 'collections.OrderedDict': 'dict',
					'collections.Counter': 'dict',
					'collections.defaultdict': 'dict'}.get(name, 'gen')
			if name in ('itertools.product', 'itertools.permutations',
					'itertools.combinations', 'itertools.groupby'):
				el = self.newlist(node, el, 'tuple', 'tup')
			return self.newlist(node, el, cls)
		return self.unknown(node, args, kw, star)

	# --- applying summaries ---
	def apply(self, f, node, args, kw, star, selfval=None):
		if f.id not in self.eng.funcs:
			return self.unknown(node, args, kw, star)
		if f.id in self.eng.coremethods and f.name in ('convert', ):
			return self.freshtree(node, EMPTY, self.eng.treebase)
		s = self.eng.summary(f.id, self.func.id)
		binding = {}
		pos = list(args)
		if selfval is not None:
			pos.insert(0, selfval)
		params = f.posparams
		for n, p in enumerate(params):
			if n < len(pos):
				binding[p] = pos[n]
			elif p in kw:
				binding[p] = kw[p]
			else:
				v = star
				dflt = f.defaults.get(p)
				if dflt is not None and isinstance(dflt, (ast.List, ast.Dict,
						ast.Set, ast.Call, ast.ListComp)):
					v = v | frozenset([('G', 'default:%s:%s' % (f.id, p), (),
							False)])
				binding[p] = v
		if f.vararg:
			el = star
			for a in pos[len(params):]:
				el = el | a
			binding[f.vararg] = self.newlist(node, el, 'tuple', 'varargs')
		for p in f.kwonly:
			binding[p] = kw.get(p, star)
		if f.kwarg:
			el = star
			for k, v in kw.items():
				if k not in params and k not in f.kwonly:
					el = el | v
			binding[f.kwarg] = self.newlist(node, el, 'dict', 'kwargs')
		memo = {}
		# path entries are invalidated for variables passed
		bare = [getattr(node, 'func', None)] + list(
				getattr(node, 'args', [])) + [
				k.value for k in getattr(node, 'keywords', [])]
		for sub in bare:
			if isinstance(sub, ast.Attribute):
				sub = sub.value
				if (isinstance(sub, ast.Call) and dotted(sub.func) == 'super'
						and self.me):
					self.killpaths(self.me)
			if isinstance(sub, ast.Name):
				self.killpaths(sub.id)
		tr = lambda loc: self.translate(loc, binding, memo, node, f, s)
		for (loc, field), v in list(s.stores.items()):
			base = tr(loc)
			new = EMPTY
			for l in v:
				new = new | tr(l)
			if field == '=':
				if loc[1] in self.env:
					self.env[loc[1]] = self.env[loc[1]] | new
				continue
			for b in base:
				if b[0] == 'A':
					self.hset(b[1], field, new)
				elif b[0] in ('P', 'G'):
					self.addstore(b, field, new)
		for loc, prov in list(s.mut.items()):
			if loc[0] == 'P' or loc[0] == 'G':
				t = tr(loc)
				if any(l[0] in ('P', 'G') for l in t):
					short = prov if prov.count(' <- ') < 4 else prov
					self.mutate(t, node, '', prov='%s in call %s() <- %s' % (
							self.func.loc(node), f.name, short)
							if prov.count(' <- ') < 5 else prov)
		for root, calls in list(s.calls.items()):
			for tgt in binding.get(root, ()):
				if tgt[0] == 'FN':
					g = self.project.funcs.get(tgt[1])
					if g is None or g is f:
						continue
					for cargs in [list(calls)]:
						targs = []
						for a in cargs:
							t = EMPTY
							for l in a:
								t = t | tr(l)
							targs.append(t)
						self.apply(g, node, targs, {}, EMPTY)
				elif tgt[0] == 'P' and not tgt[2] and not tgt[3]:
					for cargs in [list(calls)]:
						targs = []
						for a in cargs:
							t = EMPTY
							for l in a:
								t = t | tr(l)
							targs.append(t)
						self.addcall(tgt[1], targs)
		ret = EMPTY
		for l in s.ret:
			ret = ret | tr(l)
		return ret

	def translate(self, loc, binding, memo, node, f, s):
		if loc in memo:
			return memo[loc]
		k = loc[0]
		if k == 'P':
			if loc[1] in binding:
				v = binding[loc[1]]
			elif f.parent is not None and loc[1] not in f.params:
				# free variable
				v = self.env.get(loc[1])
				if v is None:
					v = frozenset([('P', loc[1], (), False)])
					if loc[1] in self.func.locals:
						v = EMPTY
			else:
				v = EMPTY
			for fld in loc[2]:
				v = self.deref(v, fld)
			if loc[3]:
				v = self.closure(v)
			memo[loc] = v
			return v
		if k == 'A':
			cls = loc[2]
			tag = 'inst:%s' % (cls.id if isinstance(cls, Class) else cls)
			a = self.alloc(node, cls, tag)
			memo[loc] = frozenset([a])
			for field, v in list(s.heap.get(loc[1], {}).items()):
				new = EMPTY
				for l in v:
					new = new | self.translate(l, binding, memo, node, f, s)
				self.hset(a[1], field, new)
			return memo[loc]
		memo[loc] = frozenset([loc])
		return memo[loc]


_cache = {}


def engine(project, modules=None):
	key = (id(project), tuple(sorted(modules)) if modules else None)
	if key not in _cache:
		_cache[key] = Engine(project, modules).run()
	return _cache[key]
