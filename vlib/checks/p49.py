"""Settings kept in module variables are set before each use."""
import ast
from ..project import Func, dotted, own_nodes, src
from ..flow import Flow
from ..defs import Defs, Param

TITLE = 'settings are set anew in each task and process before they are used'
WHOLE = '*'  # the variable itself
ANY = '**'  # unknown keys
PREFILL = {'dict', 'OrderedDict', 'DictObj', 'parser.DictObj'}


class Settings:
	def __init__(self, module, name, node):
		self.module, self.name, self.node = module, name, node
		self.id = '%s.%s' % (module.name, name)


def constant(project, f, node):
	"""Value of a constant name or literal."""
	if isinstance(node, ast.Constant):
		return node.value
	if isinstance(node, (ast.List, ast.Tuple)):
		vals = [constant(project, f, a) for a in node.elts]
		return None if None in vals else vals
	if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
		val = constant(project, f, node.value)
		bounds = [None if x is None else constant(project, f, x)
				for x in (node.slice.lower, node.slice.upper)]
		if isinstance(val, (list, tuple)) and node.slice.step is None and all(
				x is None or isinstance(x, int) for x in bounds) and not any(
				b is None and x is not None for b, x in zip(
				bounds, (node.slice.lower, node.slice.upper))):
			return val[bounds[0]:bounds[1]]
	if isinstance(node, ast.Name):
		init = globalvalue(f.module, node.id)
		if init is not None and node.id not in f.locals:
			return constant(project, f, init)
	if isinstance(node, ast.Call) and isinstance(
			node.func, ast.Attribute) and node.func.attr == 'split' and (
			not node.args):
		val = constant(project, f, node.func.value)
		if isinstance(val, str):
			return val.split()
	return None


def globalvalue(module, name):
	"""The expression assigned to a global variable, if only one."""
	vals = [st.value for st in module.tree.body if isinstance(st, ast.Assign)
			and any(isinstance(t, ast.Name) and t.id == name
			for t in st.targets)]
	return vals[0] if len(vals) == 1 else None


class Engine:
	def __init__(self, project, res):
		self.project, self.res = project, res
		self.settings = {}
		self.summary = {}  # f.id -> (requires {key: (node, f)}, sets)
		self.defcache = {}
		self.globalcache = {}

	def find(self):
		for m in self.project.modules.values():
			for st in m.tree.body:
				if isinstance(st, ast.Assign) and len(
						st.targets) == 1 and isinstance(
						st.targets[0], ast.Name) and self.empty(st.value):
					s = Settings(m, st.targets[0].id, st)
					self.settings[s.id] = s
		# only those with constant keys, set in functions
		for sid in list(self.settings):
			s = self.settings[sid]
			sets = reads = 0
			for f in self.funcs():
				for kind, keys, n in self.accesses(f, f.node, sid):
					if keys is None:
						sets = -999
					elif kind == 'set':
						sets += 1
					else:
						reads += 1
			if sets < 0 or not reads or (sets == 0 and not self.never(s)):
				del self.settings[sid]

	@staticmethod
	def never(s):
		"""Whether a variable is only ever None."""
		return isinstance(s.node.value, ast.Constant) and not any(
				isinstance(n, ast.Name) and n.id == s.name
				and isinstance(n.ctx, ast.Store) and n is not s.node.targets[0]
				or isinstance(n, ast.alias)
				and (n.asname or n.name) == s.name
				for st in s.module.tree.body
				if not isinstance(st, (ast.FunctionDef, ast.ClassDef))
				for n in ast.walk(st))

	@staticmethod
	def empty(v):
		return (isinstance(v, ast.Dict) and not v.keys) or (
				isinstance(v, ast.Constant) and v.value is None) or (
				isinstance(v, ast.Call) and not v.args and not v.keywords
				and (dotted(v.func) or '').split('.')[-1] in PREFILL)

	def funcs(self):
		for m in self.project.modules.values():
			for f in m.funcs.values():
				if f.node is not None and not isinstance(f.node, ast.Lambda):
					yield f

	def isvar(self, f, node, module=None):
		"""Return id of the settings variable this refers to."""
		d = dotted(node)
		if d is None:
			return None
		module = module or f.module
		if f is not None and d.split('.')[0] in f.locals and '.' not in d:
			return None
		if '.' not in d:
			sid = '%s.%s' % (module.name, d)
			if sid in self.settings:
				return sid
			imp = module.imports.get(d) if hasattr(
					module, 'imports') else None
			if imp is None:
				return None
		head, _, attr = d.rpartition('.')
		if head:
			try:
				r = self.project.resolve_name(module, head, f)
			except Exception:  # pylint: disable=broad-except
				return None
			name = getattr(r, 'name', None)
			if r is not None and hasattr(r, 'tree') and '%s.%s' % (
					name, attr) in self.settings:
				return '%s.%s' % (name, attr)
		return None

	def accesses(self, f, root, only=None, module=None):
		"""Yield (kind, keys, node) for a statement or expression.

		keys is None when the keys are not known."""
		for n in (own_nodes(root) if isinstance(root, (
				ast.FunctionDef, ast.AsyncFunctionDef)) else ast.walk(root)):
			yield from self.access(f, n, only, module)

	def access(self, f, n, only=None, module=None):
		if isinstance(n, ast.Subscript):
			sid = self.isvar(f, n.value, module)
			if sid and (only in (None, sid)):
				k = constant(self.project, f, n.slice) if f else (
						n.slice.value if isinstance(n.slice, ast.Constant)
						else None)
				keys = [(sid, k)] if isinstance(k, str) else None
				if keys is None:
					keys = self.loopkeys(f, n, sid)
				yield ('set' if isinstance(n.ctx, ast.Store) else 'read',
						keys, n)
		elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
			sid = self.isvar(f, n.func.value, module)
			if sid and only in (None, sid):
				if n.func.attr == 'update':
					keys = [(sid, k.arg) for k in n.keywords if k.arg]
					for a in n.args + [
							k.value for k in n.keywords if k.arg is None]:
						keys.extend((sid, k) for k in self.dictkeys(f, a))
					yield 'set', keys, n
				elif n.func.attr in ('get', ) and n.args and isinstance(
						n.args[0], ast.Constant):
					yield 'read', [(sid, n.args[0].value)], n
				elif n.func.attr == 'get' and n.args and f is not None:
					yield 'read', self.loopkeys(
							f, n, sid, n.args[0]) or (), n
		elif isinstance(n, ast.Attribute):
			sid = self.isvar(f, n.value, module)
			if sid and only in (None, sid) and n.attr not in (
					'update', 'get', 'items', 'keys', 'values', 'copy',
					'setdefault', 'pop', 'clear'):
				yield ('set' if isinstance(n.ctx, ast.Store) else 'read',
						[(sid, n.attr)], n)
		elif isinstance(n, ast.Name):
			sid = None
			if f is not None and n.id in self.globals(f):
				sid = '%s.%s' % (f.module.name, n.id)
				if sid in self.settings and only in (None, sid):
					if isinstance(n.ctx, ast.Store):
						yield 'set', [(sid, WHOLE)], n
			elif isinstance(n.ctx, ast.Load):
				sid = self.isvar(f, n, module)
				if sid and only in (None, sid) and isinstance(
						self.settings[sid].node.value, ast.Constant):
					yield 'read', [(sid, WHOLE)], n

	def globals(self, f):
		if f.id not in self.globalcache:
			self.globalcache[f.id] = {x for n in own_nodes(f.node)
					if isinstance(n, ast.Global) for x in n.names}
		return self.globalcache[f.id]

	def loopkeys(self, f, n, sid, key=None):
		"""Keys for a loop over constants: for flag in FLAGS: X[flag] = ..."""
		key = key or n.slice
		if f is None or not isinstance(key, ast.Name):
			return None
		p = n
		while p is not f.node:
			if isinstance(p, ast.For) and isinstance(
					p.target, ast.Name) and p.target.id == key.id:
				vals = constant(self.project, f, p.iter)
				if isinstance(vals, (list, tuple)):
					return [(sid, v) for v in vals]
			for g in getattr(p, 'generators', ()):
				if isinstance(g.target, ast.Name) and (
						g.target.id == key.id):
					vals = constant(self.project, f, g.iter)
					if isinstance(vals, (list, tuple)):
						return [(sid, v) for v in vals]
			p = p._parent
		return None

	def dictkeys(self, f, node, depth=0):
		"""Keys of a dictionary expression."""
		if isinstance(node, (ast.Tuple, ast.List)) and not node.elts:
			return []
		if isinstance(node, ast.Dict):
			res = []
			for k, v in zip(node.keys, node.values):
				if k is None:
					res.extend(self.dictkeys(f, v, depth + 1))
				elif isinstance(k, ast.Constant):
					res.append(k.value)
				else:
					res.append(ANY)
			return res
		if isinstance(node, ast.Call):
			name = dotted(node.func)
			if name in PREFILL:
				res = [k.arg for k in node.keywords if k.arg]
				for a in node.args + [
						k.value for k in node.keywords if k.arg is None]:
					res += self.dictkeys(f, a, depth + 1)
				return res
			r = self.project.resolve_name(
					f.module, name or '?', f) if f else None
			if isinstance(r, Func) and depth < 4:
				return self.common(self.dictkeys(r, n.value, depth + 1)
						for n in own_nodes(r.node)
						if isinstance(n, ast.Return) and n.value is not None)
			if (name or '').split('.')[-1] == 'getctrees':
				return ['trees1', 'trees2', 'vocab']
		if isinstance(node, ast.DictComp) and f is not None:
			g = node.generators[0]
			vals = constant(self.project, f, g.iter)
			if isinstance(vals, (list, tuple)) and len(
					node.generators) == 1 and not g.ifs and isinstance(
					node.key, ast.Name) and isinstance(
					g.target, ast.Name) and g.target.id == node.key.id:
				return list(vals)
		if isinstance(node, ast.IfExp):
			return self.common(self.dictkeys(f, x, depth + 1)
					for x in (node.body, node.orelse))
		if isinstance(node, ast.Name) and f is not None and depth < 4:
			D = self.defs(f)
			opts = []
			for d in D.defs(node):
				if isinstance(d, Param):
					return [('param', d.name)]
				for s in D.sources(d):
					opts.append(self.dictkeys(f, s, depth + 1))
			# x['key'] = ..., x.update(...)
			extra = [ANY] if f is not None and any(
					isinstance(n, ast.Subscript) and isinstance(
					n.ctx, ast.Store) and dotted(n.value) == node.id
					or isinstance(n, ast.Call) and dotted(n.func) == (
						node.id + '.update')
					for n in own_nodes(f.node)) else []
			return (self.common(opts) if opts else [ANY]) + extra
		return [ANY]

	@staticmethod
	def common(opts):
		"""The keys that are given by each alternative."""
		res = None
		for keys in opts:
			if ANY not in keys:
				res = set(keys) if res is None else res & set(keys)
		return [ANY] if res is None else sorted(res, key=str)

	def defs(self, f):
		if f.id not in self.defcache:
			self.defcache[f.id] = Defs(f)
		return self.defcache[f.id]


class _Must(Flow):
	"""Keys that have been set on every path."""
	track_facts = True
	raise_states = 'pre'

	def __init__(self, func, engine, ignore=frozenset()):
		self.engine = engine
		self.reads = {}  # (sid, key) -> (func, node)
		self.exits = []
		super().__init__(func)

	def init(self):
		return frozenset()

	def join(self, a, b):
		return a & b

	def use(self, key, node, dom, func=None):
		if key not in dom and (key[0], ANY) not in dom:
			# parameters of this function that may provide this setting
			params = frozenset(k[1] for sid, k in dom
					if sid == key[0] and isinstance(k, tuple))
			if key not in self.reads:
				self.reads[key] = (func or self.func, node, params)
			elif not self.reads[key][2] <= params:
				self.reads[key] = self.reads[key][:2] + (
						self.reads[key][2] & params, )

	def scan(self, node, dom):
		e = self.engine
		# arguments are evaluated before the call itself
		for n in reversed(list(ast.walk(node))):
			for kind, keys, x in e.access(self.func, n):
				if kind == 'read':
					for k in keys or ():
						self.use(k, x, dom)
			if isinstance(n, ast.Call):
				for g, node_ in e.called(self.func, n):
					req, sets = e.summary.get(g.id, ({}, frozenset()))
					for k, (h, x, params) in req.items():
						new = dom
						if params:
							new = dom | e.bind(self.func, n, g, {
									(k[0], ('param', p)) for p in params})
						self.use(k, x, new, h)
					dom = dom | e.bind(self.func, n, g, sets)
				dom = dom | e.initializer(self.func, n)
				for kind, keys, x in e.access(self.func, n):
					if kind == 'set':
						dom = dom | frozenset(keys or ())
		return dom

	def on_expr(self, node, dom):
		return self.scan(node, dom)

	def on_branch(self, test, truth, dom):
		self.scan(test, dom)
		return dom

	def on_stmt(self, node, dom):
		return self.scan(node, dom)

	def on_assign(self, target, value, dom, stmt):
		for n in ast.walk(target):
			for kind, keys, x in self.engine.access(self.func, n):
				if kind == 'set':
					dom = dom | frozenset(keys or ())
				elif kind == 'read':
					for k in keys or ():
						self.use(k, x, dom)
		# a loop over constants sets all keys
		return dom

	def on_return(self, node, ds):
		if node is not None and getattr(node, 'value', None) is not None:
			for _, dom in ds:
				self.scan(node.value, dom)

	def st_For(self, st, ds):
		res = super().st_For(st, ds)
		vals = constant(self.engine.project, self.func, st.iter)
		if isinstance(vals, (list, tuple)) and vals:
			keys = set()
			for s in st.body:
				if isinstance(s, ast.Assign):
					for t in s.targets:
						for kind, ks, x in self.engine.access(self.func, t):
							if kind == 'set':
								keys.update(ks or ())
			res = self.mapd(res, lambda d: d | frozenset(keys))
		return res


def sig(reads):
	return {(k, params) for k, (_, _, params) in reads.items()}


class Analysis(Engine):
	def called(self, f, call):
		"""Project functions called by this expression, including functions
		that are passed to map()."""
		res = []
		name = dotted(call.func)
		r = None
		if name is not None:
			r = self.resolve(f, call.func)
		if isinstance(r, Func):
			res.append((r, call))
		last = (name or '').split('.')[-1]
		if (isinstance(call.func, ast.Name) and call.func.id in f.locals) or (
				last in ('map', 'imap', 'imap_unordered', 'starmap', 'filter',
				'_submit', 'submit')):
			for a in call.args[:1]:
				for g in self.functions(f, a):
					res.append((g, call))
		return res

	def functions(self, f, node, depth=0):
		"""Functions that this expression may refer to."""
		if isinstance(node, ast.IfExp):
			return self.functions(f, node.body) + self.functions(
					f, node.orelse)
		if isinstance(node, ast.Name) and node.id in f.locals and depth < 4:
			res = []
			D = self.defs(f)
			for d in D.defs(node):
				if not isinstance(d, Param):
					for s in D.sources(d):
						res += self.functions(f, s, depth + 1)
			return res
		r = self.resolve(f, node)
		return [r] if isinstance(r, Func) else []

	def resolve(self, f, node):
		d = dotted(node)
		if d is None:
			return None
		if d.startswith('self.') and d.count('.') == 1 and f.cls is not None:
			m = f.cls.find(d[5:])
			if m is not None:
				return m
		try:
			return self.project.resolve_name(f.module, d, f)
		except Exception:  # pylint: disable=broad-except
			return None

	def bind(self, f, call, g, sets):
		"""Replace keys given by a parameter."""
		res = set()
		for sid, k in sets:
			if isinstance(k, tuple) and k[0] == 'param':
				args = dict(zip(g.params, call.args))
				args.update({a.arg: a.value for a in call.keywords})
				if any(isinstance(x, ast.Starred) for x in call.args):
					res.add((sid, ANY))
				elif k[1] in args:
					res.update((sid, x) for x in self.dictkeys(
							f, args[k[1]]))
			else:
				res.add((sid, k))
		return frozenset(res)

	def initializer(self, f, call):
		"""Settings made by the initializer of worker processes.

		The functions that are called from here on are run by a worker;
		cf. pools()."""
		if not any(k.arg == 'initializer' for k in call.keywords):
			return frozenset()
		kw = {k.arg: k.value for k in call.keywords}
		init = self.resolve(f, kw['initializer'])
		if not isinstance(init, Func):
			return frozenset()
		_, sets = self.summary.get(init.id, ({}, frozenset()))
		return self.bind(f, initcall(kw), init, sets)

	def run(self):
		self.find()
		rel = set()
		for f in self.funcs():
			if any(True for _ in self.accesses(f, f.node)):
				rel.add(f.id)
		# callers
		self.callers = {}
		allf = list(self.funcs())
		for f in allf:
			for n in own_nodes(f.node):
				if isinstance(n, ast.Call):
					for g, _ in self.called(f, n):
						self.callers.setdefault(g.id, set()).add(f.id)
		byid = {f.id: f for f in allf}
		todo = list(rel)
		while todo:
			for c in self.callers.get(todo.pop(), ()):
				if c not in rel:
					rel.add(c)
					todo.append(c)
		self.rel = [byid[x] for x in sorted(rel) if x in byid]
		for _ in range(8):
			changed = False
			for f in self.rel:
				fl = _Must(f, self)
				end = fl.run()
				doms = [d for _, d in end] + [d for _, ds in fl.returns
						for _, d in ds]
				sets = doms[0] if doms else frozenset()
				for d in doms[1:]:
					sets &= d
				new = (fl.reads, sets)
				old = self.summary.get(f.id)
				if old is None or sig(old[0]) != sig(new[0]) or (
						old[1] != new[1]):
					changed = True
				self.summary[f.id] = new
			if not changed:
				break

	def modulekeys(self):
		"""Keys that are set when a module is imported, and in no function."""
		res = {}
		inside = set()
		for f in self.funcs():
			for kind, keys, n in self.accesses(f, f.node):
				if kind == 'set':
					inside.update(keys or ())
		for m in self.project.modules.values():
			keys = set()
			for st in m.tree.body:
				if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
					continue
				for n in ast.walk(st):
					if isinstance(n, (ast.FunctionDef, ast.Lambda)):
						continue
					for kind, ks, x in self.access(None, n, None, m):
						if kind == 'set':
							keys.update(ks or ())
			if keys:
				res[m.name] = keys
		self.inside = inside
		return res


def check(project, res, tier):
	res.rule('each setting in a module variable that is read by a task has been'
			' set on every path from the start of that task, or is a constant'
			' set when the program starts; each setting read by a worker'
			' process is set by the initializer of the process')
	res.assume('a worker process does not inherit the state of its parent'
			' (start method spawn or forkserver)')
	a = Analysis(project, res)
	a.run()
	modkeys = a.modulekeys()
	res.count('settings variables', len(a.settings))
	res.sample('settings variables', ', '.join(sorted(a.settings)))
	res.count('functions', len(a.rel))
	owners = {s.module for s in a.settings.values()}
	workers = set()
	for f in a.rel:
		workers |= pools(a, f, res)
	for f in a.rel:
		req, sets = a.summary[f.id]
		res.count('settings read', len(req))
		callers = a.callers.get(f.id, set()) - {f.id}
		if (callers and f.name != 'main') or f.id in workers or f.name.startswith(
				'initworker') or (f.module in owners
				and inall(f) and not setsany(a, f) and f.name != 'main'):
			continue
		res.count('tasks')
		res.sample('tasks', f.id)
		init = set()
		for m, keys in modkeys.items():
			if m == f.module.name:
				# keys of this module that other settings do not change
				init |= keys - own(a, f.module)
		for k in sorted(req, key=str):
			if k in init:
				continue
			h, node, _ = req[k]
			res.finding('unset', f.id, h.loc(node), '%s of %s is read, but not'
					' set on every path in %s' % (
					k[1] if k[1] != WHOLE else 'the value',
					k[0], f.id))
	res.require('settings variables', 1)
	res.require('settings read', 10)
	res.require('tasks', 1)
	res.require('worker processes', 1)


def inall(f):
	"""Whether function is exported by its module, as part of a larger task."""
	v = globalvalue(f.module, '__all__')
	return isinstance(v, (ast.List, ast.Tuple)) and any(isinstance(
			e, ast.Constant) and e.value == f.name for e in v.elts)


def setsany(a, f):
	for kind, keys, n in a.accesses(f, f.node):
		if kind == 'set':
			return True
	return False


def own(a, module):
	"""Settings changed by functions in this module."""
	res = set()
	for f in module.funcs.values():
		if f.node is None or isinstance(f.node, ast.Lambda):
			continue
		for kind, keys, n in a.accesses(f, f.node):
			if kind == 'set':
				res.update(keys or ())
	return res


def initcall(kw):
	"""The call of the initializer that is done in each process."""
	args = kw.get('initargs')
	if args is None:
		args = []
	elif isinstance(args, (ast.Tuple, ast.List)):
		args = list(args.elts)
	else:
		args = [ast.Starred(value=args, ctx=ast.Load())]
	return ast.Call(func=kw['initializer'], args=args, keywords=[])


def pools(a, f, res):
	"""Check worker processes started in this function."""
	workers = set()
	inits = []
	for n in own_nodes(f.node):
		if isinstance(n, ast.Call):
			kw = {k.arg: k.value for k in n.keywords}
			if 'initializer' in kw:
				inits.append((n, kw))
	if not inits:
		return workers
	for n in own_nodes(f.node):
		if isinstance(n, ast.Call):
			name = dotted(n.func) or ''
			if name.split('.')[-1] in ('map', 'imap', 'imap_unordered',
					'starmap', 'apply_async', 'submit') or (isinstance(
					n.func, ast.Name) and n.func.id in f.locals):
				for x in n.args[:1]:
					for g in a.functions(f, x):
						workers.add(g)
	for n, kw in inits:
		init = a.resolve(f, kw['initializer'])
		if not isinstance(init, Func):
			continue
		res.count('worker processes')
		res.sample('worker processes', f.loc(n))
		req, sets = a.summary.get(init.id, ({}, frozenset()))
		call = initcall(kw)
		sets = a.bind(f, call, init, sets)
		for k in sorted(req, key=str):
			h, node, params = req[k]
			given = a.bind(f, call, init, {
					(k[0], ('param', p)) for p in params})
			if k in given or (k[0], ANY) in given:
				continue
			res.finding('process', f.id, h.loc(node), '%s of %s is read by the'
					' initializer %s of a worker process, but has not been set'
					' in that process' % (k[1], k[0], init.name))
		for w in sorted(workers, key=lambda g: g.id):
			wreq, _ = a.summary.get(w.id, ({}, frozenset()))
			res.count('settings of workers', len(wreq))
			for k in sorted(set(wreq) - set(sets), key=str):
				if (k[0], ANY) in sets:
					continue
				h, node, _ = wreq[k]
				res.finding('process', f.id, h.loc(node), '%s of %s is read by'
						' %s in a worker process, but not set by the'
						' initializer %s' % (k[1], k[0], w.name, init.name))
	return {g.id for g in workers}
