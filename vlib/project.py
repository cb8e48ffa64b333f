"""Loads /repo's Python sources into a resolved program model.

Nothing here imports or runs code of /repo; sources are parsed with ``ast``.
"""
import ast
import os
import builtins
from .normalise import normalise

REPO = os.environ.get('VERIF_REPO', '/repo')


class AnalysisBroken(Exception):
	"""An anchor vanished or the source could not be modelled."""


class Func:
	"""A function, method, nested function, or lambda."""
	def __init__(self, module, node, qual, cls, parent):
		self.module, self.node, self.qual = module, node, qual
		self.cls, self.parent = cls, parent
		self.nested = {}  # name -> Func
		self.decorators = []
		if isinstance(node, ast.Lambda):
			self.name = '<lambda>'
			self.body = [ast.Return(value=node.body, lineno=node.lineno,
					col_offset=node.col_offset)]
		else:
			self.name = node.name
			self.body = node.body
			self.decorators = [dotted(d.func if isinstance(d, ast.Call)
					else d) for d in node.decorator_list]
		a = node.args
		self.posparams = [x.arg for x in a.posonlyargs + a.args]
		self.kwonly = [x.arg for x in a.kwonlyargs]
		self.vararg = a.vararg.arg if a.vararg else None
		self.kwarg = a.kwarg.arg if a.kwarg else None
		self.params = (self.posparams + ([self.vararg] if self.vararg else [])
				+ self.kwonly + ([self.kwarg] if self.kwarg else []))
		nd = len(a.defaults)
		self.defaults = dict(zip(self.posparams[len(self.posparams) - nd:],
				a.defaults)) if nd else {}
		self.defaults.update({k: d for k, d in zip(self.kwonly, a.kw_defaults)
				if d is not None})
		self.is_generator = any(isinstance(n, (ast.Yield, ast.YieldFrom))
				for n in own_nodes(node))
		self._locals = None
		self.globals_declared = set()
		self.nonlocals_declared = set()
		for n in own_nodes(node):
			if isinstance(n, ast.Global):
				self.globals_declared.update(n.names)
			elif isinstance(n, ast.Nonlocal):
				self.nonlocals_declared.update(n.names)

	@property
	def id(self):
		return '%s.%s' % (self.module.name, self.qual)

	@property
	def is_method(self):
		return self.cls is not None and 'staticmethod' not in self.decorators

	@property
	def locals(self):
		if self._locals is None:
			res = set(self.params)
			for n in own_nodes(self.node):
				if isinstance(n, ast.Name) and isinstance(
						n.ctx, (ast.Store, ast.Del)):
					res.add(n.id)
				elif isinstance(n, (ast.FunctionDef, ast.ClassDef,
						ast.AsyncFunctionDef)):
					res.add(n.name)
				elif isinstance(n, ast.ExceptHandler) and n.name:
					res.add(n.name)
				elif isinstance(n, (ast.Import, ast.ImportFrom)):
					for al in n.names:
						res.add((al.asname or al.name).split('.')[0])
			self._locals = (res - self.globals_declared
					- self.nonlocals_declared)
		return self._locals

	def loc(self, node=None):
		return '%s:%d' % (self.module.relpath,
				getattr(node or self.node, 'lineno', 0))

	def __repr__(self):
		return '<Func %s>' % self.id


class Class:
	def __init__(self, module, node, qual):
		self.module, self.node, self.qual = module, node, qual
		self.name = node.name
		self.methods = {}
		self.attrs = {}  # class-level name -> value expr
		self.bases = []  # Class or dotted str
		self.subclasses = []

	@property
	def id(self):
		return '%s.%s' % (self.module.name, self.qual)

	def mro(self):
		"""C3-ish linearisation (depth first, last occurrence kept)."""
		seqs = []
		bases = [b for b in self.bases if isinstance(b, Class)]
		for b in bases:
			seqs.append(list(b.mro()))
		seqs.append(list(bases))
		res = [self]
		while any(seqs):
			for s in seqs:
				if not s:
					continue
				c = s[0]
				if not any(c in t[1:] for t in seqs):
					break
			else:
				break
			res.append(c)
			for s in seqs:
				if s and s[0] is c:
					s.pop(0)
		return res

	def external_bases(self):
		res = []
		for c in self.mro():
			res.extend(b for b in c.bases if isinstance(b, str))
		return res

	def find(self, name):
		for c in self.mro():
			if name in c.methods:
				return c.methods[name]
		return None

	def find_attr(self, name):
		for c in self.mro():
			if name in c.attrs:
				return c.attrs[name]
		return None

	def all_subclasses(self):
		res = []
		for c in self.subclasses:
			res.append(c)
			res.extend(c.all_subclasses())
		return res

	def instance_attrs(self):
		"""Names assigned as self.X in any method in MRO, or slots."""
		res = set()
		for c in self.mro():
			res.update(c.attrs)
			res.update(c.methods)
			for m in c.methods.values():
				if not m.posparams:
					continue
				me = m.posparams[0]
				for n in ast.walk(m.node):
					if (isinstance(n, ast.Attribute)
							and isinstance(n.ctx, (ast.Store, ast.Del))
							and isinstance(n.value, ast.Name)
							and n.value.id == me):
						res.add(n.attr)
		slots = self.find_attr('__slots__')
		if slots is not None:
			try:
				v = ast.literal_eval(slots)
				res.update([v] if isinstance(v, str) else v)
			except ValueError:
				pass
		return res

	def __repr__(self):
		return '<Class %s>' % self.id


class Module:
	def __init__(self, name, path, relpath, source, tree):
		self.name, self.path, self.relpath = name, path, relpath
		self.src, self.tree = source, tree
		self.lines = self.src.splitlines()
		self.funcs = {}  # qual -> Func
		self.classes = {}
		self.imports = {}  # local name -> ('mod', dotted) | ('attr', mod, nm)
		self.globals = {}  # name -> list of value exprs / nodes
		for n in ast.walk(self.tree):
			for ch in ast.iter_child_nodes(n):
				ch._parent = n
		self._collect(self.tree.body, '', None, None)
		# methods defined by assignment: append = extend = _blocked
		for c in self.classes.values():
			for name, value in c.attrs.items():
				if isinstance(value, ast.Name) and name not in c.methods:
					f = c.methods.get(value.id)
					if f is None and value.id in self.funcs and (
							self.funcs[value.id].parent is None):
						f = self.funcs[value.id]
					if f is not None:
						c.methods[name] = f
		self._globals()

	def _collect(self, body, prefix, cls, parent):
		for node in body:
			self._collect_node(node, prefix, cls, parent)

	def _collect_node(self, node, prefix, cls, parent):
		if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
			f = Func(self, node, prefix + node.name, cls, parent)
			node._func = f
			key = f.qual
			if key in self.funcs and 'overload' not in f.decorators:
				if any(d.endswith('.setter') or d.endswith('.deleter')
						for d in f.decorators):
					key = f.qual + '@' + f.decorators[0].split('.')[-1]
					f.qual = key
			if key in self.funcs:  # redefinition e.g. in try/except
				n = 2
				while '%s#%d' % (key, n) in self.funcs:
					n += 1
				self.funcs['%s#%d' % (key, n)] = f
			else:
				self.funcs[key] = f
			if cls is not None and parent is None:
				if '@' in key:
					cls.methods[key.split('.')[-1]] = f
				else:
					cls.methods[node.name] = f
			if parent is not None:
				parent.nested[node.name] = f
			for d in node.args.defaults + [x for x in node.args.kw_defaults if x]:
				self._collect_expr(d, prefix, cls, parent)
			self._collect(node.body, f.qual + '.<locals>.', cls
					if False else None, f)
		elif isinstance(node, ast.ClassDef):
			c = Class(self, node, prefix + node.name)
			node._class = c
			self.classes[c.qual] = c
			for st in node.body:
				if isinstance(st, ast.Assign):
					for t in st.targets:
						if isinstance(t, ast.Name):
							c.attrs[t.id] = st.value
				elif isinstance(st, ast.AnnAssign) and isinstance(
						st.target, ast.Name):
					c.attrs[st.target.id] = st.value
				self._collect_node(st, c.qual + '.', c, None)
		else:
			for ch in ast.iter_child_nodes(node):
				if isinstance(ch, ast.Lambda):
					self._lambda(ch, prefix, parent)
				else:
					self._collect_node(ch, prefix, cls, parent)

	def _collect_expr(self, node, prefix, cls, parent):
		if isinstance(node, ast.Lambda):
			self._lambda(node, prefix, parent)
			return
		for ch in ast.iter_child_nodes(node):
			self._collect_expr(ch, prefix, cls, parent)

	def _lambda(self, node, prefix, parent):
		n = 0
		while '%s<lambda%d>' % (prefix, n) in self.funcs:
			n += 1
		f = Func(self, node, '%s<lambda%d>' % (prefix, n), None, parent)
		node._func = f
		self.funcs[f.qual] = f
		self._collect_expr(node.body, f.qual + '.<locals>.', None, f)

	def _globals(self):
		def visit(body):
			for st in body:
				if isinstance(st, ast.Import):
					for al in st.names:
						self.imports[al.asname or al.name.split('.')[0]] = (
								'mod', al.name if al.asname
								else al.name.split('.')[0])
				elif isinstance(st, ast.ImportFrom):
					mod = self._relmod(st)
					for al in st.names:
						self.imports[al.asname or al.name] = (
								'attr', mod, al.name)
				elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
					self.globals.setdefault(st.name, []).append(st)
				elif isinstance(st, ast.Assign):
					for t in st.targets:
						for n in ast.walk(t):
							if isinstance(n, ast.Name) and isinstance(
									n.ctx, ast.Store):
								self.globals.setdefault(n.id, []).append(
										st.value if isinstance(t, ast.Name)
										else st)
				elif isinstance(st, (ast.AnnAssign, ast.AugAssign)):
					if isinstance(st.target, ast.Name):
						self.globals.setdefault(st.target.id, []).append(
								st.value)
				elif isinstance(st, (ast.If, ast.Try, ast.For, ast.While,
						ast.With)):
					if isinstance(st, ast.For):
						for n in ast.walk(st.target):
							if isinstance(n, ast.Name):
								self.globals.setdefault(n.id, []).append(st)
					for fld in ('body', 'orelse', 'finalbody'):
						visit(getattr(st, fld, []) or [])
					for h in getattr(st, 'handlers', []):
						visit(h.body)
		visit(self.tree.body)
		# function-level imports are handled by resolve()

	def _relmod(self, st):
		if st.level:
			pkg = self.name.split('.')[:-1]
			if os.path.basename(self.path) == '__init__.py':
				pkg = self.name.split('.')
			pkg = pkg[:len(pkg) - (st.level - 1)]
			return '.'.join(pkg + ([st.module] if st.module else []))
		return st.module or ''


def dotted(node):
	"""Dotted name of a Name/Attribute chain or '' ."""
	if isinstance(node, ast.Name):
		return node.id
	if isinstance(node, ast.Attribute):
		base = dotted(node.value)
		return base + '.' + node.attr if base else ''
	return ''


def own_nodes(funcnode):
	"""All nodes of a function body, not descending in nested functions
	(comprehensions are included)."""
	if isinstance(funcnode, ast.Lambda):
		stack = [funcnode.body]
	else:
		stack = list(funcnode.body)
	while stack:
		n = stack.pop()
		yield n
		if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
			stack.extend(n.args.defaults)
			stack.extend(x for x in n.args.kw_defaults if x)
			stack.extend(getattr(n, 'decorator_list', []))
			continue
		if isinstance(n, ast.ClassDef):
			continue
		stack.extend(ast.iter_child_nodes(n))


def modulefiles(repo=REPO):
	"""Yield names and paths of modules."""
	for sub, prefix in (('discodop', 'discodop.'), ('web', 'web.')):
		d = os.path.join(repo, sub)
		for fn in sorted(os.listdir(d)):
			if fn.endswith('.py'):
				name = prefix + fn[:-3]
				if fn == '__init__.py':
					name = prefix[:-1]
				yield name, os.path.join(d, fn), os.path.join(sub, fn)


class Project:
	def __init__(self, repo=None):
		self.repo = repo or REPO
		self.modules = {}
		files = list(modulefiles(self.repo))
		sources, trees = {}, {}
		for name, path, relpath in files:
			with open(path, encoding='utf8') as inp:
				sources[name] = inp.read()
			try:
				trees[name] = ast.parse(sources[name], path)
			except SyntaxError as err:
				raise AnalysisBroken('cannot parse %s: %s' % (relpath, err))
		self.substituted = normalise(trees)
		for name, path, relpath in files:
			self.modules[name] = Module(
					name, path, relpath, sources[name], trees[name])
		if len(self.modules) < 20:
			raise AnalysisBroken('only %d modules found' % len(self.modules))
		self.funcs = {}
		self.classes = {}
		self.methods_by_name = {}
		for m in self.modules.values():
			for f in m.funcs.values():
				self.funcs[f.id] = f
			for c in m.classes.values():
				self.classes[c.id] = c
		for c in self.classes.values():
			for b in c.node.bases:
				r = self.resolve_name(c.module, dotted(b))
				if isinstance(r, Class):
					c.bases.append(r)
					r.subclasses.append(c)
				else:
					c.bases.append(dotted(b))
			for name, f in c.methods.items():
				self.methods_by_name.setdefault(name, []).append(f)
		for c in self.classes.values():
			for name, f in c.methods.items():
				if f.qual.startswith(c.qual + '.'):
					f.cls = c

	def resolve_name(self, module, name, func=None, depth=0):
		"""Resolve a dotted name to Func, Class, Module, ('global', mod,
		name), ('ext', dotted) or None."""
		if not name or depth > 10:
			return None
		parts = name.split('.')
		head = parts[0]
		cur = None
		f = func
		while f is not None:
			if head in f.nested:
				cur = f.nested[head]
				break
			imp = self._local_import(f, head)
			if imp is not None:
				cur = self._from_import(imp, depth)
				break
			if head in f.locals:
				return None
			f = f.parent
		if cur is None:
			cur = self._module_attr(module, head, depth)
			if cur is None and hasattr(builtins, head):
				cur = ('ext', head)
		for p in parts[1:]:
			if isinstance(cur, Module):
				cur = self._module_attr(cur, p, depth)
			elif isinstance(cur, Class):
				m = cur.find(p)
				cur = m if m is not None else None
			elif isinstance(cur, tuple) and cur[0] == 'ext':
				cur = ('ext', cur[1] + '.' + p)
			else:
				return None
		return cur

	def _local_import(self, f, name):
		if not hasattr(f, '_imports'):
			f._imports = {}
			for st in own_nodes(f.node):
				if isinstance(st, ast.Import):
					for al in st.names:
						f._imports[al.asname or al.name.split('.')[0]] = (
								'mod', al.name if al.asname
								else al.name.split('.')[0])
				elif isinstance(st, ast.ImportFrom):
					for al in st.names:
						f._imports[al.asname or al.name] = (
								'attr', f.module._relmod(st), al.name)
		return f._imports.get(name)

	def _from_import(self, imp, depth):
		if imp[0] == 'mod':
			return self.modules.get(imp[1]) or ('ext', imp[1])
		_, mod, name = imp
		sub = self.modules.get(mod + '.' + name)
		if sub is not None:
			return sub
		if mod in self.modules:
			r = self._module_attr(self.modules[mod], name, depth + 1)
			if r is None and os.path.exists(os.path.join(self.repo,
					*(mod.split('.') + [name + '.pyx']))):
				return ('ext', mod + '.' + name)
			return r
		return ('ext', mod + '.' + name)

	def _module_attr(self, module, name, depth):
		if depth > 10:
			return None
		if name in module.funcs and module.funcs[name].parent is None:
			return module.funcs[name]
		if name in module.classes:
			return module.classes[name]
		if name in module.imports:
			return self._from_import(module.imports[name], depth + 1)
		if name in module.globals:
			return ('global', module.name, name)
		sub = self.modules.get(module.name + '.' + name)
		return sub

	def func(self, fid):
		f = self.funcs.get('discodop.' + fid) or self.funcs.get(fid)
		if f is None:
			raise AnalysisBroken('anchor function %s not found' % fid)
		return f

	def cls(self, cid):
		c = self.classes.get('discodop.' + cid) or self.classes.get(cid)
		if c is None:
			raise AnalysisBroken('anchor class %s not found' % cid)
		return c

	def module(self, name):
		m = self.modules.get('discodop.' + name) or self.modules.get(name)
		if m is None:
			raise AnalysisBroken('anchor module %s not found' % name)
		return m

	def resolve_call(self, func, call, module=None):
		return self.resolve_name(module or func.module, dotted(call.func),
				func)


def src(node):
	try:
		return ast.unparse(node)
	except Exception:  # pragma: no cover
		return type(node).__name__


def enclosing_func(node):
	n = getattr(node, '_parent', None)
	while n is not None:
		f = getattr(n, '_func', None)
		if f is not None:
			return f
		n = getattr(n, '_parent', None)
	return None
