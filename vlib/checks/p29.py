"""Format strings agree with the values they are applied to."""
import ast
import builtins
import re
import string
from ..project import Func, dotted, src
from ..constprop import Interp, Frame, _Mod
from ..types import infer, elem

TITLE = 'format strings and their values'
CONV = re.compile(r'%(?:\(([^)]*)\))?[#0\- +]*(\*|\d+)?(?:\.(\*|\d+))?'
		r'[hlL]?(.)', re.DOTALL)
TYPES = set('diouxXeEfFgGcrsa%b')
NUM = set('diouxXeEfFgG')
LOGGING = {'debug', 'info', 'warning', 'warn', 'error', 'critical',
		'exception', 'log'}


def conversions(text):
	"""List of (name, type) or None if the format is not valid."""
	if isinstance(text, bytes):
		text = text.decode('latin1')
	res, pos = [], 0
	while True:
		pos = text.find('%', pos)
		if pos < 0:
			return res
		m = CONV.match(text, pos)
		if m is None or m.group(4) not in TYPES:
			return None
		for star in (m.group(2), m.group(3)):
			if star == '*':
				res.append((None, 'd'))
		if m.group(4) != '%':
			res.append((m.group(1), m.group(4)))
		pos = m.end()


STRMETH = {'strip', 'lstrip', 'rstrip', 'split', 'splitlines', 'startswith',
		'endswith', 'lower', 'upper', 'encode', 'decode', 'replace', 'join',
		'format', 'isdigit', 'isupper', 'islower', 'isalpha', 'partition',
		'rsplit', 'zfill', 'find', 'title', 'translate'}
TOSTR = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'zfill', 'title',
		'format', 'translate'}
LISTMETH = {'append', 'extend', 'insert', 'sort', 'reverse'}
REFUNCS = {'match', 'search', 'fullmatch', 'findall', 'finditer', 'split'}


class Types:
	"""Shallow types of expressions: 'str', 'num', 'none', 'tuple', n, ...;
	None if unknown."""
	def __init__(self, project, module, func):
		self.p, self.module, self.func = project, module, func

	def of(self, node, depth=0):
		if isinstance(node, ast.Constant):
			v = node.value
			if v is None:
				return 'none'
			if isinstance(v, (str, bytes)):
				return 'str'
			if isinstance(v, (int, float)):
				return 'num'
		if isinstance(node, ast.JoinedStr):
			return 'str'
		if isinstance(node, ast.Tuple):
			return 'tuple'
		if isinstance(node, (ast.List, ast.ListComp)):
			return 'list'
		if isinstance(node, (ast.Dict, ast.DictComp)):
			return 'dict'
		if isinstance(node, (ast.Set, ast.SetComp)):
			return 'set'
		if isinstance(node, ast.GeneratorExp):
			return 'generator'
		if isinstance(node, ast.Compare):
			return 'num'
		if isinstance(node, ast.IfExp):
			a, b = self.of(node.body, depth), self.of(node.orelse, depth)
			return a if a == b else None
		if isinstance(node, ast.BinOp):
			if isinstance(node.op, ast.Mod) and self.of(
					node.left, depth) == 'str':
				return 'str'
			if isinstance(node.op, ast.Add):
				a = self.of(node.left, depth)
				b = self.of(node.right, depth)
				return a if a in ('str', 'num') and a == b else (
						'str' if 'str' in (a, b) else None)
		if isinstance(node, ast.Call):
			name = dotted(node.func)
			r = self.p.resolve_name(self.module, name, self.func
					) if name else None
			if r is None and name in vars(builtins) and '.' not in name:
				r = ('ext', name)
			if isinstance(r, tuple) and r[0] == 'ext':
				return {'str': 'str', 'repr': 'str', 'len': 'num',
						'int': 'num', 'float': 'num', 'sum': 'num',
						'list': 'list', 'sorted': 'list', 'dict': 'dict',
						'set': 'set', 'tuple': 'tuple', 'bool': 'num',
						'round': 'num', 'ascii': 'str'}.get(r[1])
			if isinstance(node.func, ast.Attribute) and (
					node.func.attr in ('split', 'splitlines', 'rsplit')
					) and r is None:
				return 'list'
			if isinstance(node.func, ast.Attribute) and (
					node.func.attr in TOSTR) and r is None:
				return 'str'
			if isinstance(node.func, ast.Attribute) and (
					node.func.attr == 'join') and self.of(node.func.value,
					depth) == 'str':
				return 'str'
			if isinstance(r, Func) and depth < 3 and isinstance(r.node,
					ast.FunctionDef) and not r.is_generator:
				res = set()
				for n in ast.walk(r.node):
					if isinstance(n, ast.Return) and getattr(n, '_own',
							True):
						res.add(Types(self.p, r.module, r).of(n.value,
								depth + 1) if n.value is not None
								else 'none')
				return res.pop() if len(res) == 1 and len([
						n for n in ast.walk(r.node) if isinstance(n, (
						ast.FunctionDef, ast.Lambda))]) == 1 else None
		if isinstance(node, ast.Name) and self.func is not None and (
				depth < 3):
			# a local variable with a single kind of assignment
			if node.id in self.func.locals and node.id not in (
					self.func.params):
				res = set()
				for n in ast.walk(self.func.node):
					if isinstance(n, ast.Name) and n.id == node.id and (
							isinstance(n.ctx, (ast.Store, ast.Del))):
						p = parent(self.func.node, n)
						if isinstance(p, ast.Assign) and n in p.targets:
							res.add(self.of(p.value, depth + 1))
						elif isinstance(p, ast.AugAssign):
							continue
						else:
							res.add(None)
				r = res.pop() if len(res) == 1 else None
				if r is not None:
					return r
		if isinstance(node, ast.Name) and self.func is not None:
			return self.usage(node.id)
		return None

	def usage(self, name):
		"""The type of a variable, given the methods that are called on it and
		the regexes it is matched with in the same function (no type tests,
		not assigned in the function other than as loop variable)."""
		if name not in self.func.locals:
			return None
		if self.func.vararg == name:
			return 'tuple'
		found, stores = set(), 0
		for n in ast.walk(self.func.node):
			if isinstance(n, ast.Name) and n.id == name and isinstance(
					n.ctx, (ast.Store, ast.Del)):
				stores += 1
			elif isinstance(n, ast.Call):
				f = n.func
				if isinstance(f, ast.Name) and f.id in ('isinstance', 'type',
						'hasattr', 'callable') and any(isinstance(a, ast.Name)
						and a.id == name for a in n.args):
					return None
				if not isinstance(f, ast.Attribute):
					continue
				if isinstance(f.value, ast.Name) and f.value.id == name:
					if f.attr in STRMETH:
						found.add('str')
					elif f.attr in LISTMETH:
						found.add('list')
					else:
						found.add(None)
				elif f.attr in REFUNCS and n.args and isinstance(n.args[-1],
						ast.Name) and n.args[-1].id == name and isinstance(
						f.value, ast.Name) and f.value.id.isupper():
					found.add('str')
		if stores > (name not in self.func.params) or len(found) != 1:
			return None
		return found.pop()


def parent(root, node):
	cache = root.__dict__.setdefault('_parents', None)
	if cache is None:
		cache = root._parents = {id(ch): n for n in ast.walk(root)
				for ch in ast.iter_child_nodes(n)}
	return cache.get(id(node))


class Checker:
	def __init__(self, project, res):
		self.p, self.res = project, res
		self.interp = Interp(project)
		self.types = infer(project)

	def kinds(self, module, func, node):
		"""Inferred types (str, number, tuple, ...) if all are known."""
		try:
			if isinstance(node, ast.Name):
				it = iterated(func, module, node)
				if it is not None:
					n = pairs(it)
					if n:
						return (('tuple', (None, ) * n), )
					atoms = elem(self.types.ev(module, func, it))
				else:
					atoms = self.types.ev(module, func, node)
			else:
				atoms = self.types.ev(module, func, node)
		except (KeyError, AttributeError, TypeError, IndexError):
			return ()
		return atoms if '?' not in atoms else ()

	def texts(self, module, func, node):
		"""Possible values of a format."""
		if isinstance(node, ast.IfExp):
			return self.texts(module, func, node.body) + self.texts(
					module, func, node.orelse)
		text = self.text(module, func, node)
		if text is not None:
			return [text]
		if isinstance(node, ast.Name) and func is not None and (
				node.id in func.locals) and node.id not in func.params:
			res = []
			for n in ast.walk(func.node):
				if isinstance(n, ast.Name) and n.id == node.id and (
						isinstance(n.ctx, (ast.Store, ast.Del))):
					p = parent(func.node, n)
					if isinstance(p, ast.Assign) and n in p.targets and (
							isinstance(p.value, ast.Constant)
							and isinstance(p.value.value, str)
							or isinstance(p.value, ast.IfExp)):
						res.extend(self.texts(module, func, p.value))
					else:
						return []
			return res
		return []

	def text(self, module, func, node):
		if isinstance(node, ast.Constant) and isinstance(node.value, (str,
				bytes)):
			return node.value
		if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
			a = self.text(module, func, node.left)
			b = self.text(module, func, node.right)
			return a + b if a is not None and type(a) is type(b) else None
		if isinstance(node, ast.Name):
			if func is None or node.id not in func.locals:
				f = func
				while f is not None:
					if node.id in f.locals:
						return None
					f = f.parent
				v = Frame(self.interp, _Mod(module), 0).glob(module, node.id)
				if v[0] == 'const' and isinstance(v[1], (str, bytes)):
					return v[1]
			elif node.id not in func.params:
				vals = []
				for n in ast.walk(func.node):
					if isinstance(n, ast.Name) and n.id == node.id and (
							isinstance(n.ctx, (ast.Store, ast.Del))):
						p = parent(func.node, n)
						vals.append(p.value if isinstance(p, ast.Assign)
								and n in p.targets else None)
				if len(vals) == 1 and isinstance(vals[0], ast.Constant):
					return self.text(module, func, vals[0])
		return None

	def bad(self, where, module, node, msg):
		self.res.finding('format', '%s: %s' % (where, src(node)[:60]),
				'%s:%d' % (module.relpath, node.lineno), msg)

	def percent(self, where, module, func, node):
		for text in self.texts(module, func, node.left):
			self.percent1(where, module, func, node, text)

	def percent1(self, where, module, func, node, text):
		self.res.count('formats')
		convs = conversions(text)
		if convs is None:
			self.bad(where, module, node, 'not a valid format: %r' % text)
			return
		self.res.count('conversions', len(convs))
		right = node.right
		types = Types(self.p, module, func)
		named = [c for c in convs if c[0] is not None]
		if isinstance(right, ast.Tuple):
			if any(isinstance(a, ast.Starred) for a in right.elts):
				return
			if named:
				self.bad(where, module, node, 'a mapping is required')
				return
			if len(right.elts) != len(convs):
				self.bad(where, module, node, '%d values for %d conversions'
						% (len(right.elts), len(convs)))
				return
			pairs = list(zip(convs, right.elts))
		elif isinstance(right, ast.Dict):
			keys = {k.value for k in right.keys
					if isinstance(k, ast.Constant)}
			if None not in right.keys and all(isinstance(k, ast.Constant)
					for k in right.keys):
				for name, _ in named:
					if name not in keys:
						self.bad(where, module, node, 'no value for %r'
								% name)
			return
		elif named and isinstance(right, ast.Call) and dotted(right.func
				) == 'dict' and not right.args and all(k.arg
				for k in right.keywords):
			for name, _ in named:
				if name not in {k.arg for k in right.keywords}:
					self.bad(where, module, node, 'no value for %r' % name)
			return
		elif named and isinstance(right, ast.Call) and dotted(right.func
				) == 'locals' and not right.args and func is not None:
			for name, _ in named:
				if name not in func.locals and name not in func.params:
					self.bad(where, module, node, 'no variable %r' % name)
			return
		elif named:
			if types.of(right) in ('str', 'num', 'none', 'list', 'set'):
				self.bad(where, module, node, 'a mapping is required')
			return
		else:
			t = types.of(right)
			if t in ('tuple', None, 'dict'):
				t2 = self.tuplelen(module, func, right)
				if t2 is not None and t2 != len(convs):
					self.bad(where, module, node, '%d values for %d'
							' conversions' % (t2, len(convs)))
				atoms = self.kinds(module, func, right) if (
						t2 is None) else ()
				if atoms and all(not isinstance(a, str) and a[0] == 'tuple'
						and len(a[1]) != len(convs) for a in atoms):
					self.bad(where, module, node, '%s is a tuple, with another'
							' number of values than the %d conversions' % (
							src(right)[:40], len(convs)))
				elif atoms and len(convs) != 1 and all(a in ('str', 'int',
						'float', 'none', 'bool') for a in atoms):
					self.bad(where, module, node, 'one value for %d'
							' conversions' % len(convs))
				elif isinstance(right, (ast.Name, ast.Attribute, ast.Call,
						ast.Subscript)) and t is None:
					self.res.count('formats of a value of unknown type')
				return
			if len(convs) != 1:
				self.bad(where, module, node, 'one value for %d conversions'
						% len(convs))
				return
			pairs = [(convs[0], right)]
		for (_, c), a in pairs:
			t = types.of(a)
			if c in NUM and t is not None and t != 'num':
				self.bad(where, module, node, '%%%s requires a number, not %s'
						% (c, src(a)[:40]))

	def tuplelen(self, module, func, node):
		if isinstance(node, ast.Name) and func is not None and (
				node.id in func.locals and node.id not in func.params):
			lens = set()
			for n in ast.walk(func.node):
				if isinstance(n, ast.Name) and n.id == node.id and (
						isinstance(n.ctx, (ast.Store, ast.Del))):
					p = parent(func.node, n)
					if isinstance(p, ast.Assign) and n in p.targets and (
							isinstance(p.value, ast.Tuple)) and not any(
							isinstance(a, ast.Starred)
							for a in p.value.elts):
						lens.add(len(p.value.elts))
					else:
						lens.add(None)
			return lens.pop() if len(lens) == 1 else None
		return None

	def strformat(self, where, module, func, node):
		text = self.text(module, func, node.func.value)
		if text is None or isinstance(text, bytes):
			return
		self.res.count('formats')
		if any(isinstance(a, ast.Starred) for a in node.args) or any(
				k.arg is None for k in node.keywords):
			return
		auto = 0
		names = {k.arg for k in node.keywords}
		types = Types(self.p, module, func)
		try:
			fields = list(string.Formatter().parse(text))
		except ValueError as err:
			self.bad(where, module, node, 'not a valid format: %s' % err)
			return
		used = set()
		for _, field, spec, _ in fields:
			if field is None:
				continue
			self.res.count('conversions')
			first = re.match(r'[^.\[]*', field).group()
			if first == '':
				first, auto = str(auto), auto + 1
			if first.isdigit():
				used.add(int(first))
				if int(first) >= len(node.args):
					self.bad(where, module, node, 'no value for field %s'
							% first)
					continue
				a = node.args[int(first)]
			elif first not in names:
				self.bad(where, module, node, 'no value for field %r' % first)
				continue
			else:
				a = [k.value for k in node.keywords if k.arg == first][0]
			if spec and spec[-1] in 'dfgeEGxXobn%' and field == first and (
					types.of(a) in ('str', 'none', 'tuple', 'list')):
				self.bad(where, module, node, '%r requires a number, not %s'
						% (spec, src(a)[:40]))
		if len(used) < len(node.args):
			self.bad(where, module, node, '%d values for %d fields' % (
					len(node.args), len(used)))

	def formatted(self, where, module, func, node):
		"""A value in an f-string."""
		self.res.count('conversions')
		spec = node.format_spec
		if spec is None or node.conversion != -1 or not isinstance(spec,
				ast.JoinedStr) or not spec.values or not isinstance(
				spec.values[-1], ast.Constant):
			return
		last = str(spec.values[-1].value)[-1:]
		t = Types(self.p, module, func).of(node.value)
		if last in set('dfgeEGxXobn%') and (t in ('str', 'none', 'tuple',
				'list')):
			self.bad(where, module, node, '%r requires a number, not %s' % (
					last, src(node.value)[:40]))

	def call(self, where, module, func, node):
		name = dotted(node.func)
		r = self.p.resolve_name(module, name, func) if name else None
		ext = r[1] if isinstance(r, tuple) and r[0] == 'ext' else name
		args = node.args
		if ext and ext.startswith('logging.') and ext[8:] in LOGGING and (
				args):
			if ext[8:] == 'log':
				args = args[1:]
			text = self.text(module, func, args[0]) if args else None
			if text is None or any(isinstance(a, ast.Starred) for a in args):
				return
			convs = conversions(text)
			self.res.count('formats')
			if len(args) == 1:
				if convs and all(a is None for a, _ in convs) and (
						plainconv(text, len(convs))):
					self.bad(where, module, node, 'no values for the message'
							' %r' % text[:50])
				return
			if convs is None or len(convs) != len(args) - 1 and not (
					len(args) == 2 and isinstance(args[1], ast.Dict)):
				self.bad(where, module, node, '%d values for the message %r'
						% (len(args) - 1, text[:50]))
				return
			types = Types(self.p, module, func)
			for (_, c), a in zip(convs, args[1:]):
				if c in NUM and types.of(a) not in ('num', None):
					self.bad(where, module, node, '%%%s requires a number, '
							'not %s' % (c, src(a)[:40]))
		elif ext in ('warnings.warn', 'print') and args or (ext is not None
				and not isinstance(r, Func) and ext.endswith('.write')
				and len(args) == 1):
			text = self.text(module, func, args[0])
			convs = conversions(text) if isinstance(text, str) else None
			if convs and (ext != 'print' or len(args) - 1 == len(convs)
					) and plainconv(text, len(convs)):
				self.bad(where, module, node, 'the message %r is not formatted'
						% text[:50])
		elif ext and isinstance(getattr(builtins, ext, None), type) and (
				issubclass(getattr(builtins, ext), Exception)) and len(
				args) > 1:
			text = self.text(module, func, args[0])
			convs = conversions(text) if text is not None else None
			if convs:
				self.bad(where, module, node, 'the message %r is not formatted'
						% text[:50])


def iterated(func, module, node):
	"""The iterable, if a name is the variable of an enclosing comprehension
	or loop, and not assigned elsewhere in it."""
	n, up = node, getattr(node, '_parent', None)
	while up is not None and not isinstance(up, (ast.FunctionDef,
			ast.Lambda, ast.Module)):
		gens = getattr(up, 'generators', ())
		if isinstance(up, ast.For) and n is not up.iter:
			if any(isinstance(a, ast.Name) and a.id == node.id and isinstance(
					a.ctx, ast.Store) for b in up.body for a in ast.walk(b)):
				return None
			gens = (up, )
		for g in reversed(gens):
			if any(isinstance(a, ast.Name) and a.id == node.id
					for a in ast.walk(g.target)):
				return g.iter if isinstance(g.target, ast.Name) else None
		n, up = up, getattr(up, '_parent', None)
	return None


def pairs(it):
	"""Length of the tuples that are the elements of an iterable."""
	if isinstance(it, ast.Call):
		name = dotted(it.func)
		last = (name or '').split('.')[-1] or getattr(it.func, 'attr', '')
		if name in ('sorted', 'list', 'iter', 'reversed', 'set', 'tuple'
				) or last == 'islice':
			return pairs(it.args[0]) if it.args else None
		if name == 'enumerate':
			return 2
		if name == 'zip' and it.args and not any(isinstance(a, ast.Starred)
				for a in it.args):
			return len(it.args)
		if isinstance(it.func, ast.Attribute) and it.func.attr in ('items',
				'most_common'):
			return 2
	return None


PLAIN = re.compile(r'%(?:\.?[0-9]+)?[sdrgf](?![A-Za-z])')


def plainconv(text, n):
	"""Whether all conversions are certainly meant as such (not: 5% done)."""
	return len(PLAIN.findall(text)) == n


def check(project, res, tier):
	res.rule('for each %-format, str.format(), and logging call with a known'
			' format: as many values as conversions, names that exist, and'
			' numbers for numeric conversions')
	c = Checker(project, res)
	for mod in project.modules.values():
		def visit(node, func):
			f = getattr(node, '_func', None) or func
			where = f.id if f is not None else mod.name
			if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Mod):
				c.percent(where, mod, f, node)
			elif isinstance(node, ast.Call):
				if isinstance(node.func, ast.Attribute) and (
						node.func.attr == 'format'):
					c.strformat(where, mod, f, node)
				c.call(where, mod, f, node)
			elif isinstance(node, ast.FormattedValue):
				c.formatted(where, mod, f, node)
			for ch in ast.iter_child_nodes(node):
				visit(ch, f)
		visit(mod.tree, None)
	res.require('formats', 250)
	res.require('conversions', 400)
