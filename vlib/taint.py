"""Forward propagation of tags through a function and its callees.

A value is a frozenset of tags (kind, location).  Tags are introduced by
``source``, removed by ``sanitize``, and flow through every operation that can
pass on (part of) the text of its operands.  Statements are executed in
order, branches are joined, loops repeated until nothing changes; calls of
functions in the repository are followed."""
import ast
import re
from .project import Func, Class, dotted

NONE = frozenset()
MUTATORS = {'append', 'add', 'extend', 'insert', 'update', 'setdefault',
		'appendleft', 'write', 'writelines', 'put'}
# results that do not contain text of the arguments
CLEAN = {'len', 'int', 'float', 'hash', 'isinstance', 'issubclass', 'bool',
		'round', 'abs', 'ord', 'id', 'range', 'callable', 'hasattr', 'any',
		'all', 'math.log', 'math.exp', 'print', 'sum'}
CLEANMETHODS = {'index', 'count', 'find', 'rfind', 'startswith', 'endswith',
		'isdigit', 'isalpha', 'isupper', 'islower', 'isspace', 'isalnum',
		'issubset', 'issuperset', 'isdisjoint', 'bit_length', 'hexdigest'}
FUNC = object()  # (FUNC, f) is a nested function f as value
CONV = re.compile(r'%(?:\((\w+)\))?[#0\- +]*(\*|\d+)?(?:\.(?:\*|\d+))?'
		r'[hlL]?([a-zA-Z%])')
NUMERIC = set('diouxXeEfFgGc')


class Taint:
	def __init__(self, project, source=None, sanitize=None, maxdepth=5,
			follow=None):
		"""
		:param source: function (frame, node) => tags or None, called on every
			Name, Attribute, Subscript, and Call.
		:param sanitize: function (frame, call, name, tags of arguments) =>
			tags or None.
		:param follow: restrict following calls to functions for which this
			returns True."""
		self.project, self.source = project, source
		self.sanitize, self.maxdepth = sanitize, maxdepth
		self.follow = follow
		self.stack = []
		self.frames = []
		self.closures = {}  # nested function -> Frame
		self.onexpr = None
		self.truth = lambda frame, test: None  # value of conditions, if known
		self.special = None  # (frame, node) => tags of expression or None
		self.refinehook = None  # (frame, test, value)
		self.unpack = None  # (frame, target, tags) => list of tags or None
		self.exc = None  # (frame, handler) => tags of exception
		self.keys = False  # keys of dictionaries count

	def run(self, func, args, selfattrs=None):
		"""Return (tags of result, frame)."""
		frame = Frame(self, func, None, 0)
		frame.env.update(args)
		if selfattrs:
			frame.env.update(selfattrs)
		return strip(frame.run()), frame


ESC = 'esc'  # (ESC, tag): text that was escaped
SEMI = 'semi'  # (SEMI, tag): escaped, except for quotes
ATTRIBUTE = re.compile(r'=\s*(?:"[^"<>]*|\'[^\'<>]*|[^\s"\'<>]*)\Z')


def escapetags(tags, node):
	"""Tags after escaping with a function like html.escape."""
	quote = True
	for k in node.keywords:
		if k.arg == 'quote' and isinstance(k.value, ast.Constant):
			quote = bool(k.value.value)
	if len(node.args) > 1 and isinstance(node.args[1], ast.Constant):
		quote = bool(node.args[1].value)
	return frozenset((ESC if quote and a[0] != SEMI else SEMI,
			a[1] if a[0] in (ESC, SEMI) else a) for a in tags
			if a[0] is not FUNC)


def reveal(tags, kinds=(ESC, SEMI)):
	"""Tags after escaping has been undone, or turns out insufficient."""
	return frozenset(a[1] if a[0] in kinds else a for a in tags)


def visible(tags):
	"""Tags of text that was not escaped."""
	return frozenset(a for a in tags if a[0] not in (ESC, SEMI)
			and a[0] is not FUNC)


def undoes(node):
	"""Whether x.replace('&lt;', '<') undoes escaping."""
	if node.func.attr != 'replace' or len(node.args) < 2:
		return False
	old, new = (a.value if isinstance(a, ast.Constant) else None
			for a in node.args[:2])
	return (isinstance(old, str) and '&' in old
			and not (isinstance(new, str) and not set(re.sub(r'&#?\w+;', '',
				new)) & set('&<>"\'')) and not (isinstance(new, str) and new.startswith(old)))


def strip(tags):
	"""Remove the tags that stand for functions."""
	if any(a[0] is FUNC for a in tags):
		return frozenset(a for a in tags if a[0] is not FUNC)
	return tags


class Frame:
	def __init__(self, engine, func, parent, depth):
		self.t, self.f, self.parent = engine, func, parent
		self.depth = depth
		self.env = {p: NONE for p in func.params}
		self.ret = NONE
		self.alias = {}  # name -> dotted name of container it was taken from
		self.dead = False
		self.brk = []
		self.defs = {}  # nested functions
		self.argtags = {}
		self.recursed = False  # called recursively
		self.recargs, self.recret = {}, NONE
		self.consts = {}  # parameters with a known value
		self.again = False

	def resolve(self, name):
		frame = self
		while frame is not None and name and '.' not in name:
			if name in frame.defs:
				return frame.defs[name]
			if name in frame.f.locals:
				break
			frame = frame.parent
		return self.t.project.resolve_name(self.f.module, name, self.f
				) if name else None

	def run(self):
		self.t.stack.append(self.f)
		self.t.frames.append(self)
		start = dict(self.env)
		try:
			for _ in range(6):
				if isinstance(self.f.node, ast.Lambda):
					self.ret = self.expr(self.f.node.body)
				else:
					self.block(self.f.node.body)
				if not self.recursed or (not self.again
						and self.ret <= self.recret and all(
						v <= start.get(k, NONE)
						for k, v in self.recargs.items())):
					break
				self.again = False
				# arguments and result of recursive calls
				for k, v in self.recargs.items():
					start[k] = start.get(k, NONE) | v
				self.recret |= self.ret
				for k, v in start.items():
					self.env[k] = self.env.get(k, NONE) | v
				self.dead = False
		finally:
			self.t.stack.pop()
			self.t.frames.pop()
		return self.ret

	def active(self, f):
		"""Innermost frame in which f is being analyzed."""
		for frame in reversed(self.t.frames):
			if frame.f is f:
				return frame
		return None

	# -- environment
	def lookup(self, name):
		frame = self
		while frame is not None:
			if name in frame.env:
				return frame.env[name]
			if name in frame.f.locals:
				return NONE
			frame = frame.parent
		return NONE

	def owner(self, name):
		base = name.split('.')[0]
		frame = self
		while frame is not None:
			if base in frame.env or base in frame.f.locals:
				return frame
			frame = frame.parent
		return self

	def add(self, name, tags):
		"""Weak update."""
		seen = set()
		while name and name not in seen:
			seen.add(name)
			frame = self.owner(name)
			frame.env[name] = frame.env.get(name, NONE) | tags
			name = frame.alias.get(name)

	def assign(self, target, tags, value=None, elem=False):
		if isinstance(target, ast.Name):
			frame = self
			if target.id not in self.f.locals:
				frame = self.owner(target.id)
			for k in [k for k in frame.env if k.startswith(
					target.id + '.')]:
				del frame.env[k]
			frame.env[target.id] = tags
			frame.alias.pop(target.id, None)
			if value is not None and not elem:
				base = value
				while isinstance(base, ast.Subscript):
					base = base.value
				name = dotted(base)
				if name and name != target.id and isinstance(value,
						(ast.Subscript, ast.Name, ast.Attribute)):
					frame.alias[target.id] = name
		elif isinstance(target, (ast.Tuple, ast.List)):
			vals = None
			if isinstance(value, (ast.Tuple, ast.List)) and len(
					value.elts) == len(target.elts) and not elem and not any(
					isinstance(a, ast.Starred)
					for a in value.elts + target.elts):
				vals = [self.expr(a) for a in value.elts]
			cols = self.t.unpack(self, target, tags) if (
					vals is None and self.t.unpack is not None) else None
			if cols is not None:
				for a, b in zip(target.elts, cols):
					self.assign(a, b, None, True)
				return
			for n, a in enumerate(target.elts):
				self.assign(a, tags if vals is None else vals[n],
						None if vals is None else value.elts[n], elem)
		elif isinstance(target, ast.Starred):
			self.assign(target.value, tags)
		elif isinstance(target, ast.Attribute):
			name = dotted(target)
			if name:
				self.owner(name).env[name] = tags
		elif isinstance(target, ast.Subscript):
			base = target.value
			while isinstance(base, ast.Subscript):
				base = base.value
			name = dotted(base)
			if self.t.keys:
				tags |= self.expr(target.slice)
			if name:
				self.add(name, tags)

	def snapshot(self):
		frame, res = self, []
		while frame is not None:
			res.append((frame, dict(frame.env)))
			frame = frame.parent
		return res

	def restore(self, snap):
		for frame, env in snap:
			frame.env = dict(env)

	def joinwith(self, snap):
		for frame, env in snap:
			for k, v in env.items():
				frame.env[k] = frame.env.get(k, NONE) | v

	# -- statements
	def block(self, body):
		for st in body:
			if self.dead:
				return
			self.stmt(st)

	def branch(self, *bodies, test=None):
		start = self.snapshot()
		outs = []
		alldead = True
		for body in bodies:
			self.restore(start)
			self.dead = False
			if test is not None:
				self.refine(test, body is bodies[0])
			self.block(body)
			if not self.dead:
				outs.append(self.snapshot())
				alldead = False
		self.dead = alldead
		if outs:
			self.restore(outs[0])
			for o in outs[1:]:
				self.joinwith(o)
		else:
			self.restore(start)

	def stmt(self, st):
		if isinstance(st, ast.Expr):
			self.expr(st.value)
		elif isinstance(st, ast.Assign):
			tags = self.expr(st.value)
			for t in st.targets:
				self.assign(t, tags, st.value)
		elif isinstance(st, ast.AnnAssign):
			if st.value is not None:
				self.assign(st.target, self.expr(st.value), st.value)
		elif isinstance(st, ast.AugAssign):
			tags = self.expr(st.value)
			old = self.expr(_load(st.target))
			if isinstance(st.target, ast.Subscript):
				self.assign(st.target, tags)
			else:
				self.assign(st.target, old | tags)
		elif isinstance(st, ast.Return):
			if st.value is not None:
				self.ret |= self.expr(st.value)
			self.dead = True
		elif isinstance(st, ast.Raise):
			self.dead = True
		elif isinstance(st, (ast.Break, ast.Continue)):
			if self.brk:
				self.brk[-1].append(self.snapshot())
			self.dead = True
		elif isinstance(st, ast.If):
			self.expr(st.test)
			t = self.truth(st.test)
			if t is None:
				self.branch(st.body, st.orelse, test=st.test)
			else:
				self.block(st.body if t else st.orelse)
		elif isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
			self.loop(st)
		elif isinstance(st, (ast.With, ast.AsyncWith)):
			for item in st.items:
				tags = self.expr(item.context_expr)
				if item.optional_vars is not None:
					self.assign(item.optional_vars, tags)
			self.block(st.body)
		elif isinstance(st, ast.Try):
			start = self.snapshot()
			self.block(st.body)
			dead = self.dead
			if not dead:
				self.block(st.orelse)
				dead = self.dead
			outs = [] if dead else [self.snapshot()]
			mid = self.snapshot()
			for h in st.handlers:
				self.restore(start)
				self.joinwith(mid)
				self.dead = False
				if h.name:
					self.env[h.name] = (NONE if self.t.exc is None
							else self.t.exc(self, h))
				self.block(h.body)
				if not self.dead:
					outs.append(self.snapshot())
			if outs:
				self.restore(outs[0])
				for o in outs[1:]:
					self.joinwith(o)
			else:
				self.restore(mid)
			self.dead = False
			self.block(st.finalbody)
			self.dead = self.dead or not outs
		elif isinstance(st, ast.Assert):
			self.expr(st.test)
		elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef,
				ast.ClassDef)):
			self.env.pop(st.name, None)
			f = getattr(st, '_func', None)
			if f is not None:
				self.defs[st.name] = f
				self.t.closures[f] = self
				self.env[st.name] = frozenset([(FUNC, f)])
		elif isinstance(st, ast.Delete):
			pass

	def loop(self, st):
		for _ in range(8):
			start = self.snapshot()
			self.brk.append([])
			if isinstance(st, ast.While):
				self.expr(st.test)
			else:
				tags = self.expr(st.iter)
				self.bindloop(st.target, st.iter, tags)
			self.block(st.body)
			brk = self.brk.pop()
			self.dead = False
			self.joinwith(start)
			for b in brk:
				self.joinwith(b)
			if [e for _, e in self.snapshot()] == [e for _, e in start]:
				break
		self.block(st.orelse)

	def bindloop(self, target, it, tags):
		"""Loop over zip() and enumerate() elementwise."""
		if isinstance(it, ast.Call) and isinstance(target, (ast.Tuple,
				ast.List)) and not it.keywords:
			name = dotted(it.func)
			if name == 'enumerate' and len(target.elts) == 2 and it.args:
				self.assign(target.elts[0], NONE)
				self.bindloop(target.elts[1], it.args[0],
						self.expr(it.args[0]))
				return
			if name in ('zip', 'izip', 'zip_longest') and len(it.args) == len(
					target.elts) and not any(isinstance(a, ast.Starred)
					for a in it.args):
				for t, a in zip(target.elts, it.args):
					self.bindloop(t, a, self.expr(a))
				return
		self.assign(target, tags, None, True)

	# -- expressions
	def expr(self, node):
		if node is None:
			return NONE
		if self.t.special is not None:
			res = self.t.special(self, node)
			if res is not None:
				if self.t.onexpr is not None:
					self.t.onexpr(self, node, strip(res))
				return res
		m = getattr(self, 'e_' + type(node).__name__, None)
		res = m(node) if m is not None else self.children(node)
		if self.t.source is not None and isinstance(node, (ast.Name,
				ast.Attribute, ast.Subscript, ast.Call)):
			extra = self.t.source(self, node)
			if extra is not None:
				res = res | extra
		if self.t.onexpr is not None:
			self.t.onexpr(self, node, strip(res))
		return res

	def children(self, node):
		res = NONE
		for ch in ast.iter_child_nodes(node):
			if isinstance(ch, ast.expr):
				res |= self.expr(ch)
		return res

	def e_Constant(self, node):
		return NONE

	def e_Name(self, node):
		return self.lookup(node.id)

	def e_Attribute(self, node):
		name = dotted(node)
		base = self.expr(node.value)
		if name:
			frame = self.owner(name)
			if name in frame.env:
				return frame.env[name]
		return base

	def e_Subscript(self, node):
		self.expr(node.slice)
		return self.expr(node.value)

	def e_Compare(self, node):
		self.children(node)
		return NONE

	def e_UnaryOp(self, node):
		tags = self.expr(node.operand)
		return NONE if isinstance(node.op, ast.Not) else tags

	def e_IfExp(self, node):
		self.expr(node.test)
		t = self.truth(node.test)
		if t is not None:
			return self.expr(node.body if t else node.orelse)
		res = NONE
		for branch, value in ((node.body, True), (node.orelse, False)):
			snap = self.snapshot()
			self.refine(node.test, value)
			res |= self.expr(branch)
			new = self.snapshot()
			self.restore(snap)
			self.joinwith(new)
		return res

	def truth(self, test):
		"""Value of a condition, if known."""
		res = self.t.truth(self, test)
		return consttruth(test, self.consts) if res is None else res

	def refine(self, test, value):
		"""A variable that is false does not contain text."""
		while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
			test, value = test.operand, not value
		if self.t.refinehook is not None:
			self.t.refinehook(self, test, value)
		if isinstance(test, ast.Compare) and len(test.ops) == 1 and (
				isinstance(test.comparators[0], ast.Constant)
				and test.comparators[0].value in (None, '')):
			if isinstance(test.ops[0], (ast.Is, ast.Eq)):
				value = not value
			elif not isinstance(test.ops[0], (ast.IsNot, ast.NotEq)):
				return
			test = test.left
		if not value and isinstance(test, ast.Name):
			if test.id in self.env:
				self.env[test.id] = NONE

	def e_BoolOp(self, node):
		# 'a and b' only yields a when it is empty
		res = NONE
		for a in node.values:
			tags = self.expr(a)
			if isinstance(node.op, ast.Or) or a is node.values[-1]:
				res |= tags
		return res

	def e_Lambda(self, node):
		f = self.nestedlambda(node)
		self.t.closures[f] = self
		return frozenset([(FUNC, f)])

	def e_Dict(self, node):
		res = NONE
		for k, v in zip(node.keys, node.values):
			res |= self.expr(k) | self.expr(v)
		return res

	def e_NamedExpr(self, node):
		tags = self.expr(node.value)
		self.assign(node.target, tags, node.value)
		return tags

	def e_Yield(self, node):
		self.ret |= self.expr(node.value)
		return NONE

	e_YieldFrom = e_Yield

	def comp(self, node, elts):
		saved = dict(self.env)
		for g in node.generators:
			tags = self.expr(g.iter)
			for n in ast.walk(g.target):
				if isinstance(n, ast.Name):
					self.env.setdefault(n.id, NONE)
			self.compbind(g.target, g.iter, tags)
			for c in g.ifs:
				self.expr(c)
		res = NONE
		for e in elts:
			res |= self.expr(e)
		names = {n.id for g in node.generators for n in ast.walk(g.target)
				if isinstance(n, ast.Name)}
		for n in names:
			if n in saved:
				self.env[n] = saved[n]
			else:
				self.env.pop(n, None)
		return res

	def compbind(self, target, it, tags):
		if isinstance(target, ast.Name):
			self.env[target.id] = tags
			return
		if isinstance(it, ast.Call) and isinstance(target, (ast.Tuple,
				ast.List)) and not it.keywords:
			name = dotted(it.func)
			if name == 'enumerate' and len(target.elts) == 2 and it.args:
				self.compbind(target.elts[0], None, NONE)
				self.compbind(target.elts[1], it.args[0],
						self.expr(it.args[0]))
				return
			if name in ('zip', 'izip', 'zip_longest') and len(it.args) == len(
					target.elts) and not any(isinstance(a, ast.Starred)
					for a in it.args):
				for t, a in zip(target.elts, it.args):
					self.compbind(t, a, self.expr(a))
				return
		if isinstance(target, (ast.Tuple, ast.List)):
			cols = (self.t.unpack(self, target, tags)
					if self.t.unpack is not None else None)
			for n, a in enumerate(target.elts):
				self.compbind(a, None, tags if cols is None else cols[n])
			return
		for n in ast.walk(target):
			if isinstance(n, ast.Name):
				self.env[n.id] = tags

	def e_ListComp(self, node):
		return self.comp(node, [node.elt])

	e_SetComp = e_GeneratorExp = e_ListComp

	def e_DictComp(self, node):
		return self.comp(node, [node.key, node.value])

	def e_JoinedStr(self, node):
		res = NONE
		prefix = ''
		for a in node.values:
			if isinstance(a, ast.FormattedValue):
				tags = self.expr(a.value)
				spec = a.format_spec
				if spec is not None and spec.values and isinstance(
						spec.values[-1], ast.Constant) and str(
						spec.values[-1].value)[-1:] in NUMERIC:
					tags = NONE
				res |= self.context(prefix, tags)
			elif isinstance(a, ast.Constant):
				prefix += str(a.value)
		return res

	@staticmethod
	def context(prefix, tags):
		"""Text with quotes is not safe as value of an attribute."""
		if any(a[0] == SEMI for a in tags) and ATTRIBUTE.search(prefix):
			return reveal(tags, (SEMI, ))
		return tags

	def e_BinOp(self, node):
		if isinstance(node.op, ast.Mod) and isinstance(node.left,
				ast.Constant) and isinstance(node.left.value, (str, bytes)):
			return self.percent(node)
		left, right = self.expr(node.left), self.expr(node.right)
		if isinstance(node.op, (ast.Add, ast.Mod, ast.BitOr, ast.BitAnd,
				ast.Sub, ast.Mult)):
			if isinstance(node.op, ast.Add):
				last = node.left
				while isinstance(last, ast.BinOp) and isinstance(
						last.op, ast.Add):
					last = last.right
				if isinstance(last, ast.Constant) and isinstance(
						last.value, str):
					right = self.context(last.value, right)
			return left | right
		return NONE

	def percent(self, node):
		text = node.left.value
		if isinstance(text, bytes):
			text = text.decode('latin1')
		convs = [m for m in CONV.finditer(text) if m.group(3) != '%']
		right = node.right
		if isinstance(right, ast.Tuple) and not any(isinstance(a, ast.Starred)
				for a in right.elts) and not any(
				m.group(1) for m in convs):
			slots = []
			for m in convs:
				slots.extend((('*', 0), ) * m.group(0).count('*'))
				slots.append((m.group(3), m.start()))
			if len(slots) == len(right.elts):
				res = NONE
				for (c, n), a in zip(slots, right.elts):
					tags = self.expr(a)
					if c not in NUMERIC and c != '*':
						res |= self.context(text[:n], tags)
				return res
		if isinstance(right, ast.Dict) and all(m.group(1) for m in convs):
			num = {}
			for m in convs:
				num.setdefault(m.group(1), set()).add(m.group(3))
			res = NONE
			for k, v in zip(right.keys, right.values):
				tags = self.expr(v)
				if not (isinstance(k, ast.Constant) and num.get(
						k.value, {'s'}) <= NUMERIC):
					res |= tags
			return res
		tags = self.expr(right)
		if convs and all(m.group(3) in NUMERIC for m in convs):
			return NONE
		for m in convs:
			tags = self.context(text[:m.start()], tags)
		return tags

	def e_Call(self, node):
		name = dotted(node.func)
		args = []
		for a in node.args:
			args.append(self.expr(a.value if isinstance(a, ast.Starred)
					else a))
		kw = {}
		for k in node.keywords:
			kw[k.arg] = kw.get(k.arg, NONE) | self.expr(k.value)
		for k in node.keywords:
			self.argtags[id(k.value)] = kw[k.arg]
		for a, tags in zip(node.args, args):
			self.argtags[id(a)] = tags
		every = NONE
		for a in args + list(kw.values()):
			every |= a
		if self.t.sanitize is not None:
			r = self.t.sanitize(self, node, name, strip(every))
			if r is not None:
				return r
		r = self.resolve(name)
		ext = r[1] if isinstance(r, tuple) and r[0] == 'ext' else None
		if ext in CLEAN or name in CLEAN:
			self.callbacks(node, every)
			return NONE
		if ext in ('map', 'itertools.starmap', 'imap') and node.args:
			f = node.args[0]
			rest = NONE
			for a in args[1:]:
				rest |= a
			fname = dotted(f)
			ename = self.resolve(fname)
			known = isinstance(f, ast.Lambda) or isinstance(ename, Func)
			if isinstance(ename, tuple) and ename[0] == 'ext' and (
					ename[1] in CLEAN):
				return NONE
			if self.t.sanitize is not None and fname:
				r = self.t.sanitize(self, node, fname, strip(rest))
				if r is not None:
					return r
			if known:
				return self.callbacks(node, rest)
			return rest
		recv = NONE
		bound = False
		if isinstance(node.func, ast.Attribute) and not isinstance(r, (
				Func, Class)) and ext is None:
			recv = self.expr(node.func.value)
			attr = node.func.attr
			if attr in CLEANMETHODS:
				return NONE
			cls = self.selfclass(node.func.value)
			if cls is not None and cls.find(attr) is not None:
				r, bound = cls.find(attr), True
			else:
				cb = self.callbacks(node, every | recv)
				if attr in MUTATORS:
					base = node.func.value
					while isinstance(base, (ast.Subscript, ast.Call)):
						base = base.value if isinstance(base, ast.Subscript
								) else base.func
					bname = dotted(base)
					if bname:
						self.add(bname, every | cb)
					if attr not in ('setdefault', ):
						return NONE
				if any(a[0] in (ESC, SEMI) for a in recv) and undoes(node):
					recv = reveal(recv)
				if attr == 'get' and node.args:
					return recv | (args[1] if len(args) > 1 else NONE) | cb
				if attr in ('center', 'ljust', 'rjust', 'zfill'):
					return recv | (args[1] if len(args) > 1 else NONE)
				if attr == 'format':
					return self.format(node, args, kw, recv)
				return every | recv | cb
		elif isinstance(node.func, ast.Attribute) and isinstance(r, Func) and (
				r.is_method and r.cls is not None):
			bound = False  # Class.method(obj)
		if isinstance(r, Class):
			init = r.find('__init__')
			if init is not None and self.ok(init):
				self.follow(init, node, args, kw, True, node)
			return every | self.callbacks(node, every)
		if isinstance(r, Func) and (self.ok(r) or self.active(r)):
			return self.follow(r, node, args, kw, bound and r.is_method, node)
		# unknown function, or a variable that holds one
		if not name or '.' not in name:
			recv |= self.expr(node.func)
		funcs = [a[1] for a in recv if a[0] is FUNC]
		if funcs:
			recv = strip(recv)
			for f in funcs:
				if self.ok(f):
					recv |= self.invoke(f, every)
			return recv | self.callbacks(node, every)
		return every | recv | self.callbacks(node, every)

	def invoke(self, f, tags):
		frame = Frame(self.t, f, self.nestparent(f) or self.t.closures.get(f),
				self.depth + 1)
		for p in f.params:
			frame.env[p] = tags
		for p, d in f.defaults.items():
			frame.env[p] = self.expr(d)
		return frame.run()

	def ok(self, f):
		return (f.node is not None and f not in self.t.stack
				and self.depth < self.t.maxdepth
				and (self.t.follow is None or self.t.follow(f)))

	def selfclass(self, node):
		"""Class of receiver if it is self."""
		if not isinstance(node, ast.Name):
			return None
		frame = self
		while frame is not None:
			f = frame.f
			if f.cls is not None and f.posparams and (
					node.id == f.posparams[0]) and f.is_method:
				return f.cls
			if node.id in frame.f.locals:
				return None
			frame = frame.parent
		return None

	def format(self, node, args, kw, recv):
		res = recv
		text = node.func.value.value if isinstance(node.func.value,
				ast.Constant) else None
		num = set()
		if isinstance(text, str):
			for m in re.finditer(r'\{(\w*)[^{}:]*:([^{}]*)\}', text):
				if m.group(2)[-1:] in NUMERIC:
					num.add(m.group(1))
		attrs = set()
		auto = 0
		for m in re.finditer(r'\{(\w*)[^{}]*\}', text or ''):
			if ATTRIBUTE.search(text[:m.start()]):
				attrs.add(m.group(1) or str(auto))
			auto += not m.group(1)
		for n, a in enumerate(args):
			if str(n) not in num:
				res |= reveal(a, (SEMI, )) if str(n) in attrs else a
		for k, v in kw.items():
			if k not in num:
				res |= reveal(v, (SEMI, )) if k in attrs else v
		return res

	def callbacks(self, node, tags):
		"""Functions passed as arguments may be called with other args."""
		res = NONE
		tags = strip(tags)
		for a in list(node.args) + [k.value for k in node.keywords]:
			f = None
			if not isinstance(a, (ast.Lambda, ast.Constant)):
				known = self.resolve(dotted(a)) if dotted(a) else None
				for b in self.argtags.get(id(a), ()) if not isinstance(
						known, Func) else ():
					if b[0] is FUNC and self.ok(b[1]):
						res |= self.invoke(b[1], tags)
			if isinstance(a, ast.Lambda):
				f = self.nestedlambda(a)
			elif isinstance(a, (ast.Name, ast.Attribute)) and dotted(a):
				r = self.resolve(dotted(a))
				if isinstance(r, Func):
					f = r
				elif self.t.sanitize is not None:
					s = self.t.sanitize(self, node, dotted(a), strip(tags))
					if s is not None:
						res |= s
						continue
			if f is not None and self.t.sanitize is not None and not (
					isinstance(a, ast.Lambda)):
				s = self.t.sanitize(self, node, dotted(a), strip(tags))
				if s is not None:
					res |= s
					continue
			if f is not None and self.ok(f):
				res |= self.invoke(f, tags)
		return res

	def nestedlambda(self, node):
		cache = self.t.__dict__.setdefault('lambdas', {})
		if node not in cache:
			cache[node] = Func(self.f.module, node, self.f.qual
					+ '.<lambda>', None, self.f)
		return cache[node]

	def nestparent(self, f):
		"""Frame for free variables of a nested function."""
		frame = self
		while frame is not None:
			if f.parent is frame.f:
				return frame
			frame = frame.parent
		return None

	def follow(self, f, node, args, kw, bound, call):
		frame = Frame(self.t, f, self.nestparent(f), self.depth + 1)
		pos = list(f.posparams)
		binding = {}
		if f.is_method and pos and (bound or isinstance(
				self.resolve(dotted(call.func)), Class)):
			me = pos.pop(0)
			if bound and isinstance(call.func, ast.Attribute):
				base = dotted(call.func.value)
				frame.env[me] = self.expr(call.func.value)
				if base:
					o = self.owner(base)
					for k, v in o.env.items():
						if k.startswith(base + '.'):
							frame.env[me + k[len(base):]] = v
					binding[me] = base
		given = dict(f.defaults)
		if not any(isinstance(a, ast.Starred) for a in call.args) and all(
				k.arg for k in call.keywords):
			given.update(zip(pos, call.args))
			given.update((k.arg, k.value) for k in call.keywords)
			frame.consts = {p: d.value for p, d in given.items()
					if isinstance(d, ast.Constant) and p in f.params
					and not self.rebound(f, p)}
		for p, d in f.defaults.items():
			frame.env[p] = NONE if isinstance(d, ast.Constant) else (
					Frame(self.t, f, None, self.depth + 1).expr(d)
					if not isinstance(d, ast.Lambda) else NONE)
		for n, (a, tags) in enumerate(zip(call.args, args)):
			if isinstance(a, ast.Starred):
				for p in pos[n:]:
					frame.env[p] = frame.env.get(p, NONE) | tags
				if f.vararg:
					frame.env[f.vararg] = tags
				break
			if n < len(pos):
				frame.env[pos[n]] = tags
				if dotted(a):
					binding[pos[n]] = dotted(a)
			elif f.vararg:
				frame.env[f.vararg] = frame.env.get(f.vararg, NONE) | tags
		for k in call.keywords:
			if k.arg is None:
				for p in f.params:
					frame.env[p] = frame.env.get(p, NONE) | kw[None]
			elif k.arg in f.params:
				frame.env[k.arg] = kw[k.arg]
				if dotted(k.value):
					binding[k.arg] = dotted(k.value)
			elif f.kwarg:
				frame.env[f.kwarg] = frame.env.get(f.kwarg, NONE) | kw[k.arg]
		active = self.active(f)
		if active is not None:
			active.recursed = True
			for p in [p for p, v in active.consts.items()
					if p not in frame.consts or frame.consts[p] != v]:
				del active.consts[p]
				active.again = True
			for p in f.params:
				active.recargs[p] = active.recargs.get(p, NONE) | (
						frame.env.get(p, NONE))
			return active.recret
		# functions passed as argument: assume called on everything
		start = dict(frame.env)
		res = frame.run()
		every = NONE
		for v in start.values():
			every |= v
		res |= self.callbacks(node, every)
		# mutation of containers that were passed
		for p, base in binding.items():
			for k, v in frame.env.items():
				if (k == p or k.startswith(p + '.')) and v - start.get(
						k, NONE) and not self.rebound(f, p):
					self.add(base + k[len(p):], v - start.get(k, NONE))
		return res

	@staticmethod
	def rebound(f, p):
		return any(isinstance(n, ast.Name) and n.id == p and isinstance(
				n.ctx, ast.Store) for n in ast.walk(f.node))


def consttruth(node, consts):
	"""Value of a condition on parameters with known values."""
	if isinstance(node, ast.Name) and node.id in consts:
		return bool(consts[node.id])
	if isinstance(node, ast.Constant):
		return bool(node.value)
	if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
		v = consttruth(node.operand, consts)
		return None if v is None else not v
	if isinstance(node, ast.BoolOp):
		vals = [consttruth(a, consts) for a in node.values]
		if isinstance(node.op, ast.And):
			return False if False in vals else None if None in vals else True
		return True if True in vals else None if None in vals else False
	if isinstance(node, ast.Compare) and len(node.ops) == 1 and isinstance(
			node.left, ast.Name) and node.left.id in consts and isinstance(
			node.comparators[0], ast.Constant):
		eq = consts[node.left.id] == node.comparators[0].value
		if isinstance(node.ops[0], (ast.Is, ast.Eq)):
			return eq
		if isinstance(node.ops[0], (ast.IsNot, ast.NotEq)):
			return not eq
	return None


def _load(node):
	new = ast.parse(ast.unparse(node), mode='eval').body
	return ast.copy_location(new, node)
