"""Regular expressions: valid, groups exist and are guarded, no blow-up."""
import ast
import glob
import os
import re
from ..project import REPO, Func, dotted, own_nodes, src
from ..constprop import Interp, Frame, _Mod, TOP
from ..flow import Flow
from .. import regex

TITLE = 'regular expressions and the groups they match'
METHODS = {'match', 'search', 'fullmatch', 'finditer', 'sub', 'subn',
		'findall', 'split', 'scanner'}
# methods of match objects
MATCHM = {'group', 'groups', 'groupdict', 'start', 'end', 'span', 'expand'}
SAFE = {'str', 'repr', 'print', 'bool', 'isinstance', 'type', 'format'}


class Patterns:
	"""Resolves expressions to patterns."""
	def __init__(self, project, res):
		self.p, self.res = project, res
		self.interp = Interp(project)
		self.cache = {}
		self.pyx = None
		self.all = {}  # (text, flags) -> (Pattern, loc)

	def const(self, module, func, node):
		"""Value of a string expression or None."""
		if isinstance(node, ast.Constant) and isinstance(node.value,
				(str, bytes)):
			return node.value
		if isinstance(node, ast.Name) and (func is None
				or node.id not in func.locals):
			v = Frame(self.interp, _Mod(module), 0).glob(module, node.id)
			if v[0] == 'const' and isinstance(v[1], (str, bytes)):
				return v[1]
			return None
		if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
			a = self.const(module, func, node.left)
			b = self.const(module, func, node.right)
			if a is not None and type(a) is type(b):
				return a + b
		if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Mod):
			a = self.const(module, func, node.left)
			vals = (node.right.elts if isinstance(node.right, ast.Tuple)
					else [node.right])
			vals = [self.const(module, func, b) for b in vals]
			if a is not None and None not in vals:
				try:
					return a % tuple(vals)
				except (TypeError, ValueError):
					return None
		if isinstance(node, ast.Call) and isinstance(node.func,
				ast.Attribute) and node.func.attr == 'join' and len(
				node.args) == 1:
			sep = self.const(module, func, node.func.value)
			v = Frame(self.interp, _Mod(module), 0).expr(node.args[0], {}
					) if not isinstance(node.args[0], ast.Name) or (
					func is None or node.args[0].id not in func.locals
					) else TOP
			if sep is not None and v and v[0] == 'seq' and all(
					a[0] == 'const' for a in v[1]):
				return sep.join(a[1] for a in v[1])
		if isinstance(node, ast.JoinedStr):
			out = []
			for a in node.values:
				if isinstance(a, ast.Constant):
					out.append(a.value)
				else:
					v = self.const(module, func, a.value)
					if v is None or a.format_spec or a.conversion != -1:
						return None
					out.append(v)
			return ''.join(out)
		return None

	def flags(self, nodes):
		val = 0
		for node in nodes:
			for n in ast.walk(node):
				if isinstance(n, ast.Attribute):
					f = getattr(re, n.attr, None)
					if isinstance(f, re.RegexFlag):
						val |= int(f)
		return val

	def make(self, text, flags, loc):
		key = (text, flags)
		if key not in self.all:
			self.all[key] = (regex.Pattern(text, flags), loc)
		return self.all[key][0]

	def compiled(self, module, func, call):
		"""Pattern of a re.xxx(...) call or None."""
		if not isinstance(call, ast.Call) or not call.args:
			return None
		name = dotted(call.func)
		r = self.p.resolve_name(module, name, func) if name else None
		if not (isinstance(r, tuple) and r[0] == 'ext'
				and r[1].startswith('re.')):
			return None
		fn = r[1][3:]
		if fn not in METHODS and fn != 'compile':
			return None
		text = self.const(module, func, call.args[0])
		if text is None:
			return None
		pos = {'compile': 1, 'sub': 4, 'subn': 4, 'split': 3}.get(fn, 2)
		nodes = call.args[pos:pos + 1] + [k.value for k in call.keywords
				if k.arg == 'flags']
		return self.make(text, self.flags(nodes), '%s:%d' % (
				module.relpath, call.lineno))

	def glob(self, module, name, depth=0):
		"""Pattern bound to a module level name."""
		key = (module.name, name)
		if key in self.cache:
			return self.cache[key]
		self.cache[key] = None
		imp = module.imports.get(name)
		if imp is not None and imp[0] == 'attr' and depth < 5:
			mod = self.p.modules.get(imp[1])
			if mod is not None:
				self.cache[key] = self.glob(mod, imp[2], depth + 1)
			elif imp[1] in self.p.modules or True:
				self.cache[key] = self.pyxglob(imp[1], imp[2])
		else:
			defs = module.globals.get(name, [])
			if len(defs) == 1 and isinstance(defs[0], ast.Call):
				self.cache[key] = self.compiled(module, None, defs[0])
		return self.cache[key]

	def globdict(self, module, name, depth=0):
		"""Patterns in a dictionary or sequence bound to a module level name.
		"""
		key = (module.name, name, 'dict')
		if key in self.cache:
			return self.cache[key]
		self.cache[key] = None
		imp = module.imports.get(name)
		defs = module.globals.get(name, [])
		if imp is not None and imp[0] == 'attr' and depth < 5:
			mod = self.p.modules.get(imp[1])
			if mod is not None:
				self.cache[key] = self.globdict(mod, imp[2], depth + 1)
		elif len(defs) == 1 and isinstance(defs[0], (ast.Dict, ast.Tuple,
				ast.List)):
			vals = (defs[0].values if isinstance(defs[0], ast.Dict)
					else defs[0].elts)
			pats = [self.compiled(module, None, a) for a in vals]
			if pats and None not in pats:
				self.cache[key] = frozenset(pats)
		return self.cache[key]

	def pyxglob(self, modname, name):
		"""Look for a module level pattern in the Cython sources."""
		if self.pyx is None:
			self.pyx = {}
			for fn in sorted(glob.glob(os.path.join(REPO, 'discodop',
					'*.py[x]')) + glob.glob(os.path.join(REPO, 'discodop',
					'*.pxi'))):
				with open(fn, encoding='utf8') as inp:
					lines = inp.read().splitlines()
				for n, line in enumerate(lines):
					m = re.match(r'(\w+) = re\.compile\(', line)
					for k in range(1, 8) if m else ():
						try:
							tree = ast.parse('\n'.join(lines[n:n + k]))
						except SyntaxError:
							continue
						self.pyx.setdefault(m.group(1), []).append((
								tree.body[0].value, os.path.relpath(fn, REPO),
								n + 1))
						break
		files = {modname.replace('.', '/') + '.pyx'}
		try:
			with open(os.path.join(REPO, min(files)), encoding='utf8') as inp:
				files |= {'discodop/' + a for a in re.findall(
						r'^include "(.*)"', inp.read(), re.MULTILINE)}
		except OSError:
			return None
		found = [a for a in self.pyx.get(name, ()) if a[1] in files]
		if len(found) != 1:
			return None
		call, fn, line = found[0]
		text = call.args[0] if call.args else None
		try:
			text = ast.literal_eval(text)
		except ValueError:
			return None
		return self.make(text, self.flags(call.args[1:] + [k.value
				for k in call.keywords]), '%s:%d' % (fn, line))


class State:
	def __init__(self, vals=None, nn=frozenset()):
		self.vals = dict(vals or {})
		self.nn = nn


class RxFlow(Flow):
	"""vals: variable -> abstract value; nn: expressions that are not None.

	Values: ('pat', pats), ('match', pats, how), ('matches', pats),
	('group', pats, groups), ('tuple', values), None if unknown."""
	track_facts = False

	def __init__(self, checker, func, params=None, outer=None):
		super().__init__(func)
		self.c, self.params = checker, params or {}
		self.outer = outer
		self.guarded = 0
		self.guards = {id(x) for t in own_nodes(func.node)
				if isinstance(t, ast.Try) and any(h.type is None
				or any(a in src(h.type) for a in ('AttributeError',
				'TypeError', 'Exception')) for h in t.handlers)
				for b in t.body for x in ast.walk(b)}

	def init(self):
		return State({p: v for p, v in self.params.items()})

	def copy(self, d):
		return State(d.vals, d.nn)

	def join(self, a, b):
		vals = {}
		for k in a.vals.keys() & b.vals.keys():
			v, w = a.vals[k], b.vals[k]
			if v != w and (v[0] == 'none' and k in b.nn
					or w[0] == 'none' and k in a.nn):
				continue  # None on another path; correlation is not known
			v = joinval(v, w)
			if v is not None:
				vals[k] = v
		nn = a.nn & b.nn
		return State(vals, nn)

	def equal(self, a, b):
		return a.vals == b.vals and a.nn == b.nn

	# -- bindings
	def on_assign(self, target, value, d, stmt):
		if isinstance(value, ast.AugAssign):
			v = None
		elif isinstance(stmt, (ast.For, ast.AsyncFor)) and value is None:
			v = self.element(stmt.iter, d)
		else:
			v = self.value(value, d) if value is not None else None
		return self.bind(target, v, d)

	def bind(self, target, v, d):
		if isinstance(target, ast.Name):
			self.kill1(d, target.id)
			if v is not None:
				if v[0] == 'nn':
					d.nn |= {target.id}
					v = v[1]
				if v is not None:
					d.vals[target.id] = v
		elif isinstance(target, (ast.Tuple, ast.List)):
			vals = [None] * len(target.elts)
			if v is not None and v[0] == 'groups':
				n = {p.groups for p in v[1]}
				if not any(isinstance(a, ast.Starred) for a in target.elts):
					if len(n) == 1 and n != {len(target.elts)}:
						self.c.bad('groups', self.func, target, '%d values '
								'are unpacked from a match of %r, which has '
								'%d groups' % (len(target.elts),
								next(iter(v[1])).text, min(n)))
					vals = [('group', v[1], (i + 1, ))
							for i in range(len(target.elts))]
			elif v is not None and v[0] == 'tuple' and len(v[1]) == len(
					target.elts):
				vals = v[1]
			for a, b in zip(target.elts, vals):
				self.bind(a, b, d)
		elif isinstance(target, ast.Starred):
			self.bind(target.value, None, d)
		elif isinstance(target, (ast.Attribute, ast.Subscript)):
			if isinstance(target, ast.Subscript):
				self.use(target.slice, target, d, 'used as key')
			key = src(target)
			d.nn = frozenset(k for k in d.nn if key not in k)
		return d

	def kill1(self, d, name):
		d.vals.pop(name, None)
		rx = re.compile(r'\b%s\b' % re.escape(name))
		d.nn = frozenset(k for k in d.nn if not rx.search(k))

	def on_delete(self, target, d):
		for n in ast.walk(target):
			if isinstance(n, ast.Name):
				self.kill1(d, n.id)
		return d

	# -- values
	def lookup(self, name, d):
		if name in d.vals:
			return d.vals[name]
		if name in self.func.locals:
			imp = self.c.p._local_import(self.func, name)
			if imp is not None and imp[0] == 'attr':
				mod = self.c.p.modules.get(imp[1])
				p = (self.c.pats.glob(mod, imp[2]) if mod is not None
						else self.c.pats.pyxglob(imp[1], imp[2]))
				if p is not None:
					return ('pat', frozenset([p]))
			return None
		if self.outer is not None and name in self.outer:
			return self.outer[name]
		p = self.c.pats.glob(self.func.module, name)
		return ('pat', frozenset([p])) if p is not None else None

	def value(self, node, d):
		if isinstance(node, ast.Name):
			v = self.lookup(node.id, d)
			if v is not None and node.id in d.nn:
				return ('nn', v)
			return v
		if isinstance(node, ast.Constant):
			return ('none', ) if node.value is None else None
		if isinstance(node, (ast.Tuple, ast.List)):
			vals = [self.value(a, d) for a in node.elts]
			return ('tuple', tuple(vals)) if any(vals) else None
		if isinstance(node, ast.NamedExpr):
			return self.value(node.value, d)
		if isinstance(node, ast.IfExp):
			a, b = self.value(node.body, d), self.value(node.orelse, d)
			return joinval(a, b)
		if isinstance(node, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
			e = self.copy(d)
			for g in node.generators:
				self.bind(g.target, self.element(g.iter, e), e)
				for c in g.ifs:
					e.nn |= self.implied(c, True, e)
			v = self.value(node.elt, e)
			if v is not None and isinstance(node.elt, ast.Name) and (
					node.elt.id in e.nn):
				v = ('nn', strip(v))
			return ('seq', v) if v is not None else None
		if isinstance(node, ast.BoolOp) and isinstance(node.op, ast.Or):
			vals = [self.value(a, d) for a in node.values]
			groups = ()
			pats = None
			for a, v in zip(node.values, vals):
				v = strip(v)
				if v is None or v[0] != 'group' or pats not in (None, v[1]):
					return None
				if src(a.func.value if isinstance(a, ast.Call) else a) != (
						src(node.values[0].func.value
						if isinstance(node.values[0], ast.Call)
						else node.values[0])):
					return None
				pats = v[1]
				groups += v[2]
			return ('group', pats, groups)
		if isinstance(node, ast.Subscript):
			v = strip(self.value(node.value, d))
			if v is not None and v[0] == 'match' and isinstance(
					node.slice, ast.Constant):
				return self.group(v, [node.slice], node, d)
			if v is not None and v[0] == 'tuple' and isinstance(node.slice,
					ast.Constant) and isinstance(node.slice.value, int) and (
					-len(v[1]) <= node.slice.value < len(v[1])):
				return v[1][node.slice.value]
			if v is not None and v[0] == 'seq':
				return v[1]
			if isinstance(node.value, ast.Name) and (
					node.value.id not in self.func.locals):
				pats = self.c.pats.globdict(self.func.module, node.value.id)
				if pats:
					return ('pat', pats)
			return None
		if not isinstance(node, ast.Call):
			return None
		# calls
		fn = node.func
		p = self.c.pats.compiled(self.func.module, self.func, node)
		name = dotted(fn)
		r = self.c.p.resolve_name(self.func.module, name, self.func
				) if name else None
		isre = isinstance(r, tuple) and r[0] == 'ext' and r[1].startswith(
				're.')
		if p is not None and isre:
			meth = r[1][3:]
			pats = frozenset([p])
			if meth == 'compile':
				return ('pat', pats)
			return self.result(meth, pats)
		if isinstance(fn, ast.Attribute):
			v = strip(self.value(fn.value, d))
			if v is None:
				return None
			if v[0] == 'pat' and fn.attr in METHODS:
				return self.result(fn.attr, v[1])
			if v[0] == 'match':
				if fn.attr == 'group':
					return self.group(v, node.args, node, d)
				if fn.attr == 'groups' and not node.args and (
						not node.keywords):
					return ('groups', v[1])
		if isinstance(r, tuple) and r[0] == 'ext' and r[1] in ('list',
				'tuple', 'sorted', 'iter', 'reversed', 'set') and (
				len(node.args) == 1):
			return self.value(node.args[0], d)
		if isinstance(r, tuple) and r[0] == 'ext' and r[1] == 'next' and (
				len(node.args) == 1):
			return self.element(node.args[0], d)
		return None

	def result(self, meth, pats):
		if meth in ('match', 'search') and all(p.error is None
				and p.nullable() for p in pats):
			return ('nn', ('match', pats))
		if meth in ('match', 'search', 'fullmatch'):
			return ('match', pats)
		if meth == 'finditer':
			return ('seq', ('nn', ('match', pats)))
		return None

	def group(self, v, args, node, d):
		if len(args) == 0:
			return None
		vals = []
		for a in args:
			if not isinstance(a, ast.Constant) or not isinstance(a.value,
					(str, int)):
				vals.append(None)
				continue
			bad = [p for p in v[1] if p.error is None
					and not p.hasgroup(a.value)]
			if bad:
				self.c.bad('no-group', self.func, node, 'group %r does not'
						' exist in the pattern %r' % (a.value, bad[0].text))
				vals.append(None)
			else:
				self.c.seen(node)
				vals.append(('group', v[1], (a.value, )))
		return vals[0] if len(vals) == 1 else ('tuple', tuple(vals))

	def element(self, it, d):
		v = strip(self.value(it, d))
		if v is not None and v[0] == 'seq':
			return v[1]
		if isinstance(it, ast.Call) and dotted(it.func) == 'enumerate' and (
				it.args):
			e = self.element(it.args[0], d)
			return ('tuple', (None, e)) if e is not None else None
		if isinstance(it, ast.Call) and dotted(it.func) == 'zip':
			es = tuple(self.element(a, d) for a in it.args)
			return ('tuple', es) if any(es) else None
		return None

	# -- conditions
	def implied(self, test, truth, d):
		"""Expressions known not to be None when test has this value."""
		if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
			return self.implied(test.operand, not truth, d)
		if isinstance(test, ast.BoolOp):
			isand = isinstance(test.op, ast.And)
			parts = [self.implied(a, truth, d) for a in test.values]
			if isand == truth:
				return frozenset().union(*parts)
			res = parts[0]
			for p in parts[1:]:
				res = res & p
			return res
		if isinstance(test, ast.NamedExpr):
			return (frozenset([test.target.id]) if truth else frozenset()
					) | self.implied(test.value, truth, d)
		if isinstance(test, ast.Compare) and len(test.ops) == 1:
			op, right = test.ops[0], test.comparators[0]
			left = test.left
			if isinstance(left, ast.NamedExpr):
				left = left.target
			if isinstance(right, ast.Constant) and right.value is None:
				if isinstance(op, (ast.Is, ast.Eq)):
					truth = not truth
				elif not isinstance(op, (ast.IsNot, ast.NotEq)):
					return frozenset()
				res = self.correlated(left, truth, d)
				return res if truth else res | {'!' + src(left)}
			if isinstance(op, (ast.Eq, ast.In)) and truth and not (
					isinstance(right, ast.Name)):
				return frozenset([src(left)])
			return frozenset()
		if isinstance(test, ast.Call) and dotted(test.func) == 'isinstance' \
				and truth and test.args:
			return frozenset([src(test.args[0])])
		return self.correlated(test, truth, d)

	def correlated(self, node, truth, d):
		"""node is (not) None: also other groups of the match."""
		res = {src(node)} if truth else set()
		v = strip(self.value(node, d)) if not truth else None
		if v is not None and v[0] == 'group' and len(v[2]) == 1 and all(
				p.error is None and p.hasgroup(v[2][0])
				and p.index(v[2][0]) and not regex.nullable(regex.subtree(
				p.tree, p.index(v[2][0])) or ()) for p in v[1]):
			res.add('!' + src(node))  # false, but not empty
		if isinstance(node, ast.Call) and isinstance(node.func,
				ast.Attribute) and node.func.attr == 'group' and len(
				node.args) == 1 and isinstance(node.args[0], ast.Constant):
			v = strip(self.value(node.func.value, d))
			base = src(node.func.value)
			if v is not None and v[0] == 'match':
				res.add(base)
				if truth:
					res.add(src(node))
		return frozenset(res)

	def on_branch(self, test, truth, d):
		d.nn |= self.implied(test, truth, d)
		return d

	def on_iter(self, st, d):
		return d

	# -- uses
	def on_expr(self, node, d):
		self.visit(node, d)
		return d

	def maybenone(self, node, d):
		"""Description if the value of node may be None."""
		v = self.value(node, d)
		if v is None or v[0] == 'nn' or src(node) in d.nn:
			return None
		if v[0] == 'match':
			return 'the match of %s' % short(min(v[1], key=repr))
		if v[0] == 'group':
			present, absent = self.facts(node, d)
			for p in v[1]:
				if p.error is None and all(p.hasgroup(g) for g in v[2]) and (
						p.canavoid(v[2], filter(p.hasgroup, present),
						filter(p.hasgroup, absent))):
					if isinstance(node, ast.BoolOp) and any(src(a) in d.nn
							for a in node.values):
						return None
					return 'group %s of %s' % (' or '.join(repr(g)
							for g in v[2]), short(p))
		return None

	def facts(self, node, d):
		"""Groups of the same match known to participate or not."""
		present, absent = set(), set()
		if isinstance(node, ast.BoolOp):
			node = node.values[0]
		if isinstance(node, ast.Call) and isinstance(node.func,
				ast.Attribute):
			base = src(node.func.value)
		elif isinstance(node, ast.Subscript):
			base = src(node.value)
		else:
			return present, absent
		for k in d.nn:
			for pre, post in ((base + '.group(', ')'), (base + '[', ']')):
				if k.lstrip('!').startswith(pre) and k.endswith(post):
					try:
						g = ast.literal_eval(k.lstrip('!')[len(pre):-1])
					except (ValueError, SyntaxError):
						continue
					if isinstance(g, (str, int)):
						(absent if k.startswith('!') else present).add(g)
		return present, absent

	def use(self, node, ctx, d, what):
		if isinstance(node, ast.IfExp) and strip(self.value(node, d)) is None:
			for br, truth in ((node.body, True), (node.orelse, False)):
				e = self.copy(d)
				self.walrus(node.test, e)
				e.nn |= self.implied(node.test, truth, e)
				self.use(br, br, e, what)
			return
		v = strip(self.value(node, d))
		if v is None or v[0] not in ('match', 'group'):
			return
		self.c.obligation(ctx)
		if id(ctx) in self.guards:
			return
		msg = self.maybenone(node, d)
		if msg:
			self.c.bad('none', self.func, ctx, '%s may be None when %s is '
					'%s' % (msg, src(node), what))

	def visit(self, node, d):
		if node is None:
			return
		if isinstance(node, ast.BoolOp):
			e = self.copy(d)
			for a in node.values:
				self.visit(a, e)
				self.walrus(a, e)
				e.nn |= self.implied(a, isinstance(node.op, ast.And), e)
			return
		if isinstance(node, ast.IfExp):
			self.visit(node.test, d)
			for br, truth in ((node.body, True), (node.orelse, False)):
				e = self.copy(d)
				self.walrus(node.test, e)
				e.nn |= self.implied(node.test, truth, e)
				self.visit(br, e)
			return
		if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
				ast.DictComp)):
			e = self.copy(d)
			for g in node.generators:
				self.visit(g.iter, e)
				self.bind(g.target, self.element(g.iter, e), e)
				for c in g.ifs:
					self.visit(c, e)
					self.walrus(c, e)
					e.nn |= self.implied(c, True, e)
			if isinstance(node, ast.DictComp):
				self.visit(node.key, e)
				self.visit(node.value, e)
			else:
				self.visit(node.elt, e)
			return
		if isinstance(node, ast.Lambda):
			return  # analysed as a function
		if isinstance(node, ast.NamedExpr):
			self.visit(node.value, d)
			return
		if isinstance(node, ast.Attribute):
			self.use(node.value, node, d, 'dereferenced')
		elif isinstance(node, ast.Subscript):
			if isinstance(node.ctx, ast.Load):
				self.use(node.value, node, d, 'indexed')
				self.use(node.slice, node, d, 'used as key')
				self.value(node, d)
		elif isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
			self.use(node.left, node, d, 'concatenated')
			self.use(node.right, node, d, 'concatenated')
		elif isinstance(node, ast.BinOp) and isinstance(node.op, ast.Mod
				) and isinstance(node.left, ast.Constant):
			for a in (node.right.elts if isinstance(node.right, ast.Tuple)
					else [node.right]):
				self.use(a, node, d, 'formatted')
		elif isinstance(node, ast.FormattedValue) and node.conversion == -1:
			self.use(node.value, node, d, 'formatted')
		elif isinstance(node, ast.Call):
			self.arguments(node, d)
			if dotted(node.func) in ('int', 'float', 'len', 'iter', 'sorted',
					'list', 'tuple', 'set', 'map', 'sum', 'min', 'max'):
				for a in node.args:
					self.use(a, node, d, 'used as argument of %s()' % dotted(
							node.func))
			if isinstance(node.func, ast.Attribute) and (
					node.func.attr == 'join'):
				for a in node.args:
					if isinstance(a, (ast.Tuple, ast.List)):
						for b in a.elts:
							self.use(b, node, d, 'joined')
			self.value(node, d)
			self.callback(node, d)
		elif isinstance(node, ast.Compare):
			for op, b in zip(node.ops, node.comparators):
				if isinstance(op, (ast.In, ast.NotIn)):
					self.use(b, node, d, 'searched')
		for ch in ast.iter_child_nodes(node):
			if isinstance(ch, ast.expr):
				self.visit(ch, d)
			elif isinstance(ch, ast.keyword):
				self.visit(ch.value, d)

	def arguments(self, node, d):
		"""Functions that may be passed None have tests for it."""
		r = self.c.p.resolve_name(self.func.module, dotted(node.func),
				self.func) if dotted(node.func) else None
		if not isinstance(r, Func) or isinstance(r.node, ast.Lambda):
			return
		pos = r.posparams[1:] if r.is_method else r.posparams
		pairs = list(zip(node.args, pos)) + [(k.value, k.arg)
				for k in node.keywords]
		for a, p in pairs:
			v = strip(self.value(a, d))
			if v is None or v[0] != 'group' or p not in r.params:
				continue
			if isinstance(r.defaults.get(p), ast.Constant) and (
					r.defaults[p].value is None) or handlesnone(r, p):
				continue
			self.use(a, node, d, 'passed to %s' % r.id)

	def walrus(self, node, d):
		for n in ast.walk(node):
			if isinstance(n, ast.NamedExpr):
				self.bind(n.target, self.value(n.value, d), d)

	def callback(self, node, d):
		"""P.sub(function, ...), map(function, P.finditer(...))"""
		fn = node.func
		pats, arg = None, None
		p = self.c.pats.compiled(self.func.module, self.func, node)
		name = dotted(fn)
		r = self.c.p.resolve_name(self.func.module, name, self.func
				) if name else None
		if p is not None and r[1] in ('re.sub', 're.subn') and len(
				node.args) > 1:
			pats, arg = frozenset([p]), node.args[1]
		elif isinstance(fn, ast.Attribute) and fn.attr in ('sub', 'subn'
				) and node.args:
			v = strip(self.value(fn.value, d))
			if v is not None and v[0] == 'pat':
				pats, arg = v[1], node.args[0]
		val = ('nn', ('match', pats)) if pats else None
		if val is None:
			# key functions and the like
			for k in node.keywords:
				if k.arg == 'key' and node.args:
					val, arg = self.element(node.args[0], d), k.value
			if dotted(fn) in ('map', 'filter') and len(node.args) == 2:
				val, arg = self.element(node.args[1], d), node.args[0]
			if val is not None:
				self.c.call(self.func, arg, val, d)
			else:
				# a match passed to a function
				if isinstance(r, Func):
					for n, a in enumerate(node.args):
						v = self.value(a, d)
						if v is not None and strip(v)[0] == 'match' and (
								n < len(r.posparams)):
							self.c.callfunc(r, {r.posparams[n]: v}, d)
			return
		if isinstance(arg, ast.Constant) and isinstance(arg.value, (str,
				bytes)):
			self.template(pats, arg)
		else:
			text = self.c.pats.const(self.func.module, self.func, arg)
			if text is not None:
				self.template(pats, ast.copy_location(ast.Constant(text),
						arg))
			self.c.call(self.func, arg, val, d)

	def template(self, pats, node):
		for p in pats:
			if p.error is not None:
				continue
			self.c.seen(node)
			try:
				re.compile(p.text, p.flags & ~re.UNICODE if isinstance(
						p.text, bytes) else p.flags)
				rx = re.compile(p.text, p.flags)
				try:
					from re import _parser
					_parser.parse_template(node.value, rx)
				except ImportError:
					import sre_parse
					sre_parse.parse_template(node.value, rx)
			except (re.error, IndexError) as err:
				self.c.bad('no-group', self.func, node, 'the replacement %r '
						'is not valid for the pattern %r: %s' % (node.value,
						p.text, err))


def short(p):
	s = repr(p.text)
	return s if len(s) < 50 else s[:45] + '...' + s[-1]


def strip(v):
	return v[1] if v is not None and v[0] == 'nn' else v


def joinval(a, b):
	if a == b:
		return a
	if a is None or b is None:
		return None
	if a[0] == 'none' or b[0] == 'none':
		v = strip(b if a[0] == 'none' else a)
		return v if v is not None and v[0] in ('match', 'group') else None
	if strip(a) == strip(b):
		return strip(a)
	a, b = strip(a), strip(b)
	if a[0] == b[0] and a[0] in ('pat', 'match') :
		return (a[0], a[1] | b[1])
	if a[0] == b[0] == 'group' and a[1] == b[1]:
		return None
	return None


def handlesnone(f, param):
	"""Whether a function tests the value of a parameter."""
	def istest(n):
		while isinstance(n, ast.UnaryOp):
			n = n.operand
		if isinstance(n, ast.BoolOp):
			return any(istest(a) for a in n.values)
		if isinstance(n, ast.Compare):
			return src(n.left) == param
		return src(n) == param

	for n in own_nodes(f.node):
		if isinstance(n, (ast.If, ast.IfExp, ast.While)) and istest(n.test):
			return True
		if isinstance(n, ast.BoolOp) and istest(n):
			return True
		if isinstance(n, ast.comprehension) and any(istest(a)
				for a in n.ifs):
			return True
	return False


class Checker:
	def __init__(self, project, res):
		self.p, self.res = project, res
		self.pats = Patterns(project, res)
		self.done = set()
		self.nodes = set()
		self.obl = set()
		self.found = set()

	def bad(self, rule, func, node, msg):
		key = (rule, func.id, msg)
		if key not in self.found:
			self.found.add(key)
			self.res.finding(rule, '%s: %s' % (func.id, src(node)[:60]
					if not isinstance(node, (ast.Tuple, ast.List)) else
					'unpack'), func.loc(node), msg)

	def seen(self, node):
		self.nodes.add((getattr(node, 'lineno', 0), getattr(node,
				'col_offset', 0), id(node)))

	def obligation(self, node):
		self.obl.add(id(node))

	def call(self, func, arg, val, d):
		f = None
		if isinstance(arg, ast.Lambda):
			f = arg._func
		elif arg is not None and dotted(arg):
			r = self.p.resolve_name(func.module, dotted(arg), func)
			f = r if isinstance(r, Func) else None
		if f is not None and f.posparams:
			pos = f.posparams[1:] if f.is_method else f.posparams
			self.callfunc(f, {pos[0]: val} if pos else {}, d)

	def callfunc(self, f, params, d):
		key = (f.id, id(f.node), str(sorted(params.items(), key=str)))
		if key in self.done or len(self.done) > 5000:
			return
		self.done.add(key)
		RxFlow(self, f, params, self.outer(f, d)).run()

	def outer(self, f, d):
		return dict(d.vals) if f.parent is not None else None


def check(project, res, tier):
	res.rule('every constant pattern compiles, has the groups that are used,'
			' and is not exponentially ambiguous; matches and groups that may'
			' be None are tested before they are used')
	c = Checker(project, res)
	for mod in project.modules.values():
		for n in ast.walk(mod.tree):
			if isinstance(n, ast.Call):
				f = None
				p = c.pats.compiled(mod, None, n)
				if p is None:
					name = dotted(n.func)
					r = project.resolve_name(mod, name) if name else None
					if isinstance(r, tuple) and r[0] == 'ext' and (
							r[1] == 're.compile'):
						res.count('patterns composed at runtime (not'
								' analysed)')
	for f in project.funcs.values():
		if any(isinstance(n, ast.Attribute) and n.attr in METHODS | MATCHM
				for n in own_nodes(f.node)):
			RxFlow(c, f).run()
	for (text, flags), (p, loc) in sorted(c.pats.all.items(), key=lambda x:
			(str(x[0]), )):
		res.count('patterns')
		name = '%s %r' % (loc.split(':')[0], text[:70])
		if p.error is not None:
			res.finding('invalid', name, loc, 'the pattern %r is not valid:'
					' %s' % (text, p.error))
			continue
		exp = regex.exponential(p)
		if exp is None:
			res.count('patterns too large for the ambiguity test')
		elif exp:
			res.finding('exponential', name, loc, 'matching may take'
					' exponential time: the pattern %r is ambiguous inside'
					' a repetition' % (text, ))
	res.count('uses of groups', len(c.nodes))
	res.count('uses of matches and groups', len(c.obl))
	res.require('patterns', 40)
	res.require('uses of groups', 20)
	res.require('uses of matches and groups', 25)
