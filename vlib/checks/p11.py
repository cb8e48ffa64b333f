"""Command line options: declared, looked up, used and documented."""
import ast
import os
import re
from ..project import own_nodes, dotted, src, Func, AnalysisBroken

TITLE = 'command line options are declared, consumed, and documented alike'
GETOPT = {'getopt.gnu_getopt', 'getopt.getopt'}
HELP = {'--help', '-h'}
# options that name the default behavior
DEFAULTS = {('discodop.treesearch.main', '--sents'),
		('discodop.treesearch.main', '-s')}


def fold(project, f, node, depth=0):
	"""Evaluate an expression made of literals; None if unknown."""
	if depth > 12 or node is None:
		return None
	rec = lambda n: fold(project, f, n, depth + 1)
	if isinstance(node, ast.Constant):
		return node.value
	if isinstance(node, (ast.Tuple, ast.List, ast.Set)):
		res = []
		for a in node.elts:
			if isinstance(a, ast.Starred):
				v = rec(a.value)
				if not isinstance(v, list):
					return None
				res.extend(v)
				continue
			v = rec(a)
			if v is None:
				return None
			res.append(v)
		return res
	if isinstance(node, ast.Dict):
		return [rec(k) for k in node.keys] if None not in [
				rec(k) for k in node.keys] else None
	if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add,
			ast.BitOr)):
		a, b = rec(node.left), rec(node.right)
		if type(a) is type(b) and isinstance(a, (str, list)):
			return a + b
		return None
	if isinstance(node, ast.Call):
		name = dotted(node.func)
		if isinstance(node.func, ast.Attribute) and node.func.attr in (
				'split', 'keys', 'copy') and len(node.args) <= 1:
			v = rec(node.func.value)
			if node.func.attr == 'split' and isinstance(v, str):
				sep = rec(node.args[0]) if node.args else None
				return v.split(sep)
			return v if isinstance(v, list) else None
		if name in ('tuple', 'list', 'set', 'frozenset', 'sorted',
				'dict.fromkeys', 'OrderedDict') and len(node.args) == 1:
			v = rec(node.args[0])
			return list(v) if isinstance(v, (list, str)) else None
		return None
	if isinstance(node, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and (
			len(node.generators) == 1 and not node.generators[0].ifs
			and isinstance(node.generators[0].target, ast.Name)):
		seq = rec(node.generators[0].iter)
		if not isinstance(seq, list):
			return None
		res = []
		for x in seq:
			v = fold(project, f, _Subst(node.generators[0].target.id,
					x).visit(_copy(node.elt)), depth + 1)
			if v is None:
				return None
			res.append(v)
		return res
	if isinstance(node, ast.Name):
		g = f
		while g is not None:
			if node.id in g.locals:
				vals = [n for n in own_nodes(g.node)
						if isinstance(n, ast.Name) and n.id == node.id
						and isinstance(n.ctx, ast.Store)]
				if len(vals) != 1 or node.id in g.params:
					return None
				p = vals[0]._parent
				if isinstance(p, ast.Assign) and vals[0] in p.targets:
					return fold(project, g, p.value, depth + 1)
				return None
			g = g.parent
		m = f.module
		if node.id in m.imports and m.imports[node.id][0] == 'attr':
			_, mod, nm = m.imports[node.id]
			m = project.modules.get(mod)
			if m is None:
				return None
		else:
			nm = node.id
		defs = m.globals.get(nm, [])
		if len(defs) == 1 and isinstance(defs[0], ast.expr):
			return fold(project, f, defs[0], depth + 1)
	return None


def _copy(node):
	import copy
	new = ast.parse(ast.unparse(node), mode='eval').body
	return copy.copy(new)


class _Subst(ast.NodeTransformer):
	def __init__(self, name, value):
		self.name, self.value = name, value

	def visit_Name(self, node):
		return ast.Constant(self.value) if node.id == self.name else node


class Cli:
	def __init__(self, project, f, call, result):
		self.project, self.f, self.call = project, f, call
		self.result = result
		self.value = set()  # options with a value
		self.flags = set()
		self.member, self.used = {}, {}
		self.stored = {}
		self.looped = set()  # compared with a variable that ranges over opts
		self.dynamic = None
		self.tables = []  # (dict name, keys): D[flag] = '--' + flag in opts

	def where(self, node):
		return '%s:%d' % (self.f.module.relpath, node.lineno)

	def declared(self):
		args = self.call.args
		kw = {k.arg: k.value for k in self.call.keywords}
		short = args[1] if len(args) > 1 else kw.get('shortopts')
		long = args[2] if len(args) > 2 else kw.get('longopts',
				ast.Tuple(elts=[], ctx=ast.Load()))
		s = fold(self.project, self.f, short)
		l = fold(self.project, self.f, long)
		if not isinstance(s, str) or not isinstance(l, list):
			return False
		for n, c in enumerate(s):
			if c == ':':
				continue
			(self.value if s[n + 1:n + 2] == ':' else self.flags).add('-' + c)
		for o in l:
			if o.endswith('='):
				self.value.add('--' + o[:-1])
			else:
				self.flags.add('--' + o)
		return True

	def all(self):
		return self.value | self.flags

	def run(self):
		"""Collect names which hold the options."""
		p = self.call
		while not isinstance(p, (ast.Assign, ast.Return, ast.Expr)):
			p = getattr(p, '_parent', None)
			if p is None:
				return False
		if not isinstance(p, ast.Assign):
			return False
		t = p.targets[0]
		if isinstance(t, (ast.Tuple, ast.List)) and isinstance(
				t.elts[0], ast.Name):
			first = t.elts[0].id
		else:
			return False
		self.scope(self.f, {first}, set())
		return True

	def scope(self, f, names, seen):
		"""Look for uses of options in a function and its callees."""
		if (f.id, tuple(sorted(names))) in seen or len(seen) > 60:
			return
		seen.add((f.id, tuple(sorted(names))))
		names = set(names)
		nodes = list(ast.walk(f.node)) if f.node is not None else []
		for _ in range(3):
			for n in nodes:
				if isinstance(n, ast.Assign) and len(n.targets) == 1 and (
						isinstance(n.targets[0], ast.Name)):
					v = n.value
					while isinstance(v, ast.Call) and dotted(v.func) in (
							'dict', 'list', 'OrderedDict', 'set') and len(
							v.args) == 1:
						v = v.args[0]
					if isinstance(v, ast.Call) and isinstance(
							v.func, ast.Attribute) and v.func.attr == 'copy':
						v = v.func.value
					if isinstance(v, ast.Name) and v.id in names:
						names.add(n.targets[0].id)
		isopts = lambda x: isinstance(x, ast.Name) and x.id in names
		keyvars, valvars = set(), set()

		def loopvars(target, it):
			if isinstance(it, ast.Call) and isinstance(
					it.func, ast.Attribute) and it.func.attr == 'items':
				it = it.func.value
			if isopts(it) and isinstance(target, ast.Tuple) and len(
					target.elts) == 2 and all(isinstance(a, ast.Name)
					for a in target.elts):
				keyvars.add(target.elts[0].id)
			elif isopts(it) and isinstance(target, ast.Name):
				keyvars.add(target.id)
		for n in nodes:
			if isinstance(n, (ast.For, ast.comprehension)):
				loopvars(n.target, n.iter)
		for n in nodes:
			if isinstance(n, ast.Subscript) and isopts(n.value):
				self.key(f, n.slice, 'store' if isinstance(n.ctx, ast.Store)
						else 'value', n)
			elif isinstance(n, ast.Call):
				if isinstance(n.func, ast.Attribute) and isopts(
						n.func.value) and n.args and n.func.attr in (
						'get', 'pop', 'setdefault', '__contains__',
						'__getitem__'):
					self.key(f, n.args[0], 'value', n)
				else:
					callee = self.project.resolve_name(f.module,
							dotted(n.func), f if f.qual != '<module>'
							else None) if dotted(n.func) else None
					if isinstance(callee, Func):
						pos = callee.posparams
						passed = {}
						for m, a in enumerate(n.args):
							if isopts(a) and m < len(pos):
								passed[pos[m]] = True
							elif isinstance(a, ast.Name) and (
									a.id in keyvars) and m < len(pos):
								self.keyvar(callee, pos[m])
						for k in n.keywords:
							if isopts(k.value):
								passed[k.arg] = True
							elif isinstance(k.value, ast.Name) and (
									k.value.id in keyvars):
								self.keyvar(callee, k.arg)
						if passed:
							self.scope(callee, set(passed), seen)
						# nested or module functions with opts as global
					elif any(isopts(a) for a in n.args) and dotted(
							n.func) not in ('dict', 'list', 'set', 'len',
							'sorted', 'print', 'repr', 'bool', 'iter',
							'OrderedDict'):
						self.dynamic = n
			elif isinstance(n, ast.Compare) and len(n.ops) == 1:
				c = n.comparators[0]
				if isinstance(n.ops[0], (ast.In, ast.NotIn)) and isopts(c):
					self.key(f, n.left, 'member', n)
				elif isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(
						c, ast.Call) and isinstance(c.func, ast.Attribute
						) and c.func.attr == 'keys' and isopts(c.func.value):
					self.key(f, n.left, 'member', n)
			elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitAnd):
				for a, b in ((n.left, n.right), (n.right, n.left)):
					if isopts(a) or (isinstance(a, ast.Call) and a.args
							and isopts(a.args[0])) or isinstance(
							a, ast.Call) and isinstance(a.func,
							ast.Attribute) and isopts(a.func.value):
						v = fold(self.project, f, b)
						for k in v or ():
							self.keyed(k, 'member', n)
		for v in keyvars:
			self.keyvar(f, v, nodes)

	def keyvar(self, f, name, nodes=None):
		"""Comparisons of a variable that ranges over the options given."""
		for n in nodes or ast.walk(f.node):
			if isinstance(n, ast.Compare) and len(n.ops) == 1:
				for a, b in ((n.left, n.comparators[0]),
						(n.comparators[0], n.left)):
					if not (isinstance(a, ast.Name) and a.id == name):
						continue
					v = fold(self.project, f, b)
					if isinstance(v, str):
						v = [v]
					for k in v or ():
						if isinstance(k, str):
							self.keyed(k, 'loop', n)
			elif isinstance(n, ast.Subscript) and isinstance(
					n.slice, ast.Name) and n.slice.id == name or (
					isinstance(n, ast.Call) and isinstance(
					n.func, ast.Attribute) and n.func.attr == 'get'
					and n.args and isinstance(n.args[0], ast.Name)
					and n.args[0].id == name):
				table = n.value if isinstance(n, ast.Subscript) else (
						n.func.value)
				v = fold(self.project, f, table)
				if v is None:
					self.dynamic = n
				for k in v or ():
					if isinstance(k, str):
						self.keyed(k, 'loop', n)
			elif isinstance(n, ast.Match if hasattr(ast, 'Match') else ()
					) and isinstance(n.subject, ast.Name) and (
					n.subject.id == name):
				for c in ast.walk(n):
					if isinstance(c, ast.MatchValue) and isinstance(
							c.value, ast.Constant):
						self.keyed(c.value.value, 'loop', n)

	def key(self, f, node, kind, at):
		v = fold(self.project, f, node)
		if isinstance(v, str):
			self.keyed(v, kind, at)
			return
		# '--' + name, with name from a loop over constants
		vs = self.loopconsts(f, node)
		if vs is None:
			if isinstance(node, ast.Name):
				# key from an iteration over options is always declared
				return
			self.dynamic = at
			return
		for k in vs:
			self.keyed(k, kind, at)
		p = at
		while isinstance(p, ast.expr):
			p = getattr(p, '_parent', None)
		if isinstance(p, ast.Assign) and isinstance(
				p.targets[0], ast.Subscript):
			t = p.targets[0]
			names = self.loopconsts(f, t.slice)
			if names and dotted(t.value):
				self.tables.append((f, dotted(t.value), names, at))
		elif isinstance(getattr(at, '_parent', None), ast.DictComp):
			pass

	def loopconsts(self, f, node):
		if isinstance(node, ast.Name):
			pre, name = '', node.id
		elif isinstance(node, ast.BinOp) and isinstance(
				node.op, ast.Add) and isinstance(node.right, ast.Name
				) and isinstance(node.left, ast.Constant):
			pre, name = node.left.value, node.right.id
		elif isinstance(node, ast.BinOp) and isinstance(
				node.op, ast.Mod) and isinstance(node.right, ast.Name
				) and isinstance(node.left, ast.Constant) and isinstance(
				node.left.value, str) and node.left.value.endswith('%s'):
			pre, name = node.left.value[:-2], node.right.id
		elif isinstance(node, ast.JoinedStr) and len(node.values) == 2 and (
				isinstance(node.values[0], ast.Constant)) and isinstance(
				node.values[1], ast.FormattedValue) and isinstance(
				node.values[1].value, ast.Name):
			pre, name = node.values[0].value, node.values[1].value.id
		else:
			return None
		p = node
		while p is not None:
			p = getattr(p, '_parent', None)
			gens = [p] if isinstance(p, ast.For) else getattr(
					p, 'generators', [])
			for g in gens:
				if isinstance(g.target, ast.Name) and g.target.id == name:
					v = fold(self.project, f, g.iter)
					if isinstance(v, list) and all(isinstance(a, str)
							for a in v):
						return [pre + a for a in v]
					return None
			if isinstance(p, (ast.FunctionDef, ast.Module)):
				return None
		return None

	def keyed(self, key, kind, node):
		if kind == 'loop':
			self.looped.add(key)
		d = {'member': self.member, 'value': self.used, 'loop': self.member,
				'store': self.stored}[kind]
		d.setdefault(key, []).append(node)

	def check(self):
		r, fid = self.result, self.f.id
		for d in (self.member, self.used, self.stored):
			for key, nodes in sorted(d.items()):
				r.count('option lookups', len(nodes))
				if key not in self.all():
					r.finding('undeclared-option', '%s:%s' % (fid, key),
							self.where(nodes[0]), 'looks up %r, which is not '
							'an option that can be given on the command line'
							% key)
		for key, nodes in sorted(self.used.items()):
			if key in self.flags and key not in self.value:
				for n in nodes:
					if not self.nonetest(n):
						r.finding('flag-value', '%s:%s' % (fid, key),
								self.where(n), 'the value of %s is used, but '
								'the option has no value (it is always empty)'
								% key)
		if self.dynamic is None:
			for key in sorted(self.all()):
				r.count('declared options')
				if key in self.member or key in self.used or key in HELP or (
						(fid, key) in DEFAULTS):
					continue
				r.finding('ignored-option', '%s:%s' % (fid, key),
						self.where(self.call), 'the option %s is accepted '
						'but nothing depends on it' % key)
			for key in sorted(self.value & set(self.member)):
				if key in self.used or key in self.looped or (
						key in self.flags) or key in HELP:
					continue
				n = self.member[key][0]
				r.finding('value-ignored', '%s:%s' % (fid, key),
						self.where(n), 'the option %s takes a value, but it '
						'is only tested whether the option was given' % key)
		for f, table, names, at in self.tables:
			reads = set()
			for n in ast.walk(f.module.tree):
				if isinstance(n, ast.Subscript) and isinstance(
						n.ctx, ast.Load) and dotted(n.value) == table and (
						isinstance(n.slice, ast.Constant)):
					reads.add(n.slice.value)
				elif isinstance(n, ast.Call) and dotted(n.func) in (
						table + '.get', table + '.pop') and n.args and (
						isinstance(n.args[0], ast.Constant)):
					reads.add(n.args[0].value)
				elif isinstance(n, ast.Compare) and dotted(
						n.comparators[0]) == table and isinstance(
						n.left, ast.Constant):
					reads.add(n.left.value)
			for name in names:
				key = '--' + name
				if name not in reads and key not in HELP and (
						len(self.member.get(key, ())) < 2):
					r.finding('ignored-option', '%s:%s' % (fid, key),
							self.where(at), 'the option %s is stored but '
							'nothing depends on it' % key)

	@staticmethod
	def nonetest(n):
		p = getattr(n, '_parent', None)
		return isinstance(p, ast.Compare) and any(isinstance(
				c, ast.Constant) and c.value is None or isinstance(
				c, ast.Constant) and c.value == ''
				for c in [p.left] + p.comparators)


OPT = re.compile(r'(?<![\w-])(--?[A-Za-z][\w-]*)(=|\s+[A-Zxkn]\b)?')


def documented(text):
	"""Options that start a definition in a manual page."""
	for n, line in enumerate(text.splitlines(), 1):
		if not re.match(r'-{1,2}[A-Za-z]', line):
			continue
		head = re.split(r'\s{2,}', line)[0]
		hasval = '=' in head or re.search(r' [A-Za-z]+$', head) is not None
		head = re.sub(r'=<[^>]*>|=\S+', '=', head)
		for m in re.finditer(r'(?:^|,\s*)(--?[A-Za-z][\w-]*)', head):
			yield m.group(1), hasval, n


def check(project, result, tier):
	result.rule('For each function that parses the command line: options '
			'looked up are declared, declared options are looked up, the '
			'value of an option without value is not used; options in the '
			'manual page are declared; each command has an implementation.')
	from types import SimpleNamespace
	clis = []
	for m in project.modules.values():
		for call in ast.walk(m.tree):
			if not isinstance(call, ast.Call):
				continue
			f, p = None, call
			while p is not None and f is None:
				p = getattr(p, '_parent', None)
				f = getattr(p, '_func', None)
			r = project.resolve_name(m, dotted(call.func), f) if dotted(
					call.func) else None
			if not (isinstance(r, tuple) and r[0] == 'ext'
					and r[1] in GETOPT):
				continue
			if f is None:
				f = SimpleNamespace(module=m, node=m.tree, qual='<module>',
						id=m.name + '.<module>', locals=set(), params=[],
						parent=None)
			c = Cli(project, f, call, result)
			result.count('command line parsers')
			if not c.declared() or not c.run():
				result.broken.append('%s: cannot determine the options'
						% f.id)
				continue
			c.check()
			clis.append(c)
	result.require('command line parsers', 7)
	result.require('declared options', 100)
	result.require('option lookups', 120)
	docs(project, clis, result)
	commands(project, result)
	result.assume('getopt behaves as documented; options are looked up '
			'with constant keys')


def docs(project, clis, result):
	d = os.path.join(project.repo, 'docs', 'cli')
	if not os.path.isdir(d):
		return
	for fn in sorted(os.listdir(d)):
		cmd = fn[:-4]
		mine = [c for c in clis if c.f.id in ('discodop.cli.' + cmd,
				'discodop.%s.main' % cmd)]
		if not mine or not fn.endswith('.rst'):
			continue
		with open(os.path.join(d, fn), encoding='utf8') as inp:
			text = inp.read()
		for key, hasval, n in documented(text):
			result.count('documented options')
			c = mine[0]
			if key not in c.all():
				result.finding('documented-option', '%s:%s' % (c.f.id, key),
						'docs/cli/%s:%d' % (fn, n), 'the documented option '
						'%s is not accepted' % key)
			elif hasval and key not in c.value and key.startswith('--'):
				result.finding('documented-option', '%s:%s' % (c.f.id, key),
						'docs/cli/%s:%d' % (fn, n), 'the option %s is '
						'documented with a value but does not take one' % key)
			elif not hasval and key in c.value and key not in c.flags and (
					key.startswith('--')):
				result.finding('documented-option', '%s:%s' % (c.f.id, key),
						'docs/cli/%s:%d' % (fn, n), 'the option %s is '
						'documented without a value but takes one' % key)


def commands(project, result):
	m = project.modules.get('discodop.cli')
	if m is None:
		raise AnalysisBroken('discodop.cli not found')
	defs = m.globals.get('COMMANDS', [])
	f = next(iter(m.funcs.values()))
	names = fold(project, f, defs[0]) if len(defs) == 1 else None
	if not isinstance(names, list):
		result.broken.append('the table of commands is not a literal')
		return
	for name in names:
		result.count('commands')
		mod = project.modules.get('discodop.' + name)
		if name in m.funcs or (mod is not None and 'main' in mod.funcs):
			continue
		if mod is not None and 'main' in mod.imports:
			continue
		result.finding('missing-command', 'discodop.cli:%s' % name,
				m.relpath, 'the command %s has no implementation' % name)
	result.require('commands', 5)
