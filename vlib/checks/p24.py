"""Escaping of tokens: inverse functions, applied by writers and readers."""
import ast
from ..project import AnalysisBroken, Func, dotted, own_nodes
from ..taint import Taint, NONE
from .. import regex
from ..regex import sre
from .p28 import Patterns

TITLE = 'tokens are escaped by writers and unescaped by readers'
PAIRS = [('discodop.tree.escape', 'discodop.tree.unescape'),
		('discodop.tree.ptbescape', 'discodop.tree.ptbunescape')]
WRITERS = ['discodop.tree.writebrackettree',
		'discodop.tree.writediscbrackettree']
READERS = ['discodop.tree.brackettree', 'discodop.tree.discbrackettree',
		'discodop.treebank.BracketCorpusReader._parse',
		'discodop.treebank.DiscBracketCorpusReader._parse']
ESC = {'discodop.tree.escape', 'discodop.tree.ptbescape'}
UNESC = {'discodop.tree.unescape', 'discodop.tree.ptbunescape'}


# -- symbolic evaluation of the escape functions
class Path:
	"""Text with replacements applied, under conditions on the argument."""
	def __init__(self, eq=None, ne=()):
		self.eq, self.ne = eq, frozenset(ne)


class Rewriter:
	"""All results of a function of a string: list of (Path, value), where
	value is ('const', v), ('text', ((old, new), ...)), or ('unknown', )."""
	def __init__(self, project, f, depth=0):
		self.p, self.f, self.depth = project, f, depth
		self.results = []
		if len(f.posparams) < 1 or depth > 3:
			raise AnalysisBroken('cannot analyse %s' % f.id)
		self.param = f.posparams[0]

	def run(self):
		end = self.block(self.f.node.body, [(Path(), {
				self.param: ('text', ())})])
		for path, _ in end:
			self.results.append((path, ('const', None)))
		return self.results

	def block(self, body, states):
		for st in body:
			nxt = []
			for path, env in states:
				nxt.extend(self.stmt(st, path, env))
			states = nxt
			if len(states) > 200:
				raise AnalysisBroken('too many paths in %s' % self.f.id)
		return states

	def stmt(self, st, path, env):
		if isinstance(st, ast.Return):
			for p, v in self.expr(st.value, path, env) if (
					st.value is not None) else [(path, ('const', None))]:
				self.results.append((p, v))
			return []
		if isinstance(st, ast.Raise):
			return []
		if isinstance(st, ast.If):
			res = []
			for p, t in self.test(st.test, path, env):
				if t is not False:
					res.extend(self.block(st.body, [(p, dict(env))]))
				if t is not True:
					res.extend(self.block(st.orelse, [(p, dict(env))]))
			return res
		if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(
				st.targets[0], ast.Name):
			return [(p, dict(env, **{st.targets[0].id: v}))
					for p, v in self.expr(st.value, path, env)]
		if isinstance(st, ast.For):
			items = self.items(st.iter, env)
			if items is None:
				raise AnalysisBroken('loop in %s' % self.f.id)
			states = [(path, env)]
			for item in items:
				nxt = []
				for p, e in states:
					e = dict(e)
					if isinstance(st.target, ast.Name):
						e[st.target.id] = ('const', item)
					elif isinstance(st.target, ast.Tuple) and isinstance(
							item, (tuple, list)) and len(item) == len(
							st.target.elts):
						for a, b in zip(st.target.elts, item):
							e[a.id] = ('const', b)
					else:
						raise AnalysisBroken('loop in %s' % self.f.id)
					nxt.extend(self.block(st.body, [(p, e)]))
				states = nxt
			return states
		if isinstance(st, (ast.Expr, ast.Pass, ast.Assert, ast.Import,
				ast.ImportFrom)):
			return [(path, env)]
		raise AnalysisBroken('statement %s in %s' % (type(st).__name__,
				self.f.id))

	def literal(self, node, env=None):
		"""Value of a literal, or a module level literal."""
		if isinstance(node, ast.Name):
			if env and env.get(node.id, ('', ))[0] == 'const':
				return env[node.id][1]
			defs = self.f.module.globals.get(node.id, [])
			if len(defs) == 1 and node.id not in self.f.locals:
				return self.literal(defs[0])
			raise ValueError
		if isinstance(node, ast.Call) and isinstance(node.func,
				ast.Attribute) and node.func.attr == 'items' and (
				not node.args):
			return list(self.literal(node.func.value, env).items())
		if isinstance(node, ast.Call) and dotted(node.func) in (
				'OrderedDict', 'dict', 'tuple', 'list', 'set', 'frozenset'
				) and len(node.args) == 1:
			v = self.literal(node.args[0], env)
			return dict(v) if dotted(node.func) in ('OrderedDict', 'dict'
					) else v
		if isinstance(node, ast.DictComp) and len(node.generators) == 1 and (
				isinstance(node.generators[0].target, ast.Tuple)):
			res = {}
			g = node.generators[0]
			for item in self.literal(g.iter, env):
				e = {a.id: ('const', b) for a, b in zip(g.target.elts, item)}
				res[self.literal(node.key, e)] = self.literal(node.value, e)
			return res
		return ast.literal_eval(node)

	def items(self, node, env):
		try:
			return list(self.literal(node, env))
		except (ValueError, TypeError, SyntaxError):
			return None

	def test(self, node, path, env):
		if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
			return [(p, None if t is None else not t)
					for p, t in self.test(node.operand, path, env)]
		if isinstance(node, ast.BoolOp):
			isand = isinstance(node.op, ast.And)
			states, done = [path], []
			for a in node.values:
				nxt = []
				for p in states:
					for q, t in self.test(a, p, env):
						if t is (not isand):
							done.append((q, t))
						elif t is None:
							done.append((q, None))
						else:
							nxt.append(q)
				states = nxt
			return done + [(p, isand) for p in states]
		vals = None
		op = None
		if isinstance(node, ast.Compare) and len(node.ops) == 1:
			op = node.ops[0]
			left, right = node.left, node.comparators[0]
			if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
				if isinstance(left, ast.Constant):
					left, right = right, left
				try:
					vals = [self.literal(right, env)]
				except (ValueError, TypeError, SyntaxError):
					vals = None
			elif isinstance(op, (ast.In, ast.NotIn)):
				vals = self.items(right, env)
		else:
			left = node
			vals, op = [None, ''], ast.NotIn()  # truth value
		v = self.expr1(left, path, env)
		if vals is None or v is None:
			return [(path, None)]
		pos = isinstance(op, (ast.Eq, ast.Is, ast.In))
		if v[0] == 'const':
			return [(path, (v[1] in vals) == pos)]
		if v != ('text', ()):
			return [(path, None)]
		if path.eq is not None:
			return [(path, (path.eq[0] in vals) == pos)]
		res = [(Path((x, )), pos) for x in vals if x not in path.ne]
		res.append((Path(None, path.ne | set(vals)), not pos))
		return res

	def expr1(self, node, path, env):
		res = self.expr(node, path, env)
		return res[0][1] if len(res) == 1 else None

	def expr(self, node, path, env):
		if isinstance(node, ast.Constant):
			return [(path, ('const', node.value))]
		if isinstance(node, ast.Name):
			if node.id in env:
				v = env[node.id]
				if v == ('text', ()) and path.eq is not None:
					v = ('const', path.eq[0])
				return [(path, v)]
			try:
				return [(path, ('const', self.literal(node)))]
			except (ValueError, TypeError, SyntaxError):
				return [(path, ('unknown', ))]
		if isinstance(node, ast.IfExp):
			res = []
			for p, t in self.test(node.test, path, env):
				if t is not False:
					res.extend(self.expr(node.body, p, env))
				if t is not True:
					res.extend(self.expr(node.orelse, p, env))
			return res
		if isinstance(node, ast.BoolOp):
			# a and b; a or b
			isand = isinstance(node.op, ast.And)
			res, states = [], [path]
			for n, a in enumerate(node.values):
				nxt = []
				for p in states:
					if n == len(node.values) - 1:
						res.extend(self.expr(a, p, env))
						continue
					for q, t in self.test(a, p, env):
						if t is isand:
							nxt.append(q)
						else:
							res.extend(self.expr(a, q, env))
							if t is None:
								nxt.append(q)
				states = nxt
			return res
		if isinstance(node, ast.Subscript):
			try:
				table = self.literal(node.value, env)
			except (ValueError, TypeError, SyntaxError):
				table = None
			v = self.expr1(node.slice, path, env)
			if isinstance(table, dict) and v is not None:
				if v[0] == 'const':
					return [(path, ('const', table[v[1]]))] if (
							v[1] in table) else []
				if v == ('text', ()):
					return [(Path((k, )), ('const', x)) for k, x
							in table.items() if k not in path.ne]
			return [(path, ('unknown', ))]
		if isinstance(node, ast.Call):
			return self.call(node, path, env)
		if isinstance(node, (ast.Dict, ast.Tuple, ast.List, ast.Set)):
			try:
				return [(path, ('const', self.literal(node, env)))]
			except (ValueError, TypeError, SyntaxError):
				pass
		return [(path, ('unknown', ))]

	def call(self, node, path, env):
		fn = node.func
		if isinstance(fn, ast.Attribute) and fn.attr == 'replace' and (
				len(node.args) == 2 and not node.keywords):
			res = []
			try:
				x, y = [self.literal(a, env) for a in node.args]
			except (ValueError, TypeError, SyntaxError):
				return [(path, ('unknown', ))]
			for p, v in self.expr(fn.value, path, env):
				if v[0] == 'const' and isinstance(v[1], str):
					res.append((p, ('const', v[1].replace(x, y))))
				elif v[0] == 'text':
					res.append((p, ('text', v[1] + ((x, y), ))))
				else:
					res.append((p, ('unknown', )))
			return res
		if isinstance(fn, ast.Attribute) and fn.attr == 'get' and (
				1 <= len(node.args) <= 2):
			try:
				table = self.literal(fn.value, env)
			except (ValueError, TypeError, SyntaxError):
				return [(path, ('unknown', ))]
			v = self.expr1(node.args[0], path, env)
			default = node.args[1] if len(node.args) == 2 else ast.Constant(
					None)
			if v is not None and v[0] == 'const':
				if v[1] in table:
					return [(path, ('const', table[v[1]]))]
				return self.expr(default, path, env)
			if v == ('text', ()):
				res = [(Path((k, )), ('const', x)) for k, x
						in table.items() if k not in path.ne]
				return res + self.expr(default, Path(None, path.ne
						| set(table)), env)
			return [(path, ('unknown', ))]
		r = self.p.resolve_name(self.f.module, dotted(fn), self.f
				) if dotted(fn) else None
		if isinstance(r, Func) and len(node.args) == 1 and (
				not node.keywords):
			res = []
			for p, v in self.expr(node.args[0], path, env):
				if v != ('text', ()) and v[0] != 'const':
					inner = Rewriter(self.p, r, self.depth + 1).run()
					if v[0] == 'text' and len(inner) == 1 and (
							inner[0][1][0] == 'text'):
						res.append((p, ('text', v[1] + inner[0][1][1])))
						continue
					return [(path, ('unknown', ))]
				for q, w in Rewriter(self.p, r, self.depth + 1).run():
					if v[0] == 'const':
						if q.eq is not None and q.eq[0] != v[1] or (
								v[1] in q.ne):
							continue
						if w[0] == 'text':
							x = v[1]
							for old, new in w[1]:
								x = x.replace(old, new)
							w = ('const', x)
						res.append((p, w))
					elif p.eq is None and not (q.eq is not None
							and q.eq[0] in p.ne):
						res.append((q if q.eq is not None else Path(None,
								p.ne | q.ne), w))
			return res
		return [(path, ('unknown', ))]


def inverse(project, res, escid, unescid, markers=()):
	esc, unesc = project.func(escid), project.func(unescid)
	if esc is None or unesc is None:
		raise AnalysisBroken('%s not found' % (escid, ))
	fwd = Rewriter(project, esc).run()
	bwd = Rewriter(project, unesc).run()
	res.count('paths of escape functions', len(fwd) + len(bwd))

	def bad(f, what, msg):
		res.finding('not-inverse', '%s %s' % (f.id, what), f.loc(), msg)

	def undo(s):
		for p, v in bwd:
			if (p.eq[0] == s if p.eq is not None else s not in p.ne):
				if v[0] == 'text' and isinstance(s, str):
					for old, new in v[1]:
						s = s.replace(old, new)
					return ('const', s)
				return v
		return ('unknown', )

	for path, v in fwd:
		if v[0] == 'unknown':
			bad(esc, 'result', 'cannot be expressed as replacements')
		elif v[0] == 'const':
			if path.eq is None:
				bad(esc, 'constant', 'different tokens are mapped to %r'
						% (v[1], ))
				continue
			token = path.eq[0]
			if isinstance(v[1], str) and set('()') & set(v[1]):
				bad(esc, repr(token), 'the escaped form %r contains a'
						' parenthesis' % v[1])
			if isinstance(v[1], str) and any(a.isspace() for a in v[1]):
				bad(esc, repr(token), 'the escaped form %r contains'
						' whitespace' % v[1])
			back = undo(v[1])
			if back != ('const', token or None):
				bad(unesc, repr(token), '%s maps %r to %r, which %s maps to'
						' %r' % (esc.id, token, v[1], unesc.id, back[-1]))
			res.count('special tokens')
		else:
			pairs = v[1]
			for ch in '()':
				if not any(ch == old for old, _ in pairs):
					bad(esc, ch, '%r is not escaped on every path' % ch)
			# every replacement is undone, on the path for its result
			general = [w[1] for p, w in bwd if p.eq is None
					and w[0] == 'text']
			if not general:
				bad(unesc, 'result', 'cannot be expressed as replacements')
				continue
			for old, new in pairs:
				res.count('replacements')
				if not new:
					bad(esc, old, '%r is removed' % old)
				for g in general:
					if (new, old) not in g:
						bad(unesc, new, '%r is not replaced by %r, as %s'
								' replaces %r by %r' % (new, old, esc.id,
								old, new))
			if len({new for _, new in pairs}) != len({old for old, _
					in pairs}):
				bad(esc, 'targets', 'different texts are replaced by the same')
			# later replacements do not touch the results of earlier ones
			for n, (_, new) in enumerate(pairs):
				for old2, _ in pairs[n + 1:]:
					if old2 in new:
						bad(esc, old2, 'replaces part of %r, the result of an'
								' earlier replacement' % new)
	# unescaping does not treat other tokens specially
	image = {v[1] for _, v in fwd if v[0] == 'const'}
	special = {path.eq[0] for path, _ in fwd if path.eq is not None}
	for path, v in bwd:
		token = path.eq[0] if path.eq is not None else None
		if (not isinstance(token, str) or v[0] != 'const' or token in image
				or token in special or token in markers):
			continue
		for q, w in fwd:
			if q.eq is None and w[0] == 'text':
				s = token
				for old, new in w[1]:
					s = s.replace(old, new)
				if s == token and v[1] != token:
					bad(unesc, repr(token), 'the token %r is written as is,'
							' but read as %r' % (token, v[1]))
	# unescaping single characters: 'a general path is also taken by
	# tokens that contain special tokens'
	for p, v in bwd:
		if v[0] == 'unknown':
			bad(unesc, 'result', 'cannot be expressed as replacements')


def frontiermarkers(project):
	"""Texts that readers insert for frontier non-terminals."""
	res = set()
	for fid in READERS:
		f = project.func(fid)
		names = set()
		for a in ast.walk(f.node) if f is not None else ():
			if isinstance(a, ast.Constant) and isinstance(a.value, str):
				res.add(a.value.strip(' ()'))
			elif isinstance(a, ast.Name):
				names.add(a.id)
		for name in names:
			for a in f.module.globals.get(name, ()):
				if isinstance(a, ast.Constant) and isinstance(a.value, str):
					res.add(a.value.strip(' ()'))
	return {a for a in res if a.startswith('#') and a.endswith('#')}


# -- the text between writer and reader
ALTER = {'lower', 'upper', 'title', 'capitalize', 'casefold', 'swapcase',
		'translate', 'replace', 'strip', 'lstrip', 'rstrip', 'removeprefix',
		'removesuffix', 'rsplit', 'rpartition', 'zfill', 'center', 'ljust',
		'rjust', 'expandtabs'}


def altering(node):
	"""Whether node is a method call that changes a token."""
	if not isinstance(node, ast.Call) or not isinstance(node.func,
			ast.Attribute) or node.func.attr not in ALTER:
		return False
	if node.func.attr in ('strip', 'lstrip', 'rstrip'):
		# tokens contain no whitespace
		return bool(node.args) and not (isinstance(node.args[0], ast.Constant)
				and (node.args[0].value is None or isinstance(
				node.args[0].value, str) and not node.args[0].value.strip()))
	return True


def origins(f, node, depth=0):
	"""Expressions that determine the text of an expression (not the
	arguments of calls)."""
	yield node
	if depth > 6:
		return
	if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
		yield from origins(f, node.func.value, depth + 1)
	elif isinstance(node, (ast.Subscript, ast.Starred)):
		yield from origins(f, node.value, depth + 1)
	elif isinstance(node, ast.BoolOp):
		for a in node.values:
			yield from origins(f, a, depth + 1)
	elif isinstance(node, ast.IfExp):
		yield from origins(f, node.body, depth + 1)
		yield from origins(f, node.orelse, depth + 1)
	elif isinstance(node, ast.Name):
		for v in assigned(f, node):
			yield from origins(f, v, depth + 1)


def assigned(f, node):
	"""Values assigned to a name (by itself or as part of a tuple)."""
	for st in own_nodes(f.node):
		if isinstance(st, ast.Assign) and st.value is not node:
			for t in st.targets:
				if any(isinstance(a, ast.Name) and a.id == node.id
						for a in ast.walk(t) if isinstance(getattr(a, 'ctx',
						None), ast.Store)
						) if isinstance(t, (ast.Name, ast.Tuple, ast.List)
						) else False:
					yield st.value
		elif isinstance(st, ast.NamedExpr) and st.target.id == node.id:
			yield st.value


def textof(res, f, node, reader):
	"""Check the argument and result of a call to (un)escape."""
	what = 'unescape()' if reader else 'escape()'
	res.count('tokens passed to (un)escape')
	for arg in node.args[:1]:
		for a in origins(f, arg):
			if altering(a):
				res.finding('altered', '%s %s' % (f.id, a.func.attr),
						f.loc(a), 'the token is changed by %s() before %s'
						% (a.func.attr, what))
			elif isinstance(a, ast.BoolOp) and isinstance(a.op, ast.Or):
				for b in a.values[1:]:
					if isinstance(b, ast.Constant) and isinstance(b.value,
							str) and b.value:
						res.finding('altered', '%s or' % f.id, f.loc(a),
								'%r is read back as a token' % b.value)
			elif isinstance(a, ast.Call) and isinstance(a.func,
					ast.Attribute) and a.func.attr == 'split' and (
					a.args and isinstance(a.args[0], ast.Constant)
					and a.args[0].value == '='):
				n = a.args[1] if len(a.args) > 1 else next((k.value
						for k in a.keywords if k.arg == 'maxsplit'), None)
				if n is None or isinstance(n, ast.Constant) and n.value != 1:
					res.finding('altered', '%s split' % f.id, f.loc(a),
							"the token is cut off at another '='")
	n = node
	while True:
		up = getattr(n, '_parent', None)
		if isinstance(up, ast.Attribute) and isinstance(getattr(up,
				'_parent', None), ast.Call) and up._parent.func is up:
			if altering(up._parent):
				res.finding('altered', '%s %s' % (f.id, up.attr), f.loc(up),
						'the result of %s is changed by %s()' % (what,
						up.attr))
			n = up._parent
			continue
		break


def filtered(res, f, node):
	"""A condition in a comprehension or loop that skips tokens."""
	n = node
	while n is not None and n is not f.node:
		up = getattr(n, '_parent', None)
		if isinstance(up, (ast.ListComp, ast.GeneratorExp)) and (
				n is up.elt):
			if any(g.ifs for g in up.generators):
				res.finding('skipped', '%s comprehension' % f.id, f.loc(up),
						'tokens for which the condition does not hold are'
						' not part of the sentence')
			return
		n = up


class Lang:
	"""Whether an automaton accepts all strings of a given form."""
	def __init__(self, pattern, tree):
		self.auto = regex.Auto.__new__(regex.Auto)
		self.auto.chars, self.auto.follow = [], []
		self.auto.flags = pattern.flags
		self.auto.bytes = isinstance(pattern.text, bytes)
		self.auto.alphabet = sorted(set(self.auto.samples(pattern))
				| {40, 41, 47, 61, 35, 45, 9, 49, 57, 46, 92})
		self.auto.build(tree)

	def step(self, states, chars):
		"""Sets of positions reached by a character from chars."""
		res = set()
		for c in chars:
			nxt = set()
			for s in states:
				nxt.update(q for q in (self.auto.first if s == -1
						else self.auto.follow[s]) if c in self.auto.chars[q])
			res.add(frozenset(nxt))
		return res

	def accepts(self, before, plus, after):
		"""Whether all of before + plus{1,} + after is accepted."""
		states = {frozenset([-1])}
		for c in before:
			states = {b for a in states for b in self.step(a, [ord(c)])}
		chars = [c for c in self.auto.alphabet if plus(chr(c))]
		todo, seen = list(states), set()
		while todo:
			for b in self.step(todo.pop(), chars):
				if b not in seen:
					if len(seen) > 2000:
						return True
					seen.add(b)
					todo.append(b)
		for c in after:
			seen = {b for a in seen for b in self.step(a, [ord(c)])}
		return all(any(q in self.auto.last for q in a) for a in seen)


def word(c):
	return not c.isspace() and c not in '()'


def callsany(project, f, node, which):
	"""Whether an expression applies one of the given functions, possibly in
	a lambda or a function that is referred to."""
	for a in ast.walk(node):
		name = dotted(a) if isinstance(a, (ast.Name, ast.Attribute)) else None
		if not name:
			continue
		r = project.resolve_name(f.module, name, f)
		if isinstance(r, Func):
			if r.id in which:
				return True
			if r.module is f.module and r is not f and any(isfunc(project,
					_Frame(r), dotted(b.func), which) for b in ast.walk(r.node)
					if isinstance(b, ast.Call) and dotted(b.func)):
				return True
	return False


class _Frame:
	def __init__(self, f):
		self.f = f


def pattern(project, pats, f, node):
	"""(Pattern, rest of arguments) of a call of a pattern method."""
	name = dotted(node.func)
	r = project.resolve_name(f.module, name, f) if name else None
	if isinstance(r, tuple) and r[0] == 'ext' and r[1].startswith('re.'):
		return pats.compiled(f.module, f, node), node.args[1:]
	base = node.func.value
	if isinstance(base, ast.Name) and base.id not in f.locals:
		return pats.glob(f.module, base.id), node.args
	if isinstance(base, ast.Call):
		return pats.compiled(f.module, f, base), node.args
	return None, node.args


def patterns(project, res):
	"""Patterns match every index, and every token."""
	pats = Patterns(project, res)
	for fid in WRITERS:
		f = project.func(fid)
		for a in ast.walk(f.node):
			if not (isinstance(a, ast.Call) and isinstance(a.func,
					ast.Attribute) and a.func.attr in ('sub', 'subn',
					'expand')):
				continue
			if a.func.attr == 'expand':
				if callsany(project, f, a, ESC):
					res.finding('template', fid, f.loc(a), 'backslashes in'
							' words are interpreted by expand()')
				continue
			pat, args = pattern(project, pats, f, a)
			if not args or not callsany(project, f, args[0], ESC):
				continue
			res.count('patterns')
			if isinstance(args[0], (ast.BinOp, ast.JoinedStr)) or isinstance(
					args[0], ast.Call) and (isinstance(args[0].func,
					ast.Attribute) and args[0].func.attr == 'format'
					or isfunc(project, _Frame(f), dotted(args[0].func), ESC)):
				res.finding('template', fid, f.loc(a), 'backslashes in words'
						' are interpreted as part of the replacement')
			if len(args) > 2 or any(k.arg == 'count' for k in a.keywords):
				n = args[2] if len(args) > 2 else next(k.value
						for k in a.keywords if k.arg == 'count')
				if not (isinstance(n, ast.Constant) and n.value == 0):
					res.finding('pattern', fid + ' count', f.loc(a), 'not all'
							' indices are replaced by words')
			if pat is None or pat.error:
				continue
			try:
				ok = Lang(pat, pat.tree).accepts(' ', lambda c: c in
						'0123456789', ')')
			except regex.TooBig:
				ok = True
			if not ok:
				# the context may be part of an assertion
				asserts = any(op in (sre.ASSERT, sre.ASSERT_NOT)
						for op, _ in pat.tree)
				if not asserts:
					res.finding('pattern', fid, f.loc(a), '%r does not match'
							' every index' % pat.text)
	for fid in READERS:
		f = project.func(fid)
		for a in ast.walk(f.node):
			if not (isinstance(a, ast.Call) and isinstance(a.func,
					ast.Attribute) and a.func.attr in ('findall', 'finditer')):
				continue
			pat, args = pattern(project, pats, f, a)
			if pat is None or pat.error or pat.groups != 1:
				continue
			tree = regex.subtree(pat.tree, 1)
			if tree is None:
				continue
			res.count('patterns')
			try:
				ok = Lang(pat, tree).accepts('', word, '')
			except regex.TooBig:
				ok = True
			if not ok:
				res.finding('pattern', fid, f.loc(a), '%r does not match every'
						' token' % pat.text)


# -- applied where needed
def isfunc(project, frame, name, which):
	if not name:
		return False
	r = project.resolve_name(frame.f.module, name, frame.f)
	return isinstance(r, Func) and r.id in which


def writers(project, res):
	for fid in WRITERS:
		f = project.func(fid)
		if f is None:
			raise AnalysisBroken('%s not found' % fid)
		if 'sent' not in f.params:
			raise AnalysisBroken('%s has no parameter sent' % fid)
		n = []

		def sanitize(frame, node, name, tags):
			if isfunc(project, frame, name, ESC):
				n.append(node)
				textof(res, frame.f, node, False)
				return NONE
			return None

		t = Taint(project, None, sanitize)
		tags, _ = t.run(f, {'sent': frozenset([('word', f.loc())])})
		res.count('writers')
		res.count('escaped tokens', len({id(a) for a in n}))
		if tags:
			res.finding('unescaped', fid, f.loc(), 'words of the sentence'
					' reach the output without escape()')
		if not n:
			res.finding('unescaped', fid + ' words', f.loc(), 'no words are'
					' escaped')


def readers(project, res):
	"""Tokens in the sentence that is returned have been unescaped."""
	for fid in READERS:
		f = project.func(fid)
		if f is None:
			raise AnalysisBroken('%s not found' % fid)
		params = [p for p in f.posparams if not (f.is_method
				and p == f.posparams[0])]
		n = []

		def sanitize(frame, node, name, tags):
			if isfunc(project, frame, name, UNESC):
				n.append(node)
				textof(res, frame.f, node, True)
				filtered(res, frame.f, node)
				return NONE
			return None

		results = []

		def onexpr(frame, node, tags):
			if frame.f is f and id(node) in returned:
				results.append((node, tags))

		# the expression of the sentence in each result
		returned = {}
		for st in own_nodes(f.node):
			if isinstance(st, ast.Return) and st.value is not None:
				v = st.value
				elts = (v.elts if isinstance(v, ast.Tuple) else v.args
						if isinstance(v, ast.Call) else [])
				kw = {k.arg: k.value for k in getattr(v, 'keywords', ())}
				if len(elts) >= 2:
					returned[id(elts[1])] = elts[1]
				elif 'sent' in kw:
					returned[id(kw['sent'])] = kw['sent']
				elif isinstance(v, ast.Call):
					continue  # delegated
				elif isinstance(v, ast.Name):
					# a local variable assigned a tuple or Item
					vals = [a.value for a in own_nodes(f.node) if isinstance(
							a, ast.Assign) and any(isinstance(t, ast.Name)
							and t.id == v.id for t in a.targets)]
					for a in vals:
						e = (a.elts if isinstance(a, ast.Tuple) else a.args
								if isinstance(a, ast.Call) else [])
						if len(e) >= 2:
							returned[id(e[1])] = e[1]
		if not returned:
			delegates = [project.resolve_name(f.module, dotted(a.func), f)
					for a in own_nodes(f.node) if isinstance(a, ast.Call)
					and dotted(a.func)]
			if any(isinstance(r, Func) and r.id in READERS
					for r in delegates):
				res.count('readers')
				continue
			raise AnalysisBroken('cannot find the sentence in the result of'
					' %s' % fid)
		def follow(g):
			return g.id not in TREEPARSE and g.name != 'parse'

		t = Taint(project, None, sanitize, follow=follow)
		t.onexpr = onexpr
		t.run(f, {p: frozenset([('text', f.loc())]) for p in params})
		res.count('readers')
		res.count('unescaped tokens', len({id(a) for a in n}))
		for node, tags in results:
			if tags:
				res.finding('not-unescaped', fid, f.loc(node), 'tokens from'
						' the input end up in the sentence without'
						' unescape()')
		if not n:
			res.finding('not-unescaped', fid + ' tokens', f.loc(),
					'no tokens are unescaped')


TREEPARSE = {'discodop.tree.Tree.parse'}


def check(project, res, tier):
	res.rule('escape functions are reduced to sequences of replacements under'
			' conditions on the token, of which the inverse must be present;'
			' words flow to bracket output only through escape functions, and'
			' from input to sentences only through unescape functions, unchanged;'
			' regular expressions that locate words match every word')
	res.assume('tokens do not themselves contain escape sequences such as'
			' #LRB#')
	markers = frontiermarkers(project)
	for a, b in PAIRS:
		inverse(project, res, a, b, markers)
	writers(project, res)
	readers(project, res)
	patterns(project, res)
	res.require('replacements', 4)
	res.require('writers', 2)
	res.require('readers', 4)
