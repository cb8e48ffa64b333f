"""Abstract execution with a few known values.

Values: ('const', v), OTHER (a string different from every constant in the
program), ('seq', [values]) , ('obj', {attr: value}), TOP.  The result of
running a function is the set of possible ways to leave it; a branch is
taken whenever its condition is not known to be false, so that an outcome
which is not reported is impossible."""
import ast
from .project import Func, Class, dotted

TOP = ('top', )
OTHER = ('other', )
MUTATORS = {'add', 'append', 'extend', 'insert', 'update', 'setdefault',
		'pop', 'popitem', 'remove', 'discard', 'clear', 'sort', 'reverse'}
EXIT = {'sys.exit', 'exit', 'quit', 'os._exit', 'os.abort', 'sysexit'}


def const(v):
	return ('const', v)


def truth(v):
	if v[0] == 'const':
		return bool(v[1])
	if v is OTHER or v[0] == 'other':
		return True
	if v[0] == 'seq':
		return bool(v[1])
	if v[0] in ('obj', 'func'):
		return True
	return None


def join(a, b):
	if a == b:
		return a
	if a[0] == b[0] == 'obj':
		d = {k: join(a[1][k], b[1][k]) for k in a[1]
				if k in b[1] and k != '__open__'}
		d['__open__'] = True
		return ('obj', d)
	if a[0] == b[0] == 'seq' and len(a[1]) == len(b[1]):
		return ('seq', [join(x, y) for x, y in zip(a[1], b[1])])
	return TOP


def joinenv(a, b):
	if a is None:
		return b
	if b is None:
		return a
	return {k: join(a[k], b[k]) for k in a if k in b}


def equal(a, b):
	"""True, False, or None if unknown."""
	if a == TOP or b == TOP:
		return None
	if a[0] == 'other' or b[0] == 'other':
		# OTHER is some string which is not a constant in the program
		return None if a[0] == b[0] else False
	if a[0] == 'const' and b[0] == 'const':
		return type(a[1]) is type(b[1]) and a[1] == b[1] or (
				a[1] == b[1] and isinstance(a[1], (int, float, bool))
				and isinstance(b[1], (int, float, bool)))
	if a[0] == b[0] == 'seq':
		if len(a[1]) != len(b[1]):
			return False
		res = [equal(x, y) for x, y in zip(a[1], b[1])]
		return False if False in res else None if None in res else True
	if a[0] != b[0]:
		if 'const' in (a[0], b[0]) or 'other' in (a[0], b[0]):
			return False
		return False if 'obj' not in (a[0], b[0]) else None
	return None


class State:
	def __init__(self, env):
		self.env = env


class Interp:
	def __init__(self, project, maxdepth=6):
		self.project, self.maxdepth = project, maxdepth
		self.hits = set()  # constants that compared equal
		self.steps = 0
		self.results = {}  # values of external calls

	# -- entry points
	def run(self, func, env, depth=0):
		"""Return (set of outcomes, value).

		:param env: values of parameters; others unknown (defaults are not
			used for parameters that are not mentioned).
		outcomes: 'return', 'raise'."""
		self.steps = 0 if depth == 0 else self.steps
		frame = Frame(self, func, depth)
		e = {}
		for p in func.params:
			e[p] = TOP
		e.update(env)
		if isinstance(func.node, ast.Lambda):
			v = frame.expr(func.node.body, e)
			return ({'raise'} if v is None else {'return'}), v or TOP
		end = frame.block(func.node.body, e)
		out = set(frame.outcomes)
		val = frame.value
		if end is not None:
			out.add('return')
			val = const(None) if val is None else join(val, const(None))
		return out, TOP if val is None else val


class Frame:
	def __init__(self, interp, func, depth):
		self.i, self.f, self.depth = interp, func, depth
		self.outcomes, self.value = set(), None
		self.loops = []
		self.handlers = []

	# -- statements; return env after, or None
	def block(self, body, env):
		for st in body:
			if env is None:
				return None
			env = self.stmt(st, env)
		return env

	def raised(self, env):
		if self.handlers:
			self.handlers[-1].append(env)
		else:
			self.outcomes.add('raise')

	def stmt(self, st, env):
		self.i.steps += 1
		if self.i.steps > 200000:
			raise RecursionError('too many steps')
		if isinstance(st, ast.If):
			t = self.test(st.test, env)
			if t == 'raise':
				return None
			a = b = None
			if t is not False:
				a = self.block(st.body, self.refine(st.test, dict(env),
						True))
			if t is not True:
				b = self.block(st.orelse, self.refine(st.test, dict(env),
						False))
			return joinenv(a, b)
		if isinstance(st, ast.Raise):
			self.raised(env)
			return None
		if isinstance(st, ast.Return):
			v = const(None) if st.value is None else self.expr(st.value, env)
			if v is None:
				return None
			self.outcomes.add('return')
			self.value = v if self.value is None else join(self.value, v)
			return None
		if isinstance(st, ast.Assert):
			t = self.test(st.test, env)
			if t is not True and t != 'raise':
				self.raised(env)
			return None if t in (False, 'raise') else env
		if isinstance(st, ast.Expr):
			v = self.expr(st.value, env)
			return None if v is None else env
		if isinstance(st, ast.Assign):
			v = self.expr(st.value, env)
			if v is None:
				return None
			env = dict(env)
			for t in st.targets:
				self.bind(t, v, env)
			return env
		if isinstance(st, ast.AnnAssign):
			v = TOP if st.value is None else self.expr(st.value, env)
			if v is None:
				return None
			env = dict(env)
			self.bind(st.target, v, env)
			return env
		if isinstance(st, ast.AugAssign):
			v = self.expr(st.value, env)
			if v is None:
				return None
			env = dict(env)
			if isinstance(st.target, ast.Name):
				v = self.e_BinOp(ast.BinOp(ast.Name(st.target.id, ast.Load()),
						st.op, st.value), env) or TOP
			else:
				v = TOP
			self.bind(st.target, v, env)
			return env
		if isinstance(st, (ast.For, ast.AsyncFor)):
			return self.loop_for(st, env)
		if isinstance(st, ast.While):
			return self.loop_while(st, env)
		if isinstance(st, (ast.With, ast.AsyncWith)):
			env = dict(env)
			for item in st.items:
				v = self.expr(item.context_expr, env)
				if v is None:
					return None
				if item.optional_vars is not None:
					self.bind(item.optional_vars, TOP, env)
			return self.block(st.body, env)
		if isinstance(st, ast.Try):
			return self.try_(st, env)
		if isinstance(st, ast.Break):
			self.loops[-1][0].append(env)
			return None
		if isinstance(st, ast.Continue):
			self.loops[-1][1].append(env)
			return None
		if isinstance(st, (ast.FunctionDef, ast.ClassDef,
				ast.AsyncFunctionDef)):
			env = dict(env)
			env.pop(st.name, None)
			return env
		if isinstance(st, ast.Delete):
			env = dict(env)
			for t in st.targets:
				self.forget(dotted(t) or '?', env)
			return env
		if hasattr(ast, 'Match') and isinstance(st, ast.Match):
			return self.match(st, env)
		return env

	def match(self, st, env):
		v = self.expr(st.subject, env)
		if v is None:
			return None
		res, open_ = None, True
		for case in st.cases:
			t = self.pattern(case.pattern, v)
			if t is True and case.guard is not None:
				t = None
			if t is not False and open_:
				e = dict(env)
				for n in ast.walk(case.pattern):
					for fld in ('name', 'rest'):
						nm = getattr(n, fld, None)
						if isinstance(nm, str):
							e[nm] = v if n is case.pattern else TOP
				res = joinenv(res, self.block(case.body, e))
			if t is True:
				open_ = False
		return joinenv(res, env if open_ else None)

	def pattern(self, p, v):
		if isinstance(p, ast.MatchValue):
			return equal(v, self.expr(p.value, {}) or TOP)
		if isinstance(p, ast.MatchSingleton):
			return equal(v, const(p.value))
		if isinstance(p, ast.MatchOr):
			res = [self.pattern(a, v) for a in p.patterns]
			return True if True in res else None if None in res else False
		if isinstance(p, ast.MatchAs) and p.pattern is None:
			return True
		return None

	def assigned(self, body, env):
		"""Forget everything that is assigned in a loop body."""
		env = dict(env)
		for st in body:
			for n in ast.walk(st):
				if isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)
						) and isinstance(n.ctx, (ast.Store, ast.Del)):
					self.forget(dotted(n) or '?', env)
		return env

	def loop_for(self, st, env):
		it = self.expr(st.iter, env)
		if it is None:
			return None
		if it[0] == 'obj' and not it[1].get('__open__'):
			it = ('seq', [const(k) for k in it[1]])
		if it[0] == 'seq':
			cur, done = env, None
			for v in it[1]:
				self.loops.append(([], []))
				e = dict(cur)
				self.bind(st.target, v, e)
				after = self.block(st.body, e)
				brk, cont = self.loops.pop()
				for x in brk:
					done = joinenv(done, x)
				for x in cont:
					after = joinenv(after, x)
				cur = after
				if cur is None:
					break
			if cur is not None:
				cur = self.block(st.orelse, cur)
			return joinenv(cur, done)
		base = self.assigned(st.body, env)
		self.loops.append(([], []))
		e = dict(base)
		self.bind(st.target, TOP, e)
		after = self.block(st.body, e)
		brk, cont = self.loops.pop()
		for x in cont:
			after = joinenv(after, x)
		res = joinenv(base, after)
		if res is not None:
			res = self.block(st.orelse, res)
		for x in brk:
			res = joinenv(res, x)
		return res

	def loop_while(self, st, env):
		# unroll as long as the condition is known
		done = None
		for _ in range(100):
			t = self.test(st.test, env)
			if t is not True or isinstance(st.test, ast.Constant):
				break
			self.loops.append(([], []))
			after = self.block(st.body, dict(env))
			brk, cont = self.loops.pop()
			for x in brk:
				done = joinenv(done, x)
			for x in cont:
				after = joinenv(after, x)
			if after is None:
				return done
			env = after
		return joinenv(self.loop_while1(st, env), done)

	def loop_while1(self, st, env):
		base = self.assigned(st.body, env)
		t = self.test(st.test, env)
		if t == 'raise':
			return None
		if t is False:
			return self.block(st.orelse, env)
		forever = isinstance(st.test, ast.Constant) and st.test.value
		self.loops.append(([], []))
		after = self.block(st.body, dict(base))
		brk, cont = self.loops.pop()
		res = None if forever else base
		if not forever:
			for x in cont:
				res = joinenv(res, x)
			res = joinenv(res, after)
			if res is not None:
				res = self.block(st.orelse, res)
		for x in brk:
			res = joinenv(res, x)
		return res

	def try_(self, st, env):
		catching = [h for h in st.handlers]
		collected = []
		if catching:
			self.handlers.append(collected)
		after = self.block(st.body, env)
		if catching:
			self.handlers.pop()
		if after is not None:
			after = self.block(st.orelse, after)
		res = after
		# any statement may raise
		start = self.assigned(st.body, env)
		for x in collected:
			start = joinenv(start, x)
		for h in catching:
			e = dict(start)
			if h.name:
				e[h.name] = TOP
			res = joinenv(res, self.block(h.body, e))
		if catching and collected:
			# may be another kind of exception
			names = {dotted(h.type) if h.type is not None else ''
					for h in catching}
			if not names & {'', 'Exception', 'BaseException'}:
				self.raised(env)
		if st.finalbody:
			if res is None:
				self.block(st.finalbody, dict(start))
				return None
			return self.block(st.finalbody, res)
		return res

	# -- bindings
	def forget(self, name, env):
		for k in list(env):
			if k == name or k.startswith(name + '.') or k.startswith(
					name + '['):
				if '.' in k or k not in self.f.params:
					env[k] = TOP
				else:
					env[k] = TOP

	def bind(self, t, v, env):
		if isinstance(t, ast.Name):
			self.forget(t.id, env)
			env[t.id] = v
		elif isinstance(t, (ast.Tuple, ast.List)):
			if v[0] == 'seq' and len(v[1]) == len(t.elts) and not any(
					isinstance(a, ast.Starred) for a in t.elts):
				for a, b in zip(t.elts, v[1]):
					self.bind(a, b, env)
			else:
				for a in t.elts:
					self.bind(a, TOP, env)
		elif isinstance(t, ast.Starred):
			self.bind(t.value, TOP, env)
		elif isinstance(t, ast.Attribute):
			name = dotted(t)
			if name:
				self.forget(name, env)
				env[name] = v
				base, _, attr = name.rpartition('.')
				if env.get(base, TOP)[0] == 'obj':
					d = dict(env[base][1])
					d[attr] = v
					env[base] = ('obj', d)
		elif isinstance(t, ast.Subscript):
			base = dotted(t.value)
			if base and env.get(base, TOP)[0] == 'obj':
				d = dict(env[base][1])
				k = self.expr(t.slice, env)
				if k is not None and k[0] == 'const':
					d[k[1]] = v
					env[base] = ('obj', d)
				else:
					env[base] = TOP
			elif base and env.get(base, TOP)[0] == 'seq':
				env[base] = TOP

	# -- expressions; None means an exception was raised for certain
	def test(self, node, env):
		v = self.expr(node, env)
		if v is None:
			return 'raise'
		return truth(v)

	def refine(self, node, env, pos):
		return env

	def expr(self, node, env):
		m = getattr(self, 'e_' + type(node).__name__, None)
		if m is not None:
			return m(node, env)
		for ch in ast.iter_child_nodes(node):
			if isinstance(ch, ast.expr) and not isinstance(node, (
					ast.Lambda, ast.Yield, ast.YieldFrom, ast.ListComp,
					ast.SetComp, ast.DictComp, ast.GeneratorExp)):
				if self.expr(ch, env) is None:
					return None
		return TOP

	def e_Constant(self, node, env):
		return const(node.value)

	def e_Name(self, node, env):
		if node.id in env:
			return env[node.id]
		if node.id in self.f.locals:
			return TOP
		g = self.f.parent
		while g is not None:
			if node.id in g.locals:
				return TOP
			g = g.parent
		v = self.glob(self.f.module, node.id)
		if v == TOP and not isinstance(self.f, _Mod):
			r = self.i.project.resolve_name(self.f.module, node.id, self.f)
			if isinstance(r, Func):
				return ('func', r)
		return v

	def glob(self, module, name, depth=0):
		"""Value of a module-level constant."""
		if depth > 5:
			return TOP
		imp = module.imports.get(name)
		if imp is not None and imp[0] == 'attr':
			mod = self.i.project.modules.get(imp[1])
			return self.glob(mod, imp[2], depth + 1) if mod else TOP
		defs = module.globals.get(name, [])
		if len(defs) == 1 and not self.mutated(module, name) and isinstance(defs[0], (ast.Constant, ast.Tuple,
				ast.List, ast.Set, ast.Dict, ast.Call, ast.BinOp,
				ast.DictComp, ast.ListComp, ast.SetComp)):
			key = (module.name, name)
			cache = self.i.__dict__.setdefault('globcache', {})
			if key not in cache:
				cache[key] = TOP
				fr = Frame(self.i, _Mod(module), self.depth + 1)
				v = fr.expr(defs[0], {}) if not isinstance(defs[0], ast.Call
						) or dotted(defs[0].func) in ('set', 'frozenset',
						'tuple', 'list', 'OrderedDict', 'dict') or isinstance(
						self.i.project.resolve_name(module, dotted(
						defs[0].func) or '?'), Func) or (
						isinstance(defs[0].func, ast.Attribute)
						and defs[0].func.attr in ('split', 'union')) else TOP
				cache[key] = v or TOP
			return cache[key]
		return TOP

	def mutated(self, module, name):
		"""Whether a module-level value may be modified."""
		cache = self.i.project.__dict__.setdefault('mutcache', {})
		if not cache:
			cache[None] = True
			for m in self.i.project.modules.values():
				for n in ast.walk(m.tree):
					base = None
					if isinstance(n, ast.Global):
						for a in n.names:
							cache[m.name, a] = True
					elif isinstance(n, ast.Call) and isinstance(n.func,
							ast.Attribute) and n.func.attr in MUTATORS:
						base = n.func.value
					elif isinstance(n, ast.Subscript) and isinstance(
							n.ctx, (ast.Store, ast.Del)):
						base = n.value
					if base is not None and dotted(base):
						# any module that uses this name
						cache[dotted(base).split('.')[-1]] = True
		return (module.name, name) in cache or name in cache

	def e_Attribute(self, node, env):
		name = dotted(node)
		if name and name in env:
			return env[name]
		v = self.expr(node.value, env)
		if v is None:
			return None
		if v[0] == 'obj':
			return v[1].get(node.attr, TOP)
		if name:
			r = self.i.project.resolve_name(self.f.module, name,
					None if isinstance(self.f, _Mod) else self.f)
			if isinstance(r, tuple) and r[0] == 'global':
				return self.glob(self.i.project.modules[r[1]], r[2])
		return TOP

	def seq(self, elts, env):
		res = []
		for a in elts:
			if isinstance(a, ast.Starred):
				v = self.expr(a.value, env)
				if v is None:
					return None
				if v[0] != 'seq':
					return TOP
				res.extend(v[1])
				continue
			v = self.expr(a, env)
			if v is None:
				return None
			res.append(v)
		return ('seq', res)

	def e_Tuple(self, node, env):
		return self.seq(node.elts, env)

	e_List = e_Set = e_Tuple

	def e_Dict(self, node, env):
		d = {}
		for k, v in zip(node.keys, node.values):
			if k is None:
				extra = self.expr(v, env)
				if extra is None or extra[0] != 'obj' or extra[1].get(
						'__open__'):
					return extra and TOP
				d.update(extra[1])
				continue
			kv = self.expr(k, env)
			if kv is None:
				return None
			if kv[0] != 'const':
				return TOP
			try:
				d[kv[1]] = self.expr(v, env) or TOP
			except TypeError:
				return TOP
		return ('obj', d)

	def e_IfExp(self, node, env):
		t = self.test(node.test, env)
		if t == 'raise':
			return None
		if t is not None:
			return self.expr(node.body if t else node.orelse, env)
		a, b = self.expr(node.body, env), self.expr(node.orelse, env)
		if a is None or b is None:
			return a or b
		return join(a, b)

	def e_BoolOp(self, node, env):
		isand = isinstance(node.op, ast.And)
		res = None
		for n, a in enumerate(node.values):
			v = self.expr(a, env)
			if v is None:
				return None if n == 0 else TOP
			t = truth(v)
			last = n == len(node.values) - 1
			if t is None:
				res = TOP
				continue
			if last or t != isand:
				if res is None:
					return v
				# earlier operands unknown: result false (and) if this is
				return v if last and False else (
						const(False) if isand and t is False
						else const(True) if not isand and t is True
						else TOP)
		return TOP if res is None else res

	def e_UnaryOp(self, node, env):
		v = self.expr(node.operand, env)
		if v is None:
			return None
		if isinstance(node.op, ast.Not):
			t = truth(v)
			return TOP if t is None else const(not t)
		if isinstance(node.op, ast.USub) and v[0] == 'const' and isinstance(
				v[1], (int, float)):
			return const(-v[1])
		return TOP

	def e_BinOp(self, node, env):
		a, b = self.expr(node.left, env), self.expr(node.right, env)
		if a is None or b is None:
			return None
		if isinstance(node.op, (ast.Add, ast.BitOr)) and (
				a[0] == b[0] == 'seq'):
			return ('seq', a[1] + b[1])
		if isinstance(node.op, ast.Sub) and a[0] == b[0] == 'seq' and all(
				x[0] == 'const' for x in a[1] + b[1]):
			return ('seq', [x for x in a[1] if x not in b[1]])
		if isinstance(node.op, ast.Add) and a[0] == b[0] == 'const' and (
				type(a[1]) is type(b[1])) and isinstance(a[1], (str, int)):
			return const(a[1] + b[1])
		if isinstance(node.op, ast.Add) and 'other' in (a[0], b[0]):
			return OTHER if {a[0], b[0]} <= {'other', 'const'} else TOP
		return TOP

	def e_Compare(self, node, env):
		vals = [self.expr(a, env) for a in [node.left] + node.comparators]
		if None in vals:
			return None
		res = True
		for op, a, b in zip(node.ops, vals, vals[1:]):
			t = self.compare(op, a, b)
			if t is False:
				return const(False)
			if t is None:
				res = None
		return TOP if res is None else const(True)

	def compare(self, op, a, b):
		if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
			t = equal(a, b)
			if t is True and a[0] == 'const':
				self.i.hits.add(a[1] if not isinstance(a[1], list) else None)
			if isinstance(op, (ast.Is, ast.IsNot)) and t is True and (
					a[0] == 'const' and a[1] not in (None, True, False)):
				t = None
			if t is None:
				return None
			return t if isinstance(op, (ast.Eq, ast.Is)) else not t
		if isinstance(op, (ast.In, ast.NotIn)):
			if b[0] == 'seq':
				res = [equal(a, x) for x in b[1]]
			elif b[0] == 'obj':
				res = [equal(a, const(x)) for x in b[1] if x != '__open__']
				if b[1].get('__open__'):
					res.append(None)
			elif b[0] == 'const' and isinstance(b[1], str) and (
					a[0] == 'const') and isinstance(a[1], str):
				res = [a[1] in b[1]]
			elif b[0] == 'const' and isinstance(b[1], str) and (
					a[0] == 'other'):
				res = [False]
			else:
				return None
			if True in res and a[0] == 'const':
				self.i.hits.add(a[1])
			t = True if True in res else None if None in res else False
			if t is None:
				return None
			return t if isinstance(op, ast.In) else not t
		if a[0] == b[0] == 'const':
			try:
				return {ast.Lt: a[1] < b[1], ast.LtE: a[1] <= b[1],
						ast.Gt: a[1] > b[1], ast.GtE: a[1] >= b[1]}[type(op)]
			except (TypeError, KeyError):
				return None
		return None

	def e_Subscript(self, node, env):
		base = self.expr(node.value, env)
		idx = self.expr(node.slice, env)
		if base is None or idx is None:
			return None
		if base[0] == 'obj':
			if idx[0] == 'const':
				if idx[1] in base[1]:
					self.i.hits.add(idx[1])
					return base[1][idx[1]]
				if not base[1].get('__open__'):
					self.raised(env)
					return None
			elif idx[0] == 'other' and not base[1].get('__open__'):
				self.raised(env)
				return None
		if base[0] == 'seq' and idx[0] == 'const' and isinstance(
				idx[1], int) and -len(base[1]) <= idx[1] < len(base[1]):
			return base[1][idx[1]]
		return TOP

	def e_JoinedStr(self, node, env):
		return TOP

	def e_NamedExpr(self, node, env):
		v = self.expr(node.value, env)
		if v is not None:
			env[node.target.id] = v
		return v

	def e_Lambda(self, node, env):
		return TOP

	def comp(self, node, env):
		"""Comprehension over a known sequence."""
		if len(node.generators) != 1:
			return TOP
		g = node.generators[0]
		it = self.expr(g.iter, env)
		if it is None:
			return None
		if it[0] == 'obj' and not it[1].get('__open__'):
			it = ('seq', [const(k) for k in it[1]])
		if it[0] != 'seq':
			return TOP
		res = []
		for v in it[1]:
			e = dict(env)
			self.bind(g.target, v, e)
			keep = True
			for c in g.ifs:
				t = self.test(c, e)
				if t is False:
					keep = False
				elif t is not True:
					return TOP
			if keep:
				x = self.expr(node.elt, e)
				if x is None:
					return None
				res.append(x)
		return ('seq', res)

	def e_ListComp(self, node, env):
		return self.comp(node, env)

	e_SetComp = e_GeneratorExp = e_ListComp

	def e_DictComp(self, node, env):
		if len(node.generators) != 1:
			return TOP
		pairs = ast.copy_location(ast.ListComp(ast.Tuple([node.key,
				node.value], ast.Load()), node.generators), node)
		v = self.comp(pairs, env)
		if v is None or v == TOP:
			return v
		if all(a[1][0][0] == 'const' for a in v[1]):
			return ('obj', {a[1][0][1]: a[1][1] for a in v[1]})
		return TOP

	def e_Call(self, node, env):
		name = dotted(node.func)
		args = []
		for a in node.args:
			v = self.expr(a.value if isinstance(a, ast.Starred) else a, env)
			if v is None:
				return None
			args.append(TOP if isinstance(a, ast.Starred) else v)
		kw = {}
		for k in node.keywords:
			v = self.expr(k.value, env)
			if v is None:
				return None
			if k.arg:
				kw[k.arg] = v
		f = None if isinstance(self.f, _Mod) else self.f
		r = self.i.project.resolve_name(self.f.module, name, f
				) if name else None
		if not isinstance(r, (Func, Class)) and isinstance(node.func, (
				ast.Name, ast.Subscript, ast.IfExp)):
			v = self.expr(node.func, env)
			if v is None:
				return None
			if v[0] == 'func':
				r = v[1]
		if name in EXIT or (isinstance(r, tuple) and r[0] == 'ext'
				and r[1] in EXIT):
			self.raised(env)
			return None
		bound = False
		recv = None
		if r is None and isinstance(node.func, ast.Attribute):
			recv = self.expr(node.func.value, env)
			if recv is None:
				return None
			v = self.method(recv, node.func.attr, args, kw, env)
			if v is not None:
				return v if v != 'raise' else None
			# method of self
			g = self.f
			if isinstance(node.func.value, ast.Name) and getattr(
					g, 'cls', None) is not None and g.posparams and (
					node.func.value.id == g.posparams[0]):
				r = g.cls.find(node.func.attr)
				bound = r is None or not static(r)
		if isinstance(r, tuple) and r[0] == 'ext':
			return self.builtin(r[1], args, kw, node, env)
		if isinstance(r, Class):
			cls, r, bound = r, r.find('__init__'), True
			if r is None:
				return TOP
			if len(args) == 1 and args[0][0] == 'obj' and not kw and any(
					isinstance(n, ast.Attribute) and n.attr == '__dict__'
					for n in ast.walk(cls.node)):
				return args[0]  # a dictionary used as attributes
			out = self.call(r, args, kw, True, {}, node, env)
			return None if out is None else TOP
		if isinstance(r, Func):
			selfenv = {}
			if bound:
				me = self.f.posparams[0]
				selfenv = {k: v for k, v in env.items()
						if k.startswith(me + '.')}
			return self.call(r, args, kw, bound, selfenv, node, env)
		return TOP

	def call(self, r, args, kw, bound, selfenv, node, env):
		interesting = any(self.known(v) for v in args + list(kw.values())
				) or selfenv or isinstance(self.f, _Mod)
		if not interesting or self.depth >= self.i.maxdepth or (
				r.node is None):
			return TOP
		if any(isinstance(a, ast.Starred) for a in node.args):
			return TOP
		if isinstance(r.node, ast.FunctionDef) and any(
				isinstance(n, (ast.Yield, ast.YieldFrom))
				for n in ast.walk(r.node)):
			return TOP
		e = {}
		pos = list(r.posparams)
		if bound and pos:
			me = pos.pop(0)
			if selfenv:
				old = self.f.posparams[0]
				e.update({me + k[len(old):]: v for k, v in selfenv.items()})
		for p, v in zip(pos, args):
			e[p] = v
		for k, v in kw.items():
			e[k] = v
		given = set(e)
		for p, d in r.defaults.items():
			if p not in given and not any(k.arg is None
					for k in node.keywords):
				e[p] = self.expr(d, {}) or TOP if isinstance(d, (
						ast.Constant, ast.Tuple)) else TOP
		try:
			out, val = self.i.run(r, e, self.depth + 1)
		except RecursionError:
			return TOP
		if 'raise' in out:
			self.raised(env)
		if 'return' not in out:
			return None
		return val

	@staticmethod
	def known(v):
		return v[0] == 'other' or v[0] == 'obj' or (
				v[0] == 'seq' and any(x[0] == 'other' for x in v[1])) or (
				v[0] == 'const' and isinstance(v[1], str))

	def method(self, recv, attr, args, kw, env):
		if recv[0] == 'obj':
			d = recv[1]
			if attr == 'get' and args:
				if args[0][0] == 'const':
					if args[0][1] in d:
						self.i.hits.add(args[0][1])
						return d[args[0][1]]
					if d.get('__open__'):
						return TOP
					return args[1] if len(args) > 1 else const(None)
				if args[0][0] == 'other' and not d.get('__open__'):
					return args[1] if len(args) > 1 else const(None)
				return TOP
			if attr == 'keys':
				return ('seq', [const(k) for k in d])
			if attr == 'items':
				return ('seq', [('seq', [const(k), v])
						for k, v in d.items()])
			return TOP
		if recv[0] == 'other':
			if attr in ('lower', 'upper', 'strip', 'title', 'lstrip',
					'rstrip', 'casefold'):
				return OTHER
			if attr == 'split':
				return ('seq', [OTHER])
			return TOP
		if recv[0] == 'const' and isinstance(recv[1], str):
			if all(a[0] == 'const' for a in args) and attr in ('lower',
					'upper', 'strip', 'startswith', 'endswith', 'split',
					'title', 'lstrip', 'rstrip', 'replace'):
				try:
					v = getattr(recv[1], attr)(*[a[1] for a in args])
				except Exception:
					return TOP
				if isinstance(v, list):
					return ('seq', [const(x) for x in v])
				return const(v)
			return TOP
		if recv[0] == 'seq' and attr in ('copy', 'union'):
			if attr == 'union' and all(a[0] == 'seq' for a in args):
				return ('seq', recv[1] + [x for a in args for x in a[1]])
			return recv if attr == 'copy' else TOP
		return None

	def builtin(self, name, args, kw, node, env):
		if name in self.i.results:
			return self.i.results[name]
		if name == 'len' and len(args) == 1:
			return const(len(args[0][1])) if args[0][0] == 'seq' else TOP
		if name in ('set', 'frozenset', 'tuple', 'list', 'sorted',
				'reversed', 'iter') and len(args) == 1:
			if args[0][0] == 'seq':
				return args[0] if name != 'reversed' else (
						'seq', args[0][1][::-1])
			if args[0][0] == 'obj' and not args[0][1].get('__open__'):
				return ('seq', [const(k) for k in args[0][1]])
			return TOP
		if name in ('set', 'list', 'dict', 'tuple') and not args and not kw:
			return ('seq', []) if name != 'dict' else TOP
		if name in ('collections.OrderedDict', 'dict'):
			if len(args) == 1 and args[0][0] == 'obj':
				return args[0]
			if not args and kw and name == 'dict':
				return ('obj', dict(kw))
			if len(args) == 1 and args[0][0] == 'seq' and all(
					a[0] == 'seq' and len(a[1]) == 2
					and a[1][0][0] == 'const' for a in args[0][1]):
				return ('obj', {a[1][0][1]: a[1][1] for a in args[0][1]})
			return TOP
		if name == 'str' and len(args) == 1 and args[0][0] in (
				'other', 'const'):
			return args[0] if args[0][0] == 'other' else TOP
		if name == 'bool' and len(args) == 1:
			t = truth(args[0])
			return TOP if t is None else const(t)
		if name in ('any', 'all') and args and args[0][0] == 'seq':
			res = [truth(a) for a in args[0][1]]
			if name == 'any':
				return const(True) if True in res else (
						TOP if None in res else const(False))
			return const(False) if False in res else (
					TOP if None in res else const(True))
		if name == 'isinstance' and len(args) == 2 and args[0][0] in (
				'other', 'const'):
			t = dotted(node.args[1])
			if args[0][0] == 'other' and t in ('str', 'int', 'list', 'tuple',
					'dict', 'bytes', 'float'):
				return const(t == 'str')
		if name == 'isinstance' and len(args) == 2 and args[0][0] in (
				'obj', 'const'):
			t = dotted(node.args[1])
			if args[0][0] == 'obj' and t in ('str', 'int', 'list', 'tuple',
					'bytes', 'float'):
				return const(False)
			if args[0][0] == 'obj' and t == 'dict':
				return const(True)
			if args[0][0] == 'const' and t in ('str', 'int', 'list', 'tuple',
					'dict', 'bytes', 'float'):
				return const(isinstance(args[0][1], eval(t)))
		if name == 'enumerate' and len(args) == 1 and args[0][0] == 'seq':
			return ('seq', [('seq', [const(n), v])
					for n, v in enumerate(args[0][1])])
		if name == 'zip' and args and all(a[0] == 'seq' for a in args):
			return ('seq', [('seq', list(x)) for x in zip(
					*[a[1] for a in args])])
		return TOP


def static(func):
	return any(dotted(d) == 'staticmethod' for d in getattr(func.node,
			'decorator_list', ()))


class _Mod:
	"""Stands for module level code."""
	def __init__(self, module):
		self.module, self.locals, self.params = module, set(), []
		self.parent, self.cls, self.posparams = None, None, []
