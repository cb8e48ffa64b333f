"""Fold expressions of constants to a value, without running repository code.

Only literals, operators, comprehensions, and a fixed list of builtins of
Python on values that are known; names stand for module-level or local
variables that are assigned exactly once and not modified."""
import ast
import re
from .project import dotted
from .constprop import MUTATORS

FUNCS = {'dict': dict, 'set': set, 'frozenset': frozenset, 'tuple': tuple,
		'list': list, 'ord': ord, 'chr': chr, 'str': str, 'zip': zip,
		'sorted': sorted, 'enumerate': enumerate, 'len': len, 'map': None,
		'str.maketrans': str.maketrans, 'range': range, 'repr': repr,
		're.escape': re.escape, 'collections.OrderedDict': dict, 'int': int,
		're.compile': re.compile, 'types.MappingProxyType': dict}
METHODS = {'join', 'replace', 'split', 'strip', 'lower', 'upper', 'format',
		'items', 'keys', 'values', 'union', 'get', 'copy', 'encode', 'decode',
		'lstrip', 'rstrip', 'maketrans', 'rsplit', 'splitlines', 'group'}


class Unknown(Exception):
	"""Value of expression is not known."""


def mutated(project, modname, name):
	"""Whether the value of a global may be modified."""
	cache = project.__dict__.setdefault('cemutcache', {})
	if not cache:
		cache[None] = True
		for m in project.modules.values():
			for n in ast.walk(m.tree):
				base = None
				if isinstance(n, ast.Global):
					for a in n.names:
						cache[m.name, a] = True
				elif isinstance(n, ast.Call) and isinstance(n.func,
						ast.Attribute) and n.func.attr in MUTATORS:
					base = n.func.value
				elif isinstance(n, ast.Subscript) and isinstance(
						n.ctx, (ast.Store, ast.Del)):
					base = n.value
				if base is not None and dotted(base):
					cache[dotted(base).split('.')[-1]] = True
	return (modname, name) in cache or name in cache


def evaluate(project, func, node, env=None, depth=0, module=None):
	"""Return value of node in function func; raise Unknown."""
	module = module or func.module
	env = env or {}
	if depth > 12:
		raise Unknown

	def ev(n, e=None):
		return evaluate(project, func, n, env if e is None else e,
				depth + 1, module)

	def ext(n):
		name = dotted(n)
		if not name:
			return None
		r = project.resolve_name(module, name, func)
		if isinstance(r, tuple) and r[0] == 'ext':
			return r[1]
		return name if name.split('.')[0] in FUNCS and r is None else None

	try:
		if isinstance(node, ast.Constant):
			return node.value
		if isinstance(node, ast.Name) and node.id in env:
			return env[node.id]
		if isinstance(node, (ast.Name, ast.Attribute)):
			return variable(project, func, node, depth, module)
		if isinstance(node, ast.Tuple):
			return tuple(elts(node, ev))
		if isinstance(node, ast.List):
			return elts(node, ev)
		if isinstance(node, ast.Set):
			return set(elts(node, ev))
		if isinstance(node, ast.Dict):
			res = {}
			for k, v in zip(node.keys, node.values):
				if k is None:
					res.update(ev(v))
				else:
					res[ev(k)] = ev(v)
			return res
		if isinstance(node, ast.BinOp):
			a, b = ev(node.left), ev(node.right)
			if isinstance(node.op, ast.Add):
				return a + b
			if isinstance(node.op, ast.Mod) and isinstance(a, (str, bytes)):
				return a % b
			if isinstance(node.op, ast.Mult) and isinstance(b, int) and (
					0 <= b < 1000):
				return a * b
			if isinstance(node.op, ast.Mult) and isinstance(a, int) and (
					0 <= a < 1000):
				return a * b
			if isinstance(node.op, ast.BitOr) and not isinstance(a, bool):
				return a | b
			raise Unknown
		if isinstance(node, ast.JoinedStr):
			res = ''
			for a in node.values:
				if isinstance(a, ast.FormattedValue):
					if a.format_spec is not None or a.conversion not in (
							-1, 115):
						raise Unknown
					res += str(ev(a.value))
				else:
					res += a.value
			return res
		if isinstance(node, ast.Subscript):
			return ev(node.value)[slice(*(None if a is None else ev(a)
					for a in (node.slice.lower, node.slice.upper,
					node.slice.step))) if isinstance(node.slice, ast.Slice)
					else ev(node.slice)]
		if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
			res = [ev(node.elt, e) for e in gens(node.generators, env, ev)]
			return set(res) if isinstance(node, ast.SetComp) else res
		if isinstance(node, ast.DictComp):
			return {ev(node.key, e): ev(node.value, e)
					for e in gens(node.generators, env, ev)}
		if isinstance(node, ast.Call):
			args = elts(ast.List(node.args, ast.Load()), ev)
			kw = {}
			for k in node.keywords:
				if k.arg is None:
					kw.update(ev(k.value))
				else:
					kw[k.arg] = ev(k.value)
			name = ext(node.func)
			if name in FUNCS and FUNCS[name] is not None:
				return FUNCS[name](*args, **kw)
			if isinstance(node.func, ast.Attribute) and (
					node.func.attr in METHODS):
				obj = ev(node.func.value)
				if isinstance(obj, (str, bytes, dict, set, frozenset)):
					return getattr(obj, node.func.attr)(*args, **kw)
	except Unknown:
		raise
	except Exception as err:
		raise Unknown from err
	raise Unknown


def elts(node, ev):
	res = []
	for a in node.elts:
		if isinstance(a, ast.Starred):
			res.extend(ev(a.value))
		else:
			res.append(ev(a))
	return res


def gens(generators, env, ev):
	if not generators:
		yield env
		return
	g = generators[0]
	vals = ev(g.iter, env)
	if len(list(vals)) > 5000:
		raise Unknown
	for v in vals:
		e = dict(env)
		bind(g.target, v, e)
		if all(condition(c, e, ev) for c in g.ifs):
			yield from gens(generators[1:], e, ev)


def condition(node, env, ev):
	if isinstance(node, ast.Compare) and len(node.ops) == 1:
		a, b = ev(node.left, env), ev(node.comparators[0], env)
		for op, f in ((ast.In, lambda: a in b), (ast.NotIn,
				lambda: a not in b), (ast.Eq, lambda: a == b),
				(ast.NotEq, lambda: a != b)):
			if isinstance(node.ops[0], op):
				return f()
	raise Unknown


def bind(target, v, env):
	if isinstance(target, ast.Name):
		env[target.id] = v
	elif isinstance(target, (ast.Tuple, ast.List)):
		vals = list(v)
		if len(vals) != len(target.elts):
			raise Unknown
		for t, a in zip(target.elts, vals):
			bind(t, a, env)
	else:
		raise Unknown


def variable(project, func, node, depth, module):
	"""Value of a variable that is assigned once."""
	name = dotted(node)
	if not name:
		raise Unknown
	f = func
	while f is not None and '.' not in name:
		if name in f.params:
			raise Unknown
		if name in f.locals:
			defs = [n for n in ast.walk(f.node) if isinstance(n, ast.Name)
					and n.id == name and isinstance(n.ctx, (ast.Store,
					ast.Del))]
			assigns = [n for n in ast.walk(f.node) if isinstance(
					n, ast.Assign) and len(n.targets) == 1 and isinstance(
					n.targets[0], ast.Name) and n.targets[0].id == name]
			if len(defs) != 1 or len(assigns) != 1 or mutated(
					project, module.name, name):
				raise Unknown
			return evaluate(project, f, assigns[0].value, None, depth + 1)
		f = f.parent
	mod = module
	for _ in range(5):
		imp = mod.imports.get(name)
		if imp is not None and imp[0] == 'attr' and (
				imp[1] in project.modules):
			mod, name = project.modules[imp[1]], imp[2]
		else:
			break
	if '.' in name:
		r = project.resolve_name(mod, name, func)
		if isinstance(r, tuple) and r[0] == 'global' and (
				r[1] in project.modules):
			mod, name = project.modules[r[1]], r[2]
		else:
			cls = func.cls if func is not None else None
			base, _, attr = name.rpartition('.')
			if cls is not None and (base in ('self', 'cls') or
					base == cls.name) and not mutated(project, mod.name, attr):
				vals = [st.value for st in cls.node.body if isinstance(
						st, ast.Assign) and any(isinstance(t, ast.Name)
						and t.id == attr for t in st.targets)]
				stores = [n for n in ast.walk(mod.tree) if isinstance(
						n, ast.Attribute) and n.attr == attr
						and isinstance(n.ctx, ast.Store)]
				if len(vals) == 1 and not stores:
					return evaluate(project, None, vals[0], None, depth + 1,
							mod)
			raise Unknown
	defs = mod.globals.get(name, [])
	if len(defs) != 1 or mutated(project, mod.name, name) or not isinstance(
			defs[0], ast.expr):
		raise Unknown
	return evaluate(project, None, defs[0], None, depth + 1, mod)
