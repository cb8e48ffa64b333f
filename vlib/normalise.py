"""Normalise names that were introduced by refactoring.

Checks should judge what code does, not how it is written. Before analysis,
helper functions and temporary variables that did not exist when the
analyses were written (cf. baseline.json, produced by meta/baseline.py) are
substituted where they are used, as far as this clearly preserves behaviour;
on the original code nothing is changed.
"""
import ast
import copy
import json
import os

BASELINE = os.path.join(os.path.dirname(os.path.abspath(__file__)),
		'baseline.json')
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
MAXCALLS = 4


def walkfuncs(body, prefix=''):
	"""Yield (qualified name, node, containing body, class or None)."""
	def visit(stmts, prefix, cls):
		for st in list(stmts):
			if isinstance(st, FUNC):
				yield prefix + st.name, st, stmts, cls
				yield from visit(st.body, prefix + st.name + '.<locals>.',
						None)
			elif isinstance(st, ast.ClassDef):
				yield from visit(st.body, prefix + st.name + '.', st)
			else:
				for f in ('body', 'orelse', 'finalbody'):
					b = getattr(st, f, None)
					if isinstance(b, list):
						yield from visit(b, prefix, cls)
				for h in getattr(st, 'handlers', ()):
					yield from visit(h.body, prefix, cls)
	yield from visit(body, prefix, None)


def stored(fn):
	"""Names assigned in a function, including nested scopes."""
	return {n.id for st in fn.body for n in ast.walk(st)
			if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}


def ownstored(fn):
	"""Names assigned in the scope of the function itself."""
	res = set()
	stack = list(fn.body)
	while stack:
		n = stack.pop()
		if isinstance(n, FUNC + (ast.ClassDef, )):
			res.add(n.name)
			continue
		if isinstance(n, (ast.Lambda, )):
			continue
		if isinstance(n, COMP):
			stack.append(n.generators[0].iter)
			continue
		if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
			res.add(n.id)
		elif isinstance(n, ast.ExceptHandler) and n.name:
			res.add(n.name)
		elif isinstance(n, (ast.Import, ast.ImportFrom)):
			res.update((a.asname or a.name).split('.')[0] for a in n.names)
		stack.extend(ast.iter_child_nodes(n))
	return res


def names(node):
	return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}


def paramlist(fn):
	a = fn.args
	return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def describe(tree):
	"""Names of functions, their local variables, and other words."""
	res = {}
	for qual, fn, _, _ in walkfuncs(tree.body):
		local = ownstored(fn) | set(paramlist(fn))
		res[qual] = [sorted(local), sorted(words(fn) - local)]
	return res


def words(fn):
	"""Identifiers used in the body of a function."""
	res = set(paramlist(fn))
	for st in docless(fn.body):
		for n in ast.walk(st):
			if isinstance(n, ast.Name):
				res.add(n.id)
			elif isinstance(n, ast.Attribute):
				res.add(n.attr)
			elif isinstance(n, FUNC):
				res.add(n.name)
	return res


def docless(body):
	if body and isinstance(body[0], ast.Expr) and isinstance(
			body[0].value, ast.Constant) and isinstance(
			body[0].value.value, str):
		return body[1:]
	return body


def hasreturn(st):
	"""Whether statement contains a return of this function."""
	stack = [st]
	while stack:
		n = stack.pop()
		if isinstance(n, ast.Return):
			return True
		if not isinstance(n, FUNC + (ast.ClassDef, ast.Lambda)):
			stack.extend(ast.iter_child_nodes(n))
	return False


def ends(body):
	"""Whether execution never continues after this block."""
	if not body:
		return False
	st = body[-1]
	if isinstance(st, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
		return True
	return isinstance(st, ast.If) and ends(st.body) and ends(st.orelse)


class Abort(Exception):
	pass


def tails(body, k):
	"""Replace each return by k(value); abort if not in tail position."""
	out = []
	for n, st in enumerate(body):
		if isinstance(st, ast.Return):
			out.extend(k(st.value or ast.copy_location(
					ast.Constant(value=None), st)))
			return out
		if not hasreturn(st):
			out.append(st)
			continue
		rest = body[n + 1:]
		if isinstance(st, ast.If):
			for part in (st.body, st.orelse):
				if rest and not ends(part) and any(
						isinstance(x, FUNC) for r in rest
						for x in ast.walk(r)):
					raise Abort
			a = list(st.body) + ([] if ends(st.body) else rest)
			b = list(st.orelse) + ([] if ends(st.orelse)
					else copy.deepcopy(rest))
			new = ast.copy_location(ast.If(test=st.test,
					body=tails(a, k) or [ast.copy_location(ast.Pass(), st)],
					orelse=tails(b, k)), st)
			out.append(new)
			return out
		if isinstance(st, ast.With) and (not rest or ends(st.body)):
			new = copy.copy(st)
			new.body = tails(list(st.body), k)
			out.append(new)
			return out
		raise Abort
	out.extend(k(None))
	return out


class Rename(ast.NodeTransformer):
	def __init__(self, mapping):
		self.mapping = mapping

	def visit_Name(self, node):
		new = self.mapping.get(node.id)
		if new is None:
			return node
		if isinstance(new, str):
			node.id = new
			return node
		if not isinstance(node.ctx, ast.Load):
			raise Abort
		return ast.copy_location(copy.deepcopy(new), node)

	def visit_ExceptHandler(self, node):
		self.generic_visit(node)
		if isinstance(self.mapping.get(node.name), str):
			node.name = self.mapping[node.name]
		return node

	def visit_FunctionDef(self, node):
		if isinstance(self.mapping.get(node.name), str):
			node.name = self.mapping[node.name]
		self.generic_visit(node)
		return node


def simple(node):
	return isinstance(node, (ast.Name, ast.Constant)) or isinstance(
			node, ast.Attribute) and simple(node.value)


def bindargs(fn, call, ismethod):
	"""Return dictionary of parameters to arguments."""
	a = fn.args
	if a.vararg or a.kwarg:
		raise Abort
	pos = [x.arg for x in a.posonlyargs + a.args]
	res = {}
	args = list(call.args)
	if ismethod:
		args.insert(0, call.func.value)
	if any(isinstance(x, ast.Starred) for x in args) or len(args) > len(pos):
		raise Abort
	res.update(zip(pos, args))
	for kw in call.keywords:
		if kw.arg is None or kw.arg in res:
			raise Abort
		res[kw.arg] = kw.value
	defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
	defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults)
			if d is not None})
	for p in paramlist(fn):
		if p not in res:
			if p not in defaults or not isinstance(
					defaults[p], (ast.Constant, ast.Tuple)):
				raise Abort
			res[p] = defaults[p]
	if set(res) != set(paramlist(fn)):
		raise Abort
	return res


class Inliner:
	"""Substitute new helper functions in one module."""
	def __init__(self, tree, base, foreign):
		self.tree, self.base, self.foreign = tree, base, foreign
		self.count = 0
		self.inlined = []

	def run(self):
		for _ in range(200):
			if not self.step():
				break
		return self.inlined

	def step(self):
		for qual, fn, body, cls in list(walkfuncs(self.tree.body)):
			if qual in self.base or getattr(fn, '_keep', False):
				continue
			if self.tryinline(qual, fn, body, cls):
				self.inlined.append(qual)
				return True
			fn._keep = True
		return False

	def tryinline(self, qual, fn, body, cls):
		decorators = [getattr(d, 'id', None) for d in fn.decorator_list]
		static = decorators == ['staticmethod']
		if decorators and not static or fn.name.startswith('__') or (
				isinstance(fn, ast.AsyncFunctionDef)):
			return False
		if fn.name in self.foreign:
			return False
		refs, calls = self.references(fn, cls, static)
		if not calls or len(calls) != refs or len(calls) > MAXCALLS:
			return False
		if len(calls) > 1 and len(list(ast.walk(fn))) > 1500:
			return False
		# on a copy of the module, in case not all calls can be replaced
		saved = [(f.body, list(f.body)) for _, f, _, _ in walkfuncs(
				self.tree.body)]
		replaced = []
		try:
			for call, caller, ismethod in calls:
				replaced.append(self.replace(
						fn, call, caller, ismethod and not static))
		except Abort:
			for undo in reversed(replaced):
				undo()
			return False
		del saved
		body.remove(fn)
		if not body:
			body.append(ast.copy_location(ast.Pass(), fn))
		return True

	def references(self, fn, cls, static):
		"""Return number of references, and list of calls."""
		refs = 0
		calls = []
		inside = {id(n) for n in ast.walk(fn)}
		owner = {}

		def mark(node, func, path):
			for ch in ast.iter_child_nodes(node):
				f = ch if isinstance(ch, FUNC) else func
				owner[id(ch)] = (node, func)
				mark(ch, f, path)
		mark(self.tree, None, ())
		for n in ast.walk(self.tree):
			if isinstance(n, ast.Name) and n.id == fn.name or (
					isinstance(n, ast.Attribute) and n.attr == fn.name):
				refs += 1
				if id(n) in inside:
					return 99, []  # recursive
				par, func = owner[id(n)]
				if isinstance(n, ast.Name) == (cls is not None):
					continue
				if cls is not None and not isinstance(n.value, ast.Name):
					continue
				if isinstance(par, ast.Call) and par.func is n and (
						func is not None):
					calls.append((par, func, cls is not None))
			elif isinstance(n, ast.Constant) and n.value == fn.name:
				refs += 1
			elif isinstance(n, FUNC) and n.name == fn.name and n is not fn:
				return 99, []  # overridden
		return refs, calls

	def replace(self, fn, call, caller, ismethod):
		block, pos, st = find(caller, call)
		old = list(block)
		stmts = self.expand(fn, call, caller, ismethod, st,
				len(docless(caller.body)) == 1 and block is caller.body)
		oldvalues = stmts[1]
		block[pos:pos + 1] = stmts[0]

		def undo():
			block[:] = old
			for node, field, value in oldvalues:
				setattr(node, field, value)
		return undo

	def expand(self, fn, call, caller, ismethod, st, only):
		args = bindargs(fn, call, ismethod)
		body = copy.deepcopy(docless(fn.body))
		isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
				for b in body for n in ast.walk(b))
		if any(isinstance(n, ast.Nonlocal) for b in body
				for n in ast.walk(b)):
			raise Abort
		if isgen and not (isinstance(st, ast.Return) and st.value is call
				and only) and not (isinstance(st, ast.Expr) and isinstance(
				st.value, ast.YieldFrom) and st.value.value is call):
			raise Abort
		# names of the helper that are used in the caller for other things
		tmp = ast.Module(body=body, type_ignores=[])
		hstore = stored(tmp)
		params = set(args)
		callernames = names(caller) | set(paramlist(caller))
		argnames = set()
		for a in args.values():
			argnames |= names(a)
		mapping, prefix = {}, []
		for name in (hstore | {n.name for b in body for n in ast.walk(b)
				if isinstance(n, FUNC)}) - params:
			if name in callernames:
				self.count += 1
				mapping[name] = '%s__%d' % (name, self.count)
		for p, a in args.items():
			changed = p in hstore
			if isinstance(a, ast.Name) and a.id == p and not changed:
				continue
			if not changed and (isinstance(a, (ast.Name, ast.Constant))):
				mapping[p] = a.id if isinstance(a, ast.Name) else a
				continue
			new = p
			if p in callernames:
				self.count += 1
				new = mapping[p] = '%s__%d' % (p, self.count)
			prefix.append(ast.copy_location(ast.Assign(
					targets=[ast.copy_location(ast.Name(
						id=new, ctx=ast.Store()), call)],
					value=a), call))
		# free variables of the helper that are local in the caller
		free = names(tmp) - hstore - params
		if free & ({n for n in callernames if n in ownstored(caller)
				or n in paramlist(caller)}):
			if not any(n is fn for n in ast.walk(caller)):
				raise Abort
		body = [Rename(mapping).visit(b) for b in body]
		loc = call

		def ret(value):
			return [ast.copy_location(ast.Return(value=value), loc)]

		if isinstance(st, ast.Return) and st.value is call:
			if not ends(body):
				body = body + ([] if isgen else ret(None))
			return prefix + body, []
		if isgen:  # yield from helper()
			if any(hasreturn(b) for b in body):
				raise Abort
			return prefix + body, []
		if isinstance(st, ast.Expr) and st.value is call:
			new = tails(body, lambda v: [] if v is None or isinstance(
					v, ast.Constant) else [ast.copy_location(
					ast.Expr(value=v), v)])
			return prefix + (new or [ast.copy_location(ast.Pass(), st)]), []
		if isinstance(st, (ast.Assign, ast.AugAssign)) and st.value is call:
			def assign(v):
				new = copy.copy(st)
				new.value = v if v is not None else ast.copy_location(
						ast.Constant(value=None), st)
				return [new]
			return prefix + tails(body, assign), []
		# part of an expression
		if len(body) == 1 and isinstance(body[0], ast.Return) and (
				body[0].value is not None):
			value = body[0].value
			if prefix:
				uses = {}
				for n in ast.walk(value):
					if isinstance(n, ast.Name):
						uses[n.id] = uses.get(n.id, 0) + 1
				sub = {}
				for p in prefix:
					name = p.targets[0].id
					if uses.get(name, 0) > 1 and not simple(p.value):
						raise Abort
					sub[name] = p.value
				value = Rename(sub).visit(value)
			undo = substitute(st, call, value)
			return [st], undo
		if not hoistable(st, call):
			raise Abort
		self.count += 1
		name = '%s__%d' % (fn.name, self.count)

		def store(v):
			return [ast.copy_location(ast.Assign(targets=[ast.copy_location(
					ast.Name(id=name, ctx=ast.Store()), loc)],
					value=v if v is not None else ast.copy_location(
					ast.Constant(value=None), loc)), loc)]
		new = prefix + tails(body, store)
		undo = substitute(st, call, ast.copy_location(
				ast.Name(id=name, ctx=ast.Load()), call))
		return new + [st], undo


def find(func, node):
	"""Find the statement of func that evaluates node: (block, n, stmt)."""
	def search(block):
		for n, st in enumerate(block):
			if not any(x is node for x in ast.walk(st)):
				continue
			for f in ('body', 'orelse', 'finalbody'):
				b = getattr(st, f, None)
				if isinstance(b, list) and b and isinstance(
						b[0], ast.stmt) and any(x is node for s in b
						for x in ast.walk(s)):
					if isinstance(st, FUNC + (ast.ClassDef, )):
						raise Abort
					return search(b)
			for h in getattr(st, 'handlers', ()):
				if any(x is node for s in h.body for x in ast.walk(s)):
					return search(h.body)
			return block, n, st
		raise Abort
	return search(func.body)


def substitute(st, node, new):
	for n in ast.walk(st):
		for field, value in ast.iter_fields(n):
			if value is node:
				setattr(n, field, new)
				return [(n, field, value)]
			if isinstance(value, list) and any(x is node for x in value):
				setattr(n, field, [new if x is node else x for x in value])
				return [(n, field, value)]
	raise Abort


def hoistable(st, node):
	"""Whether node is evaluated once, unconditionally, by a statement."""
	if isinstance(st, ast.If):
		root = st.test
	elif isinstance(st, ast.For):
		root = st.iter
	elif isinstance(st, (ast.Assign, ast.AugAssign, ast.Return, ast.Expr)):
		root = st.value
	else:
		return False

	def ok(n):
		if n is node:
			return True
		if not any(x is node for x in ast.walk(n)):
			return False
		if isinstance(n, (ast.Lambda, )):
			return False
		if isinstance(n, COMP):
			return ok(n.generators[0].iter)
		if isinstance(n, ast.BoolOp):
			return ok(n.values[0])
		if isinstance(n, ast.IfExp):
			return ok(n.test)
		return any(ok(ch) if isinstance(ch, ast.expr) else any(
				ok(x) for x in ast.iter_child_nodes(ch))
				for ch in ast.iter_child_nodes(n))
	return ok(root)


def temporaries(fn, known):
	"""Substitute new variables that are used once, by the next statement."""
	done = 0
	args = set(paramlist(fn))
	declared = {x for n in ast.walk(fn) if isinstance(
			n, (ast.Global, ast.Nonlocal)) for x in n.names}

	def count(name):
		loads = stores = 0
		for n in ast.walk(fn):
			if isinstance(n, ast.Name) and n.id == name:
				if isinstance(n.ctx, ast.Load):
					loads += 1
				else:
					stores += 1
			elif isinstance(n, ast.ExceptHandler) and n.name == name or (
					isinstance(n, ast.arg) and n.arg == name):
				stores += 1
		return stores, loads

	def blocks(body):
		nonlocal done
		n = len(body) - 1
		while n >= 0:
			st = body[n]
			for f in ('body', 'orelse', 'finalbody'):
				b = getattr(st, f, None)
				if isinstance(b, list) and b and isinstance(
						b[0], ast.stmt) and not isinstance(
						st, FUNC + (ast.ClassDef, )):
					blocks(b)
			for h in getattr(st, 'handlers', ()):
				blocks(h.body)
			if n + 1 < len(body) and isinstance(st, ast.Assign) and len(
					st.targets) == 1 and isinstance(
					st.targets[0], ast.Name):
				name = st.targets[0].id
				if name not in known and name not in args and (
						name not in declared) and count(name) == (1, 1):
					nxt = body[n + 1]
					use = [x for x in ast.walk(nxt) if isinstance(
							x, ast.Name) and x.id == name]
					if len(use) == 1 and hoistable(nxt, use[0]):
						substitute(nxt, use[0], st.value)
						del body[n]
						done += 1
			n -= 1
	blocks(fn.body)
	return done


def enumerations(fn, known):
	"""for n, a in enumerate(x), where n is new and unused => for a in x"""
	for st in ast.walk(fn):
		if isinstance(st, ast.For) and isinstance(
				st.iter, ast.Call) and getattr(
				st.iter.func, 'id', None) == 'enumerate' and len(
				st.iter.args) == 1 and not st.iter.keywords and isinstance(
				st.target, ast.Tuple) and len(st.target.elts) == 2 and (
				isinstance(st.target.elts[0], ast.Name)) and (
				st.target.elts[0].id not in known) and not isinstance(
				st.target.elts[1], ast.Starred):
			name = st.target.elts[0].id
			if sum(isinstance(n, ast.Name) and n.id == name
					for n in ast.walk(fn)) == 1:
				st.iter = st.iter.args[0]
				st.target = st.target.elts[1]


FLIP = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt,
		ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}


def comparisons(tree):
	"""1 == x => x == 1"""
	for n in ast.walk(tree):
		if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(
				n.left, ast.Constant) and type(n.ops[0]) in FLIP and (
				not isinstance(n.comparators[0], ast.Constant)):
			n.left, n.comparators = n.comparators[0], [n.left]
			n.ops = [FLIP[type(n.ops[0])]()]


def splats(fn):
	"""f(**dict(a=1)) => f(a=1)"""
	for n in ast.walk(fn):
		if isinstance(n, ast.Call):
			kws = []
			for kw in n.keywords:
				v = kw.value
				if kw.arg is None and isinstance(v, ast.Call) and getattr(
						v.func, 'id', None) == 'dict' and not v.args:
					kws.extend(v.keywords)
				elif kw.arg is None and isinstance(v, ast.Dict) and all(
						isinstance(k, ast.Constant) and isinstance(
						k.value, str) for k in v.keys):
					kws.extend(ast.copy_location(ast.keyword(
							arg=k.value, value=x), kw)
							for k, x in zip(v.keys, v.values))
				else:
					kws.append(kw)
			n.keywords = kws


def keywords(tree, base):
	"""f(a, b=c) => f(a, c) for functions of this module."""
	toplevel = {st.name: st for st in tree.body
			if isinstance(st, ast.FunctionDef) and not st.args.vararg
			and not st.decorator_list}
	for n in ast.walk(tree):
		if isinstance(n, ast.Call) and n.keywords and isinstance(
				n.func, ast.Name) and n.func.id in toplevel and not any(
				isinstance(a, ast.Starred) for a in n.args):
			a = toplevel[n.func.id].args
			pos = [x.arg for x in a.posonlyargs + a.args]
			required = pos[:len(pos) - len(a.defaults)]
			given = {kw.arg: kw.value for kw in n.keywords}
			while n.keywords and len(n.args) < len(required) and (
					required[len(n.args)] in given):
				name = required[len(n.args)]
				n.args.append(given[name])
				n.keywords = [kw for kw in n.keywords if kw.arg != name]


def renamed(modules, baseline):
	"""Yield (module, old, new) for functions that only changed names."""
	for name, tree in modules.items():
		base = baseline.get(name)
		if base is None:
			continue
		found = {q: fn for q, fn, _, _ in walkfuncs(tree.body)}
		missing = [q for q in base if q not in found]
		new = [q for q in found if q not in base]
		for q in missing:
			prefix, _, old = q.rpartition('.')
			want = set(base[q][0]) | set(base[q][1])
			best = []
			for r in new:
				pre, _, to = r.rpartition('.')
				if pre != prefix or (old.startswith('__')
						and old.endswith('__')):
					continue
				have = words(found[r])
				score = len(have & want) / (len(have | want) or 1)
				if paramlist(found[r]) == [p for p in paramlist(
						found[r]) if p in want]:
					best.append((score, r, to))
			if best and max(best)[0] >= 0.7:
				yield name, q, max(best)[1]


def renameback(modules, baseline):
	pairs, todo = {}, list(renamed(modules, baseline))
	if not todo:
		return []
	defined = {}
	for tree in modules.values():
		for q, fn, _, _ in walkfuncs(tree.body):
			defined.setdefault(fn.name, []).append(q)
	for name, q, r in todo:
		pairs.setdefault((r.rpartition('.')[2], q.rpartition('.')[2]),
				[]).append((name, r))
	res = []
	for (new, old), sites in pairs.items():
		if len(defined.get(new, ())) != len(sites):
			continue  # some other function has this name
		here = {name for name, _ in sites}
		for name, tree in modules.items():
			imported = name in here or any(isinstance(n, ast.ImportFrom)
					and any(a.name == new for a in n.names)
					for n in ast.walk(tree))
			for n in ast.walk(tree):
				if isinstance(n, ast.Attribute) and n.attr == new:
					n.attr = old
				elif isinstance(n, FUNC) and n.name == new and name in here:
					n.name = old
				elif isinstance(n, ast.Name) and n.id == new and (
						imported):
					n.id = old
				elif isinstance(n, ast.ImportFrom):
					for a in n.names:
						if a.name == new:
							a.name = old
							pass
		res.append('%s -> %s' % (new, old))
	return res


def mentions(tree):
	"""Names of other modules that a module may refer to."""
	res = set()
	for n in ast.walk(tree):
		if isinstance(n, ast.ImportFrom):
			res.update(a.name for a in n.names)
		elif isinstance(n, ast.Attribute) and not (isinstance(
				n.value, ast.Name) and n.value.id in ('self', 'cls')):
			res.add(n.attr)
		elif isinstance(n, ast.Constant) and isinstance(
				n.value, str) and n.value.isidentifier():
			res.add(n.value)
	return res


def normalise(modules):
	"""Normalise a dictionary of module names and syntax trees in place.

	:returns: a list of names of functions that were substituted."""
	with open(BASELINE, encoding='utf8') as inp:
		baseline = json.load(inp)
	res = renameback(modules, baseline)
	outside = {}
	for name, tree in modules.items():
		base = baseline.get(name)
		if base is None:
			continue
		comparisons(tree)
		keywords(tree, base)
		if any(q not in base for q, _, _, _ in walkfuncs(tree.body)):
			foreign = set()
			for other, t in modules.items():
				if other != name:
					if other not in outside:
						outside[other] = mentions(t)
					foreign |= outside[other]
			res.extend('%s.%s' % (name, q) for q in Inliner(
					tree, base, foreign).run())
		for qual, fn, _, _ in walkfuncs(tree.body):
			known = set(base[qual][0] if qual in base else ())
			for _ in range(3):
				if not temporaries(fn, known):
					break
				splats(fn)
			enumerations(fn, known)
		ast.fix_missing_locations(tree)
	return res
