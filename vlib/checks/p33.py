"""Password protection of the web interfaces."""
import ast
from ..project import Func, dotted

TITLE = 'pages with corpus data require the password'
OSERR = {'IOError', 'OSError', 'FileNotFoundError', 'EnvironmentError',
		'PermissionError', 'io.UnsupportedOperation', 'IsADirectoryError'}
ROUTE = {'route', 'get', 'post', 'put', 'delete', 'patch'}


def isroute(d, module):
	"""Whether this decorator registers a function as page."""
	return isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and (
			d.func.attr in ROUTE) and d.args and (
			isinstance(d.args[0], ast.Constant)
			and isinstance(d.args[0].value, str)
			and d.args[0].value.startswith('/'))


def datanames(module):
	"""Module-level variables with data that is loaded at run time."""
	res = set()
	for n in module.tree.body:
		if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and (
				isinstance(n.value.func, ast.Name)
				and n.value.func.id in module.funcs):
			for t in n.targets:
				for a in ast.walk(t):
					if isinstance(a, ast.Name):
						res.add(a.id)
	return res


def reaches(project, module, f, names):
	"""Find a use of one of names in f or a function used by it."""
	todo, seen = [f], set()
	while todo:
		g = todo.pop()
		if g in seen or g.node is None:
			continue
		seen.add(g)
		for n in ast.walk(g.node):
			if not isinstance(n, ast.Name) or n.id in g.params:
				continue
			if n.id in names and isinstance(n.ctx, ast.Load):
				return g, n
			if g.module is not module:
				continue
			h = module.funcs.get(n.id)
			if h is not None:
				todo.append(h)
			for v in module.globals.get(n.id, []):
				if isinstance(v, ast.expr):
					for a in ast.walk(v):
						if isinstance(a, ast.Name) and a.id in module.funcs:
							todo.append(module.funcs[a.id])
	return None


# -- paths through the decorator

def atom(node):
	"""Normalize condition: (description, polarity)."""
	if isinstance(node, ast.Compare) and len(node.ops) == 1:
		a, b = node.left, node.comparators[0]
		op = node.ops[0]
		pos = not isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn))
		if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
			x, y = sorted((ast.unparse(a), ast.unparse(b)))
			return ('eq', x, y), pos
		if isinstance(op, (ast.In, ast.NotIn)):
			return ('in', ast.unparse(a), ast.unparse(b)), pos
	if isinstance(node, ast.Call) and (dotted(node.func) or '').endswith(
			'compare_digest') and len(node.args) == 2:
		x, y = sorted(ast.unparse(a.func.value) if isinstance(a, ast.Call)
				and isinstance(a.func, ast.Attribute) and a.func.attr ==
				'encode' else ast.unparse(a) for a in node.args)
		return ('eq', x, y), True
	return ('true', ast.unparse(node)), True


class Paths:
	def __init__(self, project, module):
		self.project, self.module = project, module

	def cond(self, node, env, depth=0):
		"""Yield (value, literals) for the ways to evaluate a condition."""
		node = substitute(node, env)
		if isinstance(node, ast.Constant):
			yield bool(node.value), ()
		elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
			for v, lits in self.cond(node.operand, {}, depth):
				yield not v, lits
		elif isinstance(node, ast.BoolOp):
			yield from self.boolop(node.values, isinstance(node.op, ast.And),
					depth)
		elif isinstance(node, ast.IfExp):
			for v, lits in self.cond(node.test, {}, depth):
				for w, more in self.cond(node.body if v else node.orelse, {},
						depth):
					yield w, lits + more
		elif isinstance(node, ast.Call) and dotted(node.func) == 'bool':
			yield from self.cond(node.args[0], {}, depth)
		else:
			if isinstance(node, ast.Call) and isinstance(
					node.func, ast.Name) and depth < 4:
				f = self.module.funcs.get(node.func.id)
				if f is not None and not node.keywords and len(
						node.args) == len(f.posparams):
					for lits, kind, value in self.body(f.node.body, dict(zip(
							f.posparams, node.args)), depth + 1):
						if kind != 'return':
							continue
						if value is None:
							yield False, lits
							continue
						for v, more in self.cond(value, {}, depth + 1):
							yield v, lits + more
					return
			a, pos = atom(node)
			yield True, ((a, pos), )
			yield False, ((a, not pos), )

	def boolop(self, values, isand, depth):
		for v, lits in self.cond(values[0], {}, depth):
			if len(values) == 1 or v != isand:
				yield v, lits
			else:
				for w, more in self.boolop(values[1:], isand, depth):
					yield w, lits + more

	def body(self, stmts, env, depth=0):
		"""Yield (literals, 'return' | 'raise' | 'end', value)."""
		if not stmts:
			yield (), 'end', env
			return
		st, rest = stmts[0], stmts[1:]
		if isinstance(st, ast.Return):
			yield (), 'return', (None if st.value is None
					else substitute(st.value, env))
		elif isinstance(st, ast.Raise):
			yield (), 'raise', None
		elif isinstance(st, ast.If):
			for v, lits in self.cond(st.test, env, depth):
				for l2, kind, value in self.body(
						list(st.body if v else st.orelse) + rest, env, depth):
					yield lits + l2, kind, value
		elif isinstance(st, ast.Try):
			# the handlers can be entered without having done anything
			for body in [list(st.body) + list(st.orelse)] + [
					list(h.body) for h in st.handlers]:
				yield from self.body(body + list(st.finalbody) + rest, env,
						depth)
		elif isinstance(st, (ast.With, )):
			yield from self.body(list(st.body) + rest, env, depth)
		elif isinstance(st, ast.Assign) and len(st.targets) == 1 and (
				isinstance(st.targets[0], ast.Name)):
			env = dict(env)
			env[st.targets[0].id] = substitute(st.value, env)
			yield from self.body(rest, env, depth)
		elif isinstance(st, ast.Assign) and len(st.targets) == 1 and (
				isinstance(st.targets[0], ast.Tuple)
				and isinstance(st.value, ast.Tuple)
				and len(st.value.elts) == len(st.targets[0].elts)):
			new = dict(env)
			for t, v in zip(st.targets[0].elts, st.value.elts):
				if isinstance(t, ast.Name):
					new[t.id] = substitute(v, env)
			yield from self.body(rest, new, depth)
		elif isinstance(st, (ast.For, ast.While)):
			yield from self.body(list(st.body) + rest, env, depth)
			yield from self.body(rest, env, depth)
		else:
			yield from self.body(rest, env, depth)


def substitute(node, env):
	"""Replace local variables by their values."""
	if not env:
		return node

	class T(ast.NodeTransformer):
		def visit_Name(self, n):
			v = env.get(n.id)
			return v if v is not None else n

	return T().visit(ast.parse(ast.unparse(node), mode='eval').body)


def consistent(lits):
	d = {}
	for a, pos in lits:
		if d.setdefault(a, pos) != pos:
			return False
	# PASSWD is None and x in PASSWD
	return True


def granted(lits, passwd):
	"""Whether the conditions on this path imply that access is allowed."""
	d = dict(lits)
	if d.get(('eq', *sorted(('None', passwd)))) is True:
		return True
	for a, pos in lits:
		if a[0] == 'eq' and pos:
			for x, y in ((a[1], a[2]), (a[2], a[1])):
				if x.startswith(passwd + '[') and x.endswith(']') and (
						'password' in y and y != x):
					user = x[len(passwd) + 1:-1]
					if 'username' in user:
						return True
				if x.startswith(passwd + '.get(') and 'username' in x and (
						'password' in y):
					# unknown user: None is not equal to a given password
					args = ast.parse(x, mode='eval').body.args
					if len(args) == 1 or ast.unparse(args[1]) == 'None' or (
							d.get(('in', ast.unparse(args[0]), passwd))):
						return True
		if a[0] == 'in' and pos and passwd + '.items()' in a[2] and (
				'username' in a[1] and 'password' in a[1]):
			return True
	return False


def check(project, res, tier):
	res.rule('each page that uses corpus data has @requires_auth below its'
			' @APP.route; the wrapped function is only called when there is no'
			' password list, or user name and password match an entry of it;'
			' an error in the password file does not disable protection')
	res.assume('Flask calls the function given to route();'
			' request.authorization holds what was sent by the client')
	for module in project.modules.values():
		if not module.name.startswith('web.') or 'PASSWD' not in (
				module.globals) and 'requires_auth' not in module.funcs:
			continue
		res.count('modules')
		auth = None
		for f in module.funcs.values():
			if f.parent is None and f.cls is None and len(
					f.posparams) == 1 and any(
					isinstance(n, ast.Attribute) and n.attr == 'authorization'
					for n in ast.walk(f.node)) and f.nested:
				auth = f
		if auth is None:
			res.finding('noauth', module.name, module.relpath + ':1',
					'there is no decorator to require a password')
			continue
		decorator(project, res, module, auth)
		data = datanames(module)
		pages(project, res, module, auth, data)
		passwords(project, res, module)
		serving(project, res, module, auth)
	res.require('modules', 2)
	res.require('pages', 6)
	res.require('pages that require authentication', 6)
	res.require('paths through decorator', 4)


def pages(project, res, module, auth, data):
	for f in module.funcs.values():
		decs = getattr(f.node, 'decorator_list', [])
		routes = [n for n, d in enumerate(decs) if isroute(d, module)]
		if not routes:
			continue
		res.count('pages')
		protected = [n for n, d in enumerate(decs) if dotted(d) == auth.name]
		loc = '%s:%d' % (module.relpath, f.node.lineno)
		use = reaches(project, module, f, data)
		if any(n > max(routes) for n in protected):
			res.count('pages that require authentication')
			res.sample('protected page', '%s: %s' % (loc, f.name))
		elif protected:
			if use:
				res.finding('order', '%s.%s' % (module.name, f.qual), loc,
						'%s is registered as page before it is wrapped by'
						' %s' % (f.name, auth.name))
		elif use:
			res.finding('unprotected', '%s.%s' % (module.name, f.qual), loc,
					'page %s uses %s (in %s) but does not require the'
					' password' % (f.name, use[1].id, use[0].qual))
	for n in ast.walk(module.tree):
		if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (
				n.func.attr == 'add_url_rule'):
			res.count('pages')
			view = None
			for k in n.keywords:
				if k.arg == 'view_func':
					view = k.value
			if view is None and len(n.args) > 2:
				view = n.args[2]
			loc = '%s:%d' % (module.relpath, n.lineno)
			if isinstance(view, ast.Call) and dotted(view.func) == auth.name:
				res.count('pages that require authentication')
				continue
			f = module.funcs.get(dotted(view)) if view is not None else None
			if f is not None and auth.name in f.decorators:
				res.count('pages that require authentication')
			elif f is None or reaches(project, module, f, data):
				res.finding('unprotected', '%s.add_url_rule' % module.name, loc,
						'page is registered without requiring the password')


def decorator(project, res, module, auth):
	name = '%s.%s' % (module.name, auth.qual)
	param = auth.posparams[0]
	loc = '%s:%d' % (module.relpath, auth.node.lineno)
	# what is returned
	for n in ast.walk(auth.node):
		if isinstance(n, ast.Return) and isinstance(
				n.value, ast.Name) and n.value.id == param and (
				n in auth.node.body):
			res.finding('unwrapped', name, '%s:%d' % (module.relpath, n.lineno),
					'the function is returned without password protection')
	paths = Paths(project, module)
	for g in auth.nested.values():
		if not isinstance(g, Func) or g.node is None:
			continue
		calls = 0
		for lits, kind, value in paths.body(g.node.body, {}):
			if kind != 'return' or value is None or not consistent(lits):
				continue
			res.count('paths through decorator')
			if not any(isinstance(n, ast.Call) and dotted(n.func) == param
					for n in ast.walk(value)):
				continue
			calls += 1
			if not granted(lits, 'PASSWD'):
				res.finding('granted', name, loc, 'the page is shown when %s' % (
						' and '.join(('' if pos else 'not ') + ' '.join(a)
						for a, pos in lits) or 'called'))
		# calls elsewhere
		for n in ast.walk(g.node):
			if isinstance(n, ast.Call) and dotted(n.func) == param and not any(
					isinstance(r, ast.Return) and n in ast.walk(r)
					for r in ast.walk(g.node)):
				res.finding('call', name, '%s:%d' % (module.relpath, n.lineno),
						'the page is evaluated before access is checked')
		if not calls:
			res.finding('never', name, loc, 'the page is never shown')


def serving(project, res, module, auth):
	"""Files outside of the static directory are not served without password.
	"""
	def literal(node):
		"""Directory of a constant path, or one relative to the application.
		"""
		if isinstance(node, ast.Constant) and isinstance(node.value, str):
			return node.value
		if isinstance(node, ast.Call) and (dotted(node.func) or '').endswith(
				'path.join') and node.args:
			parts = [literal(a) for a in node.args[1:]]
			return None if None in parts else '/'.join(parts)
		if isinstance(node, ast.Name):
			vals = module.globals.get(node.id, [])
			if len(vals) == 1 and isinstance(vals[0], ast.expr):
				return literal(vals[0])
		if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
			return literal(node.right)
		return None

	for n in ast.walk(module.tree):
		if not isinstance(n, ast.Call):
			continue
		name = (dotted(n.func) or '').split('.')[-1]
		loc = '%s:%d' % (module.relpath, n.lineno)
		if name in ('Flask', 'Blueprint'):
			res.count('applications')
			for k in n.keywords:
				if k.arg in ('static_folder', 'root_path', 'instance_path'):
					path = literal(k.value)
					if isinstance(k.value, ast.Constant) and (
							k.value.value is None):
						continue
					if k.arg == 'static_folder' and path and path.strip(
							'/').split('/')[0].startswith('static') and (
							'..' not in path):
						continue
					if k.arg == 'static_folder':
						res.finding('served', '%s %s' % (module.name, k.arg),
								loc, 'all files in %s are served without a'
								' password' % ast.unparse(k.value))
		elif name in ('send_from_directory', 'send_file') and n.args:
			res.count('files served')
			f = enclosing(n, module)
			if f is not None and auth.name in [dotted(d) for d in getattr(
					f.node, 'decorator_list', ())]:
				continue
			path = literal(n.args[0])
			if path is None or not any(a.startswith('static')
					for a in path.split('/')) or '..' in path:
				res.finding('served', '%s.%s' % (module.name, f.qual
						if f is not None else name), loc, 'files in %s are'
						' served without a password' % ast.unparse(n.args[0]))


def enclosing(n, module):
	while n is not None and not isinstance(n, ast.FunctionDef):
		n = getattr(n, '_parent', None)
	return next((f for f in module.funcs.values() if f.node is n), None)


def passwords(project, res, module):
	"""The passwords are read whenever the module is used, and errors in the
	file do not disable protection."""
	reading, real = [], 0
	for n in ast.walk(module.tree):
		if not (isinstance(n, ast.Name) and n.id == 'PASSWD'
				and isinstance(n.ctx, ast.Store)):
			continue
		st = n
		while st is not None and not isinstance(st, ast.stmt):
			st = getattr(st, '_parent', None)
		value = getattr(st, 'value', None)
		if value is None or isinstance(value, ast.Constant):
			continue
		f = enclosing(st, module)
		if f is not None:
			if not any(isinstance(a, ast.Global) and 'PASSWD' in a.names
					for a in ast.walk(f.node)):
				continue  # a local variable
			# where the function is called
			starts = [a for a in ast.walk(module.tree) if isinstance(a,
					ast.Call) and dotted(a.func) == f.name
					and enclosing(a, module) is None]
		else:
			starts = [st]
		loc = '%s:%d' % (module.relpath, st.lineno)
		for a in starts:
			cond = None
			while a is not None and not isinstance(a, ast.Module):
				up = getattr(a, '_parent', None)
				if isinstance(up, (ast.If, ast.While)) and not any(
						isinstance(b, ast.Call) and (dotted(b.func) or ''
						).split('.')[-1] in ('exists', 'isfile', 'access',
						'lexists', 'is_file') for b in ast.walk(up.test)):
					cond = up.test
				a = up
			if cond is None:
				real += 1
			else:
				res.finding('conditional', '%s PASSWD' % module.name, loc,
						'the passwords are only read when %s' % ast.unparse(
						cond))
				real += 1
		values = [value]
		if isinstance(value, ast.Call) and dotted(value.func) in (
				module.funcs):
			g = module.funcs[dotted(value.func)]
			reading.extend(t for t in ast.walk(g.node)
					if isinstance(t, ast.Try))
			values = [r.value for r in ast.walk(g.node) if isinstance(r,
					ast.Return) and r.value is not None]
		for v in values:
			if isinstance(v, ast.BoolOp) or isinstance(v, ast.IfExp) and any(
					isinstance(b, ast.Constant) and b.value is None
					for b in (v.body, v.orelse)) and not any(isinstance(b,
					ast.Call) for b in ast.walk(v.test)):
				res.finding('emptied', '%s PASSWD' % module.name, loc,
						'a file without passwords disables the protection')
			for c in ast.walk(v):
				if isinstance(c, ast.Call) and isinstance(c.func,
						ast.Attribute) and c.func.attr in ('partition',
						'rpartition') and not any(getattr(b, 'ifs', None)
						for b in ast.walk(v) if isinstance(b,
						ast.comprehension)):
					res.finding('malformed', '%s PASSWD' % module.name, loc,
							'a line without password is accepted as a user'
							' with an empty password')
	if not real:
		res.finding('unread', '%s PASSWD' % module.name, module.relpath + ':1',
				'the passwords are never read')
	for n in ast.walk(module.tree):
		if not isinstance(n, ast.Try) or n not in reading and not any(
				isinstance(a, ast.Name)
				and a.id == 'PASSWD' and isinstance(a.ctx, ast.Store)
				for st in n.body for a in ast.walk(st)):
			continue
		res.count('places where passwords are read')
		for h in n.handlers:
			if any(isinstance(a, ast.Raise) or isinstance(a, ast.Call)
					and dotted(a.func) in ('sys.exit', 'exit', 'os._exit')
					for st in h.body for a in ast.walk(st)):
				continue
			types = [None] if h.type is None else (h.type.elts
					if isinstance(h.type, ast.Tuple) else [h.type])
			for t in types:
				if t is None or dotted(t) not in OSERR:
					res.finding('failopen', module.name, '%s:%d' % (
							module.relpath, h.lineno), 'password protection is'
							' disabled when reading the passwords raises %s' % (
							'any exception' if t is None else ast.unparse(t)))
