"""Case analysis of a function computing the bounds of a slice.

The inputs (start, stop, length) are partitioned into a finite number of
regions by their relation to 0 and the length; in each region every quantity
is a linear form over independent variables that are at least 1, so that each
comparison has a fixed outcome. The function is interpreted abstractly over
these linear forms, and the bounds it returns are compared with those which
indexing with the slice has by definition."""
import ast
from .project import dotted

NONE = 'None'


class Unknown(Exception):
	pass


class Raises(Exception):
	pass


class Returned(Exception):
	def __init__(self, value):
		self.value = value


class Lin:
	"""Linear form: constant and coefficients of variables >= 1."""
	def __init__(self, const=0, **coefs):
		self.const = const
		self.coefs = {k: v for k, v in coefs.items() if v}

	def add(self, other, sign=1):
		res = dict(self.coefs)
		for k, v in other.coefs.items():
			res[k] = res.get(k, 0) + sign * v
		return Lin(self.const + sign * other.const, **res)

	def signs(self):
		"""The signs this form may have."""
		if not self.coefs:
			return {(self.const > 0) - (self.const < 0)}
		low = self.const + sum(self.coefs.values())
		if all(v > 0 for v in self.coefs.values()):
			if low >= 0:
				return {1} if low > 0 else {0, 1}
		elif all(v < 0 for v in self.coefs.values()):
			if low <= 0:
				return {-1} if low < 0 else {0, -1}
		return {-1, 0, 1}

	def __repr__(self):
		return ' + '.join(['%d%s' % (v, k) for k, v in sorted(
				self.coefs.items())] + [str(self.const)])


def cmp(a, b, holds):
	"""Whether holds(sign) is the same for all signs a - b may have."""
	res = {holds(s) for s in a.add(b, -1).signs()}
	if len(res) != 1:
		raise Unknown('comparison of %r and %r' % (a, b))
	return res.pop()


def lt(a, b):
	return cmp(a, b, lambda s: s < 0)


def le(a, b):
	return cmp(a, b, lambda s: s <= 0)


def eq(a, b):
	return cmp(a, b, lambda s: s == 0)


def regions():
	"""Yield (description, start, stop, length)."""
	kinds = ('none', 'below', '-n', 'neg', 'zero', 'mid', 'n', 'above')
	for ks in kinds:
		for kt in kinds:
			inner = [k in ('neg', 'mid') for k in (ks, kt)]
			if all(inner):
				# effective positions a, b in (0, n)
				layouts = [
						(Lin(a=1), Lin(a=1), Lin(a=1, d=1)),
						(Lin(a=1), Lin(a=1, e=1), Lin(a=1, e=1, d=1)),
						(Lin(a=1, e=1), Lin(a=1), Lin(a=1, e=1, d=1))]
			elif any(inner):
				layouts = [(Lin(a=1), Lin(a=1), Lin(a=1, d=1))]
			else:
				layouts = [(None, None, n) for n in (
						Lin(0), Lin(1), Lin(1, m=1))]
			for a, b, n in layouts:
				# values outside of the sequence, in either order
				orders = [(Lin(x=1), Lin(x=1)), (Lin(x=1), Lin(x=1, y=1)),
						(Lin(x=1, y=1), Lin(x=1))]
				if not (ks == kt and ks in ('below', 'above')):
					orders = [(Lin(1), Lin(1)), (Lin(1), Lin(1, y=1)),
							(Lin(1, x=1), Lin(1)), (Lin(1, x=1), Lin(1, y=1))]
				for xs, xt in orders:
					yield ('start: %s, stop: %s' % (ks, kt),
							value(ks, a, n, xs), value(kt, b, n, xt), n)


def value(kind, inner, n, out):
	zero = Lin(0)
	return {'none': NONE, 'below': zero.add(n, -1).add(out, -1),
			'-n': zero.add(n, -1), 'zero': zero, 'n': n,
			'above': n.add(out), 'mid': inner,
			'neg': inner.add(n, -1) if inner else None}[kind]


def effective(v, n, default):
	if v is NONE:
		return default
	if lt(v, Lin(0)):
		v = v.add(n)
	if lt(v, Lin(0)):
		return Lin(0)
	return v if le(v, n) else n


class Interp:
	"""Abstract interpretation of the function for one region."""
	def __init__(self, func, start, stop, step, n):
		self.func = func
		self.n = n
		self.attrs = {'start': start, 'stop': stop, 'step': step}
		self.seq, self.slice = func.posparams[:2]
		self.env = {p: self.const(d) for p, d in func.defaults.items()}
		self.steps = 0

	def const(self, node):
		if isinstance(node, ast.Constant):
			if node.value is None:
				return NONE
			if isinstance(node.value, bool):
				return node.value
			if isinstance(node.value, int):
				return Lin(node.value)
		raise Unknown('default')

	def run(self):
		try:
			self.block(self.func.body)
		except Returned as ret:
			return ret.value
		return NONE

	def block(self, body):
		for st in body:
			self.stmt(st)

	def stmt(self, st):
		self.steps += 1
		if self.steps > 1000:
			raise Unknown('loop')
		if isinstance(st, ast.Assign):
			v = self.ev(st.value)
			for t in st.targets:
				self.assign(t, v)
		elif isinstance(st, ast.AugAssign):
			self.assign(st.target, self.ev(ast.BinOp(left=st.target,
					op=st.op, right=st.value)))
		elif isinstance(st, ast.If):
			self.block(st.body if self.truth(st.test) else st.orelse)
		elif isinstance(st, ast.Return):
			raise Returned(self.ev(st.value) if st.value else NONE)
		elif isinstance(st, ast.Raise):
			raise Raises
		elif isinstance(st, ast.Try):
			names = {dotted(x) for h in st.handlers if h.type is not None
					for x in (h.type.elts if isinstance(h.type, ast.Tuple)
					else [h.type])}
			try:
				self.block(st.body)
			except IndexError:
				for h in st.handlers:
					if names & {'IndexError', 'LookupError'} or h.type is None:
						self.block(h.body)
						break
				else:
					raise
			else:
				self.block(st.orelse)
			self.block(st.finalbody)
		elif isinstance(st, ast.Expr):
			if not isinstance(st.value, ast.Constant):
				self.ev(st.value)
		elif isinstance(st, ast.Assert):
			if not self.truth(st.test):
				raise Raises
		elif not isinstance(st, ast.Pass):
			raise Unknown(type(st).__name__)

	def assign(self, t, v):
		if isinstance(t, ast.Name):
			self.env[t.id] = v
		elif isinstance(t, (ast.Tuple, ast.List)):
			if not isinstance(v, tuple) or len(v) != len(t.elts):
				raise Unknown('unpacking')
			for x, y in zip(t.elts, v):
				self.assign(x, y)
		else:
			raise Unknown('assignment')

	def truth(self, node):
		v = self.ev(node)
		if isinstance(v, bool):
			return v
		if v is NONE:
			return False
		if isinstance(v, Lin):
			return not eq(v, Lin(0))
		raise Unknown('truth')

	def ev(self, node):
		if isinstance(node, ast.Constant):
			return self.const(node)
		if isinstance(node, ast.Name):
			if node.id in self.env:
				return self.env[node.id]
			raise Unknown('name %s' % node.id)
		if isinstance(node, ast.Attribute):
			if dotted(node.value) == self.slice and node.attr in self.attrs:
				return self.attrs[node.attr]
			raise Unknown('attribute')
		if isinstance(node, ast.Tuple):
			return tuple(self.ev(x) for x in node.elts)
		if isinstance(node, ast.IfExp):
			return self.ev(node.body if self.truth(node.test)
					else node.orelse)
		if isinstance(node, ast.BoolOp):
			isand = isinstance(node.op, ast.And)
			for x in node.values[:-1]:
				if self.truth(x) != isand:
					return self.ev(x)
			return self.ev(node.values[-1])
		if isinstance(node, ast.UnaryOp):
			if isinstance(node.op, ast.Not):
				return not self.truth(node.operand)
			if isinstance(node.op, ast.USub):
				return Lin(0).add(self.num(node.operand), -1)
		if isinstance(node, ast.BinOp) and isinstance(node.op,
				(ast.Add, ast.Sub)):
			return self.num(node.left).add(self.num(node.right),
					1 if isinstance(node.op, ast.Add) else -1)
		if isinstance(node, ast.Compare):
			left = node.left
			for op, right in zip(node.ops, node.comparators):
				if not self.compare(op, left, right):
					return False
				left = right
			return True
		if isinstance(node, ast.Call):
			return self.call(node)
		if isinstance(node, ast.Subscript) and dotted(
				node.value) == self.seq:
			i = self.num(node.slice)
			if lt(i, Lin(0)):
				i = i.add(self.n)
			if lt(i, Lin(0)) or not lt(i, self.n):
				raise IndexError
			return ('item', )
		raise Unknown(type(node).__name__)

	def num(self, node):
		v = self.ev(node)
		if isinstance(v, bool):
			return Lin(int(v))
		if not isinstance(v, Lin):
			raise Unknown('number')
		return v

	def compare(self, op, left, right):
		if isinstance(op, (ast.In, ast.NotIn)):
			if not isinstance(right, (ast.Tuple, ast.List, ast.Set)):
				raise Unknown('in')
			res = any(self.equal(self.ev(left), self.ev(x))
					for x in right.elts)
			return res if isinstance(op, ast.In) else not res
		a, b = self.ev(left), self.ev(right)
		if isinstance(op, (ast.Is, ast.Eq)):
			return self.equal(a, b)
		if isinstance(op, (ast.IsNot, ast.NotEq)):
			return not self.equal(a, b)
		if not isinstance(a, Lin) or not isinstance(b, Lin):
			raise Unknown('comparison')
		return (lt(a, b) if isinstance(op, ast.Lt) else le(a, b) if isinstance(
				op, ast.LtE) else lt(b, a) if isinstance(op, ast.Gt)
				else le(b, a))

	def equal(self, a, b):
		if isinstance(a, Lin) and isinstance(b, Lin):
			return eq(a, b)
		if a is NONE or b is NONE:
			return a is b
		if isinstance(a, bool) and isinstance(b, bool):
			return a == b
		raise Unknown('equality')

	def call(self, node):
		name = dotted(node.func)
		if node.keywords:
			raise Unknown('keywords')
		if name == 'len' and len(node.args) == 1 and dotted(
				node.args[0]) == self.seq:
			return self.n
		if name in ('min', 'max') and len(node.args) > 1:
			vals = [self.num(a) for a in node.args]
			best = vals[0]
			for v in vals[1:]:
				if not (le(best, v) if name == 'min' else le(v, best)):
					best = v
			return best
		if name == self.slice + '.indices' and len(node.args) == 1:
			if not self.attrs['step'] is NONE:
				raise Unknown('step')
			n = self.num(node.args[0])
			return (effective(self.attrs['start'], n, Lin(0)),
					effective(self.attrs['stop'], n, n), Lin(1))
		raise Unknown('call of %s' % name)


def check(func):
	"""Yield ('ok' / 'wrong' / 'unknown', message) per region."""
	for desc, start, stop, n in regions():
		try:
			res = Interp(func, start, stop, NONE, n).run()
			if not isinstance(res, tuple) or len(res) < 2 or not all(
					isinstance(x, Lin) for x in res[:2]):
				raise Unknown('result')
			a, b = effective(start, n, Lin(0)), effective(stop, n, n)
			if lt(a, b):
				ok = eq(res[0], a) and eq(res[1], b)
			else:
				ok = le(res[1], res[0])
			yield ('ok' if ok else 'wrong', '%s: bounds (%r, %r) instead of '
					'(%r, %r)' % (desc, res[0], res[1], a, b))
		except (Raises, IndexError):
			yield 'wrong', '%s: raises an exception' % desc
		except Unknown as err:
			yield 'unknown', '%s: %s' % (desc, err)
	# steps are not supported
	for step in (Lin(2), Lin(-1)):
		try:
			Interp(func, NONE, NONE, step, Lin(m=1)).run()
			yield 'wrong', 'a slice with a step is accepted'
		except Raises:
			yield 'ok', ''
		except (Unknown, IndexError) as err:
			yield 'unknown', 'step: %s' % err
