"""Structured, path-sensitive forward abstract interpretation of a function.

The abstract state is a list of disjuncts ``(facts, dom)``; ``facts`` maps the
normalised text of a branch condition to the truth value it has on the paths
summarised by this disjunct (killed when a variable in the condition is
assigned), ``dom`` is the analysis-specific state.  Loops run to a fixpoint.
"""
import ast
from .project import src, own_nodes

MAXDISJ = 48
PURE_CALLS = {'isinstance', 'len', 'hasattr', 'callable', 'bool', 'int',
		'any', 'all', 'min', 'max', 'str', 'type'}


def cond_key(node):
	"""Normalise a condition: (key, polarity, names) or None if impure."""
	pol = True
	while isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
		pol = not pol
		node = node.operand
	if isinstance(node, ast.Compare) and len(node.ops) == 1:
		op = node.ops[0]
		neg = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In,
				ast.GtE: ast.Lt, ast.Gt: ast.LtE}
		if type(op) in neg:
			node = ast.Compare(left=node.left, ops=[neg[type(op)]()],
					comparators=node.comparators)
			pol = not pol
	names = set()
	for n in ast.walk(node):
		if isinstance(n, ast.Call):
			if not (isinstance(n.func, ast.Name) and n.func.id in PURE_CALLS
					or isinstance(n.func, ast.Attribute) and n.func.attr in (
					'startswith', 'endswith', 'get', 'isupper', 'islower')):
				return None
		elif isinstance(n, (ast.Await, ast.Yield, ast.YieldFrom,
				ast.NamedExpr, ast.Lambda)):
			return None
		elif isinstance(n, ast.Name):
			names.add(n.id)
	if isinstance(node, ast.Constant):
		return None
	return src(node), pol, frozenset(names)


def const_set(node):
	"""Frozenset of constants for a literal tuple/list/set of constants."""
	if isinstance(node, (ast.Tuple, ast.List, ast.Set)):
		if all(isinstance(e, ast.Constant) for e in node.elts):
			return frozenset(e.value for e in node.elts)
	return None


def value_test(node):
	"""Decompose a test as (expr, set of constants, polarity) or None."""
	pol = True
	while isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
		pol = not pol
		node = node.operand
	if isinstance(node, ast.Compare) and len(node.ops) == 1:
		op, left, right = node.ops[0], node.left, node.comparators[0]
		if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
			if isinstance(left, ast.Constant):
				left, right = right, left
			if isinstance(right, ast.Constant) and not isinstance(
					left, ast.Constant):
				return (left, frozenset([right.value]),
						pol == isinstance(op, (ast.Eq, ast.Is)))
		elif isinstance(op, (ast.In, ast.NotIn)):
			cs = const_set(right)
			if cs is not None and not isinstance(left, ast.Constant):
				return left, cs, pol == isinstance(op, ast.In)
	return None


def _common(f1, f2):
	"""Facts implied by both."""
	res = {}
	for c, v in f1.items():
		w = f2.get(c)
		if w is None:
			continue
		if v[0] == w[0]:
			res[c] = v
		elif c[0] == '#':
			(k1, s1), (k2, s2) = v[0], w[0]
			if k1 == 'in' and k2 == 'in':
				res[c] = (('in', s1 | s2), v[1])
			elif k1 == 'out' and k2 == 'out':
				if s1 & s2:
					res[c] = (('out', s1 & s2), v[1])
			else:
				o = (s1 - s2) if k1 == 'out' else (s2 - s1)
				if o:
					res[c] = (('out', o), v[1])
	return res


def _decide(facts, vt):
	"""Truth value of a value test under facts or None."""
	fact = facts.get('#' + src(vt[0]))
	if fact is None:
		return None
	kind, vals = fact[0]
	if kind == 'in':
		if vals <= vt[1]:
			return vt[2]
		if not (vals & vt[1]):
			return not vt[2]
	elif vt[1] <= vals:
		return not vt[2]
	return None


def _learn(facts, expr, names, kind, vals):
	key = '#' + src(expr)
	old = facts.get(key)
	if old is not None:
		k, v = old[0]
		if kind == 'in':
			vals = vals & v if k == 'in' else vals - v
		elif k == 'in':
			kind, vals = 'in', v - vals
		else:
			vals = vals | v
	facts[key] = ((kind, vals), names)


class Flow:
	# exceptions: which states flow to handlers: 'pre' (before each statement)
	# or 'both'
	raise_states = 'pre'
	track_facts = True

	def __init__(self, func):
		self.func = func
		self.returns = []  # (node, ds)
		self.raises = []
		self.collect = []  # stack of lists collecting states in try bodies
		self.loopstack = []
		self.interesting = self._interesting()

	def _interesting(self):
		"""Only remember branch conditions that occur more than once."""
		cnt, vals = {}, {}
		if not self.track_facts:
			return set()
		stack = []
		for n in own_nodes(self.func.node):
			if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
				stack.append(n.test)
			elif isinstance(n, ast.BoolOp):
				stack.append(n)
		seen = set()
		while stack:
			n = stack.pop()
			if id(n) in seen:
				continue
			seen.add(id(n))
			if isinstance(n, ast.BoolOp):
				stack.extend(n.values)
				continue
			if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
				stack.append(n.operand)
				continue
			if isinstance(n, ast.NamedExpr):
				n = n.target
			key = cond_key(n)
			if key is None:
				continue
			cnt[key[0]] = cnt.get(key[0], 0) + 1
			vt = value_test(n)
			x = src(vt[0]) if vt is not None else key[0]
			vals[x] = vals.get(x, 0) + 1
		res = {c for c, m in cnt.items() if m > 1}
		res |= {'#' + c for c, m in vals.items() if m > 1}
		# constants assigned to a tested variable
		for n in own_nodes(self.func.node):
			if isinstance(n, ast.Assign):
				pairs = []
				for t in n.targets:
					if isinstance(t, ast.Tuple) and isinstance(
							n.value, ast.Tuple):
						pairs.extend(zip(t.elts, n.value.elts))
					else:
						pairs.append((t, n.value))
				for t, v in pairs:
					if (isinstance(v, ast.Constant)
							and isinstance(t, ast.Name) and t.id in vals):
						res.add('#' + t.id)
						if t.id in cnt:
							res.add(t.id)
		return res

	# --- hooks ---
	def init(self):
		return None

	def copy(self, dom):
		return dom

	def join(self, a, b):
		raise NotImplementedError

	def equal(self, a, b):
		return a == b

	def on_expr(self, node, dom):
		"""Evaluate an expression; return the new dom."""
		return dom

	def on_assign(self, target, value, dom, stmt):
		"""Bind target (any target node); value may be None (loop etc.)."""
		return dom

	def on_stmt(self, node, dom):
		"""Other simple statements."""
		return dom

	def on_def(self, node, dom):
		return dom

	def on_with(self, item, dom, stmt):
		dom = self.on_expr(item.context_expr, dom)
		if item.optional_vars is not None:
			dom = self.on_assign(item.optional_vars, item.context_expr, dom,
					stmt)
		return dom

	def on_with_exit(self, stmt, dom):
		return dom

	def on_branch(self, test, truth, dom):
		"""Refine; return None if infeasible."""
		return dom

	def on_return(self, node, ds):
		pass

	def on_delete(self, target, dom):
		return dom

	def on_handler(self, handler, dom):
		return dom

	# --- machinery ---
	def run(self):
		ds = [({}, self.init())]
		end = self.block(self.func.body, ds)
		self.end = end
		return end

	def mapd(self, ds, fn):
		res = []
		for facts, dom in ds:
			new = fn(self.copy(dom))
			if new is not None:
				res.append((facts, new))
		return res

	def kill(self, ds, names):
		if not names:
			return ds
		res = []
		for facts, dom in ds:
			nf = {k: v for k, v in facts.items() if not (v[1] & names)}
			res.append((nf, dom))
		return self.norm(res)

	def norm(self, ds):
		"""Merge disjuncts with equal facts; widen when too many."""
		bykey = {}
		for facts, dom in ds:
			k = self.fkey(facts)
			if k in bykey:
				bykey[k] = (facts, self.join(bykey[k][1], dom))
			else:
				bykey[k] = (facts, dom)
		res = list(bykey.values())
		if len(res) <= MAXDISJ:
			return res
		# merge disjuncts with equal doms: keep common facts only
		out = []
		for facts, dom in res:
			for n, (f2, d2) in enumerate(out):
				if self.equal(dom, d2):
					out[n] = (_common(f2, facts), d2)
					break
			else:
				out.append((facts, dom))
		while len(out) > MAXDISJ:
			f1, d1 = out.pop()
			f2, d2 = out.pop()
			out.insert(0, (_common(f2, f1), self.join(d1, d2)))
		return out

	def joinds(self, *dss):
		res = []
		for ds in dss:
			res.extend(ds)
		return self.norm(res)

	@staticmethod
	def fkey(facts):
		return frozenset((c, v[0]) for c, v in facts.items())

	def eqds(self, a, b):
		if len(a) != len(b):
			return False
		ka = {self.fkey(f): d for f, d in a}
		kb = {self.fkey(f): d for f, d in b}
		return ka.keys() == kb.keys() and all(
				self.equal(ka[k], kb[k]) for k in ka)

	def note_raise(self, ds):
		if self.collect and ds:
			self.collect[-1].append(ds)

	def ev(self, node, ds):
		if node is None:
			return ds
		# conditional expressions and short-circuits are path-split
		if isinstance(node, ast.IfExp):
			t, f = self.branch(node.test, ds)
			return self.joinds(self.ev(node.body, t), self.ev(node.orelse, f))
		names = frozenset(n.target.id for n in ast.walk(node)
				if isinstance(n, ast.NamedExpr))
		ds = self.mapd(ds, lambda d: self.on_expr(node, d))
		return self.kill(ds, names)

	def assign(self, target, value, ds, stmt):
		names = frozenset(n.id for n in ast.walk(target)
				if isinstance(n, ast.Name)
				and isinstance(n.ctx, (ast.Store, ast.Del)))
		ds = self.mapd(ds, lambda d: self.on_assign(target, value, d, stmt))
		root = target
		while isinstance(root, (ast.Attribute, ast.Subscript)):
			root = root.value
		if root is not target and isinstance(root, ast.Name):
			names = names | {root.id}
		ds = self.kill(ds, names)
		if (isinstance(target, ast.Tuple) and isinstance(value, ast.Tuple)
				and len(target.elts) == len(value.elts)):
			for t, v in zip(target.elts, value.elts):
				ds = self._constfact(t, v, ds)
			return ds
		return self._constfact(target, value, ds)

	def _constfact(self, target, value, ds):
		# v = <constant>: remember truth facts
		if (self.track_facts and isinstance(target, ast.Name)
				and isinstance(value, ast.Constant)):
			key = target.id
			v = value.value
			new = []
			for facts, dom in ds:
				facts = dict(facts)
				if key in self.interesting:
					facts[key] = (bool(v), frozenset([target.id]))
				if '#' + key in self.interesting:
					facts['#' + key] = (('in', frozenset([v])),
						frozenset([target.id]))
				new.append((facts, dom))
			ds = new
		return ds

	def branch(self, test, ds):
		"""Return (ds_true, ds_false)."""
		if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
			t, f = self.branch(test.operand, ds)
			return f, t
		if isinstance(test, ast.BoolOp):
			isand = isinstance(test.op, ast.And)
			cur, done = ds, []
			for v in test.values:
				t, f = self.branch(v, cur)
				if isand:
					done.append(f)
					cur = t
				else:
					done.append(t)
					cur = f
			done = self.joinds(*done)
			return (cur, done) if isand else (done, cur)
		if isinstance(test, ast.Constant):
			return (ds, []) if test.value else ([], ds)
		if isinstance(test, ast.NamedExpr):
			ds = self.ev(test.value, ds)
			ds = self.assign(test.target, test.value, ds, test)
			test = test.target
		else:
			ds = self.ev(test, ds)
		key = cond_key(test) if self.track_facts else None
		vt = value_test(test) if key is not None else None
		res = []
		for truth in (True, False):
			out = []
			for facts, dom in ds:
				if key is not None:
					v = (truth == key[1])
					if key[0] in facts and facts[key[0]][0] != v:
						continue
					if vt is not None and _decide(facts, vt) not in (
							None, truth):
						continue
					known = facts.get('#' + key[0])
					if known is not None and known[0][0] == 'in' and all(
							bool(x) != v for x in known[0][1]):
						continue
					dom2 = self.on_branch(test, truth, self.copy(dom))
					if dom2 is None:
						continue
					facts = dict(facts)
					if key[0] in self.interesting:
						facts[key[0]] = (v, key[2])
					if vt is not None and '#' + src(
							vt[0]) in self.interesting:
						_learn(facts, vt[0], key[2],
								'in' if truth == vt[2] else 'out', vt[1])
					elif v and '#' + key[0] in self.interesting and isinstance(
							test, (ast.Name, ast.Attribute)):
						_learn(facts, test, key[2], 'out',
								frozenset([None, '', 0]))
					out.append((facts, dom2))
				else:
					dom2 = self.on_branch(test, truth, self.copy(dom))
					if dom2 is not None:
						out.append((facts, dom2))
			res.append(self.norm(out))
		return res[0], res[1]

	def block(self, stmts, ds):
		for st in stmts:
			if not ds:
				break
			if self.collect:
				self.note_raise(ds)
			ds = self.stmt(st, ds)
			if self.collect and self.raise_states == 'both' and ds:
				self.note_raise(ds)
		return ds

	def stmt(self, st, ds):
		m = getattr(self, 'st_' + type(st).__name__, None)
		if m is not None:
			return m(st, ds)
		return self.mapd(ds, lambda d: self.on_stmt(st, d))

	# (func, call) -> bool; set by install_noreturn()
	noreturn = staticmethod(lambda func, call: False)

	def st_Expr(self, st, ds):
		ds = self.ev(st.value, ds)
		if isinstance(st.value, ast.Call) and self.noreturn(
				self.func, st.value):
			if ds:
				self._jump('exit', st, ds)
			return []
		return ds

	def st_Assign(self, st, ds):
		if isinstance(st.value, ast.IfExp) and len(st.targets) == 1:
			t, f = self.branch(st.value.test, ds)
			t = self.assign(st.targets[0], st.value.body,
					self.ev(st.value.body, t), st)
			f = self.assign(st.targets[0], st.value.orelse,
					self.ev(st.value.orelse, f), st)
			return self.joinds(t, f)
		ds = self.ev(st.value, ds)
		for t in st.targets:
			ds = self.assign(t, st.value, ds, st)
		return ds

	def st_AnnAssign(self, st, ds):
		if st.value is None:
			return ds
		ds = self.ev(st.value, ds)
		return self.assign(st.target, st.value, ds, st)

	def st_AugAssign(self, st, ds):
		load = ast.copy_location(_as_load(st.target), st.target)
		ds = self.ev(load, ds)
		ds = self.ev(st.value, ds)
		return self.assign(st.target, st, ds, st)

	def st_Return(self, st, ds):
		ds = self.ev(st.value, ds)
		if ds:
			self._jump('return', st, ds)
		return []

	def st_Raise(self, st, ds):
		ds = self.ev(st.exc, ds)
		ds = self.ev(st.cause, ds)
		if ds:
			self.note_raise(ds)
			self._jump('raise', st, ds)
		return []

	def _jump(self, kind, st, ds):
		# innermost finally blocks intercept
		for frame in reversed(self.loopstack):
			if frame[0] == 'finally':
				frame[1].append((kind, st, ds))
				return
			if frame[0] == 'loop' and kind in ('break', 'continue'):
				frame[1][kind].append(ds)
				return
		if kind == 'return':
			self.returns.append((st, ds))
			self.on_return(st, ds)
		elif kind == 'raise':
			self.raises.append((st, ds))

	def st_Break(self, st, ds):
		self._jump('break', st, ds)
		return []

	def st_Continue(self, st, ds):
		self._jump('continue', st, ds)
		return []

	def st_Pass(self, st, ds):
		return ds

	def st_If(self, st, ds):
		t, f = self.branch(st.test, ds)
		t = self.block(st.body, t) if t else t
		f = self.block(st.orelse, f) if f else f
		return self.joinds(t, f)

	def _loop(self, head, body, orelse, ds):
		"""head(ds) -> (enter, exit)."""
		entry = ds
		saved = (list(self.returns), list(self.raises))
		collected = [list(c) for c in self.collect]
		for it in range(12):
			# discard results of previous iteration
			self.returns, self.raises = list(saved[0]), list(saved[1])
			for n, c in enumerate(collected):
				self.collect[n][:] = c
			frame = ('loop', {'break': [], 'continue': []})
			self.loopstack.append(frame)
			marks = [len(fr[1]) for fr in self.loopstack
					if fr[0] == 'finally']
			enter, exit_ = head(entry)
			out = self.block(body, enter) if enter else []
			self.loopstack.pop()
			back = self.joinds(out, *frame[1]['continue'])
			new = self.joinds(entry, back)
			if self.eqds(new, entry):
				break
			if it > 6:  # widen: drop facts
				dom = new[0][1]
				for _, d in new[1:]:
					dom = self.join(dom, d)
				new = [({}, dom)]
			fr_i = 0
			for fr in self.loopstack:
				if fr[0] == 'finally':
					del fr[1][marks[fr_i]:]
					fr_i += 1
			entry = new
		res = self.block(orelse, exit_) if (orelse and exit_) else exit_
		return self.joinds(res, *frame[1]['break'])

	def st_While(self, st, ds):
		return self._loop(lambda s: self.branch(st.test, s), st.body,
				st.orelse, ds)

	def st_For(self, st, ds):
		ds = self.ev(st.iter, ds)

		def head(s):
			s2 = self.assign(st.target, None, s, st)
			s2 = self.mapd(s2, lambda d: self.on_iter(st, d))
			return s2, s
		return self._loop(head, st.body, st.orelse, ds)

	def on_iter(self, st, dom):
		return dom

	def st_With(self, st, ds):
		for item in st.items:
			ds = self.mapd(ds, lambda d: self.on_with(item, d, st))
			if item.optional_vars is not None:
				names = frozenset(n.id for n in ast.walk(item.optional_vars)
						if isinstance(n, ast.Name))
				ds = self.kill(ds, names)
		ds = self.block(st.body, ds)
		return self.mapd(ds, lambda d: self.on_with_exit(st, d))

	def st_Try(self, st, ds):
		fin = None
		if st.finalbody:
			fin = ('finally', [])
			self.loopstack.append(fin)
		self.collect.append([])
		out = self.block(st.body, ds)
		exc = self.collect.pop()
		excds = self.joinds(*exc) if exc else []
		if st.orelse and out:
			out = self.block(st.orelse, out)
		outs = [out]
		catches_all = False
		if excds:
			for h in st.handlers:
				hds = self.ev(h.type, excds)
				if h.name:
					nm = ast.Name(id=h.name, ctx=ast.Store())
					ast.copy_location(nm, h)
					hds = self.assign(nm, None, hds, h)
				hds = self.mapd(hds, lambda d: self.on_handler(h, d))
				outs.append(self.block(h.body, hds))
				if h.type is None or src(h.type) in ('Exception',
						'BaseException'):
					catches_all = True
			if not catches_all:
				# exception may propagate outward
				if self.collect:
					self.collect[-1].append(excds)
				if fin is not None:
					fin[1].append(('raise', st, excds))
		res = self.joinds(*outs)
		if fin is not None:
			self.loopstack.pop()
			for kind, node, jds in fin[1]:
				jds2 = self.block(st.finalbody, jds)
				if jds2:
					if kind == 'raise':
						self.note_raise(jds2)
					self._jump(kind, node, jds2)
			res = self.block(st.finalbody, res) if res else res
		return res

	def st_Delete(self, st, ds):
		for t in st.targets:
			ds = self.mapd(ds, lambda d: self.on_delete(t, d))
			names = frozenset(n.id for n in ast.walk(t)
					if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Del))
			ds = self.kill(ds, names)
		return ds

	def st_Assert(self, st, ds):
		t, _ = self.branch(st.test, ds)
		return t

	def st_FunctionDef(self, st, ds):
		return self.mapd(ds, lambda d: self.on_def(st, d))

	st_ClassDef = st_AsyncFunctionDef = st_FunctionDef


def _as_load(node):
	if isinstance(node, ast.Name):
		return ast.Name(id=node.id, ctx=ast.Load())
	if isinstance(node, ast.Attribute):
		return ast.Attribute(value=node.value, attr=node.attr, ctx=ast.Load())
	if isinstance(node, ast.Subscript):
		return ast.Subscript(value=node.value, slice=node.slice,
				ctx=ast.Load())
	return node


class _Reach(Flow):
	def init(self):
		return ()

	def join(self, a, b):
		return a


def install_noreturn(project):
	"""Determine functions that never return normally."""
	ext = {'sys.exit', 'os._exit', 'exit', 'quit', 'bottle.abort',
			'os.abort'}
	known = set()

	def noreturn(func, call):
		r = project.resolve_call(func, call)
		if isinstance(r, tuple) and r[0] == 'ext':
			return r[1] in ext
		return getattr(r, 'id', None) in known
	Flow.noreturn = staticmethod(noreturn)
	changed = True
	while changed:
		changed = False
		for fid, f in project.funcs.items():
			if fid in known or f.is_generator or isinstance(
					f.node, ast.Lambda):
				continue
			calls = [n for n in ast.walk(f.node) if isinstance(n, ast.Call)]
			if not any(noreturn(f, c) for c in calls) and not (
					f.cls is None and any(isinstance(n, ast.Raise)
					for n in own_nodes(f.node))):
				continue
			fl = _Reach(f)
			fl.track_facts = False
			end = fl.run()
			if not end and not fl.returns:
				known.add(fid)
				changed = True
	return known
