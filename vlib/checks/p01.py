"""Parent pointers of ParentedTree agree with the lists of children."""
import ast
import copy
from ..flow import Flow
from ..project import own_nodes, dotted, src, AnalysisBroken
from ..effects import MUTATORS
from .. import slicecases

TITLE = 'parent pointers and lists of children are updated together'
PERMUTING = {'sort', 'reverse'}
BASEOPS = {'append', 'extend', 'insert', 'pop', 'remove', '__setitem__',
		'__delitem__', '__init__'}


class Undecided(Exception):
	pass


def union(a, b):
	return {k: (a.get(k) or frozenset()) | (b.get(k) or frozenset())
			for k in set(a) | set(b)}


class Pairing(Flow):
	"""dom: dict with
	env: name -> canonical string (aliases) ; ver: name -> set of def sites
	set/del: pending _setparent/_delparent calls (canonical values)
	checked: canonical values checked with dry_run
	nottree / istree / isslice: facts about canonical values."""
	def __init__(self, func, chk):
		super().__init__(func)
		self.chk = chk
		self.me = func.posparams[0]
		self.depth = 0
		self.isinit = func.name == '__init__'

	def init(self):
		return {'env': {}, 'ver': {}, 'set': frozenset(), 'del': frozenset(),
				'checked': frozenset(), 'nottree': frozenset(),
				'slice': frozenset(), 'notslice': frozenset(),
				'mat': frozenset(), 'flags': frozenset(), 'bounds': {}}

	def copy(self, dom):
		return {k: dict(v) if isinstance(v, dict) else v
				for k, v in dom.items()}

	def join(self, a, b):
		res = {}
		for k in ('set', 'del'):
			res[k] = a[k] | b[k]
		for k in ('checked', 'nottree', 'slice', 'notslice', 'mat'):
			res[k] = a[k] & b[k]
		res['flags'] = a['flags'] | b['flags']
		if not ('distinct' in a['flags'] and 'distinct' in b['flags']):
			res['flags'] -= {'distinct'}
		for k in ('env', 'bounds'):
			res[k] = {x: v for x, v in a[k].items() if b[k].get(x) == v}
		res['ver'] = union(a['ver'], b['ver'])
		for x in set(a['env']) | set(b['env']):
			if x not in res['env']:
				res['ver'][x] = res['ver'].get(x, frozenset()) | {'j'}
		return res

	def norm(self, ds):
		# keep paths apart, up to a bound
		res = []
		for d in ds:
			if d not in res:
				res.append(d)
		if len(res) > 64:
			raise Undecided('too many paths')
		return res

	# --- canonical expressions ---
	def canon(self, node, dom):
		if isinstance(node, ast.Name):
			if node.id in dom['env']:
				return dom['env'][node.id]
			v = dom['ver'].get(node.id)
			if v:
				return '%s#%s' % (node.id, ','.join(sorted(map(str, v))))
			return node.id
		if isinstance(node, ast.Attribute):
			base = self.canon(node.value, dom)
			if node.attr == 'children':
				return base
			return '%s.%s' % (base, node.attr)
		if isinstance(node, ast.Subscript):
			return '%s[%s]' % (self.canon(node.value, dom),
					self.canon(node.slice, dom))
		if isinstance(node, ast.Constant):
			return repr(node.value)
		if isinstance(node, ast.Slice):
			b = tuple(self.canon(x, dom) if x is not None else ''
					for x in (node.lower, node.upper))
			if node.step is None and b in dom['bounds']:
				return dom['bounds'][b]
			return '%s:%s' % b
		if isinstance(node, ast.Call) and dotted(node.func) == 'slice' and (
				len(node.args) == 2):
			return self.canon(ast.Slice(lower=node.args[0],
					upper=node.args[1], step=None), dom)
		if isinstance(node, ast.Call) and dotted(node.func) in (
				'list', 'tuple') and len(node.args) == 1:
			inner = self.canon(node.args[0], dom)
			return 'copy(%s)' % inner
		if isinstance(node, ast.Call):
			return '%s(%s)' % (self.canon(node.func, dom), ', '.join(
					self.canon(a, dom) for a in node.args))
		if isinstance(node, ast.BinOp):
			return '(%s %s %s)' % (self.canon(node.left, dom),
					type(node.op).__name__, self.canon(node.right, dom))
		return src(node)

	def on_assign(self, target, value, dom, stmt):
		if isinstance(target, ast.Name):
			old = self.canon(ast.Name(id=target.id, ctx=ast.Load()), dom)
			isint = (isinstance(stmt, ast.AugAssign)
					and old in dom['notslice'])
			self.rebind(target.id, dom, stmt)
			if isint:
				dom['notslice'] |= {self.canon(ast.Name(id=target.id,
						ctx=ast.Load()), dom)}
			if value is not None and not isinstance(stmt, (ast.AugAssign,
					ast.For)):
				c = self.canon(value, dom)
				if self.stable(value):
					dom['env'][target.id] = c
					dom['ver'].pop(target.id, None)
				elif isinstance(value, (ast.List, ast.ListComp, ast.Tuple)) or (
						isinstance(value, ast.Call) and dotted(value.func)
						in ('list', 'tuple', 'sorted')):
					dom['mat'] |= {self.canon(target, dom)}
		elif isinstance(target, (ast.Tuple, ast.List)):
			names = [t.id if isinstance(t, ast.Name) else None
					for t in target.elts]
			for t in target.elts:
				if isinstance(t, ast.Name):
					self.rebind(t.id, dom, stmt)
			if (isinstance(value, ast.Call) and dotted(value.func).endswith(
					'slice_bounds') and len(names) == 3
					and len(value.args) == 2):
				key = (self.canon(target.elts[0], dom),
						self.canon(target.elts[1], dom))
				dom['bounds'][key] = self.canon(value.args[1], dom)
		elif isinstance(target, ast.Attribute):
			if target.attr == '_parent':
				self.chk.parentwrite(self.func, target, value)
				if self.canon(target.value, dom) == self.me and isinstance(
						value, ast.Constant) and value.value is None:
					dom['flags'] |= {'parentnone'}
			elif target.attr == 'children':
				self.chk.finding('children-written', self.func, target,
						'rebinds the list of children')
		elif isinstance(target, ast.Subscript):
			if isinstance(target.value, ast.Attribute) and (
					target.value.attr == 'children'):
				if self.canon(target.value.value, dom) != self.me:
					self.chk.finding('children-written', self.func, target,
							'modifies the list of children')
				else:
					self.baseop('__setitem__', [target.slice, value], target,
							dom)
		return dom

	def stable(self, value):
		"""May an alias of this expression be used for it?"""
		return isinstance(value, (ast.Name, ast.Attribute, ast.Subscript,
				ast.Constant, ast.Slice)) or (isinstance(value, ast.Call)
				and dotted(value.func) in ('slice', ))

	def rebind(self, name, dom, stmt):
		# pending events on the old value must be balanced
		old = self.canon(ast.Name(id=name, ctx=ast.Load()), dom)
		if name not in dom['env']:
			for kind in ('set', 'del'):
				if old in dom[kind]:
					self.unbalanced(kind, old, stmt)
					dom[kind] -= {old}
		for k in ('nottree', 'checked', 'slice', 'notslice', 'mat'):
			dom[k] = frozenset(x for x in dom[k] if not mentions(x, old))
		for x in [x for x, v in dom['env'].items() if mentions(v, old)]:
			if x != name and name not in dom['env']:
				del dom['env'][x]
				dom['ver'][x] = frozenset(['stale%d' % getattr(
						stmt, 'lineno', 0)])
		dom['env'].pop(name, None)
		dom['ver'][name] = frozenset(['%d.%d' % (
				getattr(stmt, 'lineno', 0), self.depth)])
		for key in [k for k in dom['bounds'] if old in k]:
			del dom['bounds'][key]

	def on_delete(self, target, dom):
		if isinstance(target, ast.Subscript) and isinstance(
				target.value, ast.Attribute) and (
				target.value.attr == 'children'):
			if self.canon(target.value.value, dom) != self.me:
				self.chk.finding('children-written', self.func, target,
						'modifies the list of children')
			else:
				self.baseop('__delitem__', [target.slice], target, dom)
		return dom

	def on_branch(self, test, truth, dom):
		if (isinstance(test, ast.Call) and dotted(test.func) == 'isinstance'
				and len(test.args) == 2):
			x = self.canon(test.args[0], dom)
			types = {dotted(t) for t in (test.args[1].elts
					if isinstance(test.args[1], ast.Tuple)
					else [test.args[1]])}
			if types & {'Tree', 'ParentedTree'} and types <= {'Tree'} | (
					{'ParentedTree'} if truth else set()):
				if not truth:
					dom['nottree'] |= {x}
				elif x in dom['nottree']:
					return None
			if truth and types <= {'list', 'tuple', 'Tree'}:
				dom['mat'] |= {x}
			if types == {'slice'}:
				if (x in dom['notslice'] if truth else x in dom['slice']):
					return None
				dom['slice' if truth else 'notslice'] |= {x}
			elif types == {'int'} and truth:
				if x in dom['slice']:
					return None
				dom['notslice'] |= {x}
		elif isinstance(test, ast.Compare) and len(test.ops) == 1:
			op = test.ops[0]
			left = self.canon(test.left, dom)
			right = self.canon(test.comparators[0], dom)
			if (isinstance(op, (ast.Is, ast.Eq)) and truth or isinstance(
					op, (ast.IsNot, ast.NotEq)) and not truth) and (
					right == 'None'):
				if left == 'children':
					dom['flags'] |= {'nochildren'}
			if isinstance(op, (ast.Eq, )) and right == '()' and truth:
				dom['notslice'] |= {left}
		return dom

	# --- events ---
	def unbalanced(self, kind, what, node):
		self.chk.finding('pointer-without-list' if kind == 'set'
				else 'pointer-without-list', self.func, node,
				'the parent pointer of %s is %s but on this path it is not '
				'%s the list of children' % (clean(what),
				'set' if kind == 'set' else 'cleared',
				'added to' if kind == 'set' else 'removed from'))

	def added(self, x, node, dom, many=False):
		self.chk.result.count('children additions')
		key = 'all(%s)' % x if many else x
		if key in dom['set']:
			dom['set'] -= {key}
			if many and x not in dom['mat']:
				self.chk.finding('iterator-consumed', self.func, node,
						'%s may be an iterator that is exhausted by the loop '
						'that sets the parent pointers' % clean(x))
		elif x in dom['nottree'] and not many:
			pass
		elif many and x in ('[]', '()', 'list()'):
			pass
		else:
			self.chk.finding('list-without-pointer', self.func, node,
					'%s added to the children without setting %s first'
					% (clean(x), 'their parent pointers' if many
					else 'its parent pointer'))

	def removed(self, x, node, dom, many=False):
		self.chk.result.count('children removals')
		key = 'all(%s)' % x if many else x
		if key in dom['del']:
			dom['del'] -= {key}
		elif x in dom['nottree'] and not many:
			pass
		else:
			self.chk.finding('list-without-pointer', self.func, node,
					'%s removed from the children without clearing %s first'
					% (clean(x), 'their parent pointers' if many
					else 'its parent pointer'))

	def on_expr(self, node, dom):
		for n in ast.walk(node):
			if isinstance(n, ast.Call):
				self.call(n, dom)
		return dom

	def call(self, n, dom):
		f = n.func
		if not isinstance(f, ast.Attribute):
			return
		name = f.attr
		if name == '_setparent':
			x = self.canon(n.args[0], dom)
			if self.canon(f.value, dom) != self.me:
				self.chk.finding('foreign-pointer', self.func, n,
						'sets a parent other than self')
			dry = self.isdry(n)
			if dry:
				dom['checked'] |= {x}
			else:
				if (dom['set'] or dom['del']) and x not in dom['checked']:
					self.chk.finding('may-fail-halfway', self.func, n,
							'_setparent(%s) may raise after other parent '
							'pointers have been changed' % clean(x))
				dom['set'] |= {x}
		elif name == '_delparent':
			if self.canon(f.value, dom) != self.me:
				self.chk.finding('foreign-pointer', self.func, n,
						'clears the parent pointer for a parent other than '
						'self')
			x = self.canon(n.args[0], dom)
			dom['del'] |= {x}
		elif isinstance(f.value, ast.Call) and dotted(
				f.value.func) == 'super' and name in BASEOPS:
			self.baseop(name, n.args, n, dom)
		elif (isinstance(f.value, ast.Name) and f.value.id == 'Tree'
				and name in BASEOPS and n.args
				and self.canon(n.args[0], dom) == self.me):
			self.baseop(name, n.args[1:], n, dom)
		elif name in MUTATORS and isinstance(f.value, ast.Attribute) and (
				f.value.attr == 'children'):
			if self.canon(f.value.value, dom) == self.me:
				if name not in PERMUTING:
					self.baseop(name, n.args, n, dom)
			elif name not in PERMUTING:
				self.chk.finding('children-written', self.func, n,
						'modifies the list of children of another node')

	def isdry(self, n):
		for k in n.keywords:
			if k.arg == 'dry_run':
				return isinstance(k.value, ast.Constant) and bool(
						k.value.value)
		if len(n.args) > 2:
			return isinstance(n.args[2], ast.Constant) and bool(
					n.args[2].value)
		return False

	def baseop(self, name, args, node, dom):
		self.chk.result.count('base list operations')
		me = self.me
		c = [self.canon(a, dom) if a is not None else '' for a in args]
		if name == 'append':
			self.added(c[0], node, dom)
		elif name == 'insert':
			self.added(c[1], node, dom)
		elif name == 'extend':
			self.added(c[0], node, dom, many=True)
		elif name == 'pop':
			idx = c[0] if c else '-1'
			self.removed('%s[%s]' % (me, idx), node, dom)
		elif name == 'remove':
			# removal of the first child equal to the argument
			x = '%s[%s.index(%s)]' % (me, me, c[0])
			alt = self.indexalias(c[0], dom)
			self.removed(alt or x, node, dom)
		elif name in ('__delitem__', '__setitem__'):
			x = '%s[%s]' % (me, c[0])
			isslice = c[0] in dom['slice'] or isinstance(args[0], ast.Slice)
			if not isslice and c[0] not in dom['notslice']:
				raise Undecided('slice or index?')
			self.removed(x, node, dom, many=isslice)
			if name == '__setitem__':
				self.added(c[1], node, dom, many=isslice)
		elif name == '__init__':
			dom['flags'] |= {'base-init'}
		elif name == 'clear':
			self.removed(me, node, dom, many=True)
		else:
			raise Undecided('base operation %s' % name)

	def indexalias(self, child, dom):
		want = '%s.index(%s)' % (self.me, child)
		for x, v in dom.get('indices', {}).items():
			if v == want:
				return '%s[%s]' % (self.me, x)
		return None

	def st_Assign(self, st, ds):
		ds = super().st_Assign(st, ds)
		# index = self.index(child)
		v = st.value
		if (isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute)
				and v.func.attr == 'index' and len(st.targets) == 1
				and isinstance(st.targets[0], ast.Name)):
			for _, dom in ds:
				dom.setdefault('indices', {})[self.canon(st.targets[0],
						dom)] = self.canon(v, dom)
		return ds

	def st_If(self, st, ds):
		ds = super().st_If(st, ds)
		if self.distinctness(self.func, st):
			for _, dom in ds:
				dom['flags'] |= {'distinct'}
		return ds

	def distinctness(self, f, st):
		"""Does this statement raise when an object occurs twice?"""
		if not any(isinstance(x, ast.Raise) for x in ast.walk(st)):
			return False
		tests = [n.test for n in ast.walk(st) if isinstance(n, ast.If)]
		names = {x.id for t in tests for x in ast.walk(t)
				if isinstance(x, ast.Name)}
		exprs = list(tests)
		for n in own_nodes(f.node):
			if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name)
					and t.id in names for t in n.targets):
				exprs.append(n.value)
		return any(isinstance(x, ast.Call) and dotted(x.func) in (
					'id', 'count', 'Counter')
				or isinstance(x, ast.Compare) and any(isinstance(o, ast.Is)
					for o in x.ops) and not any(isinstance(c, ast.Constant)
						for c in x.comparators)
				for e in exprs for x in ast.walk(e))

	# --- loops over all elements ---
	def st_For(self, st, ds):
		res = []
		distinct = self.distinctness(self.func, st)
		rest = []
		for facts, dom in ds:
			ev = self.summarise(st, dom)
			if ev is None:
				rest.append((facts, dom))
				continue
			dom = self.copy(dom)
			kind, dom_x = ev
			key = 'all(%s)' % dom_x
			if kind == 'dry':
				dom['checked'] |= {key}
			elif kind == 'set':
				if (dom['set'] or dom['del']) and key not in dom['checked']:
					self.chk.finding('may-fail-halfway', self.func, st,
							'_setparent may raise after other parent '
							'pointers have been changed: no dry run on all '
							'of %s' % clean(dom_x))
				elif key not in dom['checked']:
					self.chk.finding('may-fail-halfway', self.func, st,
							'_setparent may raise halfway the loop over %s: '
							'no dry run' % clean(dom_x))
				if 'distinct' not in dom['flags']:
					self.chk.finding('duplicates-unchecked', self.func, st,
							'the same subtree may occur twice in %s: the dry '
							'run does not detect it, and the second '
							'_setparent raises halfway' % clean(dom_x))
				dom['set'] |= {key}
			else:
				dom['del'] |= {key}
			res.append((facts, dom))
		if rest:
			res = self.joinds(res, super().st_For(st, rest))
		if distinct:
			for _, dom in res:
				dom['flags'] |= {'distinct'}
		return res

	def summarise(self, st, dom):
		"""Return (kind, canonical collection) if loop applies _setparent or
		_delparent to every subtree in collection."""
		if st.orelse:
			return None
		it = st.iter
		elem = None  # name of loop variable holding the element
		if isinstance(it, ast.Call) and dotted(it.func) == 'enumerate':
			if not (isinstance(st.target, ast.Tuple)
					and len(st.target.elts) == 2):
				return None
			it = it.args[0]
			elem = st.target.elts[1]
			coll = self.canon(it, dom)
		elif isinstance(it, ast.Call) and dotted(it.func) == 'range':
			if not isinstance(st.target, ast.Name):
				return None
			elem = None
			if len(it.args) == 2:
				b = tuple(self.canon(a, dom) for a in it.args)
				if b not in dom['bounds']:
					return None
				coll = '%s[%s]' % (self.me, dom['bounds'][b])
			elif len(it.args) == 1 and isinstance(it.args[0], ast.Call) and (
					dotted(it.args[0].func) == 'len'):
				coll = self.canon(it.args[0].args[0], dom)
			else:
				return None
			idx = st.target.id
		else:
			elem = st.target
			coll = self.canon(it, dom)
		if coll.startswith('copy(') and coll.endswith(')'):
			coll = coll[5:-1]
		if elem is not None and not isinstance(elem, ast.Name):
			return None
		# body: on every path, exactly one call unless not isinstance(Tree)
		sub = _Body(self.func, self, elem.id if elem is not None else None,
				idx if elem is None else None, coll, dom)
		try:
			kind = sub.decide(st.body)
		except Undecided:
			return None
		return (kind, coll) if kind else None

	# --- helpers are inlined ---
	def st_Expr(self, st, ds):
		n = st.value
		if isinstance(n, ast.Call):
			h, args = self.helper(n)
			if h is not None:
				return self.inline(h, args, n, ds)
			if self.raisesdup(n):
				ds = super().st_Expr(st, ds)
				for _, dom in ds:
					dom['flags'] |= {'distinct'}
				return ds
		return super().st_Expr(st, ds)

	def raisesdup(self, n):
		f = n.func
		if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and (
				f.value.id == self.me):
			m = self.func.cls.find(f.attr)
		else:
			m = self.chk.project.resolve_call(self.func, n)
		return hasattr(m, 'posparams') and any(isinstance(x, (ast.If, ast.For))
				and self.distinctness(m, x) for x in own_nodes(m.node))

	def helper(self, n):
		f = n.func
		if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and (
				f.value.id == self.me):
			m = self.func.cls.find(f.attr)
			if (m is not None and m.name not in BASEOPS | {
					'_setparent', '_delparent'} and self.relevant(m)):
				return m, [f.value] + list(n.args)
		elif isinstance(f, ast.Name):
			r = self.chk.project.resolve_call(self.func, n)
			if hasattr(r, 'posparams') and self.relevant(r):
				return r, list(n.args)
		return None, None

	def relevant(self, m):
		return any(isinstance(x, ast.Attribute) and x.attr in (
				'_setparent', '_delparent', '_parent')
				or isinstance(x, ast.Call) and dotted(x.func) == 'super'
				for x in own_nodes(m.node)) and m.cls is not self.chk.tree

	def inline(self, h, args, call, ds):
		if self.depth > 3 or call.keywords or any(
				isinstance(a, ast.Starred) for a in args):
			raise Undecided('cannot inline %s' % h.name)
		body = copy.deepcopy(h.body)
		for n in ast.walk(ast.Module(body=body, type_ignores=[])):
			if isinstance(n, ast.Return):
				if n.value is not None or n is not body[-1]:
					raise Undecided('return in helper %s' % h.name)
		self.depth += 1
		prefix = '%s%d$' % (h.name, self.depth)
		locs = h.locals
		for n in ast.walk(ast.Module(body=body, type_ignores=[])):
			if isinstance(n, ast.Name) and n.id in locs:
				n.id = prefix + n.id
		pre = []
		for p, a in zip(h.posparams, args):
			st = ast.Assign(targets=[ast.Name(id=prefix + p,
					ctx=ast.Store())], value=a)
			ast.copy_location(st, call)
			pre.append(st)
		if len(args) < len(h.posparams):
			for p in h.posparams[len(args):]:
				st = ast.Assign(targets=[ast.Name(id=prefix + p,
						ctx=ast.Store())], value=h.defaults[p])
				ast.copy_location(st, call)
				pre.append(st)
		ds = self.block(pre + [b for b in body
				if not isinstance(b, ast.Return)], ds)
		self.depth -= 1
		return ds

	def finish(self):
		ends = [(None, d) for _, d in self.end]
		for node, ds in self.returns:
			ends.extend((node, d) for _, d in ds)
		for node, dom in ends:
			for kind in ('set', 'del'):
				for x in sorted(dom[kind]):
					if self.isinit and x == 'all(%s)' % self.me:
						continue
					self.unbalanced(kind, x, node or self.func.node)
			if self.isinit and 'base-init' in dom['flags']:
				self.chk.result.count('constructor paths')
				if 'all(%s)' % self.me not in dom['set']:
					self.chk.finding('list-without-pointer', self.func,
							node or self.func.node, 'constructor does not set '
							'the parent pointers of the children')
				if 'parentnone' not in dom['flags']:
					self.chk.finding('parent-not-initialised', self.func,
							node or self.func.node,
							'constructor does not set own parent to None')
			elif self.isinit and 'nochildren' not in dom['flags']:
				self.chk.finding('parent-not-initialised', self.func,
						node or self.func.node,
						'constructor path without base constructor')


class _Body(Flow):
	"""Decide whether a loop body calls one of the pointer methods for each
	element that is a tree. dom: (calls, guarded)."""
	track_facts = True

	def __init__(self, func, outer, elem, idx, coll, odom):
		super().__init__(func)
		self.outer, self.elem, self.idx = outer, elem, idx
		self.coll, self.odom = coll, odom
		self.aliases = set()

	def init(self):
		return (frozenset(), False, frozenset())

	def join(self, a, b):
		return (a[0] | b[0], a[1] and b[1], a[2] & b[2])

	def norm(self, ds):
		res = []
		for d in ds:
			if d not in res:
				res.append(d)
		return res

	def isself(self, node):
		return self.outer.canon(node, self.odom) == self.outer.me

	def iselem(self, node, dom):
		if isinstance(node, ast.Name):
			return node.id == self.elem or node.id in dom[2]
		if self.elem is None and isinstance(node, ast.Subscript):
			return (isinstance(node.slice, ast.Name)
					and node.slice.id == self.idx
					and (self.isself(node.value) or self.outer.canon(
						node.value, self.odom) == self.coll))
		return False

	def on_assign(self, target, value, dom, stmt):
		if isinstance(target, ast.Name):
			if target.id in (self.elem, self.idx):
				raise Undecided('loop variable')
			if value is not None and self.iselem(value, dom):
				return (dom[0], dom[1], dom[2] | {target.id})
			return (dom[0], dom[1], dom[2] - {target.id})
		raise Undecided('assignment')

	def on_branch(self, test, truth, dom):
		if (isinstance(test, ast.Call) and dotted(test.func) == 'isinstance'
				and len(test.args) == 2 and self.iselem(test.args[0], dom)
				and dotted(test.args[1]) == 'Tree'):
			if not truth:
				return (dom[0], True, dom[2])
		return dom

	def on_expr(self, node, dom):
		for n in ast.walk(node):
			if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
				name = n.func.attr
				if name in ('_setparent', '_delparent'):
					if not self.isself(n.func.value) or not self.iselem(
							n.args[0], dom):
						raise Undecided('other value')
					kind = ('del' if name == '_delparent' else 'dry'
							if self.outer.isdry(n) else 'set')
					dom = (dom[0] | {kind}, dom[1], dom[2])
				elif name in BASEOPS or isinstance(n.func.value, ast.Call):
					raise Undecided('structural change')
		return dom

	def decide(self, body):
		self.loopstack.append(('loop', [], []))
		kinds = set()
		ds = [({}, self.init())]
		ends = list(_run_loop_body(self, body, ds))
		for facts, dom in ends:
			if not dom[1]:
				kinds.add(dom[0])
			elif dom[0]:
				raise Undecided('called for non-tree')
		if len(kinds) != 1:
			raise Undecided('mixed')
		k = next(iter(kinds))
		if len(k) != 1:
			raise Undecided('mixed')
		return next(iter(k))


def _run_loop_body(flow, body, ds):
	flow.loopstack = []
	conts = []
	orig_continue = flow.st_Continue

	def st_continue(st, d):
		conts.extend(d)
		return []

	def bad(st, d):
		raise Undecided('loop exit')
	flow.st_Continue = st_continue
	flow.st_Break = bad
	flow.st_Return = bad
	flow.st_For = bad
	flow.st_While = bad
	end = flow.block(body, ds)
	flow.st_Continue = orig_continue
	return list(end) + conts


def mentions(x, y):
	i = x.find(y)
	while i >= 0:
		before = x[i - 1] if i else ''
		after = x[i + len(y)] if i + len(y) < len(x) else ''
		if not (before.isalnum() or before == '_') and not (
				after.isalnum() or after in '_#$'):
			return True
		i = x.find(y, i + 1)
	return False


def clean(x):
	res = []
	skip = False
	for ch in x:
		if ch == '#':
			skip = True
		elif skip and not (ch.isalnum() or ch in '.,'):
			skip = False
		if not skip:
			res.append(ch)
	return ''.join(res)


class PointerMethod(Flow):
	"""Facts that hold where a method writes child._parent."""
	def __init__(self, func):
		super().__init__(func)
		self.writes = []

	def init(self):
		return (frozenset(), frozenset())

	def join(self, a, b):
		return (a[0] & b[0], a[1] & b[1])

	def norm(self, ds):
		res = []
		for d in ds:
			if d not in res:
				res.append(d)
		return res

	def on_branch(self, test, truth, dom):
		return (dom[0] | {(src(test), truth)}, dom[1])

	def st_Assert(self, st, ds):
		return self.branch(st.test, ds)[0]

	def on_assign(self, target, value, dom, stmt):
		if isinstance(target, ast.Attribute) and target.attr == '_parent':
			self.writes.append((target, value, dom[0]))
			return (dom[0], dom[1] | {src(target)})
		return dom


class Checker:
	def __init__(self, project, result):
		self.project, self.result = project, result
		self.tree = project.cls('tree.Tree')
		self.parented = project.cls('tree.ParentedTree')
		self.writes = []

	def finding(self, rule, func, node, msg):
		self.result.finding(rule, func.id, func.loc(node), msg)

	def parentwrite(self, func, target, value):
		pass

	def run(self):
		res, project = self.result, self.project
		subs = [self.parented] + self.parented.all_subclasses()
		# which operations of the base class change the list of children?
		from .p02 import direct
		ops = sorted(name for name, f in self.tree.methods.items()
				if name != '__init__' and any(not isinstance(x[1], tuple)
				for x in direct(f, project, self.tree)))
		for name in ops:
			res.count('list operations of Tree')
			for K in subs:
				m = K.find(name)
				if m is None or m.cls is self.tree:
					res.finding('not-overridden', '%s.%s' % (K.id, name),
							'%s:%d' % (K.module.relpath, K.node.lineno),
							'%s changes the list of children without '
							'updating parent pointers' % m.id)
		# pairing in each method
		for name, f in sorted(self.parented.methods.items()):
			if name in ('_setparent', '_delparent') or not f.is_method or (
					f.cls is not self.parented):
				continue
			if not f.posparams:
				continue
			res.count('ParentedTree methods')
			if name.startswith('_') and not name.startswith('__') and (
					self.inlined(f)):
				continue
			fl = Pairing(f, self)
			try:
				n = len(res.findings)
				fl.run()
				fl.finish()
			except Undecided as err:
				del res.findings[n:]
				res.count('methods not decided')
				res.sample('not decided', '%s: %s' % (f.id, err))
		self.pointermethods()
		self.layering(subs)
		self.bounds()

	def bounds(self):
		"""Bounds of slices are computed by a helper function."""
		helpers = {}
		for f in self.parented.methods.values():
			for n in own_nodes(f.node):
				if isinstance(n, ast.Call) and dotted(n.func).endswith(
						'slice_bounds') and len(n.args) == 2:
					r = self.project.resolve_call(f, n)
					if hasattr(r, 'posparams'):
						helpers[r.id] = r
		for h in helpers.values():
			wrong = set()
			for verdict, msg in slicecases.check(h):
				self.result.count('regions of slice bounds')
				if verdict == 'wrong' and len(wrong) < 3:
					wrong.add(msg)
				elif verdict == 'unknown':
					self.result.count('regions not decided')
					self.result.sample('region not decided', msg)
			for msg in sorted(wrong):
				self.finding('slice-bounds', h, h.node, 'the bounds of the '
						'slice differ from the items that are replaced: '
						+ msg)

	def inlined(self, f):
		"""A private helper that is analysed as part of its callers."""
		for g in self.parented.methods.values():
			for n in own_nodes(g.node):
				if (g is not f and isinstance(n, ast.Call)
						and isinstance(n.func, ast.Attribute)
						and n.func.attr == f.name and g.posparams
						and dotted(n.func.value) == g.posparams[0]):
					return any(isinstance(x, ast.Attribute) and x.attr in (
							'_setparent', '_delparent')
							for x in own_nodes(f.node))
		return False

	def pointermethods(self):
		f = self.parented.find('_setparent')
		g = self.parented.find('_delparent')
		if f is None or g is None:
			raise AnalysisBroken('_setparent / _delparent not found')
		me, child = f.posparams[:2]
		fl = PointerMethod(f)
		fl.run()
		flag = [p for p in f.params if p not in f.posparams[:3]]
		dry = flag[0] if flag else 'dry_run'
		for target, value, facts in fl.writes:
			self.result.count('parent pointer writes')
			if dotted(target) != child + '._parent' or dotted(value) != me:
				self.finding('foreign-pointer', f, target,
						'%s = %s' % (src(target), src(value)))
			if not isnone(facts, child):
				self.finding('unchecked-parent', f, target, 'child is adopted '
						'without checking that it has no parent already')
			if not any(t.startswith('isinstance(%s, ParentedTree' % child)
					and v for t, v in facts):
				self.finding('unchecked-type', f, target, 'child is adopted '
						'without checking that it is a ParentedTree')
			if (dry, True) in facts:
				self.finding('dry-run-writes', f, target,
						'pointer changed in a dry run')
			elif not (dry, False) in facts:
				self.finding('dry-run-writes', f, target,
						'pointer changed regardless of %s' % dry)
		self.mustwrite(f, fl, child, lambda facts: (dry, True) in facts)
		# the dry run must perform the checks as well
		fl2 = PointerMethod(f)
		ends = list(fl2.run())
		for _, ds in fl2.returns:
			ends.extend(ds)
		for _, (facts, _w) in ends:
			if not isnone(facts, child) or not any(t.startswith(
					'isinstance(%s, ParentedTree' % child) and v
					for t, v in facts):
				self.finding('unchecked-parent', f, f.node, 'accepts child '
						'on a path without all checks')
		child = g.posparams[1]
		fl = PointerMethod(g)
		fl.run()
		for target, value, facts in fl.writes:
			self.result.count('parent pointer writes')
			if dotted(target) != child + '._parent' or not (isinstance(
					value, ast.Constant) and value.value is None):
				self.finding('foreign-pointer', g, target,
						'%s = %s' % (src(target), src(value)))
		self.mustwrite(g, fl, child, lambda facts: False)

	def mustwrite(self, f, fl, child, excused):
		ends = list(fl.end)
		for _, ds in fl.returns:
			ends.extend(ds)
		for _, (facts, written) in ends:
			self.result.count('paths of pointer methods')
			if child + '._parent' not in written and not excused(facts):
				self.finding('pointer-not-updated', f, f.node,
						'returns without updating %s._parent' % child)

	def layering(self, subs):
		allowed = {'_setparent', '_delparent', '__init__'}
		for f in self.project.funcs.values():
			intree = f.cls in subs or f.cls is self.tree
			for n in own_nodes(f.node):
				if isinstance(n, ast.Attribute) and n.attr == '_parent' and (
						isinstance(n.ctx, (ast.Store, ast.Del))):
					self.result.count('writes of _parent')
					if not (f.cls in subs and (f.name in allowed
							or self.onlyfrom(f, subs, allowed))):
						self.finding('pointer-written-elsewhere', f, n,
								'%s assigned outside of the pointer methods'
								% src(n))
				elif (isinstance(n, ast.Call) and dotted(n.func) == 'setattr'
						and len(n.args) > 1 and isinstance(n.args[1],
							ast.Constant) and n.args[1].value in (
							'_parent', 'children')):
					self.finding('pointer-written-elsewhere', f, n, src(n))
				if intree:
					continue
				if isinstance(n, ast.Attribute) and n.attr == 'children':
					p = n._parent
					bad = isinstance(n.ctx, (ast.Store, ast.Del))
					if isinstance(p, ast.Subscript) and p.value is n and (
							isinstance(p.ctx, (ast.Store, ast.Del))):
						bad = not permutes(n, p)
					if (isinstance(p, ast.Attribute) and p.attr in MUTATORS
							and isinstance(p._parent, ast.Call)
							and p._parent.func is p):
						bad = p.attr not in PERMUTING
					self.result.count('uses of children elsewhere')
					if bad and self.couldbetree(f, n):
						self.finding('children-written', f, n, '%s: the list '
								'of children is modified directly'
								% src(p if not isinstance(p, ast.stmt)
								else n))

	def couldbetree(self, f, n):
		# an attribute of another class with the same name
		if isinstance(n.value, ast.Name) and f.posparams and (
				n.value.id == f.posparams[0]) and f.cls is not None:
			return False
		return True

	def onlyfrom(self, f, subs, allowed):
		sites = set()
		for g in self.project.funcs.values():
			for n in own_nodes(g.node):
				if (isinstance(n, ast.Call) and isinstance(n.func,
						ast.Attribute) and n.func.attr == f.name):
					sites.add((g.cls in subs, g.name))
		return bool(sites) and all(a and b in allowed for a, b in sites)


def permutes(n, p):
	"""x.children[:] = sorted(x.children ...)"""
	st = p._parent
	if not isinstance(st, ast.Assign):
		return False
	v = st.value
	while isinstance(v, ast.Call) and dotted(v.func) in (
			'sorted', 'list', 'reversed') and v.args:
		v = v.args[0]
	return isinstance(p.slice, ast.Slice) and p.slice.lower is None and (
			p.slice.upper is None) and dotted(v) in (
			dotted(n), dotted(n.value))


def isnone(facts, child):
	for attr in ('_parent', 'parent'):
		x = '%s.%s' % (child, attr)
		if ((x + ' is None', True) in facts or (x + ' is not None', False)
				in facts or (x + ' == None', True) in facts
				or (x, False) in facts and False):
			return True
	return False


def check(project, result, tier):
	result.rule('Every list operation of Tree is overridden in ParentedTree '
			'and its subclasses; on every path of every ParentedTree method, '
			'each child added to (removed from) the list is matched by '
			'_setparent (_delparent) beforehand unless it is not a Tree, and '
			'vice versa; pointers are only changed after all checks that may '
			'raise; _parent and the list of children are not written '
			'anywhere else.')
	Checker(project, result).run()
	result.require('list operations of Tree', 7)
	result.require('ParentedTree methods', 15)
	result.require('children additions', 4)
	result.require('children removals', 5)
	result.require('parent pointer writes', 2)
	result.assume('children are given as lists or tuples of trees without '
			'user-defined subclasses of list')
