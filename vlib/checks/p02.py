"""Immutable trees reject every structural modification."""
import ast
from ..flow import Flow
from ..project import own_nodes, dotted, src
from ..effects import MUTATORS

TITLE = 'every operation that changes the children of an immutable tree raises'

# operators / methods of the list protocol which Tree need not define itself,
# but for which the inherited behaviour must not be a mutation
LISTOPS = ('__setitem__', '__delitem__', '__iadd__', '__imul__', 'append',
		'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse')


class Exits(Flow):
	track_facts = False

	def join(self, a, b):
		return a


def selfname(f):
	return f.posparams[0] if f.posparams else None


def direct(f, project, K):
	"""Direct structural mutations of self in the body of method f:
	list of (node, description)."""
	me = selfname(f)
	res = []
	aliases = {me}
	for n in own_nodes(f.node):
		if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
				n.targets[0], ast.Name):
			if dotted(n.value) in ('%s.children' % me, me):
				aliases.add(n.targets[0].id)
	lists = {'%s.children' % a for a in aliases} | (aliases - {me})
	for n in own_nodes(f.node):
		if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(
				n.ctx, (ast.Store, ast.Del)):
			if isinstance(n, ast.Attribute):
				if dotted(n) in {'%s.children' % a for a in aliases}:
					res.append((n, 'rebinds children'))
			elif dotted(n.value) in lists:
				res.append((n, 'modifies children'))
		elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
			if (n.func.attr in MUTATORS
					and dotted(n.func.value) in lists):
				res.append((n, 'calls children.%s()' % n.func.attr))
			elif (n.func.attr in MUTATORS | {'__init__'}
					and isinstance(n.func.value, ast.Call)
					and dotted(n.func.value.func) == 'super'):
				res.append((n, ('super', n.func.attr)))
			elif (n.func.attr in MUTATORS and n.args
					and dotted(n.args[0]) in aliases):
				r = project.resolve_call(f, n)
				if getattr(r, 'cls', None) is not None and r.cls in K.mro():
					res.append((n, ('direct', r)))
	return res


def check(project, result, tier):
	result.rule('For every immutable tree class K and every method name m '
			'that changes the list of children in some class of its MRO (or '
			'belongs to the list protocol): the method that K resolves m to '
			'has no path to a normal return, raises ValueError only, and has '
			'no mutation on the way; other methods do not touch the list of '
			'children except through the blocked ones.')
	base = project.cls('tree.Tree')
	imm = project.cls('tree.ImmutableTree')
	classes = [imm] + imm.all_subclasses()
	for K in classes:
		result.count('immutable classes')
		blocked = {}

		def isblocked(f):
			"""True if f never returns, never mutates, raises ValueError."""
			if f.id in blocked:
				return blocked[f.id]
			fl = Exits(f)
			blocked[f.id] = False

			def noreturn(func, call):
				if Flow.noreturn(func, call):
					return True
				if (isinstance(call.func, ast.Attribute) and dotted(
						call.func.value) == selfname(f)):
					g = K.find(call.func.attr)
					return g is not None and isblocked(g)
				return False
			fl.noreturn = noreturn
			end = fl.run()
			raises = [n for n in own_nodes(f.node)
					if isinstance(n, ast.Raise)]
			types = {dotted(n.exc.func if isinstance(n.exc, ast.Call)
					else n.exc) for n in raises if n.exc is not None}
			calls = [n for n in own_nodes(f.node)
					if isinstance(n, ast.Call)]
			for c in calls:
				r = project.resolve_call(f, c)
				if isinstance(c.func, ast.Attribute) and dotted(
						c.func.value) == selfname(f):
					r = K.find(c.func.attr)
				if hasattr(r, 'node'):
					types |= {dotted(n.exc.func if isinstance(n.exc, ast.Call)
							else n.exc) for n in own_nodes(r.node)
							if isinstance(n, ast.Raise) and n.exc is not None}
			blocked[f.id] = (not end and not fl.returns
					and not f.is_generator
					and not direct(f, project, K)
					and types == {'ValueError'})
			return blocked[f.id]

		# names of methods that change the list of children somewhere
		names = {}
		for C in K.mro():
			for name, f in C.methods.items():
				if name in ('__init__', '__new__') or 'classmethod' in (
						f.decorators):
					continue
				d = [x for x in direct(f, project, K)
						if not isinstance(x[1], tuple)]
				if d:
					names.setdefault(name, (f, d[0]))
		for name in LISTOPS:
			f = K.find(name)
			if f is not None and name not in names:
				names[name] = (f, (f.node, 'list protocol'))
		for name in ('__iadd__', '__imul__'):
			if K.find(name) is None and K.find('__add__') is None:
				result.finding('mutator-not-blocked', '%s.%s' % (K.id, name),
						'%s:%d' % (K.module.relpath, K.node.lineno),
						'no definition which rejects %s' % name)
		for name, (f, (node, what)) in sorted(names.items()):
			result.count('mutating operations')
			m = K.find(name)
			result.sample('resolved', '%s.%s -> %s' % (K.name, name, m.id))
			if not isblocked(m):
				result.finding('mutator-not-blocked', '%s.%s' % (K.id, name),
						m.loc(), '%s resolves to %s, which does not always '
						'raise ValueError before touching the tree (%s at '
						'%s)' % (name, m.id, what, f.loc(node)))
		# remaining public methods must only change the structure through
		# blocked ones
		seen = set()
		for C in K.mro():
			for name in C.methods:
				if name in seen or name in names:
					continue
				seen.add(name)
				m = K.find(name)
				if name in ('__init__', '__new__'):
					continue
				result.count('other methods')
				for node, what in direct(m, project, K):
					if isinstance(what, tuple) and what[0] == 'super':
						order = K.mro()
						nxt = None
						if m.cls in order:
							for D in order[order.index(m.cls) + 1:]:
								if what[1] in D.methods:
									nxt = D.methods[what[1]]
									break
						if nxt is not None and isblocked(nxt):
							continue
						what = 'calls super().%s()' % what[1]
					elif isinstance(what, tuple):
						if isblocked(what[1]):
							continue
						what = 'calls %s()' % what[1].id
					result.finding('unblocked-mutation',
							'%s.%s' % (K.id, name), m.loc(node), what)
		# hash is fixed at construction
		h = K.find('__hash__')
		if h is None or h.cls is base:
			result.finding('unhashable', K.id, '%s:%d' % (K.module.relpath,
					K.node.lineno), 'no __hash__ method')
	# the precomputed hash & leaves are written during construction only
	for f in project.funcs.values():
		for n in own_nodes(f.node):
			if (isinstance(n, ast.Attribute) and n.attr in ('_hash', )
					and isinstance(n.ctx, (ast.Store, ast.Del))):
				result.count('writes of precomputed hash')
				if f.cls not in classes or f.name not in (
						'__init__', '__setstate__', '__new__'):
					if not onlyinit(project, f, classes):
						result.finding('hash-changed', f.id, f.loc(n),
								'%s modified after construction' % src(n))
	result.require('immutable classes', 3)
	result.require('mutating operations', 21)
	result.assume('Python-level attribute assignment (tree.label = x, '
			'tree.children = x) by client code is outside of the guarantee, '
			'as documented by the class.')


def onlyinit(project, f, classes):
	"""f is a helper that is only called from constructors."""
	if f.cls not in classes:
		return False
	sites = []
	for g in project.funcs.values():
		for n in own_nodes(g.node):
			if (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
					and n.func.attr == f.name):
				sites.append(g)
	return bool(sites) and all(g.cls in classes and g.name == '__init__'
			for g in sites)
