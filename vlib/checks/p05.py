"""Copies share no mutable part with the original."""
import ast
from ..effects import Engine
from ..project import AnalysisBroken, own_nodes, dotted, src

TITLE = 'copies, conversions and derived trees share nothing mutable'

# functions returning a tree independent of the parameter
TABLE = {
	'tree.Tree.convert': 'val', 'tree.Tree.copy': 'self',
	'tree.Tree.freeze': 'self',
	'treedist.prepare': 'tree',
	'grammar.TreeDecorator.decorate': 'tree',
	'grammar.SpinedTreeDecorator.decorate': 'tree',
	'grammar.extractinit': 'tree foot', 'grammar.extractaux': 'node',
	'eval.transform': 'tree',
}
# integers, strings; shared references to them are harmless
SCALARFIELDS = {'label', 'type', 'bitset', '_hash'}
# structural or recomputed by the constructor
STRUCTURAL = {'label', 'children', '_parent', '_hash', '_leaves', 'bitset',
		'sent'}


def closure(s, value):
	"""Locations reachable from value through objects allocated here."""
	seen, todo, how = set(), [(l, '') for l in value], {}
	while todo:
		loc, path = todo.pop()
		if loc in seen:
			continue
		seen.add(loc)
		how[loc] = path
		if loc[0] == 'A':
			for field, val in s.heap.get(loc[1], {}).items():
				if field in SCALARFIELDS:
					continue
				todo.extend((l, path + '.' + field) for l in val)
		else:
			for (base, field), val in s.stores.items():
				if base == loc and field not in SCALARFIELDS:
					todo.extend((l, path + '.' + field) for l in val)
	return how


def shared(loc):
	"""Is this location of the argument a mutable object?"""
	if not loc[2]:
		return True
	if loc[2][-1] in SCALARFIELDS or '?' in loc[2]:
		return False  # ?: getattr with a variable name
	# the elements of the list of annotations are strings
	return not ('source' in loc[2][:-1] and loc[2][-1] == '*')


def check(project, result, tier):
	result.rule('Points-to summaries (leaves distinguished from nodes by '
			'isinstance tests): no object reachable from the value returned '
			'is an object of the argument, other than labels and other '
			'strings; the recursive conversion is justified by induction.')
	eng = Engine(project, {m for m in project.modules
			if m.startswith('discodop')},
			assume={('copy', 'deep'): True}).run()
	for name, params in sorted(TABLE.items()):
		f = project.funcs.get('discodop.' + name)
		if f is None:
			if name.startswith('tree.Tree.'):
				raise AnalysisBroken('anchor function %s not found' % name)
			continue
		variants = [f]
		if f.cls is not None:
			variants += [c.methods[f.name] for c in f.cls.all_subclasses()
					if f.name in c.methods and c.methods[f.name] is not f]
		for g in variants:
			s = eng.summ[g.id]
			if not s.ret:
				if any(isinstance(n, ast.Return) and n.value is not None
						for n in own_nodes(g.node)):
					result.count('functions without allocation')
				continue
			result.count('functions')
			result.sample('functions', g.id)
			how = closure(s, s.ret)
			result.count('objects reachable from results', len(how))
			for p in params.split():
				for loc, path in sorted(how.items(), key=str):
					if loc[0] == 'P' and loc[1] == p and shared(loc):
						result.finding('copy-shares', '%s:%s' % (g.id, p),
								g.loc(), 'the result%s may be %s%s itself, '
								'not a copy' % (path, p,
								''.join('.' + x for x in loc[2])))
	if result.counts.get('functions', 0) < 8:
		raise AnalysisBroken('only %d copying functions'
				% result.counts.get('functions', 0))
	fields(project, result)
	constructor(project, result)
	classes(project, result)
	result.assume('leaves, labels, and annotations are immutable values')
	result.assume('recursive conversion of children is assumed fresh when '
			'checking the conversion itself (induction on height)')


def fields(project, result):
	"""All annotation fields of a node survive conversion."""
	tree = project.cls('tree.Tree')
	slots = tree.find_attr('__slots__')
	try:
		names = set(ast.literal_eval(slots))
	except (TypeError, ValueError):
		raise AnalysisBroken('cannot determine the fields of Tree')
	convert = project.func('tree.Tree.convert')
	body = [convert.node]
	for n in own_nodes(convert.node):
		if isinstance(n, ast.Call):
			r = project.resolve_call(convert, n)
			if r is None and isinstance(n.func, ast.Attribute):
				r = tree.find(n.func.attr)
			if getattr(r, 'node', None) is not None and hasattr(
					r, 'posparams') and r is not convert:
				body.append(r.node)
	stored, read = set(), set()
	for b in body:
		for n in ast.walk(b):
			if isinstance(n, ast.Attribute):
				(stored if isinstance(n.ctx, ast.Store) else read).add(n.attr)
			elif isinstance(n, ast.Constant) and n.value in names:
				# getattr / setattr with the name of a field
				stored.add(n.value)
				read.add(n.value)
	for name in sorted(names - STRUCTURAL):
		result.count('annotation fields')
		if name not in stored or name not in read:
			result.finding('field-lost', '%s:%s' % (convert.id, name),
					convert.loc(), 'the annotation %r of a node is not '
					'carried over to the converted tree' % name)
	if 'label' not in read:
		result.finding('field-lost', '%s:label' % convert.id, convert.loc(),
				'the label is not carried over')
	result.require('annotation fields', 2)


def expand(f, node, depth=3):
	"""Definition of a local variable with a single definition."""
	while isinstance(node, ast.Name) and depth:
		defs = [n.value for n in own_nodes(f.node)
				if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name)
					and t.id == node.id for t in n.targets)]
		if node.id in f.params or len(defs) != 1:
			break
		node, depth = defs[0], depth - 1
	return node


def classes(project, result):
	"""A copy has the class that was asked for."""
	tree = project.cls('tree.Tree')
	known = [tree] + tree.all_subclasses()
	immutable = project.cls('tree.ImmutableTree')
	parented = project.cls('tree.ParentedTree')

	def check(f, accept, what):
		for n in own_nodes(f.node):
			if not isinstance(n, ast.Call):
				continue
			recv = n.func
			if isinstance(recv, ast.Attribute) and recv.attr == 'convert':
				recv = recv.value
			elif isinstance(recv, ast.Attribute) and not accept(recv):
				continue
			elif not any(isinstance(x, ast.Name) and project.resolve_name(
					f.module, x.id, f) in known for x in ast.walk(
					expand(f, recv))) and not accept(expand(f, recv)):
				continue
			result.count('constructions of copies')
			recv = expand(f, recv)
			if not accept(recv):
				result.finding('other-class', '%s:%s' % (f.id, src(recv)),
						f.loc(n), '%s: the copy does not have the class %s'
						% (src(n)[:60], what))

	def isclass(me):
		return lambda e: (isinstance(e, ast.Attribute) and dotted(e)
				== me + '.__class__' or isinstance(e, ast.Call)
				and dotted(e.func) == 'type' and len(e.args) == 1
				and dotted(e.args[0]) == me)

	for c in known:
		f = c.methods.get('convert')
		if f is not None and f.posparams and 'classmethod' in f.decorators:
			cls = f.posparams[0]
			check(f, lambda e: dotted(e) == cls, 'that was asked for')
		f = c.methods.get('copy')
		if f is not None and f.posparams:
			check(f, isclass(f.posparams[0]), 'of the original')
		f = c.methods.get('freeze')
		if f is not None and f.posparams:
			me = f.posparams[0]
			check(f, lambda e: isinstance(e, ast.Call) and dotted(e.func)
					== me + '._frozen_class', 'of frozen trees')
		f = c.find('_frozen_class')
		if f is not None:
			for n in own_nodes(f.node):
				if isinstance(n, ast.Return) and n.value is not None:
					r = project.resolve_name(f.module, dotted(n.value) or '?',
							f)
					if r not in known:
						continue
					result.count('frozen classes')
					anc = list(r.mro())
					for need in (immutable, parented):
						if need is parented and parented not in c.mro():
							continue
						if need not in anc:
							result.finding('other-class', '%s:%s' % (f.id,
									c.id), f.loc(n), 'the frozen version of '
									'%s is not a %s' % (c.name, need.name))
	result.require('constructions of copies', 4)


def constructor(project, result):
	"""A tree has its own list of children."""
	for c in [project.cls('tree.Tree')] + project.cls(
			'tree.Tree').all_subclasses():
		f = c.methods.get('__init__')
		if f is None:
			continue
		params = set(f.params)
		for n in own_nodes(f.node):
			if not isinstance(n, ast.Assign):
				continue
			for t in n.targets:
				if not (isinstance(t, ast.Attribute)
						and t.attr == 'children'):
					continue
				result.count('constructors')
				vals, todo = [], [n.value]
				while todo:
					v = todo.pop()
					if isinstance(v, ast.IfExp):
						todo += [v.body, v.orelse]
					elif isinstance(v, ast.BoolOp):
						todo += v.values
					elif isinstance(v, ast.Name) and v.id not in params:
						todo += [m.value for m in own_nodes(f.node)
								if isinstance(m, ast.Assign) and any(
								dotted(x) == v.id for x in m.targets)
								and m.value is not v]
						if len(todo) > 50:
							break
					else:
						vals.append(v)
				for v in vals:
					if (isinstance(v, (ast.Name, ast.Attribute))
							and dotted(v).split('.')[0] in params):
						# rebound to a copy before?
						if any(isinstance(m, ast.Assign) and any(
								dotted(x) == dotted(v) for x in m.targets)
								and isinstance(m.value, (ast.Call,
								ast.ListComp, ast.List))
								and m.lineno < n.lineno
								for m in f.node.body):
							continue
						result.finding('children-shared', f.id, f.loc(n),
								'the list of children %s of the caller is '
								'used without copying' % src(v))
	result.require('constructors', 1)
