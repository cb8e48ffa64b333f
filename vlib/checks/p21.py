"""Names, attributes and call signatures agree with their definitions."""
import ast
import os
import re
import glob
import inspect
import builtins
import importlib
import keyword
import string
from ..project import (own_nodes, dotted, src, Func, Class, Module,
		AnalysisBroken)
from .. import pyx
from ..types import infer

TITLE = 'names exist and calls match the signature of what they call'

# external modules imported by the sources of which the attributes are listed
# here, because the module may be missing
EXTERNAL = set('''
ndarray int32 int64 uint8 float64 array zeros ones arange asarray argsort cumsum unique shape
reshape astype dtype newaxis concatenate nan_to_num isnan inf tolist toarray tocsr
DataFrame Series from_dict from_records to_csv to_html to_string iloc loc ix columns
index values fillna append groupby sort_values sort_index T describe mean std
figure subplots axes plot bar scatter xlabel ylabel legend savefig show set_xlabel
set_ylabel set_title tight_layout close gca gcf cm viridis kdeplot heatmap
set_style barplot lmplot distplot regplot hist boxplot
fit transform predict fit_transform predict_proba decision_function coef_
best_params_ best_estimator_ best_score_ cv_results_ classes_ estimator
LabelBinarizer MultiLabelBinarizer LabelEncoder StandardScaler DictVectorizer
FeatureHasher OneVsRestClassifier SGDClassifier LogisticRegression Pipeline
GridSearchCV inverse_transform scorer_ get_feature_names get_feature_names_out
route args form files request Flask Response logger config run debug
static_folder root_path jinja_env errorhandler headers mimetype data get_data
cache_control last_modified add_etags make_conditional stream getlist
getmeasures graphemes length multi_and MultiRoaringBitmap RoaringBitmap
rank select intersection_len jaccard_dist freeze fromfile tobuffer to_array
minimum maximum sum intersection clamp shelf
authorization read_table read_csv isin Index Normalize ScalarMappable to_rgba
colors nunique issubdtype update_template_context get_template enable_buffering
autofmt_xdate violinplot jointplot nonzero to_dict argmin argmax double
savez_compressed drop dropna isnull notnull apply assign melt merge query
set_index reset_index rename sample size ndim flatten ravel squeeze mean min max
any all dot nanmean bincount searchsorted where vstack hstack set_xticks
set_yticks set_xticklabels set_yticklabels grid text twinx colorbar render
Markup escape unescape
'''.split())


def universe(project, pyxmods):
	"""Attribute names which some object can have."""
	names = set(EXTERNAL)
	kwfuncs = {f.name for f in project.funcs.values() if f.kwarg}
	for m in project.modules.values():
		names.update(m.funcs[q].name for q in m.funcs)
		names.update(m.globals)
		names.update(m.imports)
		for c in m.classes.values():
			names.update(c.attrs)
			names.add(c.name)
		for n in ast.walk(m.tree):
			if isinstance(n, ast.Attribute) and isinstance(
					n.ctx, (ast.Store, ast.Del)):
				names.add(n.attr)
			elif isinstance(n, ast.Call):
				name = dotted(n.func).split('.')[-1]
				if name == 'namedtuple':
					for c in ast.walk(n):
						if isinstance(c, ast.Constant) and isinstance(
								c.value, str):
							names.update(re.split(r'[\s,]+', c.value))
				elif name in ('dict', 'DictObj', 'OrderedDict', 'update',
						'_replace') or name in names:
					if name in ('dict', 'DictObj', 'update') or name in kwfuncs:
						names.update(k.arg for k in n.keywords if k.arg)
				elif name == 'setattr' and len(n.args) > 1 and isinstance(
						n.args[1], ast.Constant):
					names.add(n.args[1].value)
			elif isinstance(n, ast.Assign) and any(
					dotted(t).split('.')[-1] == '__slots__'
					for t in n.targets):
				names.update(c.value for c in ast.walk(n.value)
						if isinstance(c, ast.Constant))
			# configuration objects made from dictionaries
			elif isinstance(n, ast.Set):
				names.update(k.value for k in n.elts
						if isinstance(k, ast.Constant)
						and isinstance(k.value, str))
			elif isinstance(n, ast.Dict):
				names.update(k.value for k in n.keys
						if isinstance(k, ast.Constant)
						and isinstance(k.value, str))
	for p in pyxmods.values():
		names |= p.names
		for c in p.classes.values():
			names |= c['attrs']
	# keys of dictionaries turned into objects by compiled code
	for t in (str, bytes, list, dict, set, frozenset, tuple, int, float,
			complex, type, object, slice, range, memoryview, bytearray,
			BaseException, OSError, UnicodeDecodeError, SyntaxError,
			type(lambda: 0), type((x for x in ())), StopIteration,
			ImportError, property, SystemExit):
		names.update(dir(t))
	names.update(('__name__', '__doc__', '__dict__', '__class__',
			'__module__', '__file__', '__wrapped__', 'text', 'im_func'))
	# keys of parameter files
	for fn in glob.glob(os.path.join(project.repo, '*.prm')):
		with open(fn, encoding='utf8') as inp:
			names.update(re.findall(r'(\w+)\s*=', inp.read()))
	mods = set()
	for m in project.modules.values():
		for n in ast.walk(m.tree):
			if isinstance(n, ast.Import):
				mods.update(a.name for a in n.names)
			elif isinstance(n, ast.ImportFrom) and not n.level:
				mods.add(n.module or '')
				mods.update('%s.%s' % (n.module, a.name) for a in n.names)
	for name in sorted(mods):
		names.update(name.split('.'))
		root = name.split('.')[0]
		if root in ('discodop', 'web') or root not in STDLIB:
			continue
		add(names, name, 0)
	for extra in ('io', 're', 'subprocess', 'multiprocessing.pool',
			'concurrent.futures', 'xml.etree.ElementTree', 'logging',
			'collections', 'threading', 'zipfile', 'gzip', 'csv', 'array',
			'mmap', 'tempfile', 'fractions', 'random', 'datetime', 'time'):
		add(names, extra, 0)
	return names


STDLIB = set(getattr(__import__('sys'), 'stdlib_module_names', ())) - {
		'antigravity', 'this', 'idlelib', 'turtle', 'tkinter'}


def add(names, name, depth):
	try:
		mod = importlib.import_module(name)
	except Exception:
		head, _, tail = name.rpartition('.')
		try:
			mod = getattr(importlib.import_module(head), tail)
		except Exception:
			return
	names.update(dir(mod))
	if hasattr(mod, '__path__'):
		import pkgutil
		names.update(x.name for x in pkgutil.iter_modules(mod.__path__))
	for x in list(vars(mod).values()) if hasattr(mod, '__dict__') else ():
		if isinstance(x, type):
			names.update(dir(x))
	# instance attributes of common classes
	names.update(('returncode', 'stdin', 'stdout', 'stderr', 'pid', 'name',
			'mode', 'closed', 'filename', 'fileno', 'numerator',
			'denominator', 'tag', 'attrib', 'tail', 'groupindex', 'args',
			'errno', 'strerror', 'msg', 'lineno', 'start', 'stop', 'step',
			'default_factory', 'year', 'typecode', 'itemsize', 'fieldnames',
			'handlers', 'level', 'code', 'reason', 'headers', 'opt'))


def bindmodule(m):
	names = set(m.globals) | set(m.imports) | set(m.classes)
	names |= {f.name for f in m.funcs.values() if f.parent is None
			and f.cls is None}
	star = False
	for n in ast.walk(m.tree):
		if isinstance(n, ast.Global):
			names.update(n.names)
		elif isinstance(n, ast.ImportFrom) and any(
				a.name == '*' for a in n.names):
			star = True
	# module-level statements (with, except, for)
	stack = list(m.tree.body)
	while stack:
		n = stack.pop()
		if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
			names.add(n.name)
			continue
		if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
			names.add(n.id)
		elif isinstance(n, (ast.Import, ast.ImportFrom)):
			names.update((a.asname or a.name).split('.')[0] for a in n.names)
		elif isinstance(n, ast.ExceptHandler) and n.name:
			names.add(n.name)
		stack.extend(ast.iter_child_nodes(n))
	return names, star


def undefined(project, result):
	known = set(dir(builtins)) | {'__file__', '__name__', '__doc__',
			'__path__', '__package__', '__spec__', '__builtins__'}
	for m in project.modules.values():
		names, star = bindmodule(m)
		if star:
			continue

		def visit(node, scope, qual):
			if isinstance(node, (ast.FunctionDef, ast.Lambda,
					ast.AsyncFunctionDef)):
				f = getattr(node, '_func', None)
				for d in (node.args.defaults + [x for x in
						node.args.kw_defaults if x]
						+ getattr(node, 'decorator_list', [])):
					visit(d, scope, qual)
				inner = scope | (f.locals if f is not None else set())
				if f is not None:
					for n in own_nodes(node):
						if isinstance(n, (ast.Import, ast.ImportFrom)):
							inner = inner | {(a.asname or a.name).split(
									'.')[0] for a in n.names}
				q = f.id if f is not None else qual
				for ch in ([node.body] if isinstance(node, ast.Lambda)
						else node.body):
					visit(ch, inner, q)
				return
			if isinstance(node, ast.ClassDef):
				inner = scope | {n.id for st in node.body
						for n in ast.walk(st) if isinstance(n, ast.Name)
						and isinstance(n.ctx, ast.Store)
						} | {st.name for st in node.body
						if isinstance(st, (ast.FunctionDef, ast.ClassDef))}
				for d in node.bases + node.decorator_list:
					visit(d, scope, qual)
				for ch in node.body:
					# class scope is not visible in methods
					if isinstance(ch, (ast.FunctionDef, )):
						for d in (ch.args.defaults + ch.decorator_list):
							visit(d, inner, qual)
						visit(ch, scope | {'__class__'}, qual) if False else (
								visitbody(ch, scope | {'__class__'}))
					else:
						visit(ch, inner, qual)
				return
			if isinstance(node, (ast.ListComp, ast.SetComp, ast.DictComp,
					ast.GeneratorExp)):
				scope = scope | {n.id for g in node.generators
						for n in ast.walk(g.target)
						if isinstance(n, ast.Name)}
			if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
				result.count('name references')
				if node.id not in scope:
					result.finding('undefined-name', '%s:%s' % (qual,
							node.id), '%s:%d' % (m.relpath, node.lineno),
							'name %r is not defined anywhere' % node.id)
			for ch in ast.iter_child_nodes(node):
				visit(ch, scope, qual)

		def visitbody(fn, scope):
			f = getattr(fn, '_func', None)
			inner = scope | (f.locals if f is not None else set())
			for ch in fn.body:
				visit(ch, inner, f.id if f is not None else fn.name)
		for st in m.tree.body:
			visit(st, known | names, m.name)


def imports(project, pyxmods, result):
	for m in project.modules.values():
		for n in ast.walk(m.tree):
			if not isinstance(n, ast.ImportFrom):
				continue
			mod = m._relmod(n)
			if not mod.startswith('discodop'):
				continue
			for a in n.names:
				if a.name == '*':
					continue
				result.count('imported names')
				full = mod + '.' + a.name
				if full in project.modules or full in pyxmods:
					continue
				if mod in project.modules:
					names, _ = bindmodule(project.modules[mod])
					ok = a.name in names
				elif mod in pyxmods:
					ok = a.name in pyxmods[mod].names
				else:
					ok = False
				if not ok:
					result.finding('missing-import', '%s:%s' % (m.name,
							full), '%s:%d' % (m.relpath, n.lineno),
							'%s does not define %s' % (mod, a.name))


def sigof(f, bound):
	"""(positional names, required names, vararg, kwonly, kwarg)."""
	pos = list(f.posparams)
	if bound and pos:
		pos = pos[1:]
	req = [p for p in pos if p not in f.defaults]
	kwreq = [k for k in f.kwonly if k not in f.defaults]
	return pos, req, bool(f.vararg), list(f.kwonly), kwreq, bool(f.kwarg)


def pyxsig(s, bound):
	pos = s.params[1:] if bound else s.params
	req = [p for p in s.required if p in pos]
	return pos, req, s.vararg, [], [], s.kwarg


def mismatch(sig, call):
	pos, req, vararg, kwonly, kwreq, kwarg = sig
	nargs = 0
	for a in call.args:
		if isinstance(a, ast.Starred):
			return None if not [k for k in call.keywords if k.arg
					and k.arg not in pos and k.arg not in kwonly
					and not kwarg] else 'unexpected keyword argument'
		nargs += 1
	star = any(k.arg is None for k in call.keywords)
	if nargs > len(pos) and not vararg:
		return 'takes at most %d positional arguments, %d given' % (
				len(pos), nargs)
	given = set(pos[:nargs])
	for k in call.keywords:
		if k.arg is None:
			continue
		if k.arg in given:
			return 'multiple values for argument %r' % k.arg
		if k.arg in pos or k.arg in kwonly:
			given.add(k.arg)
		elif not kwarg:
			return 'unexpected keyword argument %r' % k.arg
	if not star:
		missing = [r for r in req + kwreq if r not in given]
		if missing:
			return 'missing argument%s %s' % ('s' * (len(missing) > 1),
					', '.join(missing))
	return None


DECOK = {'staticmethod', 'classmethod', 'workerfunc', 'wraps',
		'functools.wraps', 'property', 'contextmanager', 'APP.route',
		'app.route', 'requires_auth', 'bottle.route', 'abstractmethod'}


def decorated(f):
	"""Is the signature possibly changed by decorators?"""
	return any(d not in DECOK and not d.endswith('.route')
			for d in f.decorators)


def classsig(c):
	f = c.find('__init__') or c.find('__new__')
	if f is None:
		return None
	new = c.find('__new__')
	if new is not None and f is not new:
		return None if decorated(new) else sigof(f, True)
	return sigof(f, True)


def calls(project, pyxmods, result):
	bymethod = {}
	for c in project.classes.values():
		for name, f in c.methods.items():
			bymethod.setdefault(name, []).append(('py', c, f))
	for p in pyxmods.values():
		for cname, c in p.classes.items():
			for name, s in c['methods'].items():
				bymethod.setdefault(name, []).append(('pyx', cname, s))
	common = set()
	for t in (str, bytes, list, dict, set, tuple, int, float, object,
			__import__('io').TextIOWrapper, __import__('re').Pattern,
			__import__('re').Match, __import__('subprocess').Popen,
			__import__('collections').Counter,
			__import__('collections').deque,
			__import__('collections').OrderedDict,
			__import__('xml.etree.ElementTree').etree.ElementTree.Element,
			__import__('logging').Logger,
			__import__('threading').Thread,
			__import__('concurrent.futures').futures.Executor):
		common.update(dir(t))
	common |= EXTERNAL | {'map', 'imap', 'submit', 'apply_async', 'join',
			'terminate', 'freeze'}

	def report(f, m, call, what, msg):
		result.finding('bad-call', '%s:%s' % (f.id if f else m.name,
				dotted(call.func) or src(call.func)[:40]),
				'%s:%d' % (m.relpath, call.lineno),
				'%s: %s' % (what, msg))

	for m in project.modules.values():
		for call in ast.walk(m.tree):
			if not isinstance(call, ast.Call):
				continue
			f = None
			n = call
			while n is not None:
				n = getattr(n, '_parent', None)
				if n is not None and getattr(n, '_func', None) is not None:
					f = n._func
					break
			name = dotted(call.func)
			r = project.resolve_name(m, name, f) if name else None
			if isinstance(r, Func):
				if decorated(r):
					continue
				if multiple(m if r.module is m else r.module, r):
					continue
				bound = False
				if r.cls is not None:
					# Class.method(...): classmethods are bound
					bound = 'classmethod' in r.decorators
				sig = sigof(r, bound)
				result.count('calls of functions')
				msg = mismatch(sig, call)
				if msg:
					report(f, m, call, r.id, msg)
				continue
			if isinstance(r, Class):
				if r.external_bases() and r.external_bases() != ['object']:
					continue
				sig = classsig(r)
				if sig is not None:
					result.count('calls of classes')
					msg = mismatch(sig, call)
					if msg:
						report(f, m, call, r.id, msg)
				continue
			if isinstance(r, tuple) and r[0] == 'ext' and name:
				parts = r[1].rsplit('.', 1)
				if len(parts) == 2 and parts[0] in pyxmods:
					s = pyxmods[parts[0]].funcs.get(parts[1])
					if s is not None:
						result.count('calls of compiled functions')
						msg = mismatch(pyxsig(s, False), call)
						if msg:
							report(f, m, call, r[1], msg)
						continue
				sig = libsig(r[1])
				if sig is not None:
					result.count('calls of library functions')
					msg = mismatch(sig, call)
					if msg:
						report(f, m, call, r[1], msg)
				continue
			if not isinstance(call.func, ast.Attribute):
				continue
			attr = call.func.attr
			recv = call.func.value
			cands = None
			cls = receiver(project, f, recv)
			if cls is not None:
				mm = None
				if isinstance(recv, ast.Call):  # super()
					for b in cls.mro()[1:]:
						if attr in b.methods:
							mm = b.methods[attr]
							break
				else:
					mm = cls.find(attr)
				if mm is None:
					continue
				cands = [('py', cls, mm)]
				if not isinstance(recv, ast.Call):
					for sub in cls.all_subclasses():
						if attr in sub.methods:
							cands.append(('py', sub, sub.methods[attr]))
			elif attr in bymethod and attr not in common and not (
					isinstance(r, tuple) and r[0] == 'ext'):
				cands = bymethod[attr]
			if not cands:
				continue
			msgs = []
			for kind, c, g in cands:
				if kind == 'py':
					if decorated(g) or 'property' in g.decorators:
						msgs = None
						break
					sig = sigof(g, 'staticmethod' not in g.decorators)
				else:
					sig = pyxsig(g, True)
				msgs.append(mismatch(sig, call))
			if msgs is None:
				continue
			result.count('calls of methods')
			if all(msgs):
				report(f, m, call, 'method %s' % attr, msgs[0])


def libsig(name):
	"""Signature of a function or class of the standard library."""
	mod, _, attr = name.rpartition('.')
	if mod.split('.')[0] not in STDLIB and mod:
		return None
	try:
		obj = getattr(importlib.import_module(mod or 'builtins'), attr)
	except Exception:
		mod, _, clsname = mod.rpartition('.')
		try:
			obj = getattr(getattr(importlib.import_module(mod), clsname),
					attr)
		except Exception:
			return None
		if isinstance(obj, type):
			return None
	if isinstance(obj, type) and '__init__' not in vars(obj):
		return None
	try:
		sig = inspect.signature(obj)
	except (TypeError, ValueError):
		return None
	pos, req, vararg, kwonly, kwreq, kwarg = [], [], False, [], [], False
	for n, p in sig.parameters.items():
		if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD):
			pos.append(n if p.kind == p.POSITIONAL_OR_KEYWORD else '/' + n)
			if p.default is p.empty:
				req.append(pos[-1])
		elif p.kind == p.VAR_POSITIONAL:
			vararg = True
		elif p.kind == p.KEYWORD_ONLY:
			kwonly.append(n)
			if p.default is p.empty:
				kwreq.append(n)
		else:
			kwarg = True
	return pos, req, vararg, kwonly, kwreq, kwarg


def multiple(m, r):
	"""Is the function defined more than once (e.g. in try/except)?"""
	return sum(1 for g in m.funcs.values() if g.name == r.name
			and g.parent is r.parent and g.cls is r.cls) > 1 or len(
			m.globals.get(r.name, [])) > 1


def receiver(project, f, recv):
	"""Class of receiver, if evident."""
	g = f
	while g is not None and g.cls is None and g.parent is not None:
		g = g.parent
	if isinstance(recv, ast.Call) and dotted(recv.func) == 'super' and (
			not recv.args) and g is not None and g.cls is not None:
		return g.cls
	if isinstance(recv, ast.Name) and f is not None:
		if g is not None and g.cls is not None and g.posparams and (
				recv.id == g.posparams[0]) and (
				'staticmethod' not in g.decorators):
			if (g is f or recv.id not in f.params) and not any(
					isinstance(n, ast.Name) and n.id == recv.id
					and isinstance(n.ctx, ast.Store)
					for n in own_nodes(g.node)):
				return g.cls
		# all assignments of this local are constructor calls of one class
		vals = []
		if recv.id in f.locals and recv.id not in f.params:
			for n in own_nodes(f.node):
				if isinstance(n, ast.Name) and n.id == recv.id and isinstance(
						n.ctx, (ast.Store, ast.Del)):
					p = n._parent
					if isinstance(p, ast.Assign) and n in p.targets and (
							isinstance(p.value, ast.Call)):
						vals.append(p.value)
					else:
						return None
			cs = {project.resolve_call(f, v) if not isinstance(
					project.resolve_call(f, v), tuple) else None
					for v in vals}
			if len(cs) == 1:
				c = cs.pop()
				if isinstance(c, Class) and not [b for b in
						c.external_bases() if b != 'object'] and not any(
						c.find(x) for x in ('__getattr__', '__new__',
						'__getattribute__')):
					return c
	return None


def attributes(project, pyxmods, result):
	names = universe(project, pyxmods)
	for m in project.modules.values():
		for n in ast.walk(m.tree):
			if not isinstance(n, ast.Attribute) or not isinstance(
					n.ctx, ast.Load):
				continue
			f = None
			p = n
			while p is not None:
				p = getattr(p, '_parent', None)
				if p is not None and getattr(p, '_func', None) is not None:
					f = p._func
					break
			where = '%s:%d' % (m.relpath, n.lineno)
			qual = f.id if f is not None else m.name
			result.count('attribute references')
			# module.attribute
			base = dotted(n.value)
			r = project.resolve_name(m, base, f) if base else None
			if isinstance(r, Module):
				full = r.name + '.' + n.attr
				if full not in project.modules and full not in pyxmods and (
						n.attr not in bindmodule(r)[0]) and n.attr not in (
						'__file__', '__doc__', '__name__'):
					result.finding('missing-attribute', '%s:%s' % (qual,
							full), where, 'module %s does not define %s'
							% (r.name, n.attr))
				continue
			if isinstance(r, tuple) and r[0] == 'ext' and r[1] in pyxmods:
				if n.attr not in pyxmods[r[1]].names:
					result.finding('missing-attribute', '%s:%s.%s' % (qual,
							r[1], n.attr), where,
							'module %s does not define %s' % (r[1], n.attr))
				continue
			# third-party modules
			root = n.value
			while isinstance(root, (ast.Attribute, ast.Call, ast.Subscript)):
				root = root.func if isinstance(root, ast.Call) else root.value
			rr = project.resolve_name(m, root.id, f) if isinstance(
					root, ast.Name) else None
			if isinstance(rr, tuple) and rr[0] == 'ext' and not hasattr(
					builtins, rr[1].split('.')[0]):
				top = rr[1].split('.')[0]
				if top not in STDLIB and top not in ('discodop', 'web'):
					continue
			cls = receiver(project, f, n.value)
			if cls is not None and not isinstance(n.value, ast.Call):
				ext = [b for b in cls.external_bases() if b != 'object']
				if not ext and not cls.find('__getattr__'):
					known = cls.instance_attrs() | set(dir(object)) | {
							'__dict__', '__slots__', '__name__', '__qualname__',
							'__module__', '__doc__', '__mro__', '__bases__'}
					for sub in cls.all_subclasses():
						known |= sub.instance_attrs()
					if n.attr not in known and not guarded(n):
						result.finding('missing-attribute', '%s:%s' % (qual,
								n.attr), where,
								'%s has no attribute or method %s'
								% (cls.id, n.attr))
					continue
			if n.attr not in names and not guarded(n):
				result.finding('missing-attribute', '%s:%s' % (qual, n.attr),
						where, 'no object has an attribute named %s'
						% n.attr)


def guarded(n):
	"""Inside try: ... except AttributeError, or after hasattr."""
	p = n
	while p is not None:
		q = getattr(p, '_parent', None)
		if isinstance(q, ast.Try) and p in q.body and any(
				h.type is None or 'AttributeError' in src(h.type)
				or src(h.type) == 'Exception' for h in q.handlers):
			return True
		if isinstance(q, (ast.If, ast.IfExp)) and 'hasattr' in src(q.test):
			return True
		p = q
	return False


LOGGERS = {'logging.' + x for x in ('debug', 'info', 'warning', 'error',
		'critical', 'exception')}
FMT = re.compile(r'%(?:\((?P<key>[^)]*)\))?[-+ #0]*(?P<w>\*|\d+)?'
		r'(?:\.(?P<p>\*|\d+))?[hlL]?(?P<c>.)', re.S)


def formats(project, result):
	for m in project.modules.values():
		for n in ast.walk(m.tree):
			right = None
			if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
				text, right = const(n.left), n.right
			elif isinstance(n, ast.Call) and len(n.args) > 1 and dotted(
					n.func) in LOGGERS:
				# logging.info('%d', value)
				text = const(n.args[0])
				right = ast.Tuple(elts=n.args[1:], ctx=ast.Load())
				if len(n.args) == 2 and text and '%(' in text:
					right = n.args[1]
			else:
				continue
			if text is None:
				continue
			count, keys, bad = 0, set(), None
			for x in FMT.finditer(text):
				if x.group('c') == '%':
					continue
				if x.group('c') not in 'diouxXeEfFgGcrsab':
					bad = x.group('c')
				if x.group('key') is not None:
					keys.add(x.group('key'))
				else:
					count += 1
				count += (x.group('w') == '*') + (x.group('p') == '*')
			result.count('format expressions')
			f = None
			p = n
			while p is not None:
				p = getattr(p, '_parent', None)
				if p is not None and getattr(p, '_func', None) is not None:
					f = p._func
					break
			qual = f.id if f is not None else m.name
			where = '%s:%d' % (m.relpath, n.lineno)
			msg = None
			if bad:
				msg = 'unsupported format character %r' % bad
			elif isinstance(right, ast.Tuple) and not keys:
				if not any(isinstance(e, ast.Starred) for e in right.elts):
					if len(right.elts) != count:
						msg = '%d values for %d conversions' % (
								len(right.elts), count)
			elif keys and isinstance(right, ast.Dict):
				have = {k.value if isinstance(k, ast.Constant) else None
						for k in right.keys}
				if None not in have and keys - have:
					msg = 'missing key %s' % ', '.join(sorted(keys - have))
			elif not keys and count != 1 and isinstance(right, (
					ast.Constant, ast.JoinedStr, ast.Dict, ast.List,
					ast.BinOp, ast.Compare)) and not (
					isinstance(right, ast.BinOp)):
				msg = '1 value for %d conversions' % count
			if msg:
				result.finding('bad-format', '%s:%s' % (qual, text[:30]),
						where, msg)


def enclosing(n):
	p = n
	while p is not None:
		p = getattr(p, '_parent', None)
		if p is not None and getattr(p, '_func', None) is not None:
			return p._func
	return None


NUMERIC = set('diouxXeEfFgGc')
CONTAINERS = {'list', 'set', 'dict', 'tuple', 'tuple*', 'deque', 'iter',
		'view'}


STRMETHODS = {'join', 'strip', 'rstrip', 'lstrip', 'lower', 'upper', 'title',
		'replace', 'format', 'decode', 'encode', 'split', 'rsplit',
		'splitlines', 'capitalize', 'center', 'ljust', 'rjust', 'items',
		'keys'}


def nonnumber(f, v, depth=0):
	"""This expression certainly is (in some case) not a number."""
	if isinstance(v, ast.Constant):
		return v.value is None or isinstance(v.value, (str, bytes))
	if isinstance(v, (ast.JoinedStr, ast.List, ast.Dict, ast.Set, ast.Tuple,
			ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
		return True
	if isinstance(v, ast.BinOp):
		return isinstance(v.op, ast.Mod) and const(v.left) is not None
	if isinstance(v, ast.IfExp):
		return nonnumber(f, v.body, depth) or nonnumber(f, v.orelse, depth)
	if isinstance(v, ast.Call):
		if isinstance(v.func, ast.Name):
			return v.func.id in ('str', 'repr', 'list', 'sorted', 'set',
					'dict', 'tuple', 'chr', 'ascii', 'type', 'range',
					'frozenset') and (f is None or v.func.id not in f.locals)
		return isinstance(v.func, ast.Attribute) and v.func.attr in (
				STRMETHODS) and (v.func.attr != 'replace'
				or len(v.args) >= 2)
	if isinstance(v, ast.Name) and f is not None and depth < 3 and (
			v.id in f.locals and v.id not in f.params):
		vals = []
		for n in own_nodes(f.node):
			if isinstance(n, ast.Name) and n.id == v.id and isinstance(
					n.ctx, (ast.Store, ast.Del)):
				p = n._parent
				if not (isinstance(p, ast.Assign) and n in p.targets):
					return False
				vals.append(p.value)
		return bool(vals) and all(not isinstance(x, ast.Constant) and
				nonnumber(f, x, depth + 1) for x in vals)
	return False


def formattypes(project, result):
	"""Numeric conversions are not given strings or containers."""
	for m in project.modules.values():
		for n in ast.walk(m.tree):
			if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
				text = const(n.left)
				vals = n.right.elts if isinstance(
						n.right, ast.Tuple) else [n.right]
			elif isinstance(n, ast.Call) and len(n.args) > 1 and dotted(
					n.func) in LOGGERS:
				text, vals = const(n.args[0]), n.args[1:]
			else:
				continue
			if text is None or '*' in text or any(isinstance(v, ast.Starred)
					for v in vals):
				continue
			convs = [x for x in FMT.finditer(text) if x.group('c') != '%']
			if len(convs) != len(vals) or any(x.group('key') for x in convs):
				continue
			f = enclosing(n)
			for x, v in zip(convs, vals):
				if x.group('c') not in NUMERIC:
					continue
				result.count('numeric conversions')
				if nonnumber(f, v) and not (x.group('c') == 'c'):
					result.finding('bad-format', '%s:%s' % (f.id if f
							else m.name, text[:30]), '%s:%d' % (
							m.relpath, v.lineno), '%s is not a number, but is'
							' formatted with %s' % (src(v)[:40], x.group(0)))


def strformats(project, result):
	"""Arguments of 'text'.format(...)."""
	for m in project.modules.values():
		for n in ast.walk(m.tree):
			if not (isinstance(n, ast.Call) and isinstance(n.func,
					ast.Attribute) and n.func.attr == 'format'):
				continue
			text = const(n.func.value)
			if text is None or any(isinstance(a, ast.Starred)
					for a in n.args) or any(k.arg is None
					for k in n.keywords):
				continue
			result.count('format expressions')
			msg, auto = None, 0
			kws = {k.arg for k in n.keywords}
			try:
				todo = list(string.Formatter().parse(text))
				while todo:
					_, field, spec, _ = todo.pop(0)
					if field is None:
						continue
					if spec and '{' in spec:
						todo = list(string.Formatter().parse(spec)) + todo
					name = re.split(r'[.[]', field, maxsplit=1)[0]
					if name == '':
						name, auto = str(auto), auto + 1
					if name.isdigit():
						if int(name) >= len(n.args):
							msg = 'no value for {%s}' % field
					elif name not in kws:
						msg = 'no value for {%s}' % field
			except ValueError as err:
				msg = str(err)
			if msg:
				f = enclosing(n)
				result.finding('bad-format', '%s:%s' % (f.id if f else m.name,
						text[:30]), '%s:%d' % (m.relpath, n.lineno), msg)


def slots(project, result):
	"""Attributes of self are among the slots, if an object has no others."""
	for c in project.classes.values():
		known = set()
		for k in c.mro():
			v = k.attrs.get('__slots__')
			if v is None or [b for b in k.external_bases() if b != 'object']:
				known = None
				break
			try:
				v = ast.literal_eval(v)
			except ValueError:
				known = None
				break
			known |= {v} if isinstance(v, str) else set(v)
		if known is None or '__dict__' in known:
			continue
		result.count('classes with slots')
		known |= {x.name for k in c.mro() for x in k.methods.values()
				if any(d.endswith('.setter') for d in x.decorators)}
		for k in c.mro():
			for f in k.methods.values():
				if not f.posparams or 'staticmethod' in f.decorators or (
						'classmethod' in f.decorators) or f.name in (
						'__setattr__', '__new__'):
					continue
				for n in own_nodes(f.node):
					if isinstance(n, ast.Attribute) and isinstance(
							n.ctx, ast.Store) and isinstance(
							n.value, ast.Name) and (
							n.value.id == f.posparams[0]) and (
							n.attr not in known) and n.attr not in {
							x for y in c.mro() for x in y.methods
							if 'property' in y.methods[x].decorators}:
						result.finding('missing-attribute', '%s:%s' % (
								f.id, n.attr), f.loc(n), '%s is not one of the'
								' slots of %s' % (n.attr, c.id))


def properties(project, pyxmods, result, t):
	"""The value of a property that is not a function is not called."""
	props, others = {}, set(EXTERNAL)
	for c in project.classes.values():
		for name, f in c.methods.items():
			if 'property' in f.decorators:
				props.setdefault(name, []).append(f)
			else:
				others.add(name)
		for name, v in c.attrs.items():
			if isinstance(v, ast.Call) and dotted(v.func) == 'property' and (
					v.args and isinstance(v.args[0], ast.Name)
					and v.args[0].id in c.methods):
				props.setdefault(name, []).append(c.methods[v.args[0].id])
			else:
				others.add(name)
	for p in pyxmods.values():
		for c in p.classes.values():
			others |= set(c['methods'])
	for x in (str, bytes, list, dict, set, tuple, int, float):
		others |= set(dir(x))
	for m in project.modules.values():
		for n in ast.walk(m.tree):
			if not (isinstance(n, ast.Call) and isinstance(n.func,
					ast.Attribute) and n.func.attr in props
					and n.func.attr not in others):
				continue
			f = enclosing(n)
			result.count('calls of properties')
			if all(x in ('int', 'str', 'none', 'bool', 'float') or not
					isinstance(x, str) and x[0] in CONTAINERS | {'inst'}
					for g in props[n.func.attr]
					for x in t.rets.get(g.id, ())):
				result.finding('bad-call', '%s:%s' % (f.id if f else m.name,
						n.func.attr), '%s:%d' % (m.relpath, n.lineno),
						'%s is a property; its value is not a function'
						% n.func.attr)


def callbacks(project, result, t):
	"""Functions that are called with arguments given along with them."""
	for m in project.modules.values():
		for n in ast.walk(m.tree):
			if not isinstance(n, ast.Call):
				continue
			kws = {k.arg: k.value for k in n.keywords}
			name = dotted(n.func) or ''
			attr = n.func.attr if isinstance(n.func, ast.Attribute) else name
			fn = args = kwargs = None
			for a, b in (('initializer', 'initargs'), ('target', 'args')):
				if a in kws and not isinstance(kws[a], ast.Constant):
					fn, args, kwargs = kws[a], kws.get(b, ast.Tuple(
							elts=[], ctx=ast.Load())), []
					if 'kwargs' in kws:
						fn = None
			if fn is None and attr in ('submit', '_submit') and n.args and (
					attr != name):
				fn, args = n.args[0], ast.Tuple(elts=n.args[1:],
						ctx=ast.Load())
				kwargs = n.keywords
			elif fn is None and attr in ('apply', 'apply_async') and len(
					n.args) == 2 and attr != name:
				fn, args, kwargs = n.args[0], n.args[1], []
			elif fn is None and name in ('sorted', 'min', 'max') or (
					attr == 'sort' and attr != name):
				fn, args, kwargs = kws.get('key'), 1, []
			elif fn is None and name in ('map', 'filter', 'reduce',
					'functools.reduce') and n.args and not any(isinstance(
					a, ast.Starred) for a in n.args):
				fn, kwargs = n.args[0], []
				args = len(n.args) - 1 if name == 'map' else (
						1 if name == 'filter' else 2)
			if fn is None or isinstance(fn, ast.Constant):
				continue
			if isinstance(args, int):
				args = ast.Tuple(elts=[ast.Constant(None)] * args,
						ctx=ast.Load())
			if not isinstance(args, (ast.Tuple, ast.List)):
				continue
			f = enclosing(n)
			todo, call = [fn], ast.Call(fn, args.elts, kwargs)
			while todo:
				x = todo.pop()
				if isinstance(x, ast.IfExp):
					todo += [x.body, x.orelse]
					continue
				kinds = t.ev(m, f, x)
				if not kinds or not all(not isinstance(a, str) and a[0] in (
						'func', 'bound') for a in kinds):
					continue
				msgs = []
				for a in kinds:
					g = project.funcs[a[1]]
					if decorated(g):
						msgs.append(None)
						continue
					msgs.append(mismatch(sigof(g, a[0] == 'bound' or
							'classmethod' in g.decorators), call))
				result.count('functions called back')
				if all(msgs):
					result.finding('bad-call', '%s:%s' % (f.id if f
							else m.name, src(x)[:40]), '%s:%d' % (
							m.relpath, n.lineno), '%s, which is called by %s:'
							' %s' % (src(x)[:40], name or attr, msgs[0]))


def const(node):
	if isinstance(node, ast.Constant) and isinstance(node.value, str):
		return node.value
	if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
		a, b = const(node.left), const(node.right)
		if a is not None and b is not None:
			return a + b
	return None


def check(project, result, tier):
	pyxmods = pyx.load(project.repo)
	if len(pyxmods) < 6:
		raise AnalysisBroken('only %d compiled modules' % len(pyxmods))
	result.rule('Every name is bound in an enclosing scope; every imported '
			'name and module attribute is defined by that module; every '
			'attribute is defined by the class of self, or by some class, '
			'type or module; every call of a function, class or method of '
			'the project matches the signature of (at least one of) the '
			'possible callees; every %-format has as many values as '
			'conversions.')
	result.rule('Functions that are called back accept the arguments given '
			'for them; numeric conversions are not given strings or '
			'containers; str.format() has all values; attributes of objects '
			'with slots are among these; properties are not called.')
	undefined(project, result)
	imports(project, pyxmods, result)
	calls(project, pyxmods, result)
	attributes(project, pyxmods, result)
	formats(project, result)
	t = infer(project)
	strformats(project, result)
	formattypes(project, result)
	slots(project, result)
	properties(project, pyxmods, result, t)
	callbacks(project, result, t)
	result.require('name references', 20000)
	result.require('calls of functions', 900)
	result.require('calls of methods', 200)
	result.require('calls of compiled functions', 15)
	result.require('format expressions', 500)
	result.assume('attributes of third-party objects are listed in the '
			'checker; those of the standard library are taken from the '
			'running Python')
