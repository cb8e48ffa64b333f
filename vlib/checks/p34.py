"""Data of requests and corpora is escaped in the web interfaces."""
import ast
import re
import os
import glob
from ..project import AnalysisBroken, Func, dotted
from ..report import Result
from . import p08
from ..taint import (Taint, NONE, strip, consttruth, escapetags, reveal,
		visible)
from ..consteval import evaluate, Unknown

TITLE = 'requests and corpus text are escaped in the web pages'
ESCAPE = {'html.escape', 'cgi.escape', 'xml.sax.saxutils.escape',
		'markupsafe.escape', 'xml.sax.saxutils.quoteattr',
		'urllib.parse.quote', 'urllib.parse.quote_plus',
		'urllib.parse.urlencode', 'flask.url_for', 'flask.escape',
		'base64.b64encode', 'flask.jsonify', 'logging.getLogger'}
TEXT = {'sent', 'tree', 'token', 'label'}  # attributes with corpus text
RESULTS = {'sents', 'trees', 'extract'}  # methods that return corpus text
HTMLTYPES = {'text/html', 'application/xhtml+xml', 'text/xml', 'image/svg+xml',
		'application/xml', 'text/javascript'}
SINKS = {'open', 'io.open', 'os.remove', 'os.unlink', 'os.chdir', 'os.system',
		'os.popen', 'subprocess.Popen', 'subprocess.call', 'subprocess.run',
		'subprocess.check_call', 'subprocess.check_output', 'eval', 'exec',
		'flask.send_from_directory', 'flask.send_file', 'glob.glob',
		'os.listdir', 'os.rename', 'os.mkdir', 'os.makedirs', 'shutil.rmtree',
		'pickle.load', 'pickle.loads', 'codecs.open', 'os.rmdir',
		'flask.render_template_string', '__import__', 'compile', 'getattr',
		'importlib.import_module', 'tempfile.NamedTemporaryFile'}
ROUTE = {'route', 'get', 'post', 'put', 'delete', 'patch'}
REQUEST, CORPUS, MARKUP, MIME, ROW, PARSE, ERROR = (
		'request', 'corpus', 'markup', 'mime', 'row', 'parse', 'error')


class Web:
	"""Hooks for the analysis of one module."""
	def __init__(self, project, module, templates, flags):
		self.project, self.module = project, module
		self.templates, self.flags = templates, flags
		self.stats = {}
		self.sinks = {}
		self.tagsof = {}
		self.reasons = {}

	def count(self, name, node):
		self.stats.setdefault(name, set()).add(
				(getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0),
				type(node).__name__))

	def ext(self, frame, node):
		name = dotted(node)
		if not name:
			return None
		r = self.project.resolve_name(frame.f.module, name, frame.f)
		return r[1] if isinstance(r, tuple) and r[0] == 'ext' else None

	def loc(self, frame, node):
		return '%s:%d' % (frame.f.module.relpath, node.lineno)

	def source(self, frame, node):
		if isinstance(node, ast.Attribute):
			ext = self.ext(frame, node)
			if ext and ext.startswith('flask.request.') and ext.count(
					'.') == 2:
				self.count('uses of requests', node)
				return frozenset([(REQUEST, self.loc(frame, node))])
			if node.attr in TEXT and ext is None:
				self.count('uses of corpus text', node)
				return frozenset([(CORPUS, self.loc(frame, node))])
		return None

	def global_(self, frame, node, name):
		"""Whether node is (an element of) global variable."""
		for _ in range(9):
			while isinstance(node, ast.Subscript):
				node = node.value
			if not isinstance(node, ast.Name):
				return False
			if node.id == name:
				return name in frame.f.module.globals
			# local variable with a single definition
			f = frame.f
			while f is not None and node.id not in f.locals:
				f = f.parent if isinstance(f.parent, Func) else None
			if f is None:
				return False
			stores = [a for a in ast.walk(f.node) if isinstance(a, ast.Name)
					and a.id == node.id and isinstance(a.ctx, ast.Store)]
			defs = [a for a in ast.walk(f.node) if isinstance(a, ast.Assign)
					and len(a.targets) == 1 and a.targets[0] in stores]
			if node.id in f.params or len(stores) != 1 or len(defs) != 1:
				return False
			node = defs[0].value
		return False

	def element(self, frame, node, name):
		"""Whether node is an element of global variable."""
		return self.global_(frame, node, name) and not (
				isinstance(node, ast.Name) and node.id == name)

	def sanitize(self, frame, node, name, tags):
		func = node.func if dotted(node.func) == name else None
		r = self.project.resolve_name(frame.f.module, name or '?', frame.f)
		if name and name in frame.f.module.globals and (
				name not in frame.f.locals) and len(
				frame.f.module.globals[name]) == 1 and dotted(
				frame.f.module.globals[name][0]):
			r = self.project.resolve_name(frame.f.module, dotted(
					frame.f.module.globals[name][0]))
		ext = r[1] if isinstance(r, tuple) and r[0] == 'ext' else None
		if ext in SINKS and func is not None:
			self.sink(frame, node, ext)
		if ext in ESCAPE:
			self.count('escaped values', node)
			return escapetags(tags, node)
		if name.split('.')[-1] == 'unescape':
			return reveal(tags)
		if ext and ext.startswith('flask.request.') and func is not None:
			self.count('uses of requests', node)
			return tags | frozenset([(REQUEST, self.loc(frame, node))])
		if ext == 'flask.Response' and func is not None:
			return self.response(frame, node)
		if ext == 'markupsafe.Markup' or ext == 'flask.Markup':
			self.count('values marked as safe', node)
			return frozenset((MARKUP, b) for a, b in visible(tags)
					if a != MIME)
		if ext == 'flask.render_template' or isinstance(r, Func) and (
				r.module is self.module and any(
				isinstance(n, ast.Attribute) and n.attr == 'get_template'
				for n in ast.walk(r.node))):
			return self.render(frame, node)
		if ext in ('discodop.fragments.regular', ):
			return frozenset([(CORPUS, self.loc(frame, node))])
		if isinstance(r, Func) and r.module.name == 'discodop.fragments':
			return frozenset([(CORPUS, self.loc(frame, node))])
		if isinstance(r, Func) and not r.module.name.startswith('web.'):
			return tags
		if isinstance(node.func, ast.Attribute):
			attr = node.func.attr
			if self.element(frame, node.func.value, 'CORPORA'):
				if attr in RESULTS:
					self.count('searches', node)
					kind = ROW if attr in ('sents', 'trees') else CORPUS
					return frozenset([(kind, self.loc(frame, node))])
				return NONE
			if attr == 'svg':
				self.count('drawings', node)
				return NONE
			if attr == 'text':
				for val in self.keyword(frame, node, 'html'):
					self.count('drawings', node)
					v = frame.truth(val)
					if v or isinstance(val, ast.Constant) and val.value:
						return NONE
			if attr == 'get' and self.global_(frame, node.func.value, 'CACHE'):
				return NONE
			if self.element(frame, node.func.value, 'PARSERS'):
				self.count('parses', node)
				return frozenset([(PARSE, self.loc(frame, node))])
		if ext == 'json.dumps':
			return None
		return None

	@staticmethod
	def single(frame, node):
		"""The definition of a local variable with one definition."""
		if not isinstance(node, ast.Name) or node.id in frame.f.params:
			return None
		stores = [a for a in ast.walk(frame.f.node) if isinstance(a, ast.Name)
				and a.id == node.id and isinstance(a.ctx, ast.Store)]
		defs = [a for a in ast.walk(frame.f.node) if isinstance(a, ast.Assign)
				and len(a.targets) == 1 and a.targets[0] in stores]
		return defs[0].value if len(stores) == len(defs) == 1 else None

	def keyword(self, frame, call, name):
		"""Values of a keyword argument."""
		for k in call.keywords:
			if k.arg == name:
				return [k.value]
			if k.arg is None:
				d = k.value if isinstance(k.value, (ast.Dict, ast.Call)
						) else self.single(frame, k.value)
				if isinstance(d, ast.Call) and dotted(d.func) == 'dict':
					for a in d.keywords:
						if a.arg == name:
							return [a.value]
				elif isinstance(d, ast.Dict):
					for a, b in zip(d.keys, d.values):
						if isinstance(a, ast.Constant) and a.value == name:
							return [b]
		return []

	def sink(self, frame, node, ext):
		self.count('operations on files and processes', node)
		args = node.args
		if ext in ('getattr', 'exec', 'compile'):
			args = node.args
		for a in list(args) + [k.value for k in node.keywords]:
			for kind, loc in strip(frame.expr(a)):
				if kind == REQUEST:
					self.sinks[self.loc(frame, node), ext, frame.f.id if hasattr(
							frame.f, 'id') else frame.f.qual] = loc

	def response(self, frame, node):
		"""Text in a HTTP response."""
		self.count('responses', node)
		args = list(node.args)
		kw = {k.arg: k.value for k in node.keywords}
		body = args[0] if args else kw.get('response')
		mime = args[3] if len(args) > 3 else kw.get('mimetype',
				kw.get('content_type'))
		tags = frame.expr(body) if body is not None else NONE
		if mime is not None:
			mtags = frame.expr(mime)
			types = {b for a, b in mtags if a == MIME}
			if isinstance(mime, ast.Constant):
				types.add(str(mime.value))
			if types and not any(t.split(';')[0].strip() in HTMLTYPES
					for t in types) and not any(
					a != MIME for a, _ in visible(mtags)):
				return NONE
		return frozenset(a for a in strip(tags) if a[0] != MIME)

	def render(self, frame, node):
		"""Text in the result of a template."""
		self.count('templates', node)
		name = None
		if node.args:
			try:
				name = evaluate(self.project, frame.f, node.args[0])
			except Unknown:
				pass
		uses = self.templates.get(name)
		ctx = {}
		every = NONE
		for k in node.keywords:
			if k.arg is None:
				got = self.dictkeys(frame, k.value)
				if got is None:
					every |= strip(frame.expr(k.value))
				else:
					for key, tags in got.items():
						ctx[key] = ctx.get(key, NONE) | tags
			else:
				ctx[k.arg] = strip(frame.expr(k.value))
		res = NONE
		if uses is None:
			raise AnalysisBroken('%s: unknown template %r' % (
					self.loc(frame, node), name))
		for var, safe, where in uses:
			tags = frozenset(a for a in visible(ctx.get(var, every))
					if a[0] != MIME)
			bad = tags if safe else frozenset(
					a for a in tags if a[0] == MARKUP)
			for a in bad:
				self.reasons.setdefault(a, 'through variable %s of template %s'
						' (%s)' % (var, name, where))
			res |= bad
		return res

	def dictkeys(self, frame, node):
		"""Tags of the keys of a dictionary that is built in the function."""
		if isinstance(node, ast.Dict):
			return {k.value: strip(frame.expr(v)) for k, v in zip(
					node.keys, node.values) if isinstance(k, ast.Constant)}
		if not isinstance(node, ast.Name) or node.id not in frame.f.locals:
			return None
		res = {}

		def add(key, value):
			res[key] = res.get(key, NONE) | strip(
					self.tagsof.get(id(value), NONE))

		def adddict(value):
			if isinstance(value, ast.Dict) and all(isinstance(
					k, ast.Constant) for k in value.keys):
				for k, v in zip(value.keys, value.values):
					add(k.value, v)
				return True
			if isinstance(value, ast.Call) and dotted(value.func) == 'dict' and (
					not value.args) and all(k.arg for k in value.keywords):
				for k in value.keywords:
					add(k.arg, k.value)
				return True
			return False

		for n in ast.walk(frame.f.node):
			if isinstance(n, ast.Assign):
				for t in n.targets:
					if isinstance(t, ast.Name) and t.id == node.id:
						if not adddict(n.value):
							return None
					elif isinstance(t, ast.Subscript) and dotted(
							t.value) == node.id:
						if not isinstance(t.slice, ast.Constant):
							return None
						add(t.slice.value, n.value)
			elif isinstance(n, ast.Call) and isinstance(
					n.func, ast.Attribute) and dotted(
					n.func.value) == node.id and n.func.attr == 'update':
				for k in n.keywords:
					if k.arg is None:
						return None
					add(k.arg, k.value)
				for a in n.args:
					if not adddict(a):
						return None
			elif isinstance(n, ast.Call) and isinstance(
					n.func, ast.Attribute) and dotted(
					n.func.value) == node.id and n.func.attr == 'setdefault':
				if len(n.args) != 2 or not isinstance(
						n.args[0], ast.Constant):
					return None
				add(n.args[0].value, n.args[1])
		return res

	def onexpr(self, frame, node, tags):
		if tags:
			self.tagsof[id(node)] = self.tagsof.get(id(node), NONE) | tags

	def special(self, frame, node):
		if isinstance(node, ast.Constant):
			if isinstance(node.value, str) and re.match(
					r'(text|application|image)/[\w.+-]+$', node.value):
				return frozenset([(MIME, node.value)])
			return None
		# call of a function in a table of functions
		if isinstance(node, ast.Call) and isinstance(
				node.func, ast.Subscript) and isinstance(
				node.func.value, ast.Name):
			defs = frame.f.module.globals.get(node.func.value.id, [])
			if len(defs) == 1 and isinstance(defs[0], ast.Dict) and all(
					isinstance(v, (ast.Name, ast.Lambda))
					for v in defs[0].values):
				every = NONE
				for a in list(node.args) + [k.value for k in node.keywords]:
					every |= frame.expr(a)
				res = NONE
				for v in defs[0].values:
					f = frame.f.module.funcs.get(v.id) if isinstance(
							v, ast.Name) else frame.nestedlambda(v)
					if f is None:
						return None
					if not frame.ok(f):
						continue
					if isinstance(v, ast.Lambda):
						res |= frame.invoke(f, strip(every))
					else:
						args = [frame.expr(a) for a in node.args]
						kw = {k.arg: frame.expr(k.value)
								for k in node.keywords}
						res |= frame.follow(f, node, args, kw, False, node)
				return res
		return None

	def unpack(self, frame, target, tags):
		"""Columns of search results."""
		rows = frozenset(a for a in tags if a[0] == ROW)
		if rows and len(target.elts) == 5 and not any(
				isinstance(a, ast.Starred) for a in target.elts):
			rest = tags - rows
			conv = frozenset((CORPUS, a[1]) for a in rows)
			return [rest, rest, rest | conv, rest | conv, rest | conv]
		# (tree, probability[, fragments]) or (fragment, weight)
		rows = frozenset(a for a in tags if a[0] == PARSE)
		if rows and len(target.elts) in (2, 3) and not any(
				isinstance(a, ast.Starred) for a in target.elts):
			return [tags - rows if n == 1 else tags
					for n, _ in enumerate(target.elts)]
		return None

	def exc(self, frame, handler):
		return frozenset([(ERROR, self.loc(frame, handler))])

	def refine(self, frame, test, value):
		"""Values that have been compared to a list of allowed values."""
		if isinstance(test, ast.Name):
			d = self.single(frame, test)
			if isinstance(d, ast.Compare) and isinstance(
					d.left, ast.Name) and all(a.lineno < d.lineno
					for a in ast.walk(frame.f.node) if isinstance(a, ast.Name)
					and a.id == d.left.id and isinstance(a.ctx, ast.Store)):
				test = d
		if not isinstance(test, ast.Compare) or len(test.ops) != 1 or not (
				isinstance(test.left, ast.Name)):
			return
		op = test.ops[0]
		if isinstance(op, (ast.NotIn, ast.NotEq)):
			value = not value
		elif not isinstance(op, (ast.In, ast.Eq)):
			return
		if not value or test.left.id not in frame.env:
			return
		right = test.comparators[0]
		if isinstance(op, (ast.Eq, ast.NotEq)) and not isinstance(
				right, ast.Constant):
			return
		if strip(frame.expr(right)):
			return
		if isinstance(right, ast.Constant) and isinstance(
				op, (ast.In, ast.NotIn)):
			if not isinstance(right.value, str) or re.search(
					'[<>&"\']', right.value):
				return
		self.count('checked values', test)
		frame.env[test.left.id] = NONE

	def truth(self, frame, test):
		return consttruth(test, {name: value for (f, name), value
				in self.flags.items() if f is frame.f})


# -- templates

TOKEN = re.compile(r'\{%-?\s*(.*?)\s*-?%\}|\{\{-?\s*(.*?)\s*-?\}\}|\{#.*?#\}',
		re.S)
NAME = re.compile(r'(?<![\w.\'"])[A-Za-z_]\w*')


def names(expr):
	"""Variables that may be part of the value of a Jinja expression."""
	text = re.sub(r'"""(?s:.*?)"""|"[^"]*"|\'[^\']*\'', ' ', expr)
	res = set()
	# value if condition else value
	m = re.split(r'\bif\b(.*?)(?:\belse\b|$)', text, flags=re.S)
	for part in m[0::2]:
		part = re.sub(r'\|\s*\w+', ' ', part)
		res.update(a for a in NAME.findall(part) if a not in (
				'and', 'or', 'not', 'in', 'is', 'true', 'false', 'none',
				'True', 'False', 'None', 'loop', 'defined'))
	return res


def context(before):
	"""HTML context of the end of text: 'text', 'script', 'attr', ..."""
	low = before.lower()
	i = low.rfind('<script')
	if i >= 0 and low.rfind('</script') < i:
		if '>' in low[i:]:
			return 'script'
	i = low.rfind('<style')
	if i >= 0 and low.rfind('</style') < i and '>' in low[i:]:
		return 'style'
	# inside a tag?
	i = max((m.start() for m in re.finditer(r'<[a-z/!]', low)), default=-1)
	if i < 0:
		return 'text'
	rest = before[i:]
	pos = 0
	attr = quote = None
	while pos < len(rest):
		c = rest[pos]
		if quote:
			if c == quote:
				quote = None
		elif c == '>':
			return 'text'
		elif c in '"\'':
			quote = c
			m = re.search(r'([\w-]+)\s*=\s*$', rest[:pos])
			attr = m.group(1).lower() if m else None
		pos += 1
	if quote is None:
		return 'unquoted'
	if attr and attr.startswith('on'):
		return 'handler' + quote
	return 'attr'


def parsetemplate(path, blocks=None):
	"""Return list of (variable, unescaped, description) for template."""
	with open(path, encoding='utf8') as inp:
		text = inp.read()
	m = re.match(r'\s*\{%-?\s*extends\s+["\']([^"\']+)["\']', text)
	uses = []
	if m:
		uses.extend(parsetemplate(os.path.join(os.path.dirname(path),
				m.group(1))))
	alias = {}  # loop variable -> variables
	out = ''
	pos = 0
	autoescape = True
	for m in TOKEN.finditer(text):
		out += text[pos:m.start()]
		pos = m.end()
		lineno = text.count('\n', 0, m.start()) + 1
		if m.group(1) is not None:
			tag = m.group(1)
			f = re.match(r'for\s+(.+?)\s+in\s+(.*)$', tag, re.S)
			if f:
				for v in NAME.findall(f.group(1)):
					alias[v] = resolve(names(f.group(2)), alias)
			s = re.match(r'set\s+(\w+)\s*=\s*(.*)$', tag, re.S)
			if s:
				alias[s.group(1)] = alias.get(s.group(1), set()) | resolve(
						names(s.group(2)), alias)
			if re.match(r'autoescape\s+false', tag):
				autoescape = False
			elif re.match(r'(end)?autoescape', tag):
				autoescape = True
			continue
		if m.group(2) is None:
			continue
		expr = m.group(2)
		filters = re.findall(r'\|\s*(\w+)', re.sub(
				r'"[^"]*"|\'[^\']*\'', '', expr))
		where = '%s:%d' % (os.path.basename(path), lineno)
		ctx = context(out)
		safe = not autoescape and 'e' not in filters and (
				'escape' not in filters)
		if 'safe' in filters:
			safe = True
		if 'forceescape' in filters:
			safe = False
		if ctx in ('script', 'handler\'', 'handler"', 'style', 'unquoted'):
			ok = 'urlencode' in filters or 'int' in filters or (
					'tojson' in filters and (ctx in ('script', "handler'")
					or 'forceescape' in filters))
			if ctx == 'unquoted' and re.match(r"^'[^']*'\s*if\b", expr):
				ok = True
			safe = not ok
			where += ', in ' + {'unquoted': 'attribute without quotes'}.get(
					ctx, 'script')
		elif 'tojson' in filters:
			safe = False
		for v in resolve(names(expr), alias):
			uses.append((v, safe, where))
		# value may not contain quotes when it is escaped
		out += 'X'
	return uses


def resolve(vars, alias):
	res = set()
	for v in vars:
		res |= alias.get(v, {v})
	return res


def htmlflags(project, module):
	"""Local variables that say whether to produce HTML."""
	res = []
	for f in module.funcs.values():
		if f.node is None or isinstance(f.node, ast.Lambda):
			continue
		for n in ast.walk(f.node):
			if isinstance(n, ast.keyword) and n.arg == 'html' and isinstance(
					n.value, ast.Name) and n.value.id in f.locals and (
					n.value.id not in f.params):
				stores = [a for a in ast.walk(f.node) if isinstance(
						a, ast.Name) and a.id == n.value.id and isinstance(
						a.ctx, ast.Store)]
				if len(stores) == 1 and (f, n.value.id) not in res:
					res.append((f, n.value.id))
	return res


def check(project, res, tier):
	res.rule('parts of requests, corpus text, and error messages reach a HTML'
			' response only after escaping (html.escape, urlencode, int, a check'
			' against allowed values, a template without safe filter, or drawing'
			' methods of trees with html=True); parts of requests do not become'
			' file names, commands, or code')
	res.assume('names of texts, metadata, and parser languages are trusted;'
			' cached results are those of the same'
			' request (P19); Flask escapes variables in .html templates')
	templates = {}
	for path in glob.glob(os.path.join(project.repo, 'web', 'templates',
			'*.html')):
		templates[os.path.basename(path)] = parsetemplate(path)
	res.count('templates', len(templates))
	res.count('variables in templates', sum(map(len, templates.values())))
	stats = {}
	for module in project.modules.values():
		if not module.name.startswith('web.'):
			continue
		res.count('modules')
		flags = htmlflags(project, module)
		roots = [f for f in module.funcs.values() if any(isinstance(d, ast.Call)
				and isinstance(d.func, ast.Attribute) and d.func.attr in ROUTE
				for d in getattr(f.node, 'decorator_list', []))]
		for n in ast.walk(module.tree):
			if isinstance(n, ast.Call) and isinstance(
					n.func, ast.Attribute) and n.func.attr == 'add_url_rule':
				for a in ast.walk(n):
					if isinstance(a, ast.Name) and a.id in module.funcs:
						roots.append(module.funcs[a.id])
		for f in roots:
			res.count('pages')
			for n in range(2 ** len(flags)):
				web = Web(project, module, templates, {
						flag: bool(n >> i & 1) for i, flag in enumerate(flags)})
				t = Taint(project, web.source, web.sanitize, maxdepth=6,
						follow=lambda g: g.module.name.startswith('web.'))
				t.special, t.refinehook, t.onexpr = (
						web.special, web.refine, web.onexpr)
				t.unpack, t.exc, t.truth = web.unpack, web.exc, web.truth
				t.keys = True
				tags, _ = t.run(f, {})
				for k, v in web.stats.items():
					stats.setdefault(module.name, {}).setdefault(
							k, set()).update(v)
				for tag in sorted(a for a in visible(tags) if a[0] != MIME):
					kind, loc = tag
					res.finding('unescaped', '%s.%s' % (module.name, f.qual),
							loc, '%s of page %s without being escaped%s' % (
							{REQUEST: 'data of the request ends up in the HTML',
							ERROR: 'an error message ends up in the HTML',
							MARKUP: 'text marked as safe ends up in the HTML',
							}.get(kind, 'corpus text ends up in the HTML'),
							f.qual, ' ' + web.reasons[tag]
							if tag in web.reasons else ''))
				for (where, ext, func), loc in sorted(web.sinks.items()):
					res.finding('sink', func, where, 'data of the request (%s)'
							' is passed to %s' % (loc, ext))
	for d in stats.values():
		for k, v in d.items():
			res.count(k, len(v))
	# the pages include drawings of trees
	drawings = Result('P34')
	p08.check(project, drawings, tier)
	for a in drawings.findings:
		res.finding('drawing', a.construct, a.loc, a.msg)
	res.require('pages', 10)
	res.require('escaped values', 5)
	res.require('uses of requests', 10)
	res.require('templates', 5)
