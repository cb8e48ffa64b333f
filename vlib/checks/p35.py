"""Text from trees is escaped in LaTeX output."""
import ast
import re
from ..project import AnalysisBroken, Func, dotted
from ..taint import Taint, NONE
from ..consteval import evaluate, Unknown
from .p08 import TEXT

TITLE = 'labels and words are escaped in LaTeX output'
CHARS = '#$%&_{}~^\\'
ROOTS = [
	'discodop.tree.DrawTree.tikznode',
	'discodop.tree.DrawTree.tikzmatrix',
	'discodop.tree.DrawTree.tikzqtree',
]
# methods of trees that return the text of a whole tree, with line breaks
TREETEXT = {'pprint', '_pprint_flat', '__str__', '__repr__', 'draw'}
WAS = 'was'  # marks text in which a character has been escaped
ONE = 'one'  # marks a variable that is known to be a single character


def escaped(ch, new):
	"""Whether new is a safe replacement for special character ch."""
	i = 0
	math = False
	depth = 0
	while i < len(new):
		c = new[i]
		if c == '\\':
			m = re.match(r'\\([a-zA-Z]+|.)', new[i:], re.S)
			if not m:
				return False
			i += m.end()
			continue
		if c in '#%&~':
			return False
		if c == '$':
			math = not math
		elif c in '^_' and not math:
			return False
		elif c in '{}':
			depth += 1 if c == '{' else -1
			if depth < 0:
				return False
		i += 1
	return not math and depth == 0


def removes(mapping):
	"""Special characters which a dictionary maps to something safe."""
	res = set()
	for k, v in mapping.items():
		if isinstance(k, int):
			k = chr(k)
		if isinstance(v, int) and not isinstance(v, bool):
			v = chr(v)
		if isinstance(k, str) and len(k) == 1 and k in CHARS and (
				v is None or isinstance(v, str) and escaped(k, v)):
			res.add(k)
	return res


class Latex:
	def __init__(self, project, fid):
		self.project, self.fid = project, fid
		self.seen, self.escapes = set(), set()
		self.comments = set()

	def source(self, frame, node):
		if isinstance(node, ast.Attribute) and (node.attr in TEXT
				or node.attr == 'nodes'):
			pass
		elif isinstance(node, ast.Call) and isinstance(node.func,
				ast.Attribute) and node.func.attr in TREETEXT:
			pass
		else:
			return None
		self.seen.add(node)
		loc = '%s:%d' % (frame.f.module.relpath, node.lineno)
		chars = CHARS
		if isinstance(node, ast.Call):
			chars += '\n'
		return frozenset((ch, loc) for ch in chars)

	def value(self, frame, node):
		return evaluate(self.project, frame.f, node)

	def sanitize(self, frame, node, name, tags):
		try:
			return self.escape(frame, node, name, tags)
		except (Unknown, re.error):
			return None

	def escape(self, frame, node, name, tags):
		attr = node.func.attr if isinstance(node.func, ast.Attribute
				) else None
		try:
			chars = self.undo(frame, node, attr)
		except Unknown:
			chars = None
		if chars:
			tags = frame.expr(node.func.value)
			if any(a[0] == WAS and a[1][0] in chars for a in tags):
				return frozenset(a[1] if a[0] == WAS and a[1][0] in chars
						else a for a in tags)
		gone, text = None, None
		if attr == 'translate' and len(node.args) == 1:
			gone = removes(self.value(frame, node.args[0]))
			text = node.func.value
		elif attr == 'replace' and len(node.args) == 2:
			old = self.value(frame, node.args[0])
			new = self.value(frame, node.args[1])
			text = node.func.value
			gone = {old} if isinstance(old, str) and len(old) == 1 and (
					old in CHARS) and escaped(old, new) else set()
			if old == '\n':
				gone = {'\n'}
		elif attr in ('get', '__getitem__') and len(node.args) in (1, 2):
			mapping = self.value(frame, node.func.value)
			if not isinstance(mapping, dict):
				return None
			gone = removes(mapping)
			if len(node.args) == 1:
				return NONE
			text = node.args[1]
		elif attr in ('sub', 'subn'):
			gone, text = self.regex(frame, node)
		elif attr == 'get_text':
			return None
		if text is None:
			return None
		if gone:
			self.escapes.add(node)
		return frozenset((WAS, a[:2]) if a[0] in gone and a[0] in CHARS else a
				for a in frame.expr(text) if a[0] not in gone
				or a[0] in CHARS)

	def undo(self, frame, node, attr):
		"""Methods that turn escaped text into unescaped text again."""
		if attr == 'replace' and len(node.args) >= 2:
			old = self.value(frame, node.args[0])
			new = self.value(frame, node.args[1])
			if not (isinstance(old, str) and isinstance(new, str)):
				return None
			# part of an escape sequence is replaced by something else
			chars = {c for c in CHARS if '\\' in old and c in new.replace(
					old, '')} if '\\' in old else set()
			if old in CHARS and not escaped(old, new):
				chars = {old}
			if not escaped('', new) or chars:
				return chars
		elif attr in ('split', 'rsplit', 'partition', 'rpartition', 'strip',
				'lstrip', 'rstrip') and node.args:
			arg = self.value(frame, node.args[0])
			if isinstance(arg, str):
				return set(arg) & set(CHARS)
		return None

	def regex(self, frame, node):
		r = self.project.resolve_name(frame.f.module, dotted(node.func) or '?',
				frame.f)
		args = list(node.args)
		kw = {k.arg: k.value for k in node.keywords}
		if isinstance(r, tuple) and r == ('ext', 're.sub'):
			pattern = args.pop(0) if args else kw.get('pattern')
		else:
			pattern = node.func.value
		pattern = self.value(frame, pattern)
		if isinstance(pattern, str):
			pattern = re.compile(pattern)
		if not isinstance(pattern, re.Pattern):
			raise Unknown
		repl = args[0] if args else kw.get('repl')
		text = args[1] if len(args) > 1 else kw.get('string')
		if len(args) > 2 or set(kw) - {'pattern', 'repl', 'string'}:
			raise Unknown  # limited number of substitutions
		gone = set()
		new = None
		if not isinstance(repl, ast.Lambda):
			func = self.project.resolve_name(frame.f.module, dotted(repl)
					or '?', frame.f)
			name = dotted(repl)
			nested = frame.resolve(name) if name else None
			if isinstance(nested, Func):
				func = nested
			if isinstance(func, Func) and func.node is not None and len(
					func.posparams) == 1 and len([st for st in func.node.body
					if not isinstance(st, ast.Expr)]) == 1 and isinstance(
					func.node.body[-1], ast.Return):
				new = func.posparams[0], func.node.body[-1].value, func
			elif isinstance(repl, ast.Attribute) and (
					repl.attr == '__getitem__'):
				raise Unknown
			else:
				val = self.value(frame, repl)
				if not isinstance(val, str):
					raise Unknown
		else:
			new = repl.args.args[0].arg, repl.body, frame.f
		for ch in CHARS:
			m = pattern.fullmatch(ch)
			if not m or not all(pattern.search(a + ch + b) and any(
					m.group() == ch or ch in m.group()
					for m in pattern.finditer(a + ch + b))
					for a in ('', 'a', ' ', '1') for b in ('', 'a', ' ')):
				continue
			if new is None:
				result = m.expand(val)
			else:
				result = evaluate(self.project, new[2], groups(
						new[1], new[0], m))
			if escaped(ch, result):
				gone.add(ch)
		return gone, text

	def special(self, frame, node):
		"""Comments, and backslash before a single character."""
		if isinstance(node, ast.Subscript) and isinstance(node.slice,
				ast.Slice) and isinstance(node.ctx, ast.Load):
			# a part of escaped text may end with a backslash
			tags = frame.expr(node.value)
			if any(a[0] == WAS for a in tags) and istext(node.value):
				return frozenset(a[1] if a[0] == WAS else a for a in tags)
			return None
		if isinstance(node, ast.BinOp) and isinstance(node.left, ast.Constant
				) and isinstance(node.left.value, str):
			left = node.left.value
			if isinstance(node.op, ast.Mod):
				i = left.find('%s')
				prefix = left[:i].replace('%%', '%') if i >= 0 else ''
				one = left in ('\\%s', '\\%c')
			elif isinstance(node.op, ast.Add):
				prefix, one = left, left.endswith('\\') and not (
						left.endswith('\\\\'))
			else:
				return None
			right = node.right
		elif isinstance(node, ast.JoinedStr) and len(node.values) == 2 and (
				isinstance(node.values[0], ast.Constant)):
			prefix = node.values[0].value
			one = prefix == '\\'
			right = node.values[1].value if isinstance(node.values[1],
					ast.FormattedValue) else node.values[1]
		else:
			return None
		if prefix.startswith('%') and '\n' not in prefix:
			tags = frame.expr(right)
			self.comments.add(node)
			return frozenset(('comment', a[1]) for a in tags if a[0] == '\n')
		if one and isinstance(right, ast.Name):
			tags = frame.expr(right)
			if any(ONE in a for a in tags):
				self.escapes.add(node)
				return frozenset(a for a in tags
						if not (ONE in a and a[0] in '#$%&_{}'))
		return None

	def refine(self, frame, test, value):
		"""Test whether character is in constant."""
		if not isinstance(test, ast.Compare) or len(test.ops) != 1 or not (
				isinstance(test.left, ast.Name)):
			return
		name = test.left.id
		if name not in frame.env:
			return
		if isinstance(test.ops[0], (ast.NotIn, ast.NotEq)):
			value = not value
		elif not isinstance(test.ops[0], (ast.In, ast.Eq)):
			return
		try:
			const = self.value(frame, test.comparators[0])
		except Unknown:
			return
		if isinstance(const, str) and isinstance(test.ops[0], (
				ast.Eq, ast.NotEq)):
			const = {const}
		chars = {a for a in const if isinstance(a, str) and len(a) == 1}
		if value and all(isinstance(a, str) and len(a) == 1 for a in const):
			frame.env[name] = frozenset((a[0], a[1], ONE)
					for a in frame.env[name] if a[0] in chars)
		elif not value:
			if chars & {a[0] for a in frame.env[name]}:
				self.escapes.add(test)
			frame.env[name] = frozenset(a for a in frame.env[name]
					if a[0] not in chars)


def istext(node):
	"""Whether an expression is a string rather than a list of strings."""
	if isinstance(node, ast.JoinedStr):
		return True
	if isinstance(node, ast.BinOp):
		return isinstance(node.op, ast.Mod) and isinstance(node.left,
				ast.Constant) or istext(node.left) or istext(node.right)
	if isinstance(node, ast.Constant):
		return isinstance(node.value, str)
	if isinstance(node, ast.Call):
		return isinstance(node.func, ast.Attribute) and node.func.attr in (
				'translate', 'replace', 'sub', 'join', 'format', 'strip',
				'rstrip', 'lstrip') or (dotted(node.func) or '').endswith(
				'escape')
	return False


def groups(node, param, match):
	"""Replace references to the match object by its value."""
	node = ast.parse(ast.unparse(node), mode='eval').body

	class T(ast.NodeTransformer):
		def visit_Call(self, n):
			if isinstance(n.func, ast.Attribute) and n.func.attr == 'group' and (
					dotted(n.func.value) == param):
				a = [ast.literal_eval(x) for x in n.args]
				return ast.Constant(match.group(*a))
			return self.generic_visit(n)

		def visit_Subscript(self, n):
			if dotted(n.value) == param:
				return ast.Constant(match[ast.literal_eval(n.slice)])
			return self.generic_visit(n)

	return ast.fix_missing_locations(T().visit(node))


def check(project, res, tier):
	res.rule('in every LaTeX document that is returned, each of the special'
			' characters %s in text from labels, words, and tags has been'
			' replaced, except in a comment on a single line' % CHARS)
	res.assume('parameters of the drawing methods (colors) are trusted; only'
			' the text of trees is not')
	for fid in ROOTS:
		f = project.func(fid)
		if f is None:
			raise AnalysisBroken('%s not found' % fid)
		x = Latex(project, fid)
		t = Taint(project, x.source, x.sanitize)
		t.special, t.refinehook = x.special, x.refine
		params = {}
		if 'funcsep' in f.params:  # part of a label
			params['funcsep'] = frozenset((ch, f.loc()) for ch in CHARS)
		tags, _ = t.run(f, params)
		res.count('functions')
		res.count('uses of text from trees', len(x.seen))
		res.count('escaping expressions', len(x.escapes))
		res.count('comments', len(x.comments))
		found = {}
		for tag in tags:
			if tag[0] == WAS:
				continue
			found.setdefault(tag[1], set()).add(tag[0])
		for loc, chars in sorted(found.items()):
			if 'comment' in chars:
				res.finding('comment', fid, loc, 'text of more than one line'
						' is put in a comment of a single line')
			chars = sorted(chars & set(CHARS))
			if chars:
				res.finding('unescaped', fid, loc, 'text from this expression'
						' ends up in the output of %s with %s not escaped' % (
						fid, ' '.join(chars)))
		if not x.seen:
			raise AnalysisBroken('%s uses no text of trees' % fid)
	res.require('functions', 3)
	res.require('escaping expressions', 1)
