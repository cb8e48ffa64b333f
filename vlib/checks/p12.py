"""Values of options: documented ones are implemented, others rejected."""
import ast
from ..constprop import Interp, const, OTHER, TOP
from ..project import AnalysisBroken

TITLE = 'documented option values are implemented; other values are rejected'
CORPUS = {
	'functions': ('leave', 'add', 'remove', 'replace', 'between'),
	'morphology': ('no', 'add', 'replace', 'between'),
	'lemmas': ('no', 'add', 'replace', 'between'),
	'punct': ('no', 'move', 'moveall', 'prune', 'remove', 'removeall',
		'root'),
}
NOOP = {'leave', 'no'}  # the same as not giving the option
REVERSIBLE = ('FANOUT', 'DP', 'NEST', 'PP-NP', 'SBAR', 'VP-FIN_NEGRA',
		'POS-PART', 'addUnary', 'elimNKCJ', 'nladdunary', 'nlelimcnj',
		'APPEND-FUNC', 'APPEND-MORPH', 'addCase', 'nlselectmorph',
		'FUNC-NODE', 'MORPH-NODE', 'LEMMA-NODE', 'ftbundocompounds')
FORMATS = ('export', 'bracket', 'discbracket', 'tiger', 'alpino',
		'alpinocompact', 'ftb')
WRITABLE = ('export', 'bracket', 'discbracket', 'conll', 'mst', 'tokens',
		'wordpos', 'alpino')
TB, TT = 'discodop.treebank.', 'discodop.treebanktransforms.'


class Ctx:
	def __init__(self, project, res):
		self.p, self.res = project, res

	def func(self, fid):
		f = self.p.func(fid)
		if f is None:
			raise AnalysisBroken('%s not found' % fid)
		return f

	def run(self, fid, results=None, **env):
		i = Interp(self.p)
		i.results = results or {}
		f = self.func(fid)
		for name in env:
			if name not in f.params:
				raise AnalysisBroken('%s has no parameter %s' % (fid, name))
		out, _ = i.run(f, env)
		return out, i.hits

	def rejects(self, fid, what, results=None, **env):
		out, _ = self.run(fid, results, **env)
		self.res.count('rejections of unknown values')
		self.res.sample('rejects', '%s: %s' % (fid, what), 40)
		if 'return' in out:
			f = self.func(fid)
			self.res.finding('unknown-accepted', '%s %s' % (fid, what),
					f.loc(), 'a value of %s different from every value'
					' compared against does not lead to an exception'
					% what)

	def accepts(self, fid, what, value, results=None, hit=True, **env):
		out, hits = self.run(fid, results, **env)
		self.res.count('values accepted')
		f = self.func(fid)
		if 'return' not in out:
			self.res.finding('documented-rejected', '%s %s=%r' % (fid, what,
					value), f.loc(), '%s=%r always raises an exception'
					% (what, value))
			return False
		if hit and value not in hits:
			self.res.finding('unimplemented', '%s %s=%r' % (fid, what,
					value), f.loc(), '%s=%r is treated like any other'
					' value; it is not implemented' % (what, value))
			return False
		return True


def getopt(opts, args=TOP):
	v = ('seq', [('seq', [('seq', [const(k), x])
			for k, x in opts.items()]), args])
	return {'getopt.gnu_getopt': v, 'getopt.getopt': v}


def rejections(c):
	for o in CORPUS:
		c.rejects(TB + 'CorpusReader.__init__', o, **{o: OTHER})
	c.rejects(TB + 'writetree', 'fmt', fmt=OTHER)
	some = ('seq', [TOP])
	c.rejects(TB + 'handlemorphology', 'action', action=OTHER,
			source=some)
	c.rejects(TB + 'handlemorphology', 'lemmaaction', lemmaaction=OTHER,
			source=some)
	c.rejects('discodop.treetransforms.binarize', 'factor', factor=OTHER)
	c.rejects(TT + 'transform', 'transformations',
			transformations=('seq', [OTHER]))
	c.rejects('discodop.cli.treetransforms', '--outputfmt', getopt(
			{'--outputfmt': OTHER}))
	c.rejects('discodop.cli.grammar', 'model', getopt({}, ('seq', [OTHER,
			TOP, TOP])))
	c.rejects('discodop.cli.grammar', '--dopestimator', getopt(
			{'--dopestimator': OTHER}, ('seq', [TOP, TOP, TOP])))
	for o in ('--engine', '-e'):
		c.rejects('discodop.treesearch.main', o, getopt({o: OTHER}))
	for what, (stage, glob) in {
			'mode': ({'mode': OTHER}, {}),
			'estimator': ({'estimator': OTHER}, {}),
			'objective': ({'objective': OTHER}, {}),
			'binarization.method': ({}, {'binarization':
				('obj', {'method': OTHER})}),
			'postagging.method': ({}, {'postagging':
				('obj', {'method': OTHER})}),
			'stage option': ({'no such option!': TOP}, {})}.items():
		c.rejects('discodop.parser.readparam', what, params(stage, glob))
	for dop in ('reduction', 'doubledop', 'dop1', 'ostag'):
		for what in ('estimator', 'objective'):
			c.rejects('discodop.parser.readparam', '%s with %s' % (what, dop),
					params({what: OTHER, 'dop': const(dop)}, {}))
	for value in ('plcfrs', 'pcfg'):
		c.accepts('discodop.parser.readparam', 'mode', value,
				params({'mode': const(value)}, {}))
	for value in ('rfe', 'ewe', 'bon'):
		c.accepts('discodop.parser.readparam', 'estimator', value,
				params({'estimator': const(value)}, {}))
	for value in ('mpp', 'mpd', 'mcp', 'shortest', 'sl-dop',
			'sl-dop-simple'):
		c.accepts('discodop.parser.readparam', 'objective', value,
				params({'objective': const(value)}, {}))
	for value in (None, 'default', 'optimal', 'optimalhead'):
		c.accepts('discodop.parser.readparam', 'binarization.method', value,
				params({}, {'binarization': ('obj', {
					'method': const(value)})}))
	for value in ('unknownword', 'treetagger', 'stanford', 'frog'):
		c.accepts('discodop.parser.readparam', 'postagging.method', value,
				params({}, {'postagging': ('obj', {
					'method': const(value), 'model': const('4'),
					'unknownthreshold': TOP, 'openclassthreshold': TOP})}))
	for value in ('4', '6', 'base', 'ftb'):
		c.accepts('discodop.parser.readparam', 'postagging.model', value,
				params({}, {'postagging': ('obj', {
					'method': const('unknownword'), 'model': const(value),
					'unknownthreshold': TOP, 'openclassthreshold': TOP})}))


def params(stage, glob):
	st = {'__open__': True, 'mode': const('plcfrs'),
			'estimator': const('rfe'), 'dop': const('dop1'),
			'objective': const('mpp')}
	st.update(stage)
	if len(stage) == 1 and not set(stage) & {'mode', 'estimator',
			'objective'}:
		st.pop('__open__')
	d = {'stages': ('seq', [('obj', st)]), '__open__': True}
	d.update(glob)
	return {'eval': ('obj', d)}


def strings(project, module):
	return sorted({n.value for n in ast.walk(project.module(module).tree)
			if isinstance(n, ast.Constant) and isinstance(n.value, str)
			and 0 < len(n.value) < 40})


def corpusoptions(c):
	none = {o: const(None) for o in CORPUS}
	some = ('seq', [TOP])
	for o, documented in CORPUS.items():
		accepted = []
		for v in strings(c.p, 'discodop.treebank') + list(documented):
			if v not in accepted and 'return' in c.run(
					TB + 'CorpusReader.__init__',
					**dict(none, **{o: const(v)}))[0]:
				accepted.append(v)
		for v in documented:
			c.res.count('values accepted')
			if v not in accepted:
				c.res.finding('documented-rejected',
						'%sCorpusReader.__init__ %s=%r' % (TB, o, v),
						c.func(TB + 'CorpusReader.__init__').loc(),
						'%s=%r always raises an exception' % (o, v))
		for v in accepted:
			if v in NOOP:
				continue
			if o == 'functions':
				c.accepts(TB + 'handlefunctions', 'action', v,
						action=const(v))
			elif o == 'punct':
				c.accepts('discodop.punctuation.applypunct', 'method', v,
						method=const(v))
			else:
				other = {'morphology': 'lemmaaction', 'lemmas': 'action'}[o]
				this = {'morphology': 'action', 'lemmas': 'lemmaaction'}[o]
				c.accepts(TB + 'handlemorphology', this, v, source=some,
						**{this: const(v), other: const(None)})


def transforms(c):
	from ..constprop import Frame, _Mod
	mod = c.p.module('discodop.treebanktransforms')
	presets = Frame(Interp(c.p), _Mod(mod), 0).glob(mod, 'PRESETS')
	if presets[0] != 'obj':
		raise AnalysisBroken('PRESETS is not a literal')
	names = {}
	for preset, seq in presets[1].items():
		if seq[0] != 'seq' or any(a[0] != 'const' for a in seq[1]):
			raise AnalysisBroken('PRESETS[%r] is not a literal' % preset)
		for a in seq[1]:
			names.setdefault(a[1], 'preset %s' % preset)
	for a in REVERSIBLE:
		names.setdefault(a, 'reversible transformations')
	for a, where in sorted(names.items()):
		c.accepts(TT + 'transform', where, a,
				transformations=('seq', [const(a)]))
	for a in REVERSIBLE:
		c.accepts(TT + 'reversetransform', 'transformations', a,
				transformations=('seq', [const(a)]))
	# a transformation that can be reversed can be applied
	for v in strings(c.p, 'discodop.treebanktransforms'):
		_, hits = c.run(TT + 'reversetransform',
				transformations=('seq', [const(v)]))
		if v in hits and v not in REVERSIBLE:
			c.accepts(TT + 'transform', 'reversible', v,
					transformations=('seq', [const(v)]))


def formats(c):
	from ..constprop import Frame, _Mod
	mod = c.p.module('discodop.treebank')
	frame = Frame(Interp(c.p), _Mod(mod), 0)
	writers = frame.glob(mod, 'WRITERS')
	if writers[0] != 'seq':
		raise AnalysisBroken('WRITERS is not a literal')
	for v in writers[1]:
		c.accepts(TB + 'writetree', 'fmt', v[1], fmt=v)
	for v in WRITABLE:
		if const(v) not in writers[1]:
			c.accepts(TB + 'writetree', 'fmt', v, fmt=const(v))
		if v != 'alpino' and const(v) not in writers[1]:
			c.res.finding('unlisted', 'discodop.treebank.WRITERS %s' % v,
					mod.relpath, 'format %r is not in WRITERS' % v)
	for v in writers[1]:
		c.accepts('discodop.cli.treetransforms', '--outputfmt', v[1],
				getopt({'--outputfmt': v, '--headrules': TOP}))
	readers = [n for n in mod.globals.get('READERS', [])]
	if len(readers) != 1:
		raise AnalysisBroken('READERS not found')
	pairs = {}
	node = readers[0]
	if isinstance(node, ast.Call) and len(node.args) == 1:
		node = node.args[0]
	if isinstance(node, ast.Dict):
		pairs = {k.value: v for k, v in zip(node.keys, node.values)
				if isinstance(k, ast.Constant)}
	elif isinstance(node, (ast.Tuple, ast.List)):
		pairs = {a.elts[0].value: a.elts[1] for a in node.elts
				if isinstance(a, ast.Tuple) and len(a.elts) == 2
				and isinstance(a.elts[0], ast.Constant)}
	elif isinstance(node, ast.Call):
		pairs = {k.arg: k.value for k in node.keywords if k.arg}
	for v in FORMATS:
		c.res.count('values accepted')
		if v not in pairs:
			c.res.finding('documented-rejected', 'READERS %s' % v,
					mod.relpath, 'format %r is not in READERS' % v)
	for v, node in pairs.items():
		cls = c.p.resolve_name(mod, node.id) if isinstance(node, ast.Name
				) else None
		if getattr(cls, 'find', None) is None:
			continue
		for meth in ('_read_blocks', '_parse', 'blocks', 'itertrees'):
			f = cls.find(meth)
			c.res.count('reader methods')
			if f is None:
				c.res.finding('abstract', '%s.%s' % (cls.id, meth),
						mod.relpath, '%s of format %s is not defined'
						% (meth, v))
				continue
			out, _ = Interp(c.p).run(f, {})
			if 'return' not in out:
				c.res.finding('abstract', '%s.%s' % (cls.id, meth), f.loc(),
						'%s of format %s always raises' % (meth, v))


def check(project, res, tier):
	res.rule('the function is executed abstractly with one parameter equal'
			' to a string that differs from all constants: only exceptions'
			' may result; executed with a documented value it may return,'
			' and has compared the value with an equal constant')
	res.assume('calls of unknown functions return; a value is implemented'
			' when the code distinguishes it from an unknown value')
	c = Ctx(project, res)
	rejections(c)
	corpusoptions(c)
	transforms(c)
	formats(c)
	res.require('rejections of unknown values', 15)
	res.require('values accepted', 60)
