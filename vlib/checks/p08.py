"""Text from trees is escaped in HTML and SVG output."""
import ast
from ..project import AnalysisBroken
from ..taint import Taint, consttruth, escapetags, reveal, visible

TITLE = 'labels and words are escaped in HTML and SVG output'
# attributes with text from trees and sentences
TEXT = {'label', 'labels', 'sent', 'source', 'type', 'pos', 'deps',
		'token'}
ESCAPE = {'html.escape', 'cgi.escape', 'xml.sax.saxutils.escape',
		'markupsafe.escape', 'xml.sax.saxutils.quoteattr'}
ROOTS = [
	# function, constants
	('discodop.tree.DrawTree.svg', {}),
	('discodop.tree.DrawTree.text', {'html': True, 'nodeprops': None}),
	('discodop.tree.DrawTree.text', {'html': True}),
	('discodop.tree.DrawDependencies.svg', {}),
]


def isescape(project, frame, node, name):
	"""Whether this is a call or use of an escaping function."""
	if not name:
		return False
	r = project.resolve_name(frame.f.module, name, frame.f)
	return isinstance(r, tuple) and r[0] == 'ext' and r[1] in ESCAPE


def check(project, res, tier):
	res.rule('text from labels, words, and tags reaches the returned document'
			' only through html.escape')
	res.assume('parameters of the drawing methods (colors, separators,'
			' identifiers) are trusted; only the text of trees is not')
	for fid, consts in ROOTS:
		f = project.func(fid)
		if f is None:
			raise AnalysisBroken('%s not found' % fid)
		for name in consts:
			if name not in f.params:
				raise AnalysisBroken('%s has no parameter %s' % (fid, name))
		seen = set()

		def source(frame, node):
			if isinstance(node, ast.Attribute) and node.attr in TEXT:
				seen.add(node)
				return frozenset([('text', '%s:%d' % (
						frame.f.module.relpath, node.lineno))])
			return None

		escapes = []

		def sanitize(frame, node, name, tags):
			if isescape(project, frame, node, name):
				escapes.append(node)
				return escapetags(tags, node)
			if name.split('.')[-1] == 'unescape':
				return reveal(tags)
			return None

		t = Taint(project, source, sanitize)
		t.truth = lambda frame, test: (consttruth(test, consts)
				if frame.f is f else None)
		tags, _ = t.run(f, {})
		res.count('functions')
		res.count('uses of text from trees', len(seen))
		res.count('escaped values', len({id(a) for a in escapes}))
		for _, loc in sorted(visible(tags)):
			res.finding('unescaped', fid, loc, 'text from this expression'
					' ends up in the output of %s%s without being escaped' % (
					fid, ' (%s)' % ', '.join('%s=%r' % a
					for a in consts.items()) if consts else ''))
	res.require('functions', 4)
	res.require('escaped values', 1)
