"""Coarse-to-fine label mappings are partitions that refine each other."""
from ..project import AnalysisBroken
from ..constprop import Interp, Frame, _Mod

TITLE = 'coarse-to-fine label mappings'


def plain(v):
	if v[0] == 'const':
		return v[1]
	elif v[0] == 'obj':
		return {a: plain(b) for a, b in v[1].items()}
	elif v[0] == 'seq':
		return [plain(a) for a in v[1]]
	raise AnalysisBroken('MAPPINGS cannot be evaluated')


def check(project, res, tier):
	res.rule("each level of each table in MAPPINGS maps every label of the"
			" treebank to exactly one coarse label, and keeps apart what"
			" coarser levels keep apart")
	mod = project.module('discodop.treebanktransforms')
	value = Frame(Interp(project), _Mod(mod), 0).glob(mod, 'MAPPINGS')
	table = plain(value)
	defs = mod.globals.get('MAPPINGS', [])
	loc = '%s:%d' % (mod.relpath, getattr(defs[0] if defs else None,
			'lineno', 1))
	for tb, levels in table.items():
		name = 'MAPPINGS[%r]' % tb
		res.count('label mappings', len(levels))
		if sorted(levels, key=str) != list(range(len(levels))):
			res.finding('levels', name, loc, 'levels are %r, expected'
					' 0, 1, ...' % (list(levels), ))
			continue
		every = None
		prev = None
		for n in sorted(levels):
			level = levels[n]
			coarse = {}
			for c, fine in level.items():
				for a in fine:
					if a in coarse:
						res.finding('ambiguous', '%s[%d] %s' % (name, n, a),
								loc, '%r is mapped to both %r and %r' % (
								a, coarse[a], c))
					coarse[a] = c
			if every is None:
				every = set(coarse)
			for a in sorted(every ^ set(coarse)):
				res.finding('incomplete', '%s[%d] %s' % (name, n, a), loc,
						'%r does not occur in every level' % a)
			if prev is not None:
				# labels that are kept apart stay apart
				parts = {}
				for a, c in coarse.items():
					parts.setdefault(c, set()).add(prev.get(a))
				for c, p in sorted(parts.items()):
					if len(p) > 1:
						res.finding('not-refined', '%s[%d] %s' % (name, n, c),
								loc, '%r merges labels that level %d keeps'
								' apart' % (c, n - 1))
			prev = coarse
	res.require('label mappings', 6)
