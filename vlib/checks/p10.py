"""Definite assignment of local variables on every feasible path."""
import ast
from ..flow import Flow
from ..project import own_nodes

TITLE = 'local variables are bound on every path that reads them'


# (function, variable) -> reason why the flagged path is infeasible
EXCEPTIONS = {
	('lexicon.externaltagging', 'taggedsents'): 'every call site is guarded '
		'by method in (treetagger, stanford, frog), the three branches',
	('parser.Parser.parse', 'tree'): 'the branch requires a chart, and chart '
		'is only assigned in the block that first assigns tree',
	('treebanktransforms.ftbtransforms.<locals>.make_AP', 'ap'): 'only '
		'called with the pattern that the elif chain covers',
	('treesearch.FragmentSearcher.sents', 'x'): 'maxresults > 0 = maxresults2 '
		'when the cache lookup failed',
	('treesearch.FragmentSearcher.trees', 'x'): 'idem',
	('treesearch.RegexSearcher.sents', 'x'): 'idem',
	('treesearch.TgrepSearcher.sents', 'x'): 'idem',
	('treesearch.TgrepSearcher.trees', 'x'): 'idem',
	('treesearch.TgrepSearcher._query', 'err'): 'returncode != 0 iff '
		'wait() != 0, the branch which assigns err',
	('web.treesearch.counts', 'norm'): 'first iteration is a query unless '
		'there are no queries, and then results is empty',
	('web.treesearch.counts', 'normresults'): 'norm == query implies '
		'normresults was assigned',
	('web.treesearch.getcorpus', 'corpusinfo'): 'without pickle file texts is '
		'empty while currentfiles is not, so it is recomputed',
	('web.treesearch.getcorpus', 'styletable'): 'idem',
}
# a known finding
RENAMEABLE = ('runexp.startexp', 'train_tagged_sents')


class DefAssign(Flow):
	"""dom: frozenset of possibly-unbound locals."""
	def __init__(self, func, result):
		super().__init__(func)
		self.result = result
		self.hits = {}

	def init(self):
		f = self.func
		return frozenset(f.locals - set(f.params))

	def join(self, a, b):
		return a | b

	def reads(self, node, bound=frozenset()):
		"""Names read when evaluating node, in order-insensitive fashion."""
		if isinstance(node, (ast.Lambda, ast.FunctionDef)):
			for d in node.args.defaults + [x for x in node.args.kw_defaults
					if x]:
				yield from self.reads(d, bound)
			return
		if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
				ast.DictComp)):
			b = set(bound)
			for g in node.generators:
				yield from self.reads(g.iter, b)
				for n in ast.walk(g.target):
					if isinstance(n, ast.Name):
						b.add(n.id)
				for c in g.ifs:
					yield from self.reads(c, b)
			if isinstance(node, ast.DictComp):
				yield from self.reads(node.key, b)
				yield from self.reads(node.value, b)
			else:
				yield from self.reads(node.elt, b)
			return
		if isinstance(node, ast.Name):
			if isinstance(node.ctx, ast.Load) and node.id not in bound:
				yield node
			return
		if isinstance(node, ast.IfExp):
			yield from self.reads(node.test, bound)
			yield from self.reads(node.body, bound)
			yield from self.reads(node.orelse, bound)
			return
		for ch in ast.iter_child_nodes(node):
			yield from self.reads(ch, bound)

	def ev(self, node, ds):
		if node is None or not ds:
			return ds
		if isinstance(node, ast.BoolOp):
			return self.joinds(*self.branch(node, ds))
		if not isinstance(node, (ast.IfExp, ast.Lambda, ast.ListComp,
				ast.SetComp, ast.DictComp, ast.GeneratorExp)) and any(
				isinstance(n, (ast.IfExp, ast.BoolOp))
				for n in ast.walk(node)):
			for ch in ast.iter_child_nodes(node):
				if isinstance(ch, ast.expr):
					ds = self.ev(ch, ds)
				elif isinstance(ch, ast.keyword):
					ds = self.ev(ch.value, ds)
			return ds
		return super().ev(node, ds)

	def on_expr(self, node, dom):
		for n in self.reads(node):
			if n.id in self.func.locals:
				self.result_reads = getattr(self, 'result_reads', 0) + 1
				if n.id in dom:
					self.hits[(n.id, getattr(n, 'lineno', 0))] = n
		for n in ast.walk(node):
			if isinstance(n, ast.NamedExpr):
				dom = dom - {n.target.id}
		return dom

	def bind(self, target, dom):
		for n in ast.walk(target):
			if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
				dom = dom - {n.id}
		return dom

	def on_assign(self, target, value, dom, stmt):
		# subscript / attribute targets read their base
		for n in ast.walk(target):
			if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
				if n.id in self.func.locals and n.id in dom:
					self.hits[(n.id, n.lineno)] = n
		return self.bind(target, dom)

	def on_stmt(self, node, dom):
		if isinstance(node, (ast.Import, ast.ImportFrom)):
			for al in node.names:
				dom = dom - {(al.asname or al.name).split('.')[0]}
		return dom

	def on_def(self, node, dom):
		if isinstance(node, ast.FunctionDef):
			for d in node.args.defaults + node.decorator_list:
				dom = self.on_expr(d, dom)
		return dom - {node.name}

	def on_delete(self, target, dom):
		if isinstance(target, ast.Name):
			if target.id in dom:
				self.hits[(target.id, target.lineno)] = target
			return dom | {target.id}
		return self.on_expr(target, dom)


def check(project, result, tier):
	result.rule('For every function of every Python module a path-sensitive '
			'forward dataflow computes the possibly-unbound locals; a read '
			'of a possibly-unbound local is a violation.')
	found = {}  # module -> [(short, name, func, nodes)]
	for fid, f in sorted(project.funcs.items()):
		if isinstance(f.node, ast.Lambda):
			continue
		result.count('functions')
		flow = DefAssign(f, result)
		flow.run()
		result.count('local reads', getattr(flow, 'result_reads', 0))
		names = {}
		for (name, line), node in sorted(flow.hits.items()):
			names.setdefault(name, []).append(node)
		for name, nodes in names.items():
			short = fid[9:] if fid.startswith('discodop.') else fid
			found.setdefault(f.module.name, []).append(
					(short, name, f, nodes))
	for module, flagged in sorted(found.items()):
		short = module[9:] if module.startswith('discodop.') else module
		here = {(a, b) for a, b, _, _ in flagged}
		# variables in EXCEPTIONS that may have been renamed or moved
		missing = [(a, b) for a, b in sorted(EXCEPTIONS) + [RENAMEABLE]
				if a.startswith(short + '.') and (a, b) not in here]
		for a, name, f, nodes in flagged:
			key = (a, name)
			if key not in EXCEPTIONS and key != RENAMEABLE:
				same = [x for x in missing if x[0] == a] or missing
				if same:
					key = same[0]
					missing.remove(key)
			if key in EXCEPTIONS:
				result.count('excepted (function, variable) pairs')
				continue
			result.finding('unbound-local', '%s:%s' % (f.id, name)
					if key != RENAMEABLE else 'discodop.%s:%s' % key,
					f.loc(nodes[0]), 'local %r may be read before it is '
					'bound (%d reads)' % (name, len(nodes)))
	result.require('functions', 500)
	result.require('local reads', 10000)
