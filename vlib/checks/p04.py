"""Inspecting functions do not modify the trees and sentences given."""
from ..effects import engine
from ..project import AnalysisBroken

TITLE = 'inspecting, measuring, writing and extracting leaves trees unchanged'

# function -> parameters which may not be modified.  Reading functions only:
# functions documented to work in place are not listed.
TABLE = {
	# queries on trees
	'tree.Tree.__eq__': 'self other', 'tree.Tree.__lt__': 'self other',
	'tree.Tree.__le__': 'self other', 'tree.Tree.__gt__': 'self other',
	'tree.Tree.__ge__': 'self other', 'tree.Tree.__ne__': 'self other',
	'tree.Tree.__getitem__': 'self', 'tree.Tree.__iter__': 'self',
	'tree.Tree.__len__': 'self', 'tree.Tree.__bool__': 'self',
	'tree.Tree.__repr__': 'self', 'tree.Tree.__str__': 'self',
	'tree.Tree.leaves': 'self', 'tree.Tree.height': 'self',
	'tree.Tree.subtrees': 'self', 'tree.Tree.postorder': 'self',
	'tree.Tree.find': 'self', 'tree.Tree.pos': 'self',
	'tree.Tree.index': 'self child',
	'tree.Tree.treepositions': 'self', 'tree.Tree.leaf_treeposition': 'self',
	'tree.Tree.treeposition_spanning_leaves': 'self',
	'tree.Tree.copy': 'self', 'tree.Tree.freeze': 'self',
	'tree.Tree.pprint': 'self', 'tree.Tree.draw': 'self',
	'tree.Tree._repr_svg_': 'self',
	'tree.ImmutableTree.leaves': 'self', 'tree.ImmutableTree.__hash__': 'self',
	'tree.ParentedTree._get_parent_index': 'self',
	'tree.ParentedTree._get_left_sibling': 'self',
	'tree.ParentedTree._get_right_sibling': 'self',
	'tree.ParentedTree._get_root': 'self',
	'tree.ParentedTree._get_treeposition': 'self',
	'tree.DiscTree.__init__': 'tree sent',
	'tree.DiscTree.__eq__': 'self other', 'tree.DiscTree.__hash__': 'self',
	'tree.isdisc': 'node', 'tree.frontier': 'tree sent',
	'tree.DrawTree.__init__': 'tree sent highlight',
	'tree.DrawTree.nodecoords': 'tree sent',
	'tree.DrawDependencies.__init__': 'sent',
	'tree.ranges': 'seq',
	# writers
	'tree.writebrackettree': 'tree sent',
	'tree.writediscbrackettree': 'tree sent',
	'treebank.writetree': 'tree sent',
	'treebank.writeexporttree': 'tree sent',
	'treebank.writealpinotree': 'tree sent',
	'treebank.writedependencies': 'tree sent',
	'treebank.dependencies': 'root', 'treebank.deplen': 'deps',
	# evaluation and comparison
	'eval.bracketings': 'tree dellabel',
	'eval.bracketing': 'node',
	'eval.parentedbracketings': 'tree dellabel',
	'eval.leafancestor': 'goldtree candtree dellabel',
	'eval.leafancestorpaths': 'tree dellabel',
	'eval.treedisteval': 'a b', 'eval.pathscore': 'gold cand',
	'eval.recall': 'reference candidate',
	'eval.precision': 'reference candidate',
	'eval.f_measure': 'reference candidate', 'eval.accuracy':
		'reference candidate', 'eval.editdistance': 'seq1 seq2',
	'treedist.treedist': 'tree1 tree2', 'treedist.newtreedist': 'tree1 tree2',
	'treedist.prepare': 'tree',
	'treebanktransforms.bracketings': 'tree',
	'treebanktransforms.dlevel': 'tree',
	# heads
	'heads.headfinder': 'tree headrules', 'heads.getheadpos': 'node',
	'heads.headstats': 'trees',
	# measures used to plan binarization; binarization proper is in place
	'treetransforms.fanout': 'tree', 'treetransforms.complexity': 'tree',
	'treetransforms.complexityfanout': 'tree',
	'treetransforms.fanoutcomplexity': 'tree',
	'treetransforms.minimalbinarization': 'tree',
	'treetransforms.factorconstituent': 'node',
	'treetransforms.contsets': 'nodes',
	# labels and annotation
	'treebanktransforms.functions': 'node', 'treebanktransforms.function':
		'node', 'treebanktransforms.labels': 'tree',
	'treebanktransforms.base': 'node', 'treebanktransforms.ancestors': 'node',
	'treebanktransforms.morphfeats': 'node',
	'treebanktransforms.hassecedge': 'node',
	'treebanktransforms.getmaxid': 'tree',
	'treebanktransforms.getftbcompounds': 'trees sents',
	'functiontags.functionfeatures': 'node sent',
	'functiontags.basefeatures': 'node sent',
	'functiontags.trainfunctionclassifier': 'trees sents',
	# grammar and fragment extraction
	'grammar.lcfrsproductions': 'tree sent',
	'grammar.treebankgrammar': 'trees sents',
	'grammar.dopreduction': 'trees sents',
	'grammar.doubledop': 'trees sents', 'grammar.dop1': 'trees sents',
	'grammar.TreeDecorator.decorate': 'tree sent',
	'grammar.SpinedTreeDecorator.decorate': 'tree sent',
	'grammar.extractinit': 'tree root', 'grammar.extractaux': 'node',
	'grammar.nodefreq': 'tree', 'grammar.footnode': 'node sent',
	'grammar.spinal': 'node', 'grammar.spinallabel': 'node sent',
	'grammar.preterminal': 'node sent',
	'grammar.substitutionsite': 'node sent',
	'grammar.grammarinfo': 'grammar', 'grammar.sortgrammar': 'grammar',
	'grammar.writegrammar': 'grammar',
	'fragments.recurringfragments': 'trees sents',
	'fragments.allfragments': 'trees sents',
	# lexicon
	'lexicon.replaceraretestwords': 'sent', 'lexicon.accuracy': 'gold cand',
	'lexicon.getunknownwordmodel': 'tagged_sents',
	'lexicon.replaceraretrainwords': 'tagged_sents',
	'lexicon.externaltagging': 'sents',
	# evaluation of pairs of trees: the trees are transformed in place
	'eval.alignsent': 'csent gsent gpos', 'eval.transform': 'gpos grootpos',
	'eval.Evaluator.add': 'gsent csent',
	'eval.TreePairResult.__init__': 'gsent csent',
	'eval.TreePairResult.info': 'self', 'eval.TreePairResult.debug': 'self',
	'eval.TreePairResult.scores': 'self',
	'eval.TreePairResult.bracketings': 'self',
	'eval.TreePairResult.visualize': 'self',
	# visualization
	'tree.DrawTree.text': 'self nodeprops', 'tree.DrawTree.svg': 'self',
	'tree.DrawTree.tikznode': 'self', 'tree.DrawTree.tikzmatrix': 'self',
	'tree.DrawTree.tikzqtree': 'self', 'tree.DrawTree._tikzedges': 'self',
	'tree.DrawDependencies.svg': 'self',
	'tree.DrawDependencies.fromconll': 'data',
	'treesearch.applyhighlight': 'sent high1 high2',
	'treesearch.charindices': 'sent indices indices2',
	'treesearch.writecounts': 'results',
	# training and parsing
	'grammar.dopgrammar': 'trees fragments',
	'grammar.doubleostagfromtsg': 'trees sents',
	'grammar.inducetagfromtsg': 'elemtrees',
	'grammar.ostagreduction': 'inittrees auxtrees',
	'parser.Parser.parse': 'goldtree',
	'parser.Parser.augmentgrammar': 'newtrees',
	'parser.estimateitems': 'sent',
	'runexp.dobinarization': 'sents', 'runexp.getgrammars': 'trees sents',
	'treetransforms.treebankfanout': 'trees',
	'runexp.getposmodel': 'train_tagged_sents',
	'treedist.geteditstats': 'forest1 forest2',
	'treetransforms.optimalbinarize': 'tree',
	'treetransforms._optimalbinarize': 'tree',
	'treetransforms.unbinarize': '_sent',
	'treebanktransforms.rrbacktransform': 'tree',
	'treebanktransforms.rrtransform': 'tree',
	'treebanktransforms.unifymorphfeat': 'feats',
	# transformations of the tree which may not touch the sentence
	'punctuation.punctraise': 'sent', 'punctuation.balancedpunctraise': 'sent',
	'punctuation.punctlower': 'sent', 'punctuation.punctroot': 'sent',
	'treebanktransforms.reversetransform': 'sent',
}
# private helpers: their disappearance is not an error
MINIMUM = 115


def check(project, result, tier):
	result.rule('Interprocedural points-to and mutation-effect summaries of '
			'all functions of discodop: no location reachable from a listed '
			'parameter is written (attribute or item assignment, deletion, '
			'mutating method, setter of a parent pointer) by the function or '
			'anything it calls.')
	eng = engine(project, {m for m in project.modules
			if m.startswith('discodop')})
	for name, params in sorted(TABLE.items()):
		f = project.funcs.get('discodop.' + name)
		if f is None and '.' in name:
			# inherited or moved to a base class / sibling module
			mod, _, rest = name.partition('.')
			r = project.resolve_name(project.module(mod), rest)
			f = r if hasattr(r, 'posparams') else None
		if f is None:
			result.count('listed functions not found')
			result.sample('not found', name)
			continue
		result.count('functions')
		s = eng.summ[f.id]
		for p in params.split():
			if p not in f.params:
				result.count('parameters not found')
				result.sample('not found', '%s(%s)' % (name, p))
				continue
			result.count('parameters')
			hits = sorted((prov, loc) for loc, prov in s.mut.items()
					if loc[0] == 'P' and loc[1] == p)
			if hits:
				prov, loc = hits[0]
				where = prov.split(' ', 1)[0]
				result.finding('argument-modified', '%s:%s' % (f.id, p),
						where, 'modifies %s%s: %s' % (p,
						''.join('.' + x for x in loc[2]), prov))
	result.count('function summaries', len(eng.summ))
	if result.counts.get('functions', 0) < MINIMUM:
		raise AnalysisBroken('only %d of the listed functions found'
				% result.counts.get('functions', 0))
	result.assume('methods of external libraries do not modify their '
			'arguments, except the enumerated ones (sort, heapq, shuffle ...)')
	result.assume('the memoised _leaves field of immutable trees is not '
			'observable')
