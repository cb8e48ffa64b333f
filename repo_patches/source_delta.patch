From 34ede57e5cc6f788fba3e671cf6ae5cb37a46d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 01/52] fix: sumrules: emit the summed weight with the rule it
 belongs to

---
 discodop/grammar.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index fca7136..32506ed 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1205,27 +1205,29 @@ def stripweight(line):
 
 def sumrules(iterable, n):
 	"""Given a sorted iterable of rules, sum weights of identical rules."""
-	prev = None
+	prev = prevmatch = None
 	w1 = 0.0
 	for line in iterable:
 		match = RULERE.match(line)
 		rule = match.group('RULE1') or match.group('RULE2')
 		if rule != prev:
 			if prev is not None:
-				if match.group('RULE1') is None:
-					yield '%g\t%s\n' % (w1 / n, rule)
+				if prevmatch.group('RULE1') is None:
+					yield '%g\t%s\n' % (w1 / n, prev)
 				else:
-					yield '%s\t%g\n' % (rule, w1 / n)
-			prev = rule
+					yield '%s\t%g\n' % (prev, w1 / n)
+			prev, prevmatch = rule, match
 			w1 = 0.0
 		if match.group('RULE1') is None:
 			w1 += convertweight(match.group('FREQ2'))
 		else:
 			w1 += convertweight(match.group('WEIGHT1'))
-	if match.group('RULE1') is None:
-		yield '%g\t%s\n' % (w1 / n, rule)
+	if prev is None:
+		return
+	elif prevmatch.group('RULE1') is None:
+		yield '%g\t%s\n' % (w1 / n, prev)
 	else:
-		yield '%s\t%g\n' % (rule, w1 / n)
+		yield '%s\t%g\n' % (prev, w1 / n)
 
 
 def sumlex(iterable, n):
-- 
2.43.0


From 1e62921d3374684fc296c1113dcfabc1f8ba34ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 02/52] fix: grammar command: no unbound lexmodel/altweights

---
 discodop/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index d0c573f..a54d3ea 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -447,7 +447,7 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 				prm.transformations, prm.relationalrealizational, resultdir)
 		if prm.postagging and prm.postagging.method == 'unknownword':
 			sents, lexmodel = getposmodel(prm.postagging, train_tagged_sents)
-		elif not prm.postagging:
+		else:
 			lexmodel = None
 	elif model == 'ptsg':  # read fragments
 		xfragments = {frag: splitweight(weight) for frag, weight
@@ -494,6 +494,8 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 				out.write("top='%s',\n%s" % (trees[0].label, inp.read()))
 		return  # grammars have already been written
 	if opts.get('--dopestimator', 'rfe') != 'rfe':
+		if model in ('pcfg', 'plcfrs'):
+			raise ValueError('--dopestimator requires a DOP model.')
 		xgrammar = [(rule, w) for (rule, _), w in
 				zip(xgrammar, altweights[opts['--dopestimator']])]
 
-- 
2.43.0


From 6646c6b84a7594099ce9a2fc296cdde303b206f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 03/52] fix: fragments: --complete with multiple processes
 crashed

---
 discodop/fragments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index 5d24097..20dd665 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -206,7 +206,7 @@ def regular(filenames, numproc, limit, encoding):
 	if numproc != 1:
 		pool.close()
 		pool.join()
-		del dowork, pool
+		del pool
 	return fragmentkeys, counts
 
 
-- 
2.43.0


From 5d882a22c9d0825b1a98900e2302d5b5120dd281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 04/52] fix: getunknownwordmodel: openclassthreshold=0 crashed

---
 discodop/lexicon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/lexicon.py b/discodop/lexicon.py
index 415754b..ceeb32a 100644
--- a/discodop/lexicon.py
+++ b/discodop/lexicon.py
@@ -72,9 +72,10 @@ def getunknownwordmodel(tagged_sents, unknownword,
 			tags[tag] += 1
 			wordtags[word, tag] += 1
 	openclasstags = {}
+	closedclasstags = {}
+	wordsforcollapsedtags = defaultdict(set)
 	if openclassthreshold:
 		# consider POS tags with different function tags together
-		wordsforcollapsedtags = defaultdict(set)
 		for tag, ws in wordsfortag.items():
 			match = REMOVESTATESPLITS.match(tag)
 			if match is not None:
-- 
2.43.0


From 76bf3439636bf33a30ba979b822e3335bddc5e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 05/52] fix: parse: reranking without parse trees of the
 previous stage crashed

---
 discodop/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/parser.py b/discodop/parser.py
index df11a47..41d7342 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -296,6 +296,7 @@ class Parser(object):
 		for n, stage in enumerate(self.stages):
 			begin = process_time()
 			noparse = False
+			msg1 = ''
 			parsetrees = fragments = None
 			golditems = 0
 			msg = '%s:\t' % stage.name.upper()
-- 
2.43.0


From cae22a68e79b485b23215e538fc693b550dc4385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 06/52] fix: readgrammars: no message to log for mc-rerank
 stage

---
 discodop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 41d7342..7eaf782 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -796,7 +796,7 @@ def readgrammars(resultdir, stages, postagging=None,
 
 		if stage.mode != 'mc-rerank':
 			_sumsto1, msg = gram.testgrammar()
-		logging.info('%s: %s', stage.name, msg)
+			logging.info('%s: %s', stage.name, msg)
 		stage.update(grammar=gram, outside=outside)
 	if postagging and postagging.method == 'unknownword':
 		postagging.unknownwordfun = UNKNOWNWORDFUNC[postagging.model]
-- 
2.43.0


From db001c4a3e74ba0768f2b261ab5b65cc8b2b02d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 07/52] fix: PP-NP transform read an undefined variable

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index af597be..8811397 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -249,7 +249,7 @@ def negratransforms(name, tree, sent):
 			# (annotation mistake?), or there is a PN and we want to avoid
 			# a cylic unary of NP -> PN -> NP.
 			if ac and nk and (len(nk) > 1
-					or nk[0].label not in s('NP', 'PN')):
+					or nk[0].label not in ('NP', 'PN')):
 				pp[:] = []
 				pp[:] = ac + [ParentedTree('NP', nk)]
 	elif name == 'DP':  # introduce determiner phrases (DPs)
-- 
2.43.0


From 4988ba4b5715f6788b22d7800381bcadf3b5b3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 08/52] fix: Alpino readers: skip malformed XML blocks after
 reporting them

---
 discodop/treebank.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 43375d5..c794cb1 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -459,6 +459,7 @@ class AlpinoCorpusReader(CorpusReader):
 						filename,
 						rawblock.decode('utf8', errors='replace')),
 						file=sys.stderr)
+				continue
 			yield n, (rawblock, xmlblock)
 
 	def _parse(self, block):
@@ -491,6 +492,7 @@ class AlpinoCompactCorpusReader(AlpinoCorpusReader):
 						print('Problem with %r:\n%s' % (
 								n, block.decode('utf8', errors='replace')),
 								file=sys.stderr)
+						continue
 					yield n, (block, xmlblock)
 
 
-- 
2.43.0


From 1a857497934fbd1d8aa902e8f8494067bffeab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 09/52] fix: alpinotree: reject nodes without cat, word, or
 index

---
 discodop/treebank.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index c794cb1..c783cec 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -637,6 +637,9 @@ def alpinotree(block, functions=None, morphology=None, lemmas=None):
 			coindexation[int(node.get('index')) + 500].extend(
 					[node.get('rel'), parentid])
 			return None
+		else:
+			raise ValueError('Alpino node %s has no cat, word, or index'
+					% node.get('id'))
 		source[:] = [a.replace(' ', '_') if a else a for a in source]
 		result.source = source
 		return result
-- 
2.43.0


From 99148d58bc0067a0681b18e6fb2a0ba24fb26bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 10/52] fix: getgrammars: ostag stage has no xgrammar to
 summarize

---
 discodop/runexp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/runexp.py b/discodop/runexp.py
index ffc3dcb..f646fd3 100644
--- a/discodop/runexp.py
+++ b/discodop/runexp.py
@@ -414,8 +414,9 @@ def getgrammars(trees, sents, stages, testmaxwords, resultdir,
 			else:
 				raise ValueError('unrecognized DOP model: %r' % stage.dop)
 			nodes = sum(len(list(a.subtrees())) for a in traintrees)
-			msg = grammar.grammarinfo(xgrammar)
-			if rules is None:
+			msg = 'off-spine TAG'
+			if stage.dop != 'ostag':
+				msg = grammar.grammarinfo(xgrammar)
 				rules, lex = grammar.writegrammar(xgrammar)
 			rulesfile = '%s/%s.rules.gz' % (resultdir, stage.name)
 			lexiconfile = '%s/%s.lex.gz' % (resultdir, stage.name)
-- 
2.43.0


From 90b898518ad1738af3ff5886df8b2ba91cd09606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 11/52] fix: ImmutableTree: insert() modified the tree

---
 discodop/tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discodop/tree.py b/discodop/tree.py
index 56d2899..bf250e4 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -642,6 +642,9 @@ class ImmutableTree(Tree):
 	def extend(self, _):
 		raise ValueError('ImmutableTrees may not be modified')
 
+	def insert(self, _index, _child):
+		raise ValueError('ImmutableTrees may not be modified')
+
 	def pop(self, _=None):
 		raise ValueError('ImmutableTrees may not be modified')
 
-- 
2.43.0


From edf06d7b77c3e31373554712ba60d73d3a105ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 12/52] fix: ParentedTree: leave pointers intact when a subtree
 is repeated

---
 discodop/tree.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/discodop/tree.py b/discodop/tree.py
index bf250e4..3df278c 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -689,6 +689,7 @@ class ParentedTree(Tree):
 		for i, child in enumerate(self.children):
 			if isinstance(child, Tree):
 				self._setparent(child, i, dry_run=True)
+		self._checkduplicates(self.children)
 		for i, child in enumerate(self.children):
 			if isinstance(child, Tree):
 				self._setparent(child, i)
@@ -786,6 +787,14 @@ class ParentedTree(Tree):
 		if not dry_run:
 			child._parent = self
 
+	def _checkduplicates(self, children):
+		"""Check that no subtree occurs more than once in ``children``.
+
+		:raises ValueError: if a subtree is repeated."""
+		ids = [id(child) for child in children if isinstance(child, Tree)]
+		if len(set(ids)) != len(ids):
+			raise ValueError('Cannot insert the same subtree twice.')
+
 	# === Methods that add/remove children ======================
 	# Every method that adds or removes a child must make
 	# appropriate calls to _setparent() and _delparent().
@@ -826,6 +835,7 @@ class ParentedTree(Tree):
 			for i, child in enumerate(value):
 				if isinstance(child, Tree):
 					self._setparent(child, start + i, dry_run=True)
+			self._checkduplicates(value)
 			# clear the child pointers of all parents we're removing
 			for i in range(start, stop):
 				if isinstance(self[i], Tree):
-- 
2.43.0


From 84b3afa51d8ebe29ce00b7cc2102a1579f93d3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 13/52] fix: urlencode of the standard library has no separator
 argument

---
 web/treesearch.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/web/treesearch.py b/web/treesearch.py
index ddd47c3..1f643d9 100644
--- a/web/treesearch.py
+++ b/web/treesearch.py
@@ -210,8 +210,7 @@ def counts(form, doexport=False):
 	target = METADATA[form['target']] if form.get('target') else None
 	target2 = METADATA[form['target2']] if form.get('target2') else None
 	if not doexport:
-		url = 'counts?' + urlencode(dict(export='csv', **form),
-				separator=b';')
+		url = 'counts?' + urlencode(dict(export='csv', **form))
 		yield ('Counts from queries '
 				'(<a href="%s">export to CSV</a>):\n' % url)
 	# Combined results of all queries on each file
@@ -294,8 +293,7 @@ def counts(form, doexport=False):
 						urlencode(
 							dict(text=textno, sent=1,
 								query=query or form['query'],
-								engine=engine),
-							separator=b';'),
+								engine=engine)),
 						cnt, relfreq[text]))
 				barcode = ''
 				if resultsindices is not None:
@@ -377,7 +375,7 @@ def trees(form):
 	start, end = getslice(form.get('slice'))
 	maxresults = min(int(form.get('maxresults') or TREELIMIT), TREELIMIT)
 	# NB: we do not hide function or morphology tags when exporting
-	url = 'trees?' + urlencode(dict(export='csv', **form), separator=b';')
+	url = 'trees?' + urlencode(dict(export='csv', **form))
 	yield ('<pre>Query: %s\n'
 			'Trees (showing up to %d per text; '
 			'export: <a href="%s">plain</a>, '
@@ -417,7 +415,7 @@ def trees(form):
 					textno, sentno, ';nofunc' if 'nofunc' in form else '',
 					';nomorph' if 'nomorph' in form else '',
 					urlencode(dict(text=textno, sent=sentno,
-						query=form['query'], engine=engine), separator=b';')))
+						query=form['query'], engine=engine))))
 			try:
 				treerepr = DrawTree(tree, sent, highlight=high).text(
 						unicodelines=True, html=True, funcsep='-')
@@ -441,7 +439,7 @@ def sents(form, dobrackets=False):
 	start, end = getslice(form.get('slice'))
 	maxresults = min(int(form.get('maxresults') or SENTLIMIT), SENTLIMIT)
 	url = '%s?%s' % ('trees' if dobrackets else 'sents',
-			urlencode(dict(export='csv', **form), separator=b';'))
+			urlencode(dict(export='csv', **form)))
 	yield ('<pre>Query: %s\n'
 			'Sentences (showing up to %d per text; '
 			'export: <a href="%s">plain</a>, '
@@ -486,7 +484,7 @@ def sents(form, dobrackets=False):
 					textno, sentno, ';nofunc' if 'nofunc' in form else '',
 					';nomorph' if 'nomorph' in form else '',
 					urlencode(dict(text=textno, sent=sentno, highlight=sentno,
-						query=form['query'], engine=engine), separator=b';')))
+						query=form['query'], engine=engine))))
 			if dobrackets:
 				sent = htmlescape(sent.replace(" )", " -NONE-)"))
 				out = sent.replace(high1, "<span class=r>%s</span>" % high1)
@@ -557,8 +555,7 @@ def fragmentsinresults(form, doexport=False):
 	start, end = getslice(form.get('slice'))
 	uniquetrees = set()
 	if not doexport:
-		url = 'fragments?' + urlencode(dict(export='csv', **form),
-				separator=b';')
+		url = 'fragments?' + urlencode(dict(export='csv', **form))
 		yield ('<pre>Query: %s\n'
 				'Fragments (showing up to %d fragments '
 				'in the first %d search results from selected texts;\n'
@@ -818,8 +815,7 @@ def browsesents():
 		if request.args.get('query', ''):
 			queryparams = ';' + urlencode(dict(
 					query=request.args['query'],
-					engine=engine),
-					separator=b';')
+					engine=engine))
 			queries = querydict(request.args['query'])
 			legend = 'Legend:\t%s\n' % ('\t'.join(
 					'\n<font color=%s>%s</font>' % (COLORS.get(n, 'gray'),
-- 
2.43.0


From 27005b4f7918a98dad0a5afb75b4740614a64305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 14/52] fix: APPEND-MORPH transform calls non-existing method

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 8811397..5479521 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -153,7 +153,7 @@ def transform(tree, sent, transformations):
 							[a.pop() for _ in range(len(a))][::-1])]
 					a.label = '-' + '-'.join(func)
 		elif name == 'APPEND-MORPH':  # Append morph. features to POS tag
-			for a in tree.subtree(lambda n: n and isinstance(n[0], int)):
+			for a in tree.subtrees(lambda n: n and isinstance(n[0], int)):
 				morph = '--'
 				if a.source:
 					morph = a.source[MORPH].replace('(', '[').replace(')', ']')
-- 
2.43.0


From 2c3b6eff1271d5e396543b33ac8aab0fbf086ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 15/52] fix: treetransforms --outputenc was ignored

---
 discodop/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index a54d3ea..ffcf336 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -345,7 +345,7 @@ where input and output are treebanks; standard in/output is used if not given.
 		if not opts.get('--headrules'):
 			raise ValueError('need head rules for dependency conversion')
 	cnt = 0
-	encoding = opts.get('outputenc', 'utf8')
+	encoding = opts.get('--outputenc', 'utf8')
 	with io.open(outfilename, 'w', encoding=encoding) as outfile:
 		# copy trees verbatim when only taking slice or converting encoding
 		if (not actions
-- 
2.43.0


From cfef0aaec927de1709962d1d59f202feccca15a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 16/52] fix: treetransforms --markovthreshold was ignored

---
 discodop/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index ffcf336..7db794a 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -332,7 +332,7 @@ where input and output are treebanks; standard in/output is used if not given.
 				yield key, item
 
 		trees = applytransforms(trees)
-		if 'binarize' in opts and '--markovthreshold' in opts:
+		if '--binarize' in opts and '--markovthreshold' in opts:
 			trees = list(trees)
 			h, v = int(opts.get('-h', 999)), int(opts.get('-v', 1))
 			revh = int(opts.get('-H', 0))
-- 
2.43.0


From d74cc2530f3a84c95019c3bbe59c527028ea5743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 17/52] fix: validate --dopestimator of grammar command

---
 discodop/cli.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 7db794a..f2f4b83 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -417,8 +417,10 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 	if model not in ('pcfg', 'plcfrs', 'dopreduction', 'doubledop', 'dop1',
 			'ptsg', 'param', 'info', 'merge'):
 		raise ValueError('unrecognized model: %r' % model)
-	if opts.get('dopestimator', 'rfe') not in ('rfe', 'ewe', 'shortest'):
-		raise ValueError('unrecognized estimator: %r' % opts['dopestimator'])
+	if opts.get('--dopestimator', 'rfe') not in (
+			'rfe', 'ewe', 'bon', 'shortest'):
+		raise ValueError('unrecognized estimator: %r'
+				% opts['--dopestimator'])
 
 	if model == 'info':
 		grammarstats(args[1])
-- 
2.43.0


From 13ee3d97000519eb08b00648ea1c3b5d97fed58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 18/52] fix: remove unused option --test of treedraw

---
 discodop/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index f2f4b83..22b6c46 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -77,7 +77,7 @@ Pipe the output through 'less -R' to preserve the colors."""
 			return dt.tikzqtree() + '\n'
 		raise ValueError('unrecognized --output format')
 
-	flags = ('test', 'help', 'abbr', 'plain', 'frontier', 'secedge')
+	flags = ('help', 'abbr', 'plain', 'frontier', 'secedge')
 	options = ('fmt=', 'encoding=', 'functions=', 'morphology=', 'numtrees=',
 			'output=')
 	try:
-- 
2.43.0


From 8d8e98daf4f0ea0153a8bdb9024105c94290a1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 19/52] fix: remove unused option --numproc of tree browser

---
 web/browse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/browse.py b/web/browse.py
index 74c8861..0ab278d 100644
--- a/web/browse.py
+++ b/web/browse.py
@@ -358,7 +358,7 @@ if STANDALONE:
 	from getopt import gnu_getopt, GetoptError
 	try:
 		opts, _args = gnu_getopt(sys.argv[1:], '',
-				['port=', 'ip=', 'numproc=', 'debug'])
+				['port=', 'ip=', 'debug'])
 		opts = dict(opts)
 	except GetoptError as err:
 		print('error: %r' % err, file=sys.stderr)
-- 
2.43.0


From 836637644e20de93a57cc00d430fcb8536b8bd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 20/52] fix: document --obj=mpp instead of removed option --mpp

---
 docs/cli/parser.rst | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/docs/cli/parser.rst b/docs/cli/parser.rst
index 9919405..c6b59b2 100644
--- a/docs/cli/parser.rst
+++ b/docs/cli/parser.rst
@@ -39,14 +39,13 @@ Options for simple mode
 ^^^^^^^^^^^^^^^^^^^^^^^
 -s x         Use ``x`` as start symbol instead of default ``TOP``.
 --bt=file    Apply backtransform table to recover TSG derivations.
---mpp=k      By default, the output consists of derivations, with the most
+--obj=<mpd|mpp|mcp|shortest|sl-dop>
+             Objective function to maximize [default: mpd].
+             By default, the output consists of derivations, with the most
              probable derivation (MPD) ranked highest. With a PTSG such as
              DOP, it is possible to aim for the most probable parse (MPP)
              instead, whose probability is the sum of any number of the
-             k-best derivations.
-
---obj=<mpd|mpp|mcp|shortest|sl-dop>
-             Objective function to maximize [default: mpd].
+             k-best derivations (cf. ``-m``).
 
 -m x         Use x derivations to approximate objective functions;
              mpd and shortest require only 1.
-- 
2.43.0


From 48857b1fc9b694b930877cfbbc852ad35d0b1db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 21/52] fix: label mappings: every level covers every label
 once

---
 discodop/treebanktransforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 5479521..e01df64 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -96,8 +96,8 @@ MAPPINGS = {
 			2: {'S_': {'S', 'VP', 'VZ', 'CO', 'AA', 'CS', 'CVP',
 					'CVZ', 'CCP', 'DL', 'ISU', 'QL'},
 				'N_': {'NP', 'CNP', 'PN', 'MPN', 'NM', 'CH'},
-				'A_': {'--', 'AP', 'AVP', 'CAP', 'CAVP', 'MTA'}},
-				'P_': {'PP', 'CPP', 'CAC'}
+				'A_': {'--', 'AP', 'AVP', 'CAP', 'CAVP', 'MTA'},
+				'P_': {'PP', 'CPP', 'CAC'}}
 			# level 3: no-op, return original treebank labels
 		},
 		'alpino': {
@@ -107,7 +107,7 @@ MAPPINGS = {
 					'SSUB', 'SV1', 'SVAN', 'TI', 'WHQ', 'WHREL', 'WHSUB'}},
 			# level 1: HP (arguments), MP (modifiers)
 			1: {'HP': {'AHI', 'CONJ', 'CP', 'DETP', 'DU', 'INF', 'MWU', 'NP',
-					'OTI', 'PPART', 'PPRES', 'REL', 'SMAIN', 'SSUB', 'SVAN',
+					'OTI', 'PPART', 'PPRES', 'SMAIN', 'SSUB', 'SVAN',
 					'SV1', 'TI', 'WHSUB', 'WHQ'},
 				'MP': {'AP', 'ADVP', 'PP', 'REL', 'WHREL'}},
 			# level 2: S (verbal), N (nominal), A (adjectival),
-- 
2.43.0


From 728fb6ff1dd32d1f59ea08af4b312aa7250f5721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 22/52] fix: insert MORPH-NODE above POS tag, as
 reversetransform expects

---
 discodop/treebanktransforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index e01df64..af4c3fa 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -163,8 +163,9 @@ def transform(tree, sent, transformations):
 				morph = '--'
 				if a.source:
 					morph = a.source[MORPH].replace('(', '[').replace(')', ']')
-				a[:] = [a.__class__(morph,
+				a[:] = [a.__class__(a.label,
 						[a.pop() for _ in range(len(a))][::-1])]
+				a.label = morph
 		elif name == 'LEMMA-NODE':  # insert node w/lemma above terminal
 			for a in tree.postorder(lambda n: n and isinstance(n[0], int)):
 				lemma = '--'
-- 
2.43.0


From 17040210c428a166ad5a1a45f7ef1faa936fd38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 23/52] fix: bracket reader unescapes tokens like the other
 readers and the writer

---
 discodop/treebank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index c783cec..93a8209 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -9,7 +9,7 @@ from itertools import count, chain, islice
 from collections import defaultdict
 import xml.etree.ElementTree as ElementTree
 from collections import OrderedDict
-from .tree import (Tree, ParentedTree, brackettree, escape, unescape,
+from .tree import (Tree, ParentedTree, brackettree, unescape,
 		writebrackettree, writediscbrackettree, SUPERFLUOUSSPACERE, HEAD)
 from .treetransforms import removeemptynodes
 from .punctuation import applypunct
@@ -240,7 +240,7 @@ class BracketCorpusReader(CorpusReader):
 								'=0123456789')
 					if self.functions == 'remove':
 						node.label = node.label[:x]
-		sent = [escape(token) for token in LEAVESRE.findall(block)]
+		sent = [token and unescape(token) for token in LEAVESRE.findall(block)]
 		return Item(tree, sent, None, block)
 
 
-- 
2.43.0


From d3114283a1dd8f3e1ee37e4dda176484baee6ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:08 +0000
Subject: [PATCH 24/52] fix: escape labels and words in SVG and HTML output

---
 discodop/tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 3df278c..6c19036 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1416,7 +1416,7 @@ class DrawTree(object):
 			if func:
 				result[-1] += '%s<tspan style="fill: %s; ">%s</tspan>' % (
 							funcsep, funccolor if n in self.highlightfunc
-							else 'black', func)
+							else 'black', htmlescape(func))
 			result[-1] += '</text>'
 		result += ['</svg>']
 		return '\n'.join(result)
@@ -1488,7 +1488,7 @@ class DrawTree(object):
 					cat, morph = cat.rsplit(morphsep, 1)
 			if isinstance(node, Tree):
 				labeledspan = '%s %s' % (
-						node.label,
+						htmlescape(node.label),
 						','.join(str(a[0]) if len(a) == 1
 							else ('%d-%d' % (a[0], a[-1]))
 							for a in ranges(sorted(node.leaves()))))
@@ -1829,12 +1829,12 @@ class DrawDependencies(object):
 					'onmouseover="highlightdep(\'w%d\'); " '
 					'onmouseout="nohighlightdep(); "'
 					'>%s</text>' % (
-					n, xpos[n], height - wordheight, n, word))
+					n, xpos[n], height - wordheight, n, htmlescape(word)))
 			result.append('<text class="tag w%d" x=%d y=%d '
 					'onmouseover="highlightdep(\'w%d\'); " '
 					'onmouseout="nohighlightdep(); " '
 					'fill=blue text-anchor=middle>%s</text>' % (
-					n, xpos[n], height - 4, n, pos))
+					n, xpos[n], height - 4, n, htmlescape(pos)))
 
 		for n, deplabel, head in self.deps:
 			start = xpos[head] + random.randint(0, 4) * 5
@@ -1854,7 +1854,7 @@ class DrawDependencies(object):
 					"marker-end='url(#head)'/>" % (head, n, path))
 			result.append('<text class="dependency w%d w%d" x=%d y=%d '
 					'fill=green text-anchor=middle>%s</text>' % (
-						head, n, mid, arrow + 15, deplabel))
+						head, n, mid, arrow + 15, htmlescape(deplabel)))
 		width = x + 30
 		result.insert(0, '<svg xmlns="http://www.w3.org/2000/svg" '
 				'width=%d height=%d style="font-family: monospace; ">' % (
-- 
2.43.0


From 87e81e4670a2855fd8c457fbd9750c61defad575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:43 +0000
Subject: [PATCH 25/52] fix: grammarstats: read text with openread(), report
 malformed rules

---
 discodop/grammar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 32506ed..343f089 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1155,9 +1155,10 @@ def grammarstats(filename):
 	"""Print statistics for PLCFRS/bitpar grammar (sorted by LHS)."""
 	print('LHS\t# rules\tfreq. mass')
 	label = cnt = freq = None
-	for line in codecs.getreader('utf8')((gzip.open if filename.endswith('.gz')
-			else open)(filename)):
+	for line in openread(filename):
 		match = RULERE.match(line)
+		if match is None:
+			raise ValueError('Malformed rule:\n%s' % line)
 		if (match.group('LHS1') or match.group('LHS2')) != label:
 			if label is not None:
 				print('%s\t%d\t%d' % (label, int(cnt), int(freq)))
-- 
2.43.0


From 1dc9b48cfb981e28024bd69f2898d632d887a75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:43 +0000
Subject: [PATCH 26/52] fix: sumrules: report malformed rules

---
 discodop/grammar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 343f089..aab2cfe 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1210,6 +1210,8 @@ def sumrules(iterable, n):
 	w1 = 0.0
 	for line in iterable:
 		match = RULERE.match(line)
+		if match is None:
+			raise ValueError('Malformed rule:\n%s' % line)
 		rule = match.group('RULE1') or match.group('RULE2')
 		if rule != prev:
 			if prev is not None:
-- 
2.43.0


From 21dd9fd2b6b93d55b32da4597b2694ffe6a77a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:43 +0000
Subject: [PATCH 27/52] fix: AlpinoCompactCorpusReader: report missing sentid

---
 discodop/treebank.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 93a8209..94e16f8 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -484,8 +484,11 @@ class AlpinoCompactCorpusReader(AlpinoCorpusReader):
 			dirname = os.path.basename(re.sub(r'\.index$', '', filename))
 			with gzip.open(dzfile, 'rb') as inp:
 				for block in ALPINOXML.findall(inp.read()):
-					sentid = ALPINOSENTID.search(block).group(1).decode('utf8')
-					n = '%s/%s' % (dirname, sentid)
+					match = ALPINOSENTID.search(block)
+					if match is None:
+						raise ValueError('sentence without sentid in %s:\n%s' % (
+								dzfile, block.decode('utf8', errors='replace')))
+					n = '%s/%s' % (dirname, match.group(1).decode('utf8'))
 					try:
 						xmlblock = ElementTree.fromstring(block)
 					except ElementTree.ParseError:
-- 
2.43.0


From cee7a5770cbc1aa3116f004cc19092aa8296a797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:43 +0000
Subject: [PATCH 28/52] fix: web/parse: avoid exponential regex for POS tagged
 input

---
 web/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/web/parse.py b/web/parse.py
index b5a1da2..4274884 100644
--- a/web/parse.py
+++ b/web/parse.py
@@ -42,7 +42,8 @@ SHOWFUNC = True  # show function tags in results
 SHOWMORPH = True  # show morphological features in results
 # POS tagged input is tokenized, and every token is of the form "word/POS"
 # POS may be empty.
-POSTAGS = re.compile(r'^\s*(?:\S+/\S*)(?:\s+\S+/\S*)*\s*$')
+POSTAGS = re.compile(
+		r'^\s*(?:\S[^\s/]*/\S*)(?:\s+\S[^\s/]*/\S*)*\s*$')
 
 
 @APP.route('/')
-- 
2.43.0


From b3229518536d6f018faa7fc66d3bc55c10a58a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:37 +0000
Subject: [PATCH 29/52] fix: addindices: frontier non-terminals are not the
 word None

---
 discodop/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index aab2cfe..dde7d9a 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1282,7 +1282,7 @@ def merge(filenames, outfilename, sumfunc, key):
 def addindices(frag):
 	"""Convert fragment in bracket to discbracket format."""
 	cnt = count()
-	return LEAVESRE.sub(lambda m: ' %d=%s' % (next(cnt), m.group(1)), frag)
+	return LEAVESRE.sub(lambda m: ' %d=%s' % (next(cnt), m.group(1) or ''), frag)
 
 
 __all__ = ['lcfrsproductions', 'treebankgrammar', 'dopreduction', 'doubledop',
-- 
2.43.0


From 02afa9dd521e4519694a75e8e40d52f685c9e1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:13 +0000
Subject: [PATCH 30/52] fix: eval: breakdowns do not depend on the hash seed

---
 discodop/eval.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 5719589..d864cf0 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -125,10 +125,10 @@ class Evaluator(object):
 		print('\n Attachment errors (correct labeled bracketing, wrong parent)')
 		print('  label     cand     gold    count')
 		print(' ' + 33 * '_')
-		gmismatch = dict(acc.goldbatt - acc.candbatt)
+		gmismatch = dict(sorted(acc.goldbatt - acc.candbatt))
 		wrong = Counter((label, cparent, gmismatch[n, label, indices])
 					for (n, label, indices), cparent
-					in acc.candbatt - acc.goldbatt
+					in sorted(acc.candbatt - acc.goldbatt)
 					if (n, label, indices) in gmismatch)
 		for (cat, gparent, cparent), cnt in wrong.most_common(limit):
 			print('%s  %s  %s  %7d' % (cat.rjust(7), gparent.rjust(7),
@@ -144,7 +144,7 @@ class Evaluator(object):
 					for n, (label, indices) in acc.candb - acc.goldb
 					if (n, indices) in gmismatch)
 		freqcats = sorted(set(acc.goldbcat) | set(acc.candbcat),
-				key=lambda x: len(acc.goldbcat[x]), reverse=True)
+				key=lambda x: (-len(acc.goldbcat[x]), x))
 		for cat, mismatch in zip_longest(freqcats[:limit],
 				wrong.most_common(limit)):
 			if cat is None:
@@ -179,7 +179,7 @@ class Evaluator(object):
 					for n, (span, tag) in acc.candfun - acc.goldfun
 					if (n, span) in gmismatch)
 		freqcats = sorted(set(acc.goldbfunc) | set(acc.candbfunc),
-				key=lambda x: len(acc.goldbfunc[x]), reverse=True)
+				key=lambda x: (-len(acc.goldbfunc[x]), x))
 		for cat, mismatch in zip_longest(freqcats[:limit],
 				wrong.most_common(limit)):
 			if cat is None:
-- 
2.43.0


From 417272dba8325fbde545c3341f24e8e129fb3b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:13 +0000
Subject: [PATCH 31/52] fix: transitiveclosure: representative does not depend
 on the hash seed

---
 discodop/eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index d864cf0..f901727 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -726,7 +726,7 @@ def transitiveclosure(eqpairs):
 		edges[b].add(a)
 	eqclasses = {}
 	seen = set()
-	for elem in set(edges):
+	for elem in sorted(edges):
 		if elem in seen:
 			continue
 		eqclasses[elem] = set()
-- 
2.43.0


From 8180b56f2257020cbc7e0bb15da0e57af8ced308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:13 +0000
Subject: [PATCH 32/52] fix: grammar: order of rules does not depend on the
 hash seed

---
 discodop/grammar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index dde7d9a..427f0ec 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -573,7 +573,7 @@ def ostagreduction(inittrees, auxtrees, packedgraph=False, extrarules=None):
 				# rule type 2
 				if spinal(node):  # and isinstance(node[0], Tree):
 					# replace lhs, spine node label with all possible NxM
-					for adjsite in nodepairs[node.label]:
+					for adjsite in sorted(nodepairs[node.label]):
 						newlhs = '%s[%s]' % (node.label, adjsite)
 						newrhs = '\t'.join(spinallabel(child, sent, adjsite)
 								for child in node)
@@ -587,7 +587,7 @@ def ostagreduction(inittrees, auxtrees, packedgraph=False, extrarules=None):
 					rules[rule] += 1
 			# rule type 3 (type 4 eliminated):
 			# M => N(M) s.t. N is an aux root node
-			for m in adjsites[REMOVEDEC.sub('', tree.label)]:
+			for m in sorted(adjsites[REMOVEDEC.sub('', tree.label)]):
 				rule = '%s\t%s\t0' % (m, '%s[%s]' % (tree.label, m))
 				rules[rule] += weight
 		cnt += 1
@@ -1098,7 +1098,7 @@ def subsetgrammar(a, b):
 	if not difference:
 		return True
 	print("missing productions:")
-	for r, yf in difference:
+	for r, yf in sorted(difference):
 		print(printrule(r, yf, 0.0))
 	return False
 
-- 
2.43.0


From 56f31dd09fa5344add3e6b3b5a193f5ae19c4378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:13 +0000
Subject: [PATCH 33/52] fix: CorpusReader: order of files does not depend on
 the file system

---
 discodop/treebank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 94e16f8..fd93593 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -101,7 +101,7 @@ class CorpusReader(object):
 				if modifierrules else None)
 		self._encoding = encoding
 		try:
-			self._filenames = (sorted(glob(path), key=numbase)
+			self._filenames = (sorted(sorted(glob(path)), key=numbase)
 					if path != '-' else ['-'])
 		except TypeError:
 			# print('all sentence IDs must have the same type signature '
-- 
2.43.0


From c130ca430a7ead46f2ac1cdd22d2d918b5897c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:13 +0000
Subject: [PATCH 34/52] fix: DrawDependencies: same drawing for same sentence

---
 discodop/tree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 6c19036..64aae0b 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1836,9 +1836,10 @@ class DrawDependencies(object):
 					'fill=blue text-anchor=middle>%s</text>' % (
 					n, xpos[n], height - 4, n, htmlescape(pos)))
 
+		rand = random.Random(0)  # the same arcs for the same sentence
 		for n, deplabel, head in self.deps:
-			start = xpos[head] + random.randint(0, 4) * 5
-			end = xpos[n] + random.randint(-1, 1) * 2
+			start = xpos[head] + rand.randint(0, 4) * 5
+			end = xpos[n] + rand.randint(-1, 1) * 2
 			mid = (start + end) / 2
 			diff = (start - end) / 4
 			bottom = height - 2 * wordheight
-- 
2.43.0


From a9fa76b338ed85c02afcabc8333fe184be4d1a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:13 +0000
Subject: [PATCH 35/52] fix: web/treesearch: order of fragments does not depend
 on the hash seed

---
 web/treesearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/treesearch.py b/web/treesearch.py
index 1f643d9..1befc28 100644
--- a/web/treesearch.py
+++ b/web/treesearch.py
@@ -587,7 +587,7 @@ def fragmentsinresults(form, doexport=False):
 	# TODO: get counts from whole text (preload)
 	import tempfile
 	with tempfile.NamedTemporaryFile(delete=True) as tmp:
-		tmp.writelines(uniquetrees)
+		tmp.writelines(sorted(uniquetrees))
 		tmp.flush()
 		results, approxcounts = fragments.regular([tmp.name], 1, None, 'utf8')
 	if disc:
-- 
2.43.0


From 23b872641276ff10b7e31fc1bd166e2c8aaaa51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:11 +0000
Subject: [PATCH 36/52] fix: lexicon of bitpar grammars is read completely

---
 discodop/gen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index 8e8a213..b1ae424 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -136,13 +136,13 @@ def read_bitpar_grammar(rules, lexicon):
 		a = a.split()
 		word = a[0]
 		tags, weights = a[1::2], a[2::2]
-		weights = map(float, weights)
+		weights = [float(w) for w in weights]
 		if integralweights:
 			if all(int(w) == w for w in weights):
-				weights = map(int, weights)
+				weights = [int(w) for w in weights]
 			else:
 				integralweights = False
-		tags = zip(tags, weights)
+		tags = list(zip(tags, weights))
 		for t, p in tags:
 			ntfd[t] += p
 		grammar.extend((((t, 'Epsilon'), (word,)), p) for t, p in tags)
-- 
2.43.0


From ca2f2bbf8361dffc60f9acc8d22bd746a996fc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:11 +0000
Subject: [PATCH 37/52] fix: read grammar files as text, and again for the
 second format

---
 discodop/gen.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index b1ae424..455e3e8 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -2,11 +2,10 @@
 
 Reads grammar from a text file."""
 import sys
-import gzip
-import codecs
 from collections import namedtuple, defaultdict
 from array import array
 from random import random
+from .util import openread
 
 SHORTUSAGE = '''Generate random sentences with a PLCFRS or PCFG.
 Reads grammar from a text file in PLCFRS or bitpar format.
@@ -259,9 +258,10 @@ def main():
 		print("incorrect number of arguments:", sys.argv[1:], file=sys.stderr)
 		print(SHORTUSAGE)
 		sys.exit(2)
-	rules = (gzip.open if sys.argv[1].endswith(".gz") else open)(sys.argv[1])
-	lexicon = codecs.getreader('utf-8')((gzip.open
-			if sys.argv[2].endswith(".gz") else open)(sys.argv[2]))
+	with openread(sys.argv[1]) as inp:
+		rules = inp.readlines()
+	with openread(sys.argv[2]) as inp:
+		lexicon = inp.readlines()
 	try:
 		xgrammar = read_lcfrs_grammar(rules, lexicon)
 	except ValueError:
-- 
2.43.0


From f9c19869f77ad02e1cff847164b0f29027ff7b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:21 +0000
Subject: [PATCH 38/52] fix: do not drop the argument after -s LABEL

---
 discodop/gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index 455e3e8..d653fa7 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -250,7 +250,7 @@ def main():
 	if "-s" in sys.argv:
 		i = sys.argv.index("-s")
 		start = sys.argv.pop(i + 1)
-		sys.argv[i:i + 2] = []
+		sys.argv[i:i + 1] = []
 	verbose = "--verbose" in sys.argv
 	if verbose:
 		sys.argv.remove('--verbose')
-- 
2.43.0


From f5137875fe037ac51fd14a61ad20227b09d8d8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:11 +0000
Subject: [PATCH 39/52] fix: escape words and labels in LaTeX output

---
 discodop/tree.py | 54 +++++++++++++++++++++++++++++-------------------
 web/treedraw.py  |  3 ---
 2 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 64aae0b..94d0ba5 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -22,6 +22,10 @@ from .util import slice_bounds, ANSICOLOR, graphemelength, graphemecenter
 HEAD, COMPLEMENT, MODIFIER = range(3)
 PTBPUNC = {'-LRB-', '-RRB-', '-LCB-', '-RCB-', '-LSB-', '-RSB-', '-NONE-'}
 FRONTIERNTRE = re.compile(r' \)')
+LATEXESCAPE = str.maketrans({
+		'#': r'\#', '$': r'\$', '%': r'\%', '&': r'\&', '_': r'\_',
+		'{': r'\{', '}': r'\}', '~': r'\textasciitilde{}',
+		'^': r'\textasciicircum{}', '\\': r'\textbackslash{}'})
 SUPERFLUOUSSPACERE = re.compile(r'\)\s+(?=\))')
 INDEXRE = re.compile(r' ([0-9]+)\)')
 # regex to check if the tree contains any terminals not prefixed by indices
@@ -1686,11 +1690,12 @@ class DrawTree(object):
 								and label not in PTBPUNC):
 							cat, func = label.split(funcsep, 1)
 							func = r'%s\textcolor{%s}{%s}' % (
-									funcsep, funccolor, func)
+									latexescape(funcsep), funccolor,
+									latexescape(func))
 						label = latexlabel(cat)
 					else:
 						color = leafcolor
-						label = node
+						label = latexescape(label)
 					if n not in self.highlight:
 						color = 'black'
 					line.append(r'\node (n%d) { \textcolor{%s}{%s}%s };' % (
@@ -1727,11 +1732,11 @@ class DrawTree(object):
 						and label not in PTBPUNC):
 					cat, func = label.split(funcsep, 1)
 					func = r'%s\textcolor{%s}{%s}' % (
-							funcsep, funccolor, func)
+							latexescape(funcsep), funccolor, latexescape(func))
 				label = latexlabel(cat)
 			else:
 				color = leafcolor
-				label = node
+				label = latexescape(label)
 			if n not in self.highlight:
 				color = 'black'
 			result.append(r'	(%d, %d) node (n%d) { \textcolor{%s}{%s}%s }'
@@ -1765,16 +1770,21 @@ class DrawTree(object):
 			\tikzset{edge from parent/.style={draw, edge from parent path={
 				(\tikzparentnode.south) -- +(0,-3pt) -| (\tikzchildnode)}}}
 		"""
-		reserved_chars = re.compile('([#$%&~_{}])')
+		def pprint(node, indent):
+			"""Return the code for a node and its descendants."""
+			if not isinstance(node, Tree):
+				return '{%s}' % latexescape(self.sent[node] or '')
+			sep = (('\n' + indent) if any(isinstance(child, Tree)
+					for child in node) else ' ')
+			return '[.{%s}%s%s ]' % (latexlabel(node.label), sep,
+					sep.join(pprint(child, indent + '  ') for child in node))
 
-		pprint = self.tree.pprint(indent=6, brackets=('[.', ' ]'))
-		escaped = re.sub(reserved_chars, r'\\\1', pprint)
 		return '\n'.join([
 			'% ' + writebrackettree(self.tree, self.sent).rstrip(),
 			'\\begin{tikzpicture}',
 			'  \\tikzset{every node/.style={color=%s}, font=\\sf}' % nodecolor,
 			'  \\tikzset{every leaf node/.style={color=%s}}' % leafcolor,
-			'  \\Tree %s' % escaped,
+			'  \\Tree %s' % pprint(self.tree, 6 * ' '),
 			'\\end{tikzpicture}'])
 
 
@@ -1870,21 +1880,23 @@ class DrawDependencies(object):
 
 def latexlabel(label):
 	"""Quote/format label for latex."""
-	newlabel = label.replace('$', r'\$').replace('_', r'\_')
 	# turn binarization marker into subscripts in math mode
-	if '|' in newlabel:
-		cat, siblings = newlabel.split('|', 1)
+	if '|' in label:
+		cat, siblings = label.split('|', 1)
 		siblings = siblings.strip('<>')
 		if '^' in siblings:
 			siblings, parents = siblings.rsplit('^', 1)
-			newlabel = '$ \\textsf{%s}_\\textsf{%s}^\\textsf{%s} $' % (
-					cat, siblings[1:-1], parents)
-		else:
-			newlabel = '$ \\textsf{%s}_\\textsf{%s} $' % (
-					cat, siblings)
-	else:
-		newlabel = newlabel.replace('<', '$<$').replace('>', '$>$')
-	return newlabel
+			return '$ \\textsf{%s}_\\textsf{%s}^\\textsf{%s} $' % (
+					latexescape(cat), latexescape(siblings.strip('<>')),
+					latexescape(parents.strip('<>')))
+		return '$ \\textsf{%s}_\\textsf{%s} $' % (
+				latexescape(cat), latexescape(siblings))
+	return latexescape(label).replace('<', '$<$').replace('>', '$>$')
+
+
+def latexescape(text):
+	"""Quote the characters in text that are special in latex."""
+	return text.translate(LATEXESCAPE)
 
 
 def frontier(tree, sent, nodecolor='blue', leafcolor='red'):
@@ -2048,6 +2060,6 @@ def ranges(seq):
 
 
 __all__ = ['Tree', 'ImmutableTree', 'ParentedTree', 'ImmutableParentedTree',
-		'DiscTree', 'DrawTree', 'latexlabel', 'frontier', 'brackettree',
-		'isdisc', 'escape', 'unescape', 'ptbescape', 'ptbunescape',
+		'DiscTree', 'DrawTree', 'latexlabel', 'latexescape', 'frontier',
+		'brackettree', 'isdisc', 'escape', 'unescape', 'ptbescape', 'ptbunescape',
 		'writebrackettree', 'writediscbrackettree']
diff --git a/web/treedraw.py b/web/treedraw.py
index f48512f..6d01b73 100644
--- a/web/treedraw.py
+++ b/web/treedraw.py
@@ -97,9 +97,6 @@ def drawtrees(form, dts):
 	# LaTeX based output
 	if form.get('type', None) == 'qtree':
 		preamble, postamble = DrawTree.templates['latex']
-		for dt in dts:
-			for pos in dt.tree.subtrees(lambda n: n and isinstance(n[0], int)):
-				pos[0] = dt.sent[pos[0]]
 		latexcode = (preamble + '\n\n'.join(dt.tikzqtree() for dt in dts)
 				+ postamble)
 	elif form.get('type', 'matrix') == 'matrix':
-- 
2.43.0


From 74c577fe11ca6c21e2578b844be730e52d838998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:36 +0000
Subject: [PATCH 40/52] fix: escape queries and results in the web interface
 for searching

---
 web/treesearch.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/web/treesearch.py b/web/treesearch.py
index 1befc28..3c34d53 100644
--- a/web/treesearch.py
+++ b/web/treesearch.py
@@ -220,7 +220,7 @@ def counts(form, doexport=False):
 	queries = querydict(form['query'])
 	if not doexport:
 		yield '<ol>%s</ol>\n' % '\n'.join(
-				'<li><a href="#q%d">%s</a>' % (n, query)
+				'<li><a href="#q%d">%s</a>' % (n, htmlescape(query))
 				for n, query in enumerate(list(queries)
 				+ ['Combined results', 'Overview'], 1))
 	for n, (name, (normquery, query)) in enumerate(
@@ -235,7 +235,7 @@ def counts(form, doexport=False):
 			results = combined
 			legend = '%sLegend:\t%s\n' % (64 * ' ', '\t'.join(
 					'\n<font color=%s>%s</font>' % (
-						COLORS.get(n, 'black'), query)
+						COLORS.get(n, 'black'), htmlescape(query))
 					for n, query in enumerate(queries)))
 		else:
 			legend = ''
@@ -263,8 +263,8 @@ def counts(form, doexport=False):
 					'[<a href="javascript: toggle(\'n%d\'); ">'
 					'toggle results per text</a>]\n'
 					'<div id=n%d style="display: none;"><pre>\n' % (
-						n, name, htmlescape(query) if query is not None
-						else legend, n, n))
+						n, htmlescape(name), htmlescape(query)
+						if query is not None else legend, n, n))
 		COLWIDTH = min(40, max(map(len, TEXTS)) + 2)
 		for filename, cnt in sorted(results.items()):
 			if query is None:
@@ -351,14 +351,14 @@ def counts(form, doexport=False):
 					for query in df.columns  # pylint: disable=not-an-iterable
 						for cat in keyset)
 			df['category'] = keys
-			yield '<pre>\n%s\n</pre>' % (
+			yield '<pre>\n%s\n</pre>' % htmlescape(
 					df.groupby('category').describe().to_string(
 						float_format=fmt))
 		else:
 			overview = OrderedDict((query, df[query].mean())
 					for query in df.columns)  # pylint: disable=not-an-iterable
-			yield '<pre>\n%s\n</pre>' % df.describe().to_string(
-					float_format=fmt)
+			yield '<pre>\n%s\n</pre>' % htmlescape(df.describe().to_string(
+					float_format=fmt))
 		yield plot(overview, max(overview.values()),
 				'Relative frequencies of patterns'
 				'(count / num_%s * 100)' % norm, unit='%',
@@ -380,8 +380,8 @@ def trees(form):
 			'Trees (showing up to %d per text; '
 			'export: <a href="%s">plain</a>, '
 			'<a href="%s">with line numbers</a>):\n' % (
-				form['query'] if len(form['query']) < 128
-				else form['query'][:128] + '...',
+				htmlescape(form['query'] if len(form['query']) < 128
+				else form['query'][:128] + '...'),
 				maxresults, url, url + ';linenos=1'))
 	try:
 		tmp = CORPORA[engine].trees(form['query'],
@@ -420,8 +420,8 @@ def trees(form):
 				treerepr = DrawTree(tree, sent, highlight=high).text(
 						unicodelines=True, html=True, funcsep='-')
 			except ValueError as err:
-				line = "#%s \nERROR: %s\n%s\n%s\n" % (
-						sentno, err, tree, sent)
+				line = htmlescape("#%s \nERROR: %s\n%s\n%s\n" % (
+						sentno, err, tree, sent))
 			else:
 				line = "#%s [%s]\n%s\n" % (sentno, link, treerepr)
 			yield line
@@ -444,8 +444,8 @@ def sents(form, dobrackets=False):
 			'Sentences (showing up to %d per text; '
 			'export: <a href="%s">plain</a>, '
 			'<a href="%s">with line numbers</a>):\n' % (
-				form['query'] if len(form['query']) < 128
-				else form['query'][:128] + '...',
+				htmlescape(form['query'] if len(form['query']) < 128
+				else form['query'][:128] + '...'),
 				maxresults, url, url + ';linenos=1'))
 	try:
 		tmp = CORPORA[engine].sents(form['query'],
@@ -472,7 +472,7 @@ def sents(form, dobrackets=False):
 			yield '\n%s\n' % text
 			for match, cnt in breakdown.most_common():
 				gotresults = True
-				yield '%5d  %s\n' % (cnt, match)
+				yield '%5d  %s\n' % (cnt, htmlescape(match))
 			continue
 		for m, (_filename, sentno, sent, high1, high2) in enumerate(results):
 			if m == 0:
@@ -487,6 +487,7 @@ def sents(form, dobrackets=False):
 						query=form['query'], engine=engine))))
 			if dobrackets:
 				sent = htmlescape(sent.replace(" )", " -NONE-)"))
+				high1 = htmlescape(high1.replace(" )", " -NONE-)"))
 				out = sent.replace(high1, "<span class=r>%s</span>" % high1)
 			else:
 				out = applyhighlight(sent, high1, high2)
@@ -561,8 +562,8 @@ def fragmentsinresults(form, doexport=False):
 				'in the first %d search results from selected texts;\n'
 				'ordered by (freq ** 0.5 * numwords ** 2) '
 				'<a href="%s">Export</a>):\n'
-				% (form['query'] if len(form['query']) < 128
-					else form['query'][:128] + '...',
+				% (htmlescape(form['query'] if len(form['query']) < 128
+					else form['query'][:128] + '...'),
 					FRAGLIMIT, SENTLIMIT, url))
 	disc = engine != 'tgrep2'
 	if disc:
@@ -819,7 +820,7 @@ def browsesents():
 			queries = querydict(request.args['query'])
 			legend = 'Legend:\t%s\n' % ('\t'.join(
 					'\n<font color=%s>%s</font>' % (COLORS.get(n, 'gray'),
-						query)
+						htmlescape(query))
 					for n, query in enumerate(queries, 1)))
 			resultshighlight = {}
 			for n, (_, query) in enumerate(queries.values()):
@@ -918,7 +919,7 @@ def plot(data, total, title, width=800.0, unit='', dosort=True,
 
 	result = ['<div class=barplot>',
 			('<text style="font-family: sans-serif; font-size: 16px; ">'
-			'%s</text>' % title)]
+			'%s</text>' % htmlescape(title))]
 	if target is not None:
 		data = OrderedDict([(key, data[key]) for key in
 				target.sort_values().index if key in data])
-- 
2.43.0


From e2f202bd720f021ba997da79a222a7fb2cdd30c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:51 +0000
Subject: [PATCH 41/52] fix: escape sentences shown in the web interfaces

---
 web/browse.py     | 15 ++++++++-------
 web/treesearch.py | 22 +++++++++++-----------
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/web/browse.py b/web/browse.py
index 0ab278d..f1954ea 100644
--- a/web/browse.py
+++ b/web/browse.py
@@ -8,6 +8,7 @@ import math
 import logging
 from collections import OrderedDict
 from functools import wraps
+from html import escape as htmlescape
 import matplotlib
 matplotlib.use('AGG')
 import matplotlib.cm as cm
@@ -142,14 +143,14 @@ def requires_auth(f):
 
 
 def applyhighlight(sent, high1, high2, colorvec=None):
-	"""Return a version of sent where given char. indices are highlighted."""
+	"""Return a version of sent where given char. indices are highlighted in HTML."""
 	cur = None
 	start = 0
 	out = []
 	for n, _ in enumerate(sent):
 		if colorvec is not None:
 			if cur != COLORS.get(colorvec[n], 'gray'):
-				out.append(sent[start:n])
+				out.append(htmlescape(sent[start:n]))
 				if cur is not None:
 					out.append('</font>')
 				out.append('<font color=%s>' % COLORS.get(colorvec[n], 'gray'))
@@ -157,7 +158,7 @@ def applyhighlight(sent, high1, high2, colorvec=None):
 				cur = COLORS.get(colorvec[n], 'gray')
 		elif n in high1:
 			if cur != 'red':
-				out.append(sent[start:n])
+				out.append(htmlescape(sent[start:n]))
 				if cur is not None:
 					out.append('</span>')
 				out.append('<span class=r>')
@@ -165,7 +166,7 @@ def applyhighlight(sent, high1, high2, colorvec=None):
 				cur = 'red'
 		elif n in high2:
 			if cur != 'blue':
-				out.append(sent[start:n])
+				out.append(htmlescape(sent[start:n]))
 				if cur is not None:
 					out.append('</span>')
 				out.append('<span class=b>')
@@ -173,11 +174,11 @@ def applyhighlight(sent, high1, high2, colorvec=None):
 				cur = 'blue'
 		else:
 			if cur is not None:
-				out.append(sent[start:n])
+				out.append(htmlescape(sent[start:n]))
 				out.append('</span>')
 				start = n
 				cur = None
-	out.append(sent[start:])
+	out.append(htmlescape(sent[start:]))
 	if cur is not None:
 		out.append('</font>')
 	return ''.join(out)
@@ -261,7 +262,7 @@ def browsesents():
 						' '.join(item.sent), None, None,
 							colorvec=charvalues(item.sent, wordhighlights))
 			else:
-				xsent = ' '.join(item.sent)
+				xsent = htmlescape(' '.join(item.sent))
 			results.append(
 					'<a href="browse?text=%d;sent=%d" '
 					'style="text-decoration: none; color: black;">'
diff --git a/web/treesearch.py b/web/treesearch.py
index 3c34d53..363727a 100644
--- a/web/treesearch.py
+++ b/web/treesearch.py
@@ -497,14 +497,14 @@ def sents(form, dobrackets=False):
 
 
 def applyhighlight(sent, high1, high2, colorvec=None):
-	"""Return a version of sent where given char. indices are highlighted."""
+	"""Return a version of sent where given char. indices are highlighted in HTML."""
 	cur = None
 	start = 0
 	out = []
 	for n, _ in enumerate(sent):
 		if colorvec is not None:
 			if cur != COLORS.get(colorvec[n], 'gray'):
-				out.append(sent[start:n])
+				out.append(htmlescape(sent[start:n]))
 				if cur is not None:
 					out.append('</font>')
 				out.append('<font color=%s>' % COLORS.get(colorvec[n], 'gray'))
@@ -512,7 +512,7 @@ def applyhighlight(sent, high1, high2, colorvec=None):
 				cur = COLORS.get(colorvec[n], 'gray')
 		elif n in high1:
 			if cur != 'red':
-				out.append(sent[start:n])
+				out.append(htmlescape(sent[start:n]))
 				if cur is not None:
 					out.append('</span>')
 				out.append('<span class=r>')
@@ -520,7 +520,7 @@ def applyhighlight(sent, high1, high2, colorvec=None):
 				cur = 'red'
 		elif n in high2:
 			if cur != 'blue':
-				out.append(sent[start:n])
+				out.append(htmlescape(sent[start:n]))
 				if cur is not None:
 					out.append('</span>')
 				out.append('<span class=b>')
@@ -528,11 +528,11 @@ def applyhighlight(sent, high1, high2, colorvec=None):
 				cur = 'blue'
 		else:
 			if cur is not None:
-				out.append(sent[start:n])
+				out.append(htmlescape(sent[start:n]))
 				out.append('</span>')
 				start = n
 				cur = None
-	out.append(sent[start:])
+	out.append(htmlescape(sent[start:]))
 	if cur is not None:
 		out.append('</font>')
 	return ''.join(out)
@@ -810,8 +810,6 @@ def browsesents():
 		filename = filenames[TEXTS[textno]]
 		results = CORPORA[engine].extract(
 				filename, range(start, maxsent), sents=True)
-		# FIXME conflicts w/highlighting
-		# results = [htmlescape(a) for a in results]
 		legend = queryparams = ''
 		if request.args.get('query', ''):
 			queryparams = ';' + urlencode(dict(
@@ -833,9 +831,11 @@ def browsesents():
 						resultshighlight[m - start] = [0] * len(sent)
 					for x in high:
 						resultshighlight[m - start][x] = n + 1
-			for m, high in resultshighlight.items():
-				results[m] = applyhighlight(
-						results[m], set(), set(), colorvec=high)
+		else:
+			resultshighlight = {}
+		results = [applyhighlight(a, set(), set(),
+				colorvec=resultshighlight.get(m))
+				for m, a in enumerate(results)]
 		results = ['<b>%s</b>' % a if n == highlight else a
 				for n, a in enumerate(results, start)]
 		prevlink = '<a id=prev>prev</a>'
-- 
2.43.0


From 488c5eac71920168b9b5267dce4e13a2766e07be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:51 +0000
Subject: [PATCH 42/52] fix: web/browse: check feature argument

---
 web/browse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/web/browse.py b/web/browse.py
index f1954ea..f57d51b 100644
--- a/web/browse.py
+++ b/web/browse.py
@@ -246,6 +246,8 @@ def browsesents():
 		stop = start + chunk
 		filename = os.path.join(CORPUS_DIR, TEXTS[textno] + '.export')
 		feat = request.args.get('feat', next(iter(FILTERS)))
+		if feat not in FILTERS:
+			return 'Invalid argument', 404
 		trees = list(CORPORA[filename].itertrees(start, stop))
 		results = []
 		values = [addsentweight(FILTERS[feat](item))
-- 
2.43.0


From 8a661f24cbca865f7f48c2c4756b4c6c98871174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:04 +0000
Subject: [PATCH 43/52] fix: quote arguments of script in search form

---
 web/templates/search.html | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/web/templates/search.html b/web/templates/search.html
index 085e14d..0d1dc4a 100644
--- a/web/templates/search.html
+++ b/web/templates/search.html
@@ -39,9 +39,9 @@ div.barplot span {
 }
 </style>
 
-<body onLoad="triggerForm('output', '{{ output }}');
-      triggerForm('norm', '{{ form.get('norm', 'sents') }}');
-      triggerForm('engine', '{{ form.get('engine', 'tgrep2') }}'); " >
+<body onLoad='triggerForm("output", {{ output|tojson }});
+      triggerForm("norm", {{ form.get('norm', 'sents')|tojson }});
+      triggerForm("engine", {{ form.get('engine', 'tgrep2')|tojson }}); ' >
 <div class="content">
 <h3>Treebank Search</h3>
 
-- 
2.43.0


From 35b3a999589ee4e21ff9475191f5e30d1392f7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:04 +0000
Subject: [PATCH 44/52] fix: web/parse: cache HTML and text results separately

---
 web/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/web/parse.py b/web/parse.py
index 4274884..77d91f2 100644
--- a/web/parse.py
+++ b/web/parse.py
@@ -110,7 +110,8 @@ def parse():
 		if not block:
 			return 'incorrect block argument'
 
-	key = (senttok, tags, est, marg, objfun, coarse, lang, require, block)
+	key = (senttok, tags, est, marg, objfun, coarse, lang, require, block,
+			html)
 	resp = CACHE.get(key)
 	if resp is None:
 		urlparams = dict(sent=sent, lang=lang, est=est, marg=marg,
-- 
2.43.0


From d9bbbe5022fcbaee831ce6f5c5110e2979d794a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:04 +0000
Subject: [PATCH 45/52] fix: do not disable password protection when password
 file is malformed

---
 web/treesearch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/web/treesearch.py b/web/treesearch.py
index 363727a..f0d2992 100644
--- a/web/treesearch.py
+++ b/web/treesearch.py
@@ -1197,8 +1197,7 @@ try:
 		PASSWD = {a.strip(): b.strip() for a, b
 				in (line.split(':', 1) for line in fileobj)}
 	LOG.info('password protection enabled.')
-except Exception as err:
-	PASSWD = None
+except FileNotFoundError as err:
 	LOG.info('no password protection: %s', err)
 if __name__ == '__main__':
 	APP.run(use_reloader=False,
-- 
2.43.0


From 7446a385652b5836abcfbdf4c1a6b44dfc5b8187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:58 +0000
Subject: [PATCH 46/52] fix: cache results of regex search under interval of
 the query

---
 discodop/treesearch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 322ca20..0c0d986 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -958,8 +958,8 @@ class RegexSearcher(CorpusSearcher):
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
-			for sentno, sent, start, end in future.result():
-				highlight = range(start, end)
+			for sentno, sent, mstart, mend in future.result():
+				highlight = range(mstart, mend)
 				x.append((filename, sentno, sent, highlight, ()))
 			self.cache['sents', query, filename, start, end, True, True
 					] = x, maxresults
-- 
2.43.0


From bea461ff2f104654e39616930115ee6852c52547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:58 +0000
Subject: [PATCH 47/52] fix: reuse cached results of an unlimited search

---
 discodop/treesearch.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 0c0d986..9c99a66 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -357,7 +357,8 @@ class TgrepSearcher(CorpusSearcher):
 						start, end, nofunc, nomorph, detectdisc, mergedisc]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if not maxresults or (
+					maxresults2 is not None and maxresults > maxresults2):
 				jobs[self._submit(
 						lambda x: list(self._query(
 							[query], x, fmt, start, end, maxresults)),
@@ -415,7 +416,8 @@ class TgrepSearcher(CorpusSearcher):
 						start, end, brackets]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if not maxresults or (
+					maxresults2 is not None and maxresults > maxresults2):
 				jobs[self._submit(
 						lambda x: list(self._query(
 							[query], x, fmt, start, end, maxresults)),
@@ -681,7 +683,8 @@ class FragmentSearcher(CorpusSearcher):
 						start, end, nofunc, nomorph, detectdisc, mergedisc]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if not maxresults or (
+					maxresults2 is not None and maxresults > maxresults2):
 				if cquery is None:
 					cquery, bitsets, maxnodes = self._parse_query(
 							query, disc=self.disc)
@@ -733,7 +736,8 @@ class FragmentSearcher(CorpusSearcher):
 						start, end, brackets]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if not maxresults or (
+					maxresults2 is not None and maxresults > maxresults2):
 				if cquery is None:
 					cquery, bitsets, maxnodes = self._parse_query(
 							query, disc=self.disc)
@@ -946,7 +950,8 @@ class RegexSearcher(CorpusSearcher):
 						start, end, True, True]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if not maxresults or (
+					maxresults2 is not None and maxresults > maxresults2):
 				jobs[self._submit(
 						_regex_query if self.numproc == 1 else _regex_query_mp,
 						query, filename, self.fileno[filename],
-- 
2.43.0


From f8246c3dc0ab927c97c0de17a5769cdcc952f79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:29 +0000
Subject: [PATCH 48/52] fix: same limit for new and cached results of fragment
 search

---
 discodop/treesearch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 9c99a66..a1feb5d 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -719,7 +719,7 @@ class FragmentSearcher(CorpusSearcher):
 					x.append((filename, sentno, tree, sent, high))
 			self.cache['trees', query, filename, start, end,
 					nofunc, nomorph, detectdisc, mergedisc] = x, maxresults
-			result.extend(x)
+			result.extend(x[:maxresults])
 		return result
 
 	def sents(self, query, subset=None, start=None, end=None,
@@ -772,7 +772,7 @@ class FragmentSearcher(CorpusSearcher):
 					x.append((filename, sentno, sent, match1, match2))
 			self.cache['sents', query, filename,
 					start, end, brackets] = x, maxresults
-			result.extend(x)
+			result.extend(x[:maxresults])
 		return result
 
 	def extract(self, filename, indices, nofunc=False, nomorph=False,
-- 
2.43.0


From 2032f4962af420b1abe0a61343978111cd05b3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:29 +0000
Subject: [PATCH 49/52] fix: return search results in the order of the files

---
 discodop/treesearch.py | 62 ++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index a1feb5d..9f84ed6 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -291,7 +291,7 @@ class TgrepSearcher(CorpusSearcher):
 
 	def batchcounts(self, queries, subset=None, start=None, end=None):
 		subset = subset or self.files
-		jobs = {}
+		jobs = OrderedDict()
 		# %s the sentence number
 		# %p the number of the matching pattern
 		fmt = r'%s\n%p:::\n'
@@ -302,8 +302,7 @@ class TgrepSearcher(CorpusSearcher):
 						for _, queryno in self._query(
 							queries, x, fmt, start, end, None)).items())],
 					filename)] = filename
-		for future in self._as_completed(jobs):
-			filename = jobs[future]
+		for future, filename in jobs.items():
 			yield filename, future.result()
 
 	def batchsents(self, queries, subset=None, start=None, end=None,
@@ -315,14 +314,13 @@ class TgrepSearcher(CorpusSearcher):
 		# %h the tree matched by the head (first) node of the pattern
 		# %yh %zh the terminal index of the first/last terminal in the match
 		fmt = r'%s\n%w\n%h\n%yh\n%zh:::\n'
-		jobs = {}
+		jobs = OrderedDict()
 		for filename in subset:
 			jobs[self._submit(
 					lambda x: list(self._query(
 						queries, x, fmt, start, end, maxresults)),
 					filename)] = filename
-		for future in self._as_completed(jobs):
-			filename = jobs[future]
+		for future, filename in jobs.items():
 			result = []
 			for sentno, line in future.result():
 				sent, match, begin, end = line.splitlines()
@@ -349,9 +347,10 @@ class TgrepSearcher(CorpusSearcher):
 		# %h the tree matched by the head (first) node of the pattern
 		# %nh the depth-first pre-order node number of the tree head
 		fmt = r'%s\n%w\n%h\n%nh:::\n'
-		result = []
+		result = OrderedDict()
 		jobs = {}
 		for filename in subset:
+			result[filename] = []
 			try:
 				x, maxresults2 = self.cache['trees', query, filename,
 						start, end, nofunc, nomorph, detectdisc, mergedisc]
@@ -364,7 +363,7 @@ class TgrepSearcher(CorpusSearcher):
 							[query], x, fmt, start, end, maxresults)),
 						filename)] = filename
 			else:
-				result.extend(x[:maxresults])
+				result[filename] = x[:maxresults]
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
@@ -397,8 +396,8 @@ class TgrepSearcher(CorpusSearcher):
 				x.append((filename, sentno, tree, sent, high))
 			self.cache['trees', query, filename, start, end,
 					nofunc, nomorph, detectdisc, mergedisc] = x, maxresults
-			result.extend(x)
-		return result
+			result[filename] = x
+		return [a for x in result.values() for a in x]
 
 	def sents(self, query, subset=None, start=None, end=None, maxresults=100,
 			brackets=False):
@@ -408,9 +407,10 @@ class TgrepSearcher(CorpusSearcher):
 		# %h the tree matched by the head (first) node of the pattern
 		# %yh %zh the terminal index of the first/last terminal in the match
 		fmt = r'%s\n%w\n%h\n%yh\n%zh:::\n'
-		result = []
+		result = OrderedDict()
 		jobs = {}
 		for filename in subset:
+			result[filename] = []
 			try:
 				x, maxresults2 = self.cache['sents', query, filename,
 						start, end, brackets]
@@ -423,7 +423,7 @@ class TgrepSearcher(CorpusSearcher):
 							[query], x, fmt, start, end, maxresults)),
 						filename)] = filename
 			else:
-				result.extend(x[:maxresults])
+				result[filename] = x[:maxresults]
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
@@ -444,8 +444,8 @@ class TgrepSearcher(CorpusSearcher):
 				x.append((filename, sentno, sent, match1, match2))
 			self.cache['sents', query, filename,
 					start, end, brackets] = x, maxresults
-			result.extend(x)
-		return result
+			result[filename] = x
+		return [a for x in result.values() for a in x]
 
 	def extract(self, filename, indices, nofunc=False, nomorph=False,
 			detectdisc=True, mergedisc=True, sents=False):
@@ -634,6 +634,7 @@ class FragmentSearcher(CorpusSearcher):
 				else:
 					result[filename] = sum(tmp)
 			except KeyError:
+				result[filename] = None
 				if cquery is None:
 					cquery, bitsets, maxnodes = self._parse_query(
 							query, disc=self.disc)
@@ -654,7 +655,7 @@ class FragmentSearcher(CorpusSearcher):
 
 	def batchcounts(self, queries, subset=None, start=None, end=None):
 		subset = subset or self.files
-		jobs = {}
+		jobs = OrderedDict()
 		if self.macros is not None:
 			queries = [query.format(**self.macros) for query in queries]
 		cqueries, bitsets, maxnodes = self._parse_query(queries, disc=self.disc)
@@ -665,8 +666,7 @@ class FragmentSearcher(CorpusSearcher):
 					cqueries, bitsets, maxnodes, filename, self.vocabpath,
 					start, end, None, indices=False, trees=False,
 					)] = filename
-		for future in self._as_completed(jobs):
-			filename = jobs[future]
+		for future, filename in jobs.items():
 			yield filename, future.result()
 
 	def trees(self, query, subset=None, start=None, end=None, maxresults=10,
@@ -674,10 +674,11 @@ class FragmentSearcher(CorpusSearcher):
 		subset = subset or self.files
 		if self.macros is not None:
 			query = query.format(**self.macros)
-		result = []
+		result = OrderedDict()
 		jobs = {}
 		cquery = None
 		for filename in subset:
+			result[filename] = []
 			try:
 				x, maxresults2 = self.cache['trees', query, filename,
 						start, end, nofunc, nomorph, detectdisc, mergedisc]
@@ -694,7 +695,7 @@ class FragmentSearcher(CorpusSearcher):
 						start, end, maxresults, indices=True, trees=True,
 						)] = filename
 			else:
-				result.extend(x[:maxresults])
+				result[filename] = x[:maxresults]
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
@@ -719,18 +720,19 @@ class FragmentSearcher(CorpusSearcher):
 					x.append((filename, sentno, tree, sent, high))
 			self.cache['trees', query, filename, start, end,
 					nofunc, nomorph, detectdisc, mergedisc] = x, maxresults
-			result.extend(x[:maxresults])
-		return result
+			result[filename] = x[:maxresults]
+		return [a for x in result.values() for a in x]
 
 	def sents(self, query, subset=None, start=None, end=None,
 			maxresults=100, brackets=False):
 		subset = subset or self.files
 		if self.macros is not None:
 			query = query.format(**self.macros)
-		result = []
+		result = OrderedDict()
 		jobs = {}
 		cquery = None
 		for filename in subset:
+			result[filename] = []
 			try:
 				x, maxresults2 = self.cache['sents', query, filename,
 						start, end, brackets]
@@ -747,7 +749,7 @@ class FragmentSearcher(CorpusSearcher):
 						start, end, maxresults, indices=True, trees=True,
 						)] = filename
 			else:
-				result.extend(x[:maxresults])
+				result[filename] = x[:maxresults]
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
@@ -772,8 +774,8 @@ class FragmentSearcher(CorpusSearcher):
 					x.append((filename, sentno, sent, match1, match2))
 			self.cache['sents', query, filename,
 					start, end, brackets] = x, maxresults
-			result.extend(x[:maxresults])
-		return result
+			result[filename] = x[:maxresults]
+		return [a for x in result.values() for a in x]
 
 	def extract(self, filename, indices, nofunc=False, nomorph=False,
 			detectdisc=True, mergedisc=False, sents=False):
@@ -923,6 +925,7 @@ class RegexSearcher(CorpusSearcher):
 						'counts', query, filename, start, end, indices, False,
 						breakdown]
 			except KeyError:
+				result[filename] = None
 				jobs[self._submit(
 						_regex_run_query,
 						pattern, filename, self.fileno[filename],
@@ -942,9 +945,10 @@ class RegexSearcher(CorpusSearcher):
 		subset = subset or self.files
 		if self.macros is not None:
 			query = query.format(**self.macros)
-		result = []
+		result = OrderedDict()
 		jobs = {}
 		for filename in subset:
+			result[filename] = []
 			try:
 				x, maxresults2 = self.cache['sents', query, filename,
 						start, end, True, True]
@@ -959,7 +963,7 @@ class RegexSearcher(CorpusSearcher):
 						True, True,
 						)] = filename
 			else:
-				result.extend(x[:maxresults])
+				result[filename] = x[:maxresults]
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
@@ -968,8 +972,8 @@ class RegexSearcher(CorpusSearcher):
 				x.append((filename, sentno, sent, highlight, ()))
 			self.cache['sents', query, filename, start, end, True, True
 					] = x, maxresults
-			result.extend(x)
-		return result
+			result[filename] = x
+		return [a for x in result.values() for a in x]
 
 	def trees(self, query, subset=None, start=None, end=None, maxresults=10,
 			nofunc=False, nomorph=False, detectdisc=True, mergedisc=True):
-- 
2.43.0


From 3d9b5ab1136698909b6aa5d5b2cc76195228c65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:56 +0000
Subject: [PATCH 50/52] fix: do not overwrite interval of query in tgrep2
 search

---
 discodop/treesearch.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 9f84ed6..cb5fda3 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -323,17 +323,17 @@ class TgrepSearcher(CorpusSearcher):
 		for future, filename in jobs.items():
 			result = []
 			for sentno, line in future.result():
-				sent, match, begin, end = line.splitlines()
+				sent, match, left, right = line.splitlines()
 				if brackets:
 					match1 = match
 					match2 = ''
 				else:
-					begin, end = int(begin) - 1, int(end)
+					left, right = int(left) - 1, int(right)
 					tokens = [ptbunescape(token)
 							for token in GETLEAVES.findall(sent)]
 					sent = ' '.join(tokens)
-					prelen = len(' '.join(tokens[:begin]))
-					match = ' '.join(tokens[begin:end])
+					prelen = len(' '.join(tokens[:left]))
+					match = ' '.join(tokens[left:right])
 					match1 = set(range(prelen, prelen + len(match) + 1))
 					match2 = set()
 				result.append((sentno, sent, match1, match2))
@@ -428,17 +428,17 @@ class TgrepSearcher(CorpusSearcher):
 			filename = jobs[future]
 			x = []
 			for sentno, line in future.result():
-				sent, match, begin, end = line.splitlines()
+				sent, match, left, right = line.splitlines()
 				if brackets:
 					match1 = match
 					match2 = ''
 				else:
-					begin, end = int(begin) - 1, int(end)
+					left, right = int(left) - 1, int(right)
 					tokens = [ptbunescape(token)
 							for token in GETLEAVES.findall(sent)]
 					sent = ' '.join(tokens)
-					prelen = len(' '.join(tokens[:begin]))
-					match = ' '.join(tokens[begin:end])
+					prelen = len(' '.join(tokens[:left]))
+					match = ' '.join(tokens[left:right])
 					match1 = set(range(prelen, prelen + len(match) + 1))
 					match2 = set()
 				x.append((filename, sentno, sent, match1, match2))
-- 
2.43.0


From e0cc86790eb0a16aa09c2d50414257d603311877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:56 +0000
Subject: [PATCH 51/52] fix: include sentence in key of cached parses

---
 web/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/parse.py b/web/parse.py
index 77d91f2..e26fe4d 100644
--- a/web/parse.py
+++ b/web/parse.py
@@ -110,7 +110,7 @@ def parse():
 		if not block:
 			return 'incorrect block argument'
 
-	key = (senttok, tags, est, marg, objfun, coarse, lang, require, block,
+	key = (sent, senttok, tags, est, marg, objfun, coarse, lang, require, block,
 			html)
 	resp = CACHE.get(key)
 	if resp is None:
-- 
2.43.0


From dbfc15a89ae36bb0b6ffbbe3d42bed6fc86000f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:31 +0000
Subject: [PATCH 52/52] fix: pass on parameters to worker processes

---
 discodop/fragments.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index 20dd665..8f3f85e 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -32,6 +32,9 @@ FLAGS = ('approx', 'indices', 'nofreq', 'complete', 'alt',
 		'relfreq', 'adjacent', 'debin', 'debug', 'quiet', 'help')
 OPTIONS = ('fmt=', 'numproc=', 'numtrees=', 'encoding=', 'batch=', 'cover=',
 		'twoterms=')
+# the parameters needed in worker processes
+WORKERPARAMS = ('fmt', 'disc', 'indices', 'approx', 'complete', 'debug',
+		'adjacent', 'twoterms')
 PARAMS = {}
 FRONTIERRE = re.compile(r'\(([^ ()]+) \)')  # for altrepr()
 TERMRE = re.compile(r'\(([^ ()]+) ([^ ()]+)\)')  # for altrepr()
@@ -136,18 +139,20 @@ def regular(filenames, numproc, limit, encoding):
 		fragments = defaultdict(int)
 	else:
 		fragments = {}
+	# worker processes do not necessarily inherit the parameters
+	params = {key: PARAMS[key] for key in WORKERPARAMS}
 	# detect corpus reading errors in this process (e.g., wrong encoding)
 	initworker(
 			filenames[0],
 			filenames[1] if len(filenames) == 2 else None,
-			limit, encoding)
+			limit, encoding, params)
 	if numproc == 1:
 		mymap, myworker = map, worker
 	else:  # multiprocessing, start worker processes
 		pool = multiprocessing.Pool(
 				processes=numproc, initializer=initworker,
 				initargs=(filenames[0], filenames[1] if len(filenames) == 2
-					else None, limit, encoding))
+					else None, limit, encoding, params))
 		mymap, myworker = pool.imap, mpworker
 	numtrees = (PARAMS['trees1'].len if limit is None
 			else min(PARAMS['trees1'].len, limit))
@@ -292,11 +297,14 @@ def read2ndtreebank(filename2, vocab, fmt='bracket',
 	return dict(trees2=trees2, vocab=vocab)
 
 
-def initworker(filename1, filename2, limit, encoding):
+def initworker(filename1, filename2, limit, encoding, params=()):
 	"""Read treebanks for this worker.
 
 	We do this separately for each process under the assumption that this is
-	advantageous with a NUMA architecture."""
+	advantageous with a NUMA architecture.
+
+	:param params: the parameters for this worker; cf. ``WORKERPARAMS``."""
+	PARAMS.update(params)
 	PARAMS.update(readtreebanks(filename1, filename2,
 			limit=limit, fmt=PARAMS['fmt'], encoding=encoding))
 	trees1 = PARAMS['trees1']
@@ -326,8 +334,11 @@ def initworker(filename1, filename2, limit, encoding):
 	logging.info('%s%r', m, PARAMS['vocab'])
 
 
-def initworkersimple(trees, sents, trees2=None, sents2=None):
-	"""Initialization for a worker in which a treebank was already loaded."""
+def initworkersimple(trees, sents, trees2=None, sents2=None, params=()):
+	"""Initialization for a worker in which a treebank was already loaded.
+
+	:param params: the parameters for this worker; cf. ``WORKERPARAMS``."""
+	PARAMS.update(params)
 	PARAMS.update(_fragments.getctrees(zip(trees, sents),
 			None if trees2 is None else zip(trees2, sents2)))
 	assert PARAMS['trees1'], PARAMS['trees1']
@@ -441,9 +452,9 @@ def recurringfragments(trees, sents, numproc=1, disc=True,
 	fragments = {}
 	trees = trees[:]
 	work = workload(numtrees, mult, numproc)
-	PARAMS.update(disc=disc, indices=indices, approx=False, complete=False,
+	params = dict(disc=disc, indices=indices, approx=False, complete=False,
 			debug=False, adjacent=False, twoterms=None)
-	initworkersimple(trees, list(sents))
+	initworkersimple(trees, list(sents), None, None, params)
 	if numproc == 1:
 		mymap, myworker = map, worker
 	else:
@@ -453,7 +464,7 @@ def recurringfragments(trees, sents, numproc=1, disc=True,
 		# start worker processes
 		pool = multiprocessing.Pool(
 				processes=numproc, initializer=initworkersimple,
-				initargs=(trees, list(sents)))
+				initargs=(trees, list(sents), None, None, params))
 		mymap, myworker = pool.map, mpworker
 	# collect recurring fragments
 	logging.info('extracting recurring fragments')
-- 
2.43.0

