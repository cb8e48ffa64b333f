T = 'discodop/treesearch.py'
F = 'discodop/fragments.py'
R = 'discodop/runexp.py'
P = 'discodop/parser.py'
LOOP = "		for future in self._as_completed(jobs):\n			filename = jobs[future]\n			x = []\n			for sentno, line in future.result():\n				treestr"
BC = "		for future, filename in jobs.items():\n			yield filename, future.result()\n"
CASES = [
('bug', 'imap', [(F, "mymap, myworker = pool.imap, mpworker", "mymap, myworker = pool.imap_unordered, mpworker")]),
('bug', 'imap2', [(F, "mymap, myworker = pool.map, mpworker", "mymap, myworker = pool.imap_unordered, mpworker")]),
('bug', 'pimap', [(P, "mymap, myworker = pool.map, mpworker", "mymap, myworker = pool.imap_unordered, mpworker")]),
('bug', 'batch', [(T, BC, "		for future in self._as_completed(jobs):\n			yield jobs[future], future.result()\n")]),
('bug', 'prefill', [(T, "			result[filename] = []\n			try:\n				x, maxresults2 = self.cache['trees', query, filename,", "			try:\n				x, maxresults2 = self.cache['trees', query, filename,")]),
('bug', 'append', [(T, "			self.cache['sents', query, filename, start, end, True, True\n					] = x, maxresults\n			result[filename] = x\n		return [a for x in result.values() for a in x]", "			self.cache['sents', query, filename, start, end, True, True\n					] = x, maxresults\n			found.extend(x)\n		return found + [a for x in result.values() for a in x]"), (T, "		result = OrderedDict()\n		jobs = {}\n		for filename in subset:\n			result[filename] = []\n			try:\n				x, maxresults2 = self.cache['sents', query, filename,\n						start, end, True, True]", "		result = OrderedDict()\n		found = []\n		jobs = {}\n		for filename in subset:\n			result[filename] = []\n			try:\n				x, maxresults2 = self.cache['sents', query, filename,\n						start, end, True, True]")]),
('bug', 'closure', [(T, "				sent, match, left, right = line.splitlines()\n				if brackets:\n					match1 = match\n					match2 = ''\n				else:\n					left, right = int(left) - 1, int(right)", "				sent, match, left, end = line.splitlines()\n				if brackets:\n					match1 = match\n					match2 = ''\n				else:\n					left, right = int(left) - 1, int(end)")]),
('bug', 'late', [(T, "						lambda x: [n for n, _ in self._query(\n							[query], x, fmt, start, end, None)],\n						filename)]", "						lambda: [n for n, _ in self._query(\n							[query], filename, fmt, start, end, None)],\n						)]")]),
('bug', 'nsent', [(R, "results[n].parsetrees[sentid] = result.parsetree", "results[n].parsetrees[nsent] = result.parsetree")]),
('bug', 'break', [(T, "			self.cache['sents', query, filename, start, end, True, True\n					] = x, maxresults\n			result[filename] = x\n", "			self.cache['sents', query, filename, start, end, True, True\n					] = x, maxresults\n			result[filename] = x\n			if maxresults and sum(map(len, result.values())) > maxresults:\n				break\n")]),
('bug', 'wrapper', [(T, "			queries, bitsets, maxnodes, filename, vocabpath, start, end,\n			maxresults, indices, trees)", "			queries, bitsets, maxnodes, filename, vocabpath, start, end,\n			maxresults, trees, indices)")]),
('bug', 'wrapper2', [(T, "			start, end, maxresults, indices, sents, breakdown)\n\n\ndef _regex_query(", "			start, end, maxresults, indices, sents)\n\n\ndef _regex_query(")]),
('bug', 'wrapper3', [(F, "	return exactcountworker(args)", "	return worker(args)")]),
('bug', 'init', [(P, "				initargs=(parser, printprob, usetags, numparses, fmt,\n					morphology))", "				initargs=(parser, printprob, usetags, 1, fmt,\n					morphology))")]),
('bug', 'init2', [(F, "				initargs=(filenames[0], filenames[1] if len(filenames) == 2\n					else None, limit, encoding, params))", "				initargs=(filenames[0], filenames[1] if len(filenames) == 2\n					else None, None, encoding, params))")]),
('bug', 'chunk', [(F, "		countchunk = len(bitsets) // numproc + 1\n", "		countchunk = len(bitsets) // numproc\n")]),
('bug', 'chunk2', [(T, "max(int(len(patterns) / (self.numproc * 4)), 1)", "int(len(patterns) / (self.numproc * 4))")]),
('bug', 'chunk3', [(F, "		work = [(n, len(work), bitsets[a:a + countchunk])", "		work = [(n, len(work), bitsets[a:a + countchunk - 1])")]),
('bug', 'chunk4', [(F, "range(0, numtrees, chunk)]", "range(1, numtrees, chunk)]")]),
('bug', 'chunk5', [(T, "		chunkedpatterns = [patterns[n:n + chunksize]\n				for n in range(0, len(patterns), chunksize)]", "		chunkedpatterns = [patterns[n:n + chunksize]\n				for n in range(0, len(queries) - 1, chunksize)]")]),
('bug', 'rest', [(F, "	if last < numtrees:\n		result.append((last, numtrees))\n", "")]),
('bug', 'rest2', [(F, "			result.append((last, n))\n			last = n\n", "			result.append((last, n))\n			last = n + 1\n")]),
('bug', 'rest3', [(F, "			result.append((last, n))\n			last = n\n", "			if last:\n				result.append((last, n))\n			last = n\n")]),
('bug', 'lambda', [(T, "						_regex_query if self.numproc == 1 else _regex_query_mp,\n						query,", "						lambda *a: _regex_query(*a),\n						query,")]),
('bug', 'work', [(R, "dowork = (worker(a) for a in params.testset.items())", "dowork = (worker(a) for a in params.testset.values())")]),
('bug', 'last', [(R, "	writeresults(results, params)\n	return results", "	logging.info(sent)\n	writeresults(results, params)\n	return sent")]),
('same', 'futures', [(T, LOOP, "		done = self._as_completed(jobs)\n		for job in done:\n			filename = jobs[job]\n			x = []\n			for sentno, line in job.result():\n				treestr")]),
('same', 'dict', [(T, "			x = []\n			for sentno, sent, mstart, mend in future.result():\n				highlight = range(mstart, mend)\n				x.append((filename, sentno, sent, highlight, ()))\n			self.cache['sents', query, filename, start, end, True, True\n					] = x, maxresults\n			result[filename] = x\n", "			result[filename] = [(filename, sentno, sent,\n					range(mstart, mend), ())\n					for sentno, sent, mstart, mend in future.result()]\n			self.cache['sents', query, filename, start, end, True, True\n					] = result[filename], maxresults\n")]),
('same', 'sorted', [(T, BC, "		found = []\n		order = list(subset)\n		for future in self._as_completed(jobs):\n			found.append((order.index(jobs[future]), jobs[future],\n					future.result()))\n		for _, filename, counts in sorted(found):\n			yield filename, counts\n")]),
('same', 'sort2', [(T, BC, "		found = []\n		order = list(subset)\n		for future in self._as_completed(jobs):\n			found.append((order.index(jobs[future]), jobs[future],\n					future.result()))\n		found.sort()\n		for _, filename, counts in found:\n			yield filename, counts\n")]),
('same', 'map', [(R, "		dowork = pool.imap_unordered(\n				mpworker, params.testset.items())", "		dowork = pool.imap(mpworker, params.testset.items())")]),
('same', 'mapchunk', [(R, "		dowork = pool.imap_unordered(\n				mpworker, params.testset.items())", "		dowork = pool.imap_unordered(\n				mpworker, list(params.testset.items()), chunksize=1)")]),
('same', 'neq', [(P, "	if numproc == 1:\n		initworker(parser, printprob, usetags, numparses, fmt, morphology)\n		mymap, myworker = map, worker\n	else:\n		pool = multiprocessing.Pool(\n				processes=numproc, initializer=initworker,\n				initargs=(parser, printprob, usetags, numparses, fmt,\n					morphology))\n		mymap, myworker = pool.map, mpworker", "	args = (parser, printprob, usetags, numparses, fmt, morphology)\n	if numproc > 1:\n		pool = multiprocessing.Pool(\n				processes=numproc, initializer=initworker,\n				initargs=args)\n		mymap, myworker = pool.map, mpworker\n	else:\n		initworker(*args)\n		mymap, myworker = map, worker")]),
('same', 'secondfile', [(F, "	# detect corpus reading errors in this process (e.g., wrong encoding)\n	initworker(\n			filenames[0],\n			filenames[1] if len(filenames) == 2 else None,\n			limit, encoding, params)", "	# detect corpus reading errors in this process (e.g., wrong encoding)\n	secondfile = filenames[1] if len(filenames) == 2 else None\n	initworker(filenames[0], secondfile, limit, encoding, params)"), (F, "				initargs=(filenames[0], filenames[1] if len(filenames) == 2\n					else None, limit, encoding, params))", "				initargs=(filenames[0], secondfile, limit, encoding, params))")]),
('same', 'wrapperkw', [(T, "	return _frag_query(\n			queries, bitsets, maxnodes, filename, vocabpath, start, end,\n			maxresults, indices, trees)", "	result = _frag_query(\n			queries, bitsets, maxnodes, filename, vocabpath, start=start,\n			end=end, maxresults=maxresults, indices=indices, trees=trees)\n	return result")]),
('same', 'loopchunk', [(T, "		chunkedpatterns = [patterns[n:n + chunksize]\n				for n in range(0, len(patterns), chunksize)]\n		result = OrderedDict((name, [])\n				for name in subset or self.files)\n		for filename in subset or self.files:\n			result = array", "		chunkedpatterns = []\n		for n in range(0, len(patterns), chunksize):\n			chunkedpatterns.append(patterns[n:n + chunksize])\n		for filename in subset or self.files:\n			result = array")]),
('same', 'bcomp', [(T, BC, "		yield from ((filename, future.result())\n				for future, filename in jobs.items())\n")]),
('same', 'msg', [(R, "			msg = result.msg\n			scores = ", "			msg = '%d. %s' % (nsent, result.msg)\n			scores = ")]),
('same', 'workload', [(F, "	result = []\n	last = 0\n	for n in range(1, numtrees):\n		togo -= numtrees - n\n		if togo <= goal:\n			goal -= chunk\n			result.append((last, n))\n			last = n\n	if last < numtrees:\n		result.append((last, numtrees))\n	return result", "	intervals = []\n	begin = 0\n	for end in range(1, numtrees):\n		togo -= numtrees - end\n		if togo > goal:\n			continue\n		goal -= chunk\n		intervals.append((begin, end))\n		begin = end\n	if begin < numtrees:\n		intervals.append((begin, numtrees))\n	return intervals")]),
('bug', 'm zip', [('discodop/treesearch.py', '\t\tfor future, filename in jobs.items():\n\t\t\tyield filename, future.result()\n\n\tdef trees(self, query, subset=None, start=None, end=None, maxresults=10,\n\t\t\tnofunc=False, nomorph=False, detectdisc=True, mergedisc=False):\n\t\tsubset = subset or self.files\n\t\tif self.macros is not None:\n\t\t\tquery = query.format(**self.macros)\n\t\tresult = OrderedDict()\n\t\tjobs = {}\n\t\tcquery = None\n', '\t\tfor future, filename in zip(self._as_completed(jobs), jobs.values()):\n\t\t\tyield filename, future.result()\n\n\tdef trees(self, query, subset=None, start=None, end=None, maxresults=10,\n\t\t\tnofunc=False, nomorph=False, detectdisc=True, mergedisc=False):\n\t\tsubset = subset or self.files\n\t\tif self.macros is not None:\n\t\t\tquery = query.format(**self.macros)\n\t\tresult = OrderedDict()\n\t\tjobs = {}\n\t\tcquery = None\n')]),
('bug', 'm approxover', [('discodop/fragments.py', '\t\t\t\tfor frag, x in results.items():\n\t\t\t\t\tfragments[frag] += x\n\t\t\telse:', '\t\t\t\tfragments.update(results)\n\t\t\telse:')]),
('bug', 'm approxset', [('discodop/fragments.py', '\t\t\t\t\tfragments[frag] += x', '\t\t\t\t\tfragments[frag] = x')]),
('bug', 'm countsort', [('discodop/fragments.py', "\t\tcounts = []\n\t\tlogging.info('getting exact %s', task)\n\t\tfor a in mymap(\n\t\t\t\texactcountworker if numproc == 1 else mpexactcountworker, work):", "\t\tcounts = []\n\t\tlogging.info('getting exact %s', task)\n\t\tfor a in mymap(\n\t\t\t\texactcountworker if numproc == 1 else mpexactcountworker, sorted(work, key=lambda x: -len(x[2]))):")]),
('bug', 'm reversedwork', [('discodop/fragments.py', '\t\tfor a in mymap(\n\t\t\t\texactcountworker if numproc == 1 else mpexactcountworker, work):\n\t\t\tcounts.extend(a)\n\tif PARAMS', '\t\tfor a in mymap(\n\t\t\t\texactcountworker if numproc == 1 else mpexactcountworker, work[::-1]):\n\t\t\tcounts.extend(a)\n\tif PARAMS')]),
('bug', 'm keysreorder', [('discodop/fragments.py', '\tfragmentkeys = list(fragments)\n\tbitsets = [fragments[a] for a in fragmentkeys]\n\tcountchunk', '\tfragmentkeys = list(fragments)\n\tbitsets = sorted(fragments.values(), key=len)\n\tcountchunk')]),
('bug', 'm workercond', [('discodop/fragments.py', "\tif PARAMS['complete']:\n\t\tresults = _fragments.exactcounts(bitsets", "\tif PARAMS['complete'] and m == 1:\n\t\tresults = _fragments.exactcounts(bitsets")]),
('bug', 'm workerfirst', [('discodop/fragments.py', '\tassert offset < trees1.len\n\tresult = {}', '\tassert offset < trees1.len\n\tend = end or trees1.len\n\tif offset:\n\t\toffset -= 1\n\tresult = {}')]),
('bug', 'm evalorder', [('discodop/runexp.py', '\tfor nsent, data in enumerate(dowork, 1):\n\t\tsentid, sent, sentresults = data\n', '\tfor (sentid, _), data in zip(params.testset.items(), dowork):\n\t\t_sentid, sent, sentresults = data\n\t\tnsent = 0\n')]),
('bug', 'm workerstate', [('discodop/runexp.py', '\t\t\tif result.noparse:\n\t\t\t\tresults[n].noparse += 1', '\t\t\tif result.noparse and sentid == nsent:\n\t\t\t\tresults[n].noparse += 1')]),
('bug', 'm chunksize', [('discodop/parser.py', '\tfor output, noparse, sec, msg in mymap(myworker, infile):', '\tfor output, noparse, sec, msg in mymap(myworker, list(infile)[:numproc * 1000]):')]),
('bug', 'm sharedenum', [('discodop/treesearch.py', "\t\tfor future in self._as_completed(jobs):\n\t\t\tfilename = jobs[future]\n\t\t\tself.cache['counts', query, filename, start, end, indices,\n\t\t\t\t\tbreakdown] = result[filename] = future.result()\n\t\treturn result\n\n\tdef batchcounts(self, queries, subset=None, start=None, end=None):\n\t\tsubset = subset or self.files\n\t\tjobs = OrderedDict()\n\t\t# %s", "\t\tfor filename, future in zip(result, self._as_completed(jobs)):\n\t\t\tself.cache['counts', query, filename, start, end, indices,\n\t\t\t\t\tbreakdown] = result[filename] = future.result()\n\t\treturn result\n\n\tdef batchcounts(self, queries, subset=None, start=None, end=None):\n\t\tsubset = subset or self.files\n\t\tjobs = OrderedDict()\n\t\t# %s")]),
('bug', 'm numprocmax', [('discodop/treesearch.py', '\t\t\t\t\t\tstart, end, maxresults, indices=True, trees=True,\n\t\t\t\t\t\t)] = filename\n\t\t\telse:\n\t\t\t\tresult[filename] = x[:maxresults]\n\t\tfor future in self._as_completed(jobs):\n\t\t\tfilename = jobs[future]\n\t\t\tx = []\n\t\t\tfor matches in', '\t\t\t\t\t\tstart, end, maxresults // self.numproc, indices=True, trees=True,\n\t\t\t\t\t\t)] = filename\n\t\t\telse:\n\t\t\t\tresult[filename] = x[:maxresults]\n\t\tfor future in self._as_completed(jobs):\n\t\t\tfilename = jobs[future]\n\t\t\tx = []\n\t\t\tfor matches in')]),
('bug', 'm resultonly', [('discodop/treesearch.py', '\t\t\t\t\tnofunc, nomorph, detectdisc, mergedisc] = x, maxresults\n\t\t\tresult[filename] = x\n', '\t\t\t\t\tnofunc, nomorph, detectdisc, mergedisc] = x, maxresults\n\t\t\tresult.pop(filename)\n\t\t\tresult[filename] = x\n')]),
('same', 'approxcontinue', [('discodop/fragments.py', "\t\t\tif PARAMS['approx']:\n\t\t\t\tfor frag, x in results.items():\n\t\t\t\t\tfragments[frag] += x\n\t\t\telse:\n\t\t\t\tfragments.update(results)", "\t\t\tif not PARAMS['approx']:\n\t\t\t\tfragments.update(results)\n\t\t\t\tcontinue\n\t\t\tfor frag, x in results.items():\n\t\t\t\tfragments[frag] = fragments[frag] + x")]),
('same', 'approxlocal', [('discodop/fragments.py', "\tmult = 1\n\tif PARAMS['approx']:", "\tmult = 1\n\tapprox = PARAMS['approx']\n\tif approx:"), ('discodop/fragments.py', "\t\t\tif PARAMS['approx']:\n\t\t\t\tfor frag, x in results.items():", '\t\t\tif approx:\n\t\t\t\tfor frag, x in results.items():')]),
('same', 'sortkeys', [('discodop/fragments.py', '\tfragmentkeys = list(fragments)\n\tbitsets = [fragments[a] for a in fragmentkeys]\n\tcountchunk', '\tfragmentkeys = sorted(fragments)\n\tbitsets = [fragments[a] for a in fragmentkeys]\n\tcountchunk')]),
('same', 'countsaug', [('discodop/fragments.py', '\t\tfor a in mymap(\n\t\t\t\texactcountworker if numproc == 1 else mpexactcountworker, work):\n\t\t\tcounts.extend(a)\n\tif PARAMS', '\t\tdowork = mymap(\n\t\t\t\texactcountworker if numproc == 1 else mpexactcountworker, work)\n\t\tfor a in dowork:\n\t\t\tcounts += a\n\tif PARAMS')]),
('same', 'items', [('discodop/fragments.py', '\tfragmentkeys = list(fragments)\n\tbitsets = [fragments[a] for a in fragmentkeys]\n\tcountchunk', '\tfragmentkeys, bitsets = [], []\n\tfor key, value in fragments.items():\n\t\tfragmentkeys.append(key)\n\t\tbitsets.append(value)\n\tcountchunk')]),
('same', 'workermsg', [('discodop/fragments.py', '\tn, m, bitsets = args\n\ttrees1', "\tn, m, bitsets = args\n\tmsg = 'chunk %d of %d' % (n + 1, m)\n\tlogging.debug(msg)\n\ttrees1")]),
('same', 'nsentlog', [('discodop/runexp.py', '\t\tlogging.debug(msg)\n\tif params.numproc != 1:', "\t\tif nsent % 100 == 0:\n\t\t\tlogging.debug('parsed %d sentences', nsent)\n\t\tlogging.debug(msg)\n\tif params.numproc != 1:")]),
('same', 'clamp', [('discodop/fragments.py', '\tassert offset < trees1.len\n', '\tassert offset < trees1.len\n\tend = min(end, trees1.len) if end else 0\n')]),
('same', 'twoloops', [('discodop/fragments.py', "\t\tfor results in dowork:\n\t\t\tif PARAMS['approx']:\n\t\t\t\tfor frag, x in results.items():\n\t\t\t\t\tfragments[frag] += x\n\t\t\telse:\n\t\t\t\tfragments.update(results)", "\t\tif PARAMS['approx']:\n\t\t\tfor results in dowork:\n\t\t\t\tfor frag, x in results.items():\n\t\t\t\t\tfragments[frag] += x\n\t\telse:\n\t\t\tfor results in dowork:\n\t\t\t\tfragments.update(results)")]),
('same', 'counter', [('discodop/fragments.py', "\t\t\tif PARAMS['approx']:\n\t\t\t\tfor frag, x in results.items():\n\t\t\t\t\tfragments[frag] += x\n\t\t\telse:\n\t\t\t\tfragments.update(results)", '\t\t\tfragments.update(results)'), ('discodop/fragments.py', '\t\tfragments = defaultdict(int)\n\telse:\n\t\tfragments = {}\n\t# worker', '\t\tfragments = Counter()\n\telse:\n\t\tfragments = {}\n\t# worker'), ('discodop/fragments.py', 'from collections import defaultdict', 'from collections import defaultdict, Counter')]),
('same', 'loghelper', [('discodop/fragments.py', "\tif PARAMS['indices']:\n\t\tlogging.debug('exact indices chunk %d of %d', n + 1, m)\n\telse:\n\t\tlogging.debug('exact counts chunk %d of %d', n + 1, m)\n\treturn results", "\t_progress(n + 1, m)\n\treturn results\n\n\ndef _progress(n, m):\n\tif PARAMS['indices']:\n\t\tlogging.debug('exact indices chunk %d of %d', n, m)\n\t\treturn\n\tlogging.debug('exact counts chunk %d of %d', n, m)")]),
]
