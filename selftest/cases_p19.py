T = 'discodop/treesearch.py'
P = 'web/parse.py'
G = 'discodop/grammar.py'
TD = 'discodop/treedist.py'
STG = "			self.cache['trees', query, filename, start, end,\n					nofunc, nomorph, detectdisc, mergedisc] = x, maxresults\n			result[filename] = x\n"
LKG = "				x, maxresults2 = self.cache['trees', query, filename,\n						start, end, nofunc, nomorph, detectdisc, mergedisc]\n"
CASES = [
('bug', 'nonofunc', [(T, LKG, LKG.replace('nofunc, ', '')), (T, STG, STG.replace('nofunc, ', ''))]),
('bug', 'nodisc', [(T, LKG, LKG.replace('detectdisc, ', '')), (T, STG, STG.replace('detectdisc, ', ''))]),
('bug', 'swap', [(T, LKG, LKG.replace('nofunc, nomorph', 'nomorph, nofunc'))]),
('bug', 'nostart', [(T, LKG, LKG.replace('start, end, ', '')), (T, STG, STG.replace('start, end,', ''))]),
('bug', 'nobrackets', [(T, "				x, maxresults2 = self.cache['sents', query, filename,\n						start, end, brackets]\n", "				x, maxresults2 = self.cache['sents', query, filename,\n						start, end]\n"), (T, "			self.cache['sents', query, filename,\n					start, end, brackets] = x, maxresults\n			result[filename] = x\n", "			self.cache['sents', query, filename,\n					start, end] = x, maxresults\n			result[filename] = x\n")]),
('bug', 'noindices', [(T, "				tmp = self.cache[\n						'counts', query, filename, start, end, indices]", "				tmp = self.cache[\n						'counts', query, filename, start, end]"), (T, "self.cache['counts', query, filename, start, end, indices] = tmp", "self.cache['counts', query, filename, start, end] = tmp")]),
('bug', 'nohtml', [(P, "require, block,\n			html)", "require, block)")]),
('bug', 'notags', [(P, "sent, senttok, tags, est, marg", "senttok, est, marg")]),
('bug', 'noest', [(P, "tags, est, marg, objfun", "tags, marg, objfun")]),
('bug', 'nofile', [(T, "			self.cache['sents', query, filename, start, end, True, True\n					] = x, maxresults", "			self.cache['sents', query, start, end, True, True\n					] = x, maxresults"), (T, "				x, maxresults2 = self.cache['sents', query, filename,\n						start, end, True, True]", "				x, maxresults2 = self.cache['sents', query,\n						start, end, True, True]")]),
('bug', 'limit', [(T, "			if not maxresults or (\n					maxresults2 is not None and maxresults > maxresults2):\n				jobs[self._submit(\n						lambda x: list(self._query(\n							[query], x, fmt, start, end, maxresults)),", "			if not maxresults or not maxresults2:\n				jobs[self._submit(\n						lambda x: list(self._query(\n							[query], x, fmt, start, end, maxresults)),")]),
('bug', 'notrunc', [(T, "				result[filename] = x[:maxresults]\n		for future in self._as_completed(jobs):\n			filename = jobs[future]\n			x = []\n			for sentno, line in future.result():\n				treestr", "				result[filename] = x\n		for future in self._as_completed(jobs):\n			filename = jobs[future]\n			x = []\n			for sentno, line in future.result():\n				treestr")]),
('bug', 'accum', [(T, "		for future in self._as_completed(jobs):\n			filename = jobs[future]\n			x = []\n			for sentno, line in future.result():\n				treestr", "		x = []\n		for future in self._as_completed(jobs):\n			filename = jobs[future]\n			for sentno, line in future.result():\n				treestr")]),
('bug', 'clobber', [(T, "				for sentno, sent, mstart, mend in future.result():\n				highlight = range(mstart, mend)".replace('				for', '			for', 1), "			for sentno, sent, start, end in future.result():\n				highlight = range(start, end)")]),
('bug', 'kindkey', [(T, "			self.cache['counts', query, filename, start, end, indices, False,\n					breakdown] = result", "			self.cache['counts', query, filename, start, end, indices, True,\n					breakdown] = result")]),
('bug', 'mem', [(TD, "geteditstats.mem[forest1, forest2] =", "geteditstats.mem[forest2, forest1] =")]),
('same', 'keyvar', [(T, LKG, "				key = ('trees', query, filename, start, end, nofunc, nomorph,\n						detectdisc, mergedisc)\n				x, maxresults2 = self.cache[key]\n"), (T, STG, "			key = ('trees', query, filename, start, end, nofunc, nomorph,\n					detectdisc, mergedisc)\n			self.cache[key] = x, maxresults\n			result[filename] = x\n")]),
('same', 'rename', [(T, LKG, LKG.replace('x, maxresults2', 'found, oldmax')), (T, "			except KeyError:\n				maxresults2 = 0\n			if not maxresults or (\n					maxresults2 is not None and maxresults > maxresults2):\n				jobs[self._submit(\n						lambda x: list(self._query(\n							[query], x, fmt, start, end, maxresults)),\n						filename)] = filename\n			else:\n				result[filename] = x[:maxresults]", "			except KeyError:\n				oldmax = 0\n			if not maxresults or (\n					oldmax is not None and maxresults > oldmax):\n				jobs[self._submit(\n						lambda x: list(self._query(\n							[query], x, fmt, start, end, maxresults)),\n						filename)] = filename\n			else:\n				result[filename] = found[:maxresults]")]),
('same', 'items', [(T, "		for future in self._as_completed(jobs):\n			filename = jobs[future]\n			x = []\n			for sentno, line in future.result():\n				treestr", "		for future, filename in jobs.items():\n			x = []\n			for sentno, line in future.result():\n				treestr")]),
('same', 'nested', [(T, "			if not maxresults or (\n					maxresults2 is not None and maxresults > maxresults2):\n				jobs[self._submit(\n						lambda x: list(self._query(\n							[query], x, fmt, start, end, maxresults)),", "			stale = maxresults2 is not None and (\n					not maxresults or maxresults > maxresults2)\n			if stale or not maxresults:\n				jobs[self._submit(\n						lambda x: list(self._query(\n							[query], x, fmt, start, end, maxresults)),")]),
('same', 'neg', [(T, "			if not maxresults or (\n					maxresults2 is not None and maxresults > maxresults2):\n				jobs[self._submit(\n						lambda x: list(self._query(\n							[query], x, fmt, start, end, maxresults)),\n						filename)] = filename\n			else:\n				result[filename] = x[:maxresults]", "			if maxresults and (\n					maxresults2 is None or maxresults <= maxresults2):\n				result[filename] = x[:maxresults]\n			else:\n				jobs[self._submit(\n						lambda x: list(self._query(\n							[query], x, fmt, start, end, maxresults)),\n						filename)] = filename\n")]),
('same', 'parsehelper', [(P, "	key = (sent, senttok, tags, est, marg, objfun, coarse, lang, require, block,\n			html)\n", "	options = (est, marg, objfun, coarse, lang, html)\n	key = (sent, senttok, tags, options, require, block)\n")]),
('same', 'get', [(P, "	resp = CACHE.get(key)\n", "	cache = CACHE\n	resp = cache.get(key)\n")]),
('same', 'sentexp', [(T, "			x = []\n			for sentno, sent, mstart, mend in future.result():\n				highlight = range(mstart, mend)\n				x.append((filename, sentno, sent, highlight, ()))\n", "			x = [(filename, sentno, sent, range(mstart, mend), ())\n					for sentno, sent, mstart, mend in future.result()]\n")]),
('same', 'in', [(T, "			try:\n				result[filename] = self.cache[\n						'counts', query, filename, start, end, indices, False,\n						breakdown]\n			except KeyError:\n				result[filename] = None\n", "			key = ('counts', query, filename, start, end, indices, False,\n						breakdown)\n			if key in self.cache:\n				result[filename] = self.cache[key]\n			else:\n				result[filename] = None\n")]),
]
CASES += [
('bug', 'shared', [(T, "		self.cache = FIFOOrederedDict(CACHESIZE)\n", ""), (T, "class CorpusSearcher(object):\n", "class CorpusSearcher(object):\n	cache = OrderedDict()\n")]),
('bug', 'shared global', [(T, "		self.cache = FIFOOrederedDict(CACHESIZE)\n", "		self.cache = RESULTS\n"), (T, "class CorpusSearcher(object):\n", "RESULTS = OrderedDict()\n\n\nclass CorpusSearcher(object):\n")]),
('bug', 'order of parts', [(P, "		CACHE.set(key, (sent, result, nbest, deriv, info,", "		CACHE.set(key, (sent, result, deriv, nbest, info,")]),
('bug', 'part missing', [(P, "		CACHE.set(key, (sent, result, nbest, deriv, info,", "		CACHE.set(key, (sent, result, nbest, info,")]),
('bug', 'converted before', [(T, "			self.cache['counts', query, filename, start, end, indices] = tmp\n			if indices:\n				result[filename] = [b for a in tmp for b in a]\n			else:\n				result[filename] = sum(tmp)\n", "			if not indices:\n				tmp = sum(tmp)\n			self.cache['counts', query, filename, start, end, indices] = tmp\n			if indices:\n				result[filename] = [b for a in tmp for b in a]\n			else:\n				result[filename] = tmp\n")]),
('bug', 'incomplete', [(T, "			for sentno, sent, mstart, mend in future.result():\n", "			self.cache['sents', query, filename, start, end, True, True\n					] = list(x), maxresults\n			for sentno, sent, mstart, mend in future.result():\n"), (T, "			self.cache['sents', query, filename, start, end, True, True\n					] = x, maxresults\n", "")]),
('same', 'copy stored', [(T, "			self.cache['sents', query, filename, start, end, True, True\n					] = x, maxresults\n", "			self.cache['sents', query, filename, start, end, True, True\n					] = list(x), maxresults\n")]),
('same', 'flatten by loop', [(T, "				if indices:\n					result[filename] = [b for a in tmp for b in a]\n				else:\n					result[filename] = sum(tmp)\n			except", "				if indices:\n					flat = []\n					for a in tmp:\n						flat.extend(a)\n					result[filename] = flat\n				else:\n					result[filename] = sum(tmp)\n			except")]),
('same', 'cache made by method', [(T, "		self.cache = FIFOOrederedDict(CACHESIZE)\n", "		self._makecache()\n"), (T, "	def _map(", "	def _makecache(self):\n		self.cache = FIFOOrederedDict(CACHESIZE)\n\n	def _map(")]),
]
