T = 'web/treesearch.py'
F = 'discodop/fragments.py'
R = 'discodop/runexp.py'
P = 'discodop/parser.py'
RF = "	params = dict(disc=disc, indices=indices, approx=False, complete=False,\n			debug=False, adjacent=False, twoterms=None)\n"
AF = "	PARAMS.update(disc=True, indices=True, approx=False, complete=False,\n			debug=False, adjacent=False, twoterms=None)\n"
CASES = [
('bug', 'cover', [(F, "	PARAMS['cover'] = None\n", "")]),
('bug', 'flags', [(F, "	for flag in FLAGS:\n		PARAMS[flag] = '--' + flag in opts\n", "	for flag in FLAGS[1:]:\n		if '--' + flag in opts:\n			PARAMS[flag] = True\n")]),
('bug', 'twoterms', [(F, "	PARAMS['twoterms'] = opts.get('--twoterms')\n", "	if '--twoterms' in opts:\n		PARAMS['twoterms'] = opts['--twoterms']\n")]),
('bug', 'recurring', [(F, RF, RF.replace("adjacent=False, ", ""))]),
('bug', 'recurring2', [(F, "				initargs=(trees, list(sents), None, None, params))", "				initargs=(trees, list(sents)))")]),
('bug', 'recurring3', [(F, "	initworkersimple(trees, list(sents), None, None, params)\n", "	initworkersimple(trees, list(sents))\n")]),
('bug', 'allfragments', [(F, AF, AF.replace("disc=True, ", ""))]),
('bug', 'workerparams', [(F, "		'adjacent', 'twoterms')\nPARAMS", "		'twoterms')\nPARAMS")]),
('bug', 'workerparams2', [(F, "	params = {key: PARAMS[key] for key in WORKERPARAMS}\n", "	params = {key: PARAMS[key] for key in ('fmt', 'disc', 'debug', 'approx',\n			'complete', 'adjacent', 'twoterms')}\n")]),
('bug', 'initarg', [(F, "else None, limit, encoding, params))", "else None, limit, encoding))")]),
('bug', 'init', [(F, "cf. ``WORKERPARAMS``.\"\"\"\n	PARAMS.update(params)\n	PARAMS.update(readtreebanks(", "cf. ``WORKERPARAMS``.\"\"\"\n	PARAMS.update(readtreebanks(")]),
('bug', 'new', [(F, "	logging.debug('finished %d--%d', offset, end)", "	if not PARAMS['quiet']:\n		logging.debug('finished %d--%d', offset, end)")]),
('bug', 'parser', [(P, "			usetags=usetags, numparses=numparses, fmt=fmt,\n			morphology=morphology)", "			usetags=usetags, numparses=numparses,\n			morphology=morphology)")]),
('bug', 'parser2', [(P, "	PARAMS.update(parser=parser, printprob=printprob,\n			usetags=usetags, numparses=numparses, fmt=fmt,\n			morphology=morphology)", "	PARAMS.update(parser=parser,\n			numparses=numparses, fmt=fmt,\n			morphology=morphology)\n	if usetags:\n		PARAMS.update(usetags=usetags)\n	if printprob:\n		PARAMS.update(printprob=printprob)")]),
('bug', 'runexp', [(R, "	global INTERNALPARAMS\n	# this", "	# this")]),
('bug', 'web', [(T, "		fragments.PARAMS.update(disc=False, fmt='bracket')", "		pass")]),
('bug', 'web2', [(T, "fragments.PARAMS.update(disc=False, fmt='bracket')", "fragments.PARAMS.update(disc=False)")]),
('bug', 'web3', [(T, "fragments.PARAMS.update(quiet=True, debug=False, disc=False, complete=False,", "fragments.PARAMS.update(quiet=True, debug=False, disc=False,")]),
('same', 'flagsdict', [(F, "	for flag in FLAGS:\n		PARAMS[flag] = '--' + flag in opts\n", "	PARAMS.update({flag: '--' + flag in opts for flag in FLAGS})\n")]),
('same', 'items', [(F, "	PARAMS['disc'] = opts.get('--fmt', 'bracket') != 'bracket'\n	PARAMS['fmt'] = opts.get('--fmt', 'bracket')\n", "	fmt = opts.get('--fmt', 'bracket')\n	PARAMS.update(fmt=fmt, disc=fmt != 'bracket')\n")]),
('same', 'coverelse', [(F, "	PARAMS['cover'] = None\n	if '--cover' in opts and ',' in opts['--cover']:\n		a, b = opts['--cover'].split(',')\n		PARAMS['cover'] = int(a), int(b)\n	elif '--cover' in opts:\n		PARAMS['cover'] = int(opts.get('--cover', 0)), 999\n", "	if '--cover' in opts and ',' in opts['--cover']:\n		a, b = opts['--cover'].split(',')\n		PARAMS['cover'] = int(a), int(b)\n	elif '--cover' in opts:\n		PARAMS['cover'] = int(opts.get('--cover', 0)), 999\n	else:\n		PARAMS['cover'] = None\n")]),
('same', 'coverhelper', [(F, "	PARAMS['cover'] = None\n	if '--cover' in opts and ',' in opts['--cover']:\n		a, b = opts['--cover'].split(',')\n		PARAMS['cover'] = int(a), int(b)\n	elif '--cover' in opts:\n		PARAMS['cover'] = int(opts.get('--cover', 0)), 999\n", "	setcover(opts)\n"), (F, "def regular(", "def setcover(opts):\n	\"\"\"Set cover parameter.\"\"\"\n	cover = None\n	if ',' in opts.get('--cover', ''):\n		a, b = opts['--cover'].split(',')\n		cover = int(a), int(b)\n	elif '--cover' in opts:\n		cover = int(opts.get('--cover', 0)), 999\n	PARAMS['cover'] = cover\n\n\ndef regular(")]),
('same', 'kw', [(F, "	initworkersimple(trees, list(sents), None, None, params)\n", "	initworkersimple(trees, list(sents), params=params)\n")]),
('same', 'initargs', [(F, "	initworkersimple(trees, list(sents), None, None, params)\n", "	initargs = (trees, list(sents), None, None, params)\n	initworkersimple(*initargs)\n"), (F, "initargs=(trees, list(sents), None, None, params))", "initargs=initargs)")]),
('same', 'local', [(F, "	if PARAMS['nofreq']:\n		counts = None\n	elif PARAMS['approx']:\n		counts = [", "	nofreq, approx = PARAMS['nofreq'], PARAMS['approx']\n	if nofreq:\n		counts = None\n	elif approx:\n		counts = [")]),
('same', 'webif', [(T, "		fragments.PARAMS.update(disc=True, fmt='discbracket')\n", "		fragments.PARAMS['fmt'] = 'discbracket'\n		fragments.PARAMS['disc'] = True\n")]),
('same', 'parserdict', [(P, "	PARAMS.update(parser=parser, printprob=printprob,\n			usetags=usetags, numparses=numparses, fmt=fmt,\n			morphology=morphology)", "	settings = dict(parser=parser, printprob=printprob,\n			usetags=usetags, numparses=numparses)\n	settings['fmt'] = fmt\n	settings['morphology'] = morphology\n	PARAMS.update(settings)")]),
('same', 'parserattr', [(P, "	PARAMS.update(parser=parser, printprob=printprob,\n			usetags=usetags, numparses=numparses, fmt=fmt,\n			morphology=morphology)", "	PARAMS.parser = parser\n	PARAMS.printprob = printprob\n	PARAMS.usetags = usetags\n	PARAMS.numparses = numparses\n	PARAMS.fmt = fmt\n	PARAMS.morphology = morphology")]),
('same', 'parserswap', [(P, "	if numproc == 1:\n		initworker(parser, printprob, usetags, numparses, fmt, morphology)\n		mymap, myworker = map, worker\n	else:\n		pool = multiprocessing.Pool(\n				processes=numproc, initializer=initworker,\n				initargs=(parser, printprob, usetags, numparses, fmt,\n					morphology))\n		mymap, myworker = pool.map, mpworker", "	args = (parser, printprob, usetags, numparses, fmt, morphology)\n	if numproc > 1:\n		pool = multiprocessing.Pool(\n				processes=numproc, initializer=initworker,\n				initargs=args)\n		mymap, myworker = pool.map, mpworker\n	else:\n		initworker(*args)\n		mymap, myworker = map, worker")]),
('same', 'runexplocal', [(R, "	prm = INTERNALPARAMS\n", "	params = INTERNALPARAMS\n	prm = params\n")]),
('bug', 'm flagsand', [('discodop/fragments.py', "\t\tPARAMS[flag] = '--' + flag in opts\n", "\t\tPARAMS[flag] = PARAMS.get(flag) or '--' + flag in opts\n")]),
('bug', 'm vocab', [('discodop/fragments.py', '\tvocab = Vocabulary()\n\ttrees1 = _fragments', "\tvocab = PARAMS.get('vocab') or Vocabulary()\n\ttrees1 = _fragments")]),
]
