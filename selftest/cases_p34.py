W = 'web/treesearch.py'
B = 'web/browse.py'
P = 'web/parse.py'
CASES = [
('bug', 'queryform', [(W, "				htmlescape(form['query'] if len(form['query']) < 128\n				else form['query'][:128] + '...'),\n				maxresults, url, url + ';linenos=1'))\n	try:\n		tmp = CORPORA[engine].trees(", "				(form['query'] if len(form['query']) < 128\n				else htmlescape(form['query'][:128]) + '...'),\n				maxresults, url, url + ';linenos=1'))\n	try:\n		tmp = CORPORA[engine].trees(")]),
('bug', 'err', [(W, "yield '<span class=r>%s</span>' % htmlescape(str(err).splitlines()[-1])", "yield '<span class=r>%s</span>' % str(err).splitlines()[-1]")]),
('bug', 'valueerr', [(W, "				line = htmlescape(\"#%s \\nERROR: %s\\n%s\\n%s\\n\" % (\n						sentno, err, tree, sent))", "				line = \"#%s \\nERROR: %s\\n%s\\n%s\\n\" % (\n						sentno, htmlescape(str(err)), tree, sent)")]),
('bug', 'breakdown', [(W, "yield '%5d  %s\\n' % (cnt, htmlescape(match))", "yield '%5d  %s\\n' % (cnt, match)")]),
('bug', 'bracket', [(W, "sent = htmlescape(sent.replace(\" )\", \" -NONE-)\"))", "sent = sent.replace(\" )\", \" -NONE-)\")")]),
('bug', 'highlast', [(W, "	out.append(htmlescape(sent[start:]))", "	out.append(sent[start:])")]),
('bug', 'highmid', [(W, "			if cur != 'blue':\n				out.append(htmlescape(sent[start:n]))", "			if cur != 'blue':\n				out.append(sent[start:n])")]),
('bug', 'bhighlast', [(B, "	out.append(htmlescape(sent[start:]))", "	out.append(sent[start:])")]),
('bug', 'bsent', [(B, "xsent = htmlescape(' '.join(item.sent))", "xsent = ' '.join(item.sent)")]),
('bug', 'feat', [(B, "		if feat not in FILTERS:\n			return 'Invalid argument', 404\n", "")]),
('bug', 'feat2', [(B, "		if feat not in FILTERS:\n			return 'Invalid argument', 404\n", "		if feat not in FILTERS:\n			return 'Invalid argument: %s' % feat, 404\n")]),
('bug', 'drawtext', [(W, "				if 'sent' in request.args else None).text(\n				unicodelines=True, html=True, funcsep='-')", "				if 'sent' in request.args else None).text(\n				unicodelines=True, html=False, funcsep='-')")]),
('bug', 'browsetext', [(B, "				DrawTree(item.tree, item.sent).text(\n					unicodelines=True, html=True))", "				DrawTree(item.tree, item.sent).text(\n					unicodelines=True))")]),
('bug', 'plotkey', [(W, "				htmlescape(key), data[key], unit,))", "				key, data[key], unit,))\n	if request.args.get('title'):\n		result.append(request.args['title'])")]),
('bug', 'fragtree', [(W, "				tree = htmlescape(tree) + ' ' + sent", "				tree = tree + ' ' + sent")]),
('bug', 'legend', [(W, "						htmlescape(query))\n					for n, query in enumerate(queries, 1)))", "						query)\n					for n, query in enumerate(queries, 1)))")]),
('bug', 'name', [(W, "n, htmlescape(name), htmlescape(query)", "n, name, htmlescape(query)")]),
('bug', 'url', [(W, "	url = 'trees?' + urlencode(dict(export='csv', **form))", "	url = 'trees?export=csv;query=' + form['query']")]),
('bug', 'open', [(B, "		filename = os.path.join(CORPUS_DIR, TEXTS[textno] + '.export')\n		trees = CORPORA[filename].itertrees(start, stop)", "		filename = os.path.join(CORPUS_DIR, TEXTS[textno] + '.export')\n		if 'filename' in request.args:\n			open(request.args['filename'])\n		trees = CORPORA[filename].itertrees(start, stop)")]),
('bug', 'invalid', [(P, "	html = 'html' in request.args\n	lang =", "	if objfun.startswith('x'):\n		return 'bad argument %s' % request.args.get('sent')\n	html = 'html' in request.args\n	lang =")]),
('bug', 'template', [('web/templates/parsetree.html', "{{ dep }}", "{{ sent|safe }}")]),
('same', 'parser', [(P, "		results = list(PARSERS[lang].parse(\n", "		parser = PARSERS[lang]\n		results = list(parser.parse(\n")]),
('same', 'corpus', [(W, "		tmp = CORPORA[engine].trees(form", "		corpus = CORPORA[engine]\n		tmp = corpus.trees(form")]),
('bug', 'jsurl', [('web/templates/search.html', "'sents')|tojson", "'sents')")]),
('bug', 'markup', [(P, "result = Markup(DrawTree(tree, senttok).text(\n				unicodelines=True, html=html, funcsep='-'))", "result = Markup(DrawTree(tree, senttok).text(\n				unicodelines=True, funcsep='-'))")]),
('bug', 'markup2', [(P, "	if html:\n		return render_template('parsetree.html', sent=sent,", "	if html:\n		dep = Markup('<b>%s</b>' % sent)\n		return render_template('parsetree.html', sent=sent,")]),
('bug', 'plain', [(P, "return Response('\\n'.join((nbest, info, result)),\n				mimetype='text/plain')", "return Response('\\n'.join((sent, nbest, info, result)))")]),
('bug', 'metadata', [(W, "	return METADATA.to_html()", "	return request.args.get('title', '') + METADATA.to_html()")]),
('same', 'var', [(W, "yield '<span class=r>%s</span>' % htmlescape(str(err).splitlines()[-1])", "msg = str(err).splitlines()\n		last = htmlescape(msg[-1])\n		yield '<span class=r>%s</span>' % last")]),
('same', 'helper', [(W, "				htmlescape(form['query'] if len(form['query']) < 128\n				else form['query'][:128] + '...'),\n				maxresults, url, url + ';linenos=1'))\n	try:\n		tmp = CORPORA[engine].trees(", "				shorten(form),\n				maxresults, url, url + ';linenos=1'))\n	try:\n		tmp = CORPORA[engine].trees("), (W, "def sents(form, dobrackets", "def shorten(form):\n	\"\"\"Shorten query.\"\"\"\n	query = form['query']\n	if len(query) >= 128:\n		query = query[:128] + '...'\n	return htmlescape(query)\n\n\ndef sents(form, dobrackets")]),
('same', 'fstring', [(W, "yield '%5d  %s\\n' % (cnt, htmlescape(match))", "escaped = htmlescape(match)\n				yield f'{cnt:5d}  {escaped}\\n'")]),
('same', 'flush', [(B, "	cur = None\n	start = 0\n	out = []\n	for n, _ in enumerate(sent):", "	cur = None\n	start = 0\n	out = []\n	sent = str(sent)\n	for n in range(len(sent)):")]),
('same', 'flush2', [(W, "			if cur != 'red':\n				out.append(htmlescape(sent[start:n]))", "			if cur != 'red':\n				part = sent[start:n]\n				out.append(htmlescape(part))")]),
('same', 'loop', [(W, "	legend = 'Legend:\\t%s\\n' % ('\\t'.join(\n", "	legend = 'Legend:\\t%s\\n' % ('\\t'.join(\n")]) if 0 else
('same', 'loop', [(W, "		yield '<ol>%s</ol>\\n' % '\\n'.join(\n				'<li><a href=\"#q%d\">%s</a>' % (n, htmlescape(query))\n				for n, query in enumerate(list(queries)\n				+ ['Combined results', 'Overview'], 1))", "		yield '<ol>'\n		items = list(queries)\n		items.append('Combined results')\n		items.append('Overview')\n		for n, query in enumerate(items, 1):\n			yield '<li><a href=\"#q{}\">{}</a>\\n'.format(n, htmlescape(query))\n		yield '</ol>'")]),
('same', 'allowed', [(B, "		if feat not in FILTERS:\n			return 'Invalid argument', 404\n", "		valid = feat in FILTERS\n		if not valid:\n			return 'Invalid argument', 404\n")]),
('same', 'allowed2', [(B, "		feat = request.args.get('feat', next(iter(FILTERS)))\n		if feat not in FILTERS:\n			return 'Invalid argument', 404\n", "		feat = request.args.get('feat')\n		if feat is None:\n			feat = next(iter(FILTERS))\n		elif feat not in FILTERS:\n			return 'Invalid argument', 404\n")]),
('same', 'drawvar', [(W, "		return \"<pre>%s</pre>\" % DrawTree(request.args['tree'],\n				[a or None for a in request.args['sent'].split(' ')]\n				if 'sent' in request.args else None).text(\n				unicodelines=True, html=True, funcsep='-')", "		sent = None\n		if 'sent' in request.args:\n			sent = [a or None for a in request.args['sent'].split(' ')]\n		drawing = DrawTree(request.args['tree'], sent)\n		opts = dict(unicodelines=True, html=True, funcsep='-')\n		return \"<pre>%s</pre>\" % drawing.text(**opts)")]),
('same', 'plot', [(W, "	keys = list(data)\n	if dosort:\n		keys.sort(key=data.get, reverse=True)\n", "	keys = sorted(data, key=data.get, reverse=True) if dosort else list(data)\n")]),
('same', 'resp', [(P, "		return Response('\\n'.join((nbest, info, result)),\n				mimetype='text/plain')", "		output = '\\n'.join((nbest, info, result))\n		resp = Response(output, mimetype='text/plain')\n		return resp")]),
('same', 'context', [(P, "		return render_template('parsetree.html', sent=sent, result=result,\n				nbest=nbest, deriv=deriv, info=info, link=link, dep=dep,\n				depsvg=depsvg, randid=randid())", "		values = dict(sent=sent, result=result,\n				nbest=nbest, deriv=deriv, info=info, link=link, dep=dep,\n				depsvg=depsvg, randid=randid())\n		return render_template('parsetree.html', **values)")]),
('same', 'invert', [(P, "	if html:\n		return render_template(", "	if not html:\n		return Response('\\n'.join((nbest, info, result)),\n				mimetype='text/plain')\n	if html:\n		return render_template(")]),
('same', 'import', [(B, "from html import escape as htmlescape\n", "import html\nhtmlescape = html.escape\n")]),
]
