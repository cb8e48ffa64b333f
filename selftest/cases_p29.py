D = 'discodop/'
G = D + 'grammar.py'
T = D + 'treebank.py'
CASES = [
('bug', 'missing value', [(T, "				% (key, tree, len(sent), sent, len(preterms), preterms))", "				% (key, tree, len(sent), sent, preterms))")]),
('bug', 'extra value', [(G, "				% (leaves, tree))", "				% (leaves, tree, sent))")]),
('bug', 'one value for two', [(G, "			raise ValueError('Malformed rule:\\n%s' % line)\n		rule", "			raise ValueError('Malformed rule: %s\\n%s' % line)\n		rule")]),
('bug', 'number', [(T, "sentence without sentid in %s:\\n%s' % (", "sentence without sentid in %s (%d):\\n%s' % (filename, str(n),")]),
('bug', 'conversion', [(T, "expected at least 5 columns: %r' % fields", "expected at least 5 columns, 100%: %r' % fields")]),
('bug', 'not applied', [(T, "raise ValueError('unrecognized format: %r' % fmt)", "raise ValueError('unrecognized format: %r', fmt)")]),
('bug', 'mapping', [(T, "raise ValueError('unrecognized format: %r' % fmt)", "raise ValueError('unrecognized format: %(format)r' % dict(fmt=fmt))")]),
('bug', 'dict', [(T, "raise ValueError('unrecognized format: %r' % fmt)", "raise ValueError('unrecognized format: %(format)r' % {'fmt': fmt})")]),
('bug', 'format()', [(T, "raise ValueError('unrecognized format: %r' % fmt)", "raise ValueError('unrecognized format: {0!r} {1!r}'.format(fmt))")]),
('bug', 'format name', [(T, "raise ValueError('unrecognized format: %r' % fmt)", "raise ValueError('unrecognized format: {format!r}'.format(fmt=fmt))")]),
('bug', 'logging', [(D+'fragments.py', "	logging.info('parameters:\\n%s', ", "	logging.info('parameters:\\n%s %s', ")]),
('bug', 'constant', [(T, "raise ValueError('unrecognized format: %r' % fmt)", "raise ValueError(MSG % (fmt, key))"), (T, "\nclass ", "\nMSG = 'unrecognized format: %r'\n\n\nclass ")]),
('bug', 'variable', [(T, "		raise ValueError('unrecognized format: %r' % fmt)", "		msg = 'unrecognized format: %r; %s %s'\n		values = (fmt, key)\n		raise ValueError(msg % values)")]),
('same', 'f-string', [(T, "raise ValueError('unrecognized format: %r' % fmt)", "raise ValueError(f'unrecognized format: {fmt!r}')")]),
('same', 'constant', [(T, "raise ValueError('unrecognized format: %r' % fmt)", "raise ValueError(MSG % (fmt, ))"), (T, "\nclass ", "\nMSG = 'unrecognized format: %r'\n\n\nclass ")]),
('same', 'variable', [(T, "		raise ValueError('unrecognized format: %r' % fmt)", "		msg = 'unrecognized format: %r; %s'\n		values = (fmt, key)\n		raise ValueError(msg % values)")]),
('same', 'format()', [(T, "raise ValueError('unrecognized format: %r' % fmt)", "raise ValueError('unrecognized format: {!r} {}'.format(fmt, key))")]),
('same', 'dict', [(T, "raise ValueError('unrecognized format: %r' % fmt)", "raise ValueError('unrecognized format: %(fmt)r' % dict(fmt=fmt))")]),
('same', 'locals', [(T, "raise ValueError('unrecognized format: %r' % fmt)", "raise ValueError('unrecognized format: %(fmt)r' % locals())")]),
('same', 'tuple concatenation', [(G, "				% (leaves, tree))", "				% ((leaves, ) + (tree, )))")]),
('same', 'starred', [(G, "				% (leaves, tree))", "				% (*[leaves], tree))")]),
('same', 'modulo', [(T, "	if fmt == 'bracket':", "	if len(sent) % 2 == 3:\n		return None\n	if fmt == 'bracket':")]),
('same', 'literal percent', [(T, "expected at least 5 columns: %r' % fields", "expected at least 5 columns, 100%%: %r' % fields")]),
('same', 'width', [(T, "expected at least 5 columns: %r' % fields", "expected at least 5 columns: %*d %.20r' % (3, len(fields), fields)")]),
('bug', 'm cliitems', [('discodop/cli.py', "bt.writelines('%s\\n' % a for a in backtransform)", "bt.writelines('%s\\n' % a for a in enumerate(backtransform))")]),
('bug', 'm mk', [('discodop/treetransforms.py', "\t\t\t', '.join('%s -> %s' % a for a in islice(newlabels.items(), 5))))", "\t\t\t', '.join('%s -> %s (%d)' % a for a in islice(newlabels.items(), 5))))")]),
('bug', 'm lognone', [('discodop/runexp.py', "\t\traise ValueError('expected unique ROOT label: %r' % roots)", "\t\tlogging.error('expected unique ROOT label: %r')\n\t\traise ValueError(roots)")]),
('bug', 'm printf', [('discodop/cli.py', "\t\tprint('error: %r' % err, file=stderr)", "\t\tprint('error: %r', err, file=stderr)")]),
('bug', 'm fstr', [('discodop/parser.py', "\t\t\tmsg = '%s:\\t' % stage.name.upper()", "\t\t\tmsg = f'{stage.name.upper():d}:\\t'")]),
('bug', 'm treelist', [('discodop/grammar.py', "raise ValueError('Malformed rule:\\n%s' % line)\n\t\trule", "raise ValueError('Malformed rule:\\n%s' % (line, match))\n\t\trule")]),
('bug', 'm write', [('discodop/cli.py', "\t\tprint('error: %r' % err, file=stderr)", "\t\tstderr.write('error: %r')")]),
('bug', 'ifexp', [(T, "raise ValueError('unrecognized format: %r' % fmt)", "raise ValueError(('unrecognized format: %r' if sent else 'no sentence: %r %d') % (fmt, key))")]),
('same', 'ifexp', [(T, "raise ValueError('unrecognized format: %r' % fmt)", "raise ValueError(('unrecognized format: %r' if sent else 'no sentence: %r') % fmt)")]),
('same', 'items wrapped', [(D + 'cli.py', "bt.writelines('%s\\n' % a for a in backtransform)", "bt.writelines('%d\\t%s\\n' % a for a in enumerate(backtransform))")]),
('same', 'items wrapped tuple', [(D + 'cli.py', "bt.writelines('%s\\n' % a for a in backtransform)", "bt.writelines('%s\\n' % (a, ) for a in enumerate(backtransform))")]),
('same', 'log percent', [(D+'fragments.py', "	logging.info('parameters:\\n%s', ", "	logging.info('5% done, 100% sure')\n	logging.info('parameters:\\n%s', ")]),
('same', 'f-string number', [(T, "raise ValueError('unrecognized format: %r' % fmt)", "raise ValueError(f'unrecognized format: {fmt!r} {len(sent):d}')")]),
]
