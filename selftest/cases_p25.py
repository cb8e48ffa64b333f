M = 'discodop/treebanktransforms.py'
A = """			0: {'P': {'--', 'AA', 'AP', 'AVP', 'CAC', 'CAP', 'CAVP', 'CCP',
				'CH', 'CNP', 'CO', 'CPP', 'CS', 'CVP', 'CVZ', 'DL', 'ISU',
				'MPN', 'MTA', 'NM', 'NP', 'PN', 'PP', 'QL', 'S', 'VP', 'VZ'}},
"""
N2 = "				'N_': {'NP', 'CNP', 'PN', 'MPN', 'NM', 'CH'},\n"
CASES = [
('bug', 'missing', [(M, N2, "				'N_': {'NP', 'CNP', 'PN', 'MPN', 'CH'},\n")]),
('bug', 'double', [(M, N2, "				'N_': {'NP', 'CNP', 'PN', 'MPN', 'NM', 'CH', 'PP'},\n")]),
('bug', 'coarser', [(M, N2, "				'N_': {'NP', 'CNP', 'PN', 'MPN', 'NM', 'CH', 'MTA'},\n"), (M, "'CAVP', 'MTA'},", "'CAVP'},")]),
('bug', 'level', [(M, "			2: {'S_': {'S', 'VP', 'VZ',", "			3: {'S_': {'S', 'VP', 'VZ',")]),
('same', 'union', [(M, "MAPPINGS = {\n", "NEGRANP = {'NP', 'CNP'}\nMAPPINGS = {\n"), (M, N2, "				'N_': NEGRANP | {'PN', 'MPN', 'NM', 'CH'},\n")]),
('same', 'split', [(M, N2, "				'N_': set('NP CNP PN MPN NM CH'.split()),\n")]),
('same', 'update', [(M, "MAPPINGS = {\n", "def _labels(text):\n	\"\"\"Split.\"\"\"\n	return set(text.split())\n\n\nMAPPINGS = {\n"), (M, N2, "				'N_': _labels('NP CNP PN MPN NM CH'),\n")]),
('same', 'function', [(M, "MAPPINGS = {\n", "def _mappings():\n	\"\"\"Return mappings.\"\"\"\n	return MAP\n\n\nMAP = {\n"), (M, "# Map of", "MAPPINGS = _mappings()\n# Map of") if False else (M, "\nSTATESPLIT", "\nMAPPINGS = _mappings()\n\nSTATESPLIT") if False else (M, "PRESETS = {", "MAPPINGS = _mappings()\nPRESETS = {")]),
]
