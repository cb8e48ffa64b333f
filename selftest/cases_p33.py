W = 'web/treesearch.py'
B = 'web/browse.py'
CASES = [
('bug', 'nodec', [(W, "@APP.route('/metadata')\n@requires_auth\n", "@APP.route('/metadata')\n")]),
('bug', 'order', [(W, "@APP.route('/draw')\n@requires_auth\n", "@requires_auth\n@APP.route('/draw')\n")]),
('bug', 'between', [(B, "@APP.route('/')\n@APP.route('/browsesents')\n@requires_auth\n", "@APP.route('/')\n@requires_auth\n@APP.route('/browsesents')\n")]),
('bug', 'newroute', [(W, "@APP.route('/metadata')\n", "@APP.route('/texts')\ndef texts():\n	\"\"\"List.\"\"\"\n	return json.dumps(textlist())\n\n\ndef textlist():\n	return list(TEXTS)\n\n\n@APP.route('/metadata')\n")]),
('bug', 'and', [(W, "				not auth or not check_auth(auth.username, auth.password)):", "				not auth and not check_auth(auth.username, auth.password)):")]),
('bug', 'useronly', [(W, "	return username in PASSWD and password == PASSWD[username]", "	return username in PASSWD or password == PASSWD[username]")]),
('bug', 'anypass', [(B, "			and password == PASSWD[username])", "			and password in PASSWD.values())")]),
('bug', 'failopen', [(W, "except FileNotFoundError as err:\n	LOG", "except (FileNotFoundError, ValueError) as err:\n	LOG")]),
('bug', 'failopen2', [(B, "except IOError:\n	log", "except Exception:\n	log")]),
('bug', 'early', [(W, "		auth = request.authorization\n		if PASSWD is not None and (\n				not auth or", "		auth = request.authorization\n		if auth and not auth.password:\n			return f(*args, **kwargs)\n		if PASSWD is not None and (\n				not auth or")]),
('bug', 'noauth', [(B, "		if not auth or not check_auth(auth.username, auth.password):", "		if auth and not check_auth(auth.username, auth.password):")]),
('same', 'split', [(W, "		if PASSWD is not None and (\n				not auth or not check_auth(auth.username, auth.password)):\n			return authenticate()\n		return f(*args, **kwargs)", "		if PASSWD is None:\n			return f(*args, **kwargs)\n		if auth and check_auth(auth.username, auth.password):\n			return f(*args, **kwargs)\n		return authenticate()")]),
('same', 'inline', [(B, "		if not auth or not check_auth(auth.username, auth.password):\n			return authenticate()\n		return f(*args, **kwargs)", "		allowed = auth and check_auth(auth.username, auth.password)\n		return f(*args, **kwargs) if False else (authenticate() if not allowed else f(*args, **kwargs))")]) if 0 else
('same', 'var', [(B, "		if not auth or not check_auth(auth.username, auth.password):", "		allowed = auth and check_auth(auth.username, auth.password)\n		if not allowed:")]),
('same', 'get', [(W, "	return username in PASSWD and password == PASSWD[username]", "	if username not in PASSWD:\n		return False\n	expected = PASSWD[username]\n	return expected == password")]),
('same', 'about', [(W, "@APP.route('/metadata')\n", "@APP.route('/about')\ndef about():\n	\"\"\"About.\"\"\"\n	return 'disco-dop'\n\n\n@APP.route('/metadata')\n")]),
('same', 'rule', [(W, "@APP.route('/metadata')\n@requires_auth\ndef show_metadata():\n	\"\"\"Show metadata.\"\"\"\n	return METADATA.to_html()\n", "def show_metadata():\n	\"\"\"Show metadata.\"\"\"\n	return METADATA.to_html()\n\n\nAPP.add_url_rule('/metadata', 'show_metadata', requires_auth(show_metadata))\n")]),
('same', 'oserror', [(B, "except IOError:\n	log", "except OSError as err:\n	log.debug(err)\n	log")]),
('same', 'exit', [(B, "except IOError:\n	log", "except ValueError:\n	log.error('malformed password file')\n	raise\nexcept OSError as err:\n	log")]),
('bug', 'm falsy', [('web/treesearch.py', '\t\tif PASSWD is not None and (\n', '\t\tif PASSWD and (\n')]),
('bug', 'm static', [('web/treesearch.py', 'APP = Flask(__name__)', "APP = Flask(__name__, static_folder='corpus')")]),
('bug', 'm static2', [('web/browse.py', 'APP = Flask(__name__)', "APP = Flask(__name__, static_folder='.', static_url_path='/files')")]),
('bug', 'm main', [('web/treesearch.py', "try:\n\twith open('treesearchpasswd.txt', 'rt') as fileobj:\n\t\tPASSWD = {a.strip(): b.strip() for a, b\n\t\t\t\tin (line.split(':', 1) for line in fileobj)}\n\tLOG.info('password protection enabled.')\nexcept FileNotFoundError as err:\n\tLOG.info('no password protection: %s', err)\nif __name__ == '__main__':\n", "if __name__ == '__main__':\n\ttry:\n\t\twith open('treesearchpasswd.txt', 'rt') as fileobj:\n\t\t\tPASSWD = {a.strip(): b.strip() for a, b\n\t\t\t\t\tin (line.split(':', 1) for line in fileobj)}\n\t\tLOG.info('password protection enabled.')\n\texcept FileNotFoundError as err:\n\t\tLOG.info('no password protection: %s', err)\n")]),
('bug', 'm favicon', [('web/treesearch.py', "\treturn send_from_directory(os.path.join(APP.root_path, 'static'),\n\t\t\t'treesearch.ico'", "\treturn send_from_directory(os.path.join(APP.root_path, CORPUS_DIR),\n\t\t\trequest.args.get('f', 'treesearch.ico')")]),
('bug', 'm getdef', [('web/treesearch.py', '\treturn username in PASSWD and password == PASSWD[username]', "\treturn password == PASSWD.get(username, '')")]),
('bug', 'm partition', [('web/browse.py', "\t\t\t\tin (line.split(':', 1) for line in fileobj)}", "\t\t\t\tin (line.partition(':')[::2] for line in fileobj)}")]),
('bug', 'm filters', [('web/browse.py', "\t\tPASSWD = {a.strip(): b.strip() for a, b\n\t\t\t\tin (line.split(':', 1) for line in fileobj)}", "\t\tPASSWD = {a.strip(): b.strip() for a, b\n\t\t\t\tin (line.split(':', 1) for line in fileobj)} or None")]),
('bug', 'm local', [('web/treesearch.py', "try:\n\twith open('treesearchpasswd.txt', 'rt') as fileobj:\n\t\tPASSWD = {a.strip(): b.strip() for a, b\n\t\t\t\tin (line.split(':', 1) for line in fileobj)}\n\tLOG.info('password protection enabled.')\nexcept FileNotFoundError as err:\n\tLOG.info('no password protection: %s', err)\n", "def loadpasswords():\n\ttry:\n\t\twith open('treesearchpasswd.txt', 'rt') as fileobj:\n\t\t\tPASSWD = {a.strip(): b.strip() for a, b\n\t\t\t\t\tin (line.split(':', 1) for line in fileobj)}\n\t\tLOG.info('password protection enabled.')\n\texcept FileNotFoundError as err:\n\t\tLOG.info('no password protection: %s', err)\n\n\nloadpasswords()\n")]),
('same', 'helper', [(W, "try:\n\twith open('treesearchpasswd.txt', 'rt') as fileobj:\n\t\tPASSWD = {a.strip(): b.strip() for a, b\n\t\t\t\tin (line.split(':', 1) for line in fileobj)}\n\tLOG.info('password protection enabled.')\nexcept FileNotFoundError as err:\n\tLOG.info('no password protection: %s', err)\n", "def loadpasswords():\n\ttry:\n\t\twith open('treesearchpasswd.txt', 'rt') as fileobj:\n\t\t\tresult = {a.strip(): b.strip() for a, b\n\t\t\t\t\tin (line.split(':', 1) for line in fileobj)}\n\texcept FileNotFoundError as err:\n\t\tLOG.info('no password protection: %s', err)\n\t\treturn None\n\tLOG.info('password protection enabled.')\n\treturn result\n\n\nPASSWD = loadpasswords()\n")]),
('bug', 'helper any', [(W, "try:\n\twith open('treesearchpasswd.txt', 'rt') as fileobj:\n\t\tPASSWD = {a.strip(): b.strip() for a, b\n\t\t\t\tin (line.split(':', 1) for line in fileobj)}\n\tLOG.info('password protection enabled.')\nexcept FileNotFoundError as err:\n\tLOG.info('no password protection: %s', err)\n", "def loadpasswords():\n\ttry:\n\t\twith open('treesearchpasswd.txt', 'rt') as fileobj:\n\t\t\tresult = {a.strip(): b.strip() for a, b\n\t\t\t\t\tin (line.split(':', 1) for line in fileobj)}\n\texcept Exception as err:\n\t\tLOG.info('no password protection: %s', err)\n\t\treturn None\n\tLOG.info('password protection enabled.')\n\treturn result\n\n\nPASSWD = loadpasswords()\n")]),
('same', 'exists', [(W, "try:\n\twith open('treesearchpasswd.txt', 'rt') as fileobj:\n\t\tPASSWD = {a.strip(): b.strip() for a, b\n\t\t\t\tin (line.split(':', 1) for line in fileobj)}\n\tLOG.info('password protection enabled.')\nexcept FileNotFoundError as err:\n\tLOG.info('no password protection: %s', err)\n", "if os.path.exists('treesearchpasswd.txt'):\n\twith open('treesearchpasswd.txt', 'rt') as fileobj:\n\t\tPASSWD = {a.strip(): b.strip() for a, b\n\t\t\t\tin (line.split(':', 1) for line in fileobj)}\n\tLOG.info('password protection enabled.')\nelse:\n\tLOG.info('no password protection')\n")]),
('same', 'global', [(W, "try:\n\twith open('treesearchpasswd.txt', 'rt') as fileobj:\n\t\tPASSWD = {a.strip(): b.strip() for a, b\n\t\t\t\tin (line.split(':', 1) for line in fileobj)}\n\tLOG.info('password protection enabled.')\nexcept FileNotFoundError as err:\n\tLOG.info('no password protection: %s', err)\n", "def loadpasswords():\n\tglobal PASSWD\n\ttry:\n\t\twith open('treesearchpasswd.txt', 'rt') as fileobj:\n\t\t\tPASSWD = {a.strip(): b.strip() for a, b\n\t\t\t\t\tin (line.split(':', 1) for line in fileobj)}\n\t\tLOG.info('password protection enabled.')\n\texcept FileNotFoundError as err:\n\t\tLOG.info('no password protection: %s', err)\n\n\nloadpasswords()\n")]),
]
