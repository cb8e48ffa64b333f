"""Names and signatures defined by the Cython sources (textual scan)."""
import os
import re

DEF = re.compile(r'^(\t*)(cpdef|def|cdef)\b(.*)$')
CLASS = re.compile(r'^(\t*)(?:cdef\s+)?(?:packed\s+)?class\s+(\w+)\s*(?:\(([^)]*)\))?')


class Sig:
	def __init__(self, name, params, required, vararg, kwarg, kind, line):
		self.name, self.params, self.required = name, params, required
		self.vararg, self.kwarg = vararg, kwarg
		self.kind, self.line = kind, line


def splitargs(s):
	res, depth, cur = [], 0, ''
	instr = None
	for c in s:
		if instr:
			if c == instr:
				instr = None
		elif c in '\'"':
			instr = c
		elif c in '([{':
			depth += 1
		elif c in ')]}':
			depth -= 1
		if c == ',' and depth == 0 and not instr:
			res.append(cur)
			cur = ''
		else:
			cur += c
	if cur.strip():
		res.append(cur)
	return [a.strip() for a in res]


def parsesig(name, text, kind, line):
	params, required = [], []
	vararg = kwarg = False
	for a in splitargs(text):
		if a.startswith('**'):
			kwarg = True
			continue
		if a.startswith('*'):
			vararg = True
			continue
		if a == '/':
			continue
		head, eq, _ = a.partition('=')
		head = re.sub(r'\bnot None\b|\bor None\b', '', head)
		head = head.split(':')[0] if not re.search(r'\[.*:', head) else head
		head = re.sub(r'\[[^\]]*\]', ' ', head).replace('*', ' ').replace(
				'&', ' ')
		words = head.split()
		if not words:
			continue
		params.append(words[-1])
		if not eq:
			required.append(words[-1])
	return Sig(name, params, required, vararg, kwarg, kind, line)


class PyxModule:
	def __init__(self, path, relpath):
		self.relpath = relpath
		self.funcs, self.classes, self.names = {}, {}, set()
		for p in (path, path[:-3] + 'pxd'):
			if os.path.exists(p):
				with open(p, encoding='utf8') as inp:
					self._scan(self._include(inp.read().splitlines(), p))

	def _include(self, lines, path):
		res = []
		for line in lines:
			m = re.match(r'include "([^"]+)"', line)
			p = m and os.path.join(os.path.dirname(path), m.group(1))
			if p and os.path.exists(p):
				with open(p, encoding='utf8') as inp:
					res.extend(inp.read().splitlines())
			else:
				res.append(line)
		return res

	def _scan(self, lines):
		cls, incdef = None, False
		n = 0
		while n < len(lines):
			line = lines[n]
			n += 1
			code = line.split('#')[0].rstrip()
			if not code.strip():
				continue
			indent = len(code) - len(code.lstrip('\t'))
			if indent == 0:
				cls = None
			m = CLASS.match(code)
			if m and indent == 0:
				cls = m.group(2)
				self.classes.setdefault(cls, {'methods': {}, 'attrs': set(),
						'bases': [b.strip() for b in (m.group(3) or '').split(
							',') if b.strip()]})
				self.names.add(cls)
				continue
			m = DEF.match(code)
			if m and '(' in m.group(3) and indent <= 1 and not (
					m.group(2) == 'cdef' and re.match(r'\s*extern', m.group(3))
					or '=' in m.group(3).split('(')[0]):
				text = m.group(3)
				while (text.count('(') > text.count(')')
						and n < len(lines)):
					text += ' ' + lines[n].split('#')[0].strip()
					n += 1
				name = re.match(r'.*?(\w+)\s*(?:\[[^\]]*\])?\s*\(', text)
				if name is None:
					continue
				start = name.end()
				depth, end = 1, start
				while end < len(text) and depth:
					depth += {'(': 1, ')': -1}.get(text[end], 0)
					end += 1
				sig = parsesig(name.group(1), text[start:end - 1],
						m.group(2), n)
				if indent == 0:
					if m.group(2) != 'cdef':
						old = self.funcs.get(sig.name)
						if old is None or '*' not in text[start:end - 1]:
							self.funcs.setdefault(sig.name, sig)
					self.names.add(sig.name)
				elif cls is not None:
					self.classes[cls]['methods'].setdefault(sig.name, sig)
					self.classes[cls]['attrs'].add(sig.name)
				continue
			if indent == 0:
				m = re.match(r'(?:cdef\s+)?(?:\w+\s+)*?(\w+)\s*=', code)
				if m:
					self.names.add(m.group(1))
				m = re.match(r'from\s+\S+\s+c?import\s+(.*)', code)
				if m:
					text = m.group(1)
					while '(' in text and ')' not in text and n < len(lines):
						text += ' ' + lines[n]
						n += 1
					for a in text.strip(' ()').split(','):
						self.names.add(a.strip(' ()').split(' as ')[-1].strip())
				m = re.match(r'import\s+(\w+)(?:\s+as\s+(\w+))?', code)
				if m:
					self.names.add(m.group(2) or m.group(1))
			elif cls is not None:
				attrs = self.classes[cls]['attrs']
				body = code.strip()
				if indent == 1:
					incdef = body in ('cdef:', 'cdef public:',
							'cdef readonly:')
				if (indent == 1 and re.match(r'(cdef|property|\w+\s*=)\b',
						body + ' ')) or (indent == 2 and incdef):
					attrs.update(re.findall(r'\b\w+\b', body))
				attrs.update(re.findall(r'\bself\.(\w+)\s*=[^=]', body + ' '))


def load(repo):
	res = {}
	d = os.path.join(repo, 'discodop')
	for fn in sorted(os.listdir(d)):
		if fn.endswith('.pyx'):
			res['discodop.' + fn[:-4]] = PyxModule(os.path.join(d, fn),
					'discodop/' + fn)
	return res
