"""Findings, known findings, evidence."""
import os
import json
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Finding:
	def __init__(self, rule, construct, loc, msg):
		self.rule, self.construct = rule, construct
		self.loc, self.msg = loc, msg

	@property
	def key(self):
		return '%s @ %s' % (self.rule, self.construct)

	def __str__(self):
		return '%s: [%s] %s: %s' % (self.loc, self.rule, self.construct,
				self.msg)


class Result:
	"""Collects findings, obligations and analysed constructs of a check."""
	def __init__(self, prop):
		self.prop = prop
		self.findings = []
		self.counts = {}
		self.samples = {}
		self.assumptions = []
		self.rules = []
		self.broken = []

	def finding(self, rule, construct, loc, msg):
		for f in self.findings:
			if f.rule == rule and f.construct == construct and f.loc == loc:
				return
		self.findings.append(Finding(rule, construct, loc, msg))

	def count(self, name, n=1):
		self.counts[name] = self.counts.get(name, 0) + n

	def sample(self, name, text, limit=12):
		lst = self.samples.setdefault(name, [])
		if len(lst) < limit and text not in lst:
			lst.append(text)

	def rule(self, text):
		self.rules.append(text)

	def assume(self, text):
		self.assumptions.append(text)

	def require(self, name, minimum):
		if self.counts.get(name, 0) < minimum:
			self.broken.append('%s: only %d instances, expected at least %d'
					% (name, self.counts.get(name, 0), minimum))


def load_known(prop):
	res = {}
	if os.path.exists(KNOWN):
		with open(KNOWN, encoding='utf8') as inp:
			for line in inp:
				line = line.strip()
				if not line.startswith('known: '):
					continue
				# known: property=P01 key=<rule @ construct> :: explanation
				head, _, expl = line.partition(' :: ')
				_, propx, key = head.split(' ', 2)
				if propx == 'property=' + prop and key.startswith('key='):
					res[key[4:]] = expl
	return res


def finish(result, title, t0, tier, seed):
	prop = result.prop
	known = load_known(prop)
	fresh, old = [], []
	for f in result.findings:
		(old if f.key in known else fresh).append(f)
	evdir = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF,
			'evidence')
	os.makedirs(evdir, exist_ok=True)
	replay = os.path.join(evdir, 'replay-%s.txt' % prop)
	for f in old:
		print('KNOWN-FINDING: property=%s %s (%s)' % (prop, f,
				known[f.key]))
	for key in sorted(set(known) - {f.key for f in old}):
		print('note: known finding no longer reported: %s' % key)
	ev = {
		'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
		'coverage': {
			'explanation': title + ' -- ' + ' '.join(result.rules),
			'counts': result.counts,
			'samples': result.samples,
			'known_findings': [str(f) for f in old],
			'findings': [str(f) for f in fresh],
		},
		'assumptions': result.assumptions,
		'wall_s': round(time.time() - t0, 3),
		'violations': len(fresh),
	}
	with open(os.path.join(evdir, prop + '.json'), 'w',
			encoding='utf8') as out:
		json.dump(ev, out, indent=1, ensure_ascii=False)
		out.write('\n')
	print('%s: %s' % (prop, title))
	for name, n in sorted(result.counts.items()):
		print('  analysed %s: %d' % (name, n))
	if fresh:
		with open(replay, 'w', encoding='utf8') as out:
			for f in fresh:
				out.write(str(f) + '\n')
			out.write('\nreproduce: python3 /verif/check.py %s\n' % prop)
		for f in fresh:
			print('FINDING %s' % f)
			print('   key=%s' % f.key)
		print('VIOLATION property=%s replay=%s' % (prop, replay))
		return 1
	if result.broken:
		for b in result.broken:
			print('ANALYSIS-BROKEN %s' % b)
		return 3
	return 0
