#!/usr/bin/env python3
"""Run the checks on variants of /repo: each case replaces text in a copy.

usage: run.py [ID ...]      cases are in cases_<id>.py: a list CASES of
(expected, name, [(file, old, new), ...]) with expected 'bug' or 'same'."""
import os
import sys
import glob
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'


def one(prop, case):
	expected, name, edits = case
	d = tempfile.mkdtemp(prefix='selftest')
	try:
		for sub in ('discodop', 'web', 'docs'):
			shutil.copytree(os.path.join(REPO, sub), os.path.join(d, sub),
					ignore=shutil.ignore_patterns('*.so', '*.c', '*.cpp',
					'__pycache__', 'static'))
		for fn in glob.glob(os.path.join(REPO, '*.prm')):
			shutil.copy(fn, d)
		for fn, old, new in edits:
			p = os.path.join(d, fn)
			with open(p, encoding='utf8') as inp:
				s = inp.read()
			if old is None:
				s += new
			elif s.count(old) < 1:
				return prop, name, 'STALE', fn + ': ' + old[:60]
			else:
				s = s.replace(old, new, 1)
			with open(p, 'w', encoding='utf8') as out:
				out.write(s)
		env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d,
				PYTHONDONTWRITEBYTECODE='1')
		r = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'),
				prop], env=env, stdout=subprocess.PIPE,
				stderr=subprocess.STDOUT)
		out = r.stdout.decode()
		ok = r.returncode == (1 if expected == 'bug' else 0)
		msg = '\n'.join(l for l in out.splitlines()
				if l.startswith(('FINDING', 'ANALYSIS', 'Trace', '  File'))
				)[:600]
		return prop, name, 'ok' if ok else 'WRONG(%d, expected %s)' % (
				r.returncode, expected), msg
	finally:
		shutil.rmtree(d)


def main():
	want = [a for a in sys.argv[1:] if not a.startswith('-')]
	jobs = []
	for fn in sorted(glob.glob(os.path.join(HERE, 'cases_*.py'))):
		prop = os.path.basename(fn)[6:-3].upper()
		if want and prop not in want:
			continue
		ns = {}
		with open(fn, encoding='utf8') as inp:
			exec(compile(inp.read(), fn, 'exec'), ns)
		jobs.extend((prop, c) for c in ns['CASES'])
	bad = 0
	with ThreadPoolExecutor(7) as ex:
		for prop, name, res, msg in ex.map(lambda a: one(*a), jobs):
			if res != 'ok':
				bad += 1
			if res != 'ok' or '-v' in sys.argv:
				print(prop, name, res)
				print('    ' + msg.replace('\n', '\n    '))
	print('%d cases, %d wrong' % (len(jobs), bad))
	sys.exit(bad > 0)


if __name__ == '__main__':
	main()
