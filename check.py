#!/usr/bin/env python3
"""Decide one property of disco-dop by static analysis of /repo's sources.

usage: check.py <ID>... | --all
Exit status: 0 property holds; 1 violation; 3 analysis broken."""
import os
import sys
import time
import importlib
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from vlib.project import Project, AnalysisBroken  # noqa: E402
from vlib.flow import install_noreturn  # noqa: E402
from vlib.report import Result, finish  # noqa: E402


def run(prop, project, tier, seed):
	t0 = time.time()
	mod = importlib.import_module('vlib.checks.' + prop.lower())
	result = Result(prop)
	try:
		mod.check(project, result, tier)
	except AnalysisBroken as err:
		result.broken.append(str(err))
	except Exception:
		traceback.print_exc()
		result.broken.append('internal error')
	return finish(result, mod.TITLE, t0, tier, seed)


def main():
	if os.environ.get('PYTHONHASHSEED') != '0':
		# reproducible order of sets
		os.environ['PYTHONHASHSEED'] = '0'
		os.execv(sys.executable, [sys.executable] + sys.argv)
	tier = os.environ.get('VERIF_TIER', 'quick')
	if tier not in ('quick', 'thorough'):
		tier = 'quick'
	try:
		seed = int(os.environ.get('VERIF_SEED', '1'))
	except ValueError:
		seed = 1
	props = sys.argv[1:]
	if props == ['--version']:
		print(sys.version)
		sys.exit(0)
	if props == ['--all']:
		d = os.path.join(os.path.dirname(os.path.abspath(__file__)),
				'vlib', 'checks')
		props = sorted(fn[:-3].upper() for fn in os.listdir(d)
				if fn[0] == 'p' and fn[1:-3].isdigit())
	if not props:
		print(__doc__)
		sys.exit(2)
	try:
		project = Project()
		install_noreturn(project)
	except AnalysisBroken as err:
		print('ANALYSIS-BROKEN %s' % err)
		sys.exit(3)
	rc = 0
	for p in props:
		r = run(p, project, tier, seed)
		rc = r if rc == 0 or r == 1 else rc
	sys.exit(rc)


if __name__ == '__main__':
	main()
