#!/usr/bin/env python3
"""Write properties.jsonl, MANIFEST.json, and DESIGN.md."""
import os
import sys
import json
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import props  # noqa: E402


def main():
	claimed, na = [], []
	with open(VERIF + '/properties.jsonl', 'w', encoding='utf8') as out:
		for p in sorted(props.P, key=lambda p: p['id']):
			assert len(p['title']) <= 80, p['title']
			out.write(json.dumps({
				'id': p['id'], 'title': p['title'],
				'statement': p['statement'],
				'quantifier': {'over': p['over'], 'text': p['quant']},
				'why_tests_cant': p['tests'],
				'anchors': {'files': p['files'], 'mechanism': [
					{'name': a, 'where': b} for a, b in p['mech']]},
				}, ensure_ascii=False) + '\n')
			if p['na'] is None:
				assert os.path.exists('%s/vlib/checks/%s.py' % (VERIF,
						p['id'].lower())), p['id']
				claimed.append({'property': p['id'],
					'quick_cmd': 'python3 check.py ' + p['id'],
					'thorough_cmd': 'python3 check.py ' + p['id'],
					'technique': 'static analysis: ' + p['tech'],
					'level': 'other', 'level_note': p['level_note']})
			else:
				na.append({'property': p['id'], 'reason': p['na']})
	with open(VERIF + '/MANIFEST.json', 'w', encoding='utf8') as out:
		json.dump({'version': 1,
			'setup_cmd': 'python3 check.py --version',
			'checks': claimed, 'not_applicable': na,
			'notes': 'All checks are static: they parse the sources in '
			'/repo with the ast module on every run and never import or '
			'run them.'}, out, indent=1, ensure_ascii=False)
		out.write('\n')
	with open(HERE + '/design_head.md', encoding='utf8') as inp:
		text = inp.read()
	for p in sorted(props.P, key=lambda p: p['id']):
		if p['na'] is None:
			text += '\n### %s: %s\n\n%s\n\nLevel: %s\n' % (p['id'],
					p['title'], p['design'], p['level_note'])
	text += '\n## Not applicable\n\n'
	for p in sorted(props.P, key=lambda p: p['id']):
		if p['na'] is not None:
			text += '- %s (%s): %s\n' % (p['id'], p['title'], p['na'])
	for fn in ('design_tail.md', ):
		if os.path.exists(HERE + '/' + fn):
			with open(HERE + '/' + fn, encoding='utf8') as inp:
				text += '\n' + inp.read()
	with open(VERIF + '/DESIGN.md', 'w', encoding='utf8') as out:
		out.write(text)


main()
