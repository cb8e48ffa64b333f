#!/usr/bin/env python3
"""Write vlib/baseline.json: names of functions and local variables."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
		'..'))
import ast  # noqa: E402
from vlib.normalise import BASELINE, describe  # noqa: E402
from vlib.project import modulefiles  # noqa: E402

res = {}
for name, path, _ in modulefiles():
	with open(path, encoding='utf8') as inp:
		res[name] = describe(ast.parse(inp.read()))
with open(BASELINE, 'w', encoding='utf8') as out:
	json.dump(res, out, indent=0, sort_keys=True)
	out.write('\n')
