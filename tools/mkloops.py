#!/usr/bin/env python3
"""Writes loops.json: the loops (F: for, W: while, in source order) of every function
that has a loop contract, on the current tree."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import registry
from pyvc.instrument import Env, Rewrite
from pyvc import runner
import ast
registry.load_all()
import re
quals = set()
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
shapes = {}
for pkg in ("rescene", "resample"):
	for root, _, files in os.walk(os.path.join(runner.REPO, pkg)):
		if "test" in root:
			continue
		for f in files:
			if f.endswith(".py"):
				fn = os.path.join(root, f)
				mod = os.path.relpath(fn, runner.REPO)[:-3].replace(os.sep, ".")
				rw = Rewrite(mod)
				try:
					rw.visit(ast.parse(open(fn, encoding="utf-8").read()))
				except SyntaxError:
					continue
				shapes.update(rw.shapes)
json.dump(shapes, open(os.path.join(d, "loops.json"), "w"), indent=0, sort_keys=True)
