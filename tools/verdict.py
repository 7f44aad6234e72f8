"""verdict.py NAME: what the quick check concludes from one contract."""
import sys
sys.path.insert(0, "/verif")
from pyvc import registry, runner
registry.load_all()
for i, c in enumerate(registry.CONTRACTS):
	if c.name == sys.argv[1]:
		r = runner.run_contract(i, "quick", 1)
		if r["undecided"]:
			print("undecided", r["undecided"].replace("\n", " ")[:300])
		for o in r["obligations"]:
			if o["status"] != "proved":
				print(o["name"], o["status"], "")
		if r["witness"]:
			print("witness", r["witness"]["obligation"], r["witness"]["detail"][:200])
