"""dbg.py NAME: runs one contract symbolically, printing failed obligations."""
import sys, os, time
sys.path.insert(0, "/verif")
from pyvc import registry, runner, core
from pyvc.harness import SymV
registry.load_all()
sys.setrecursionlimit(5000)
name = sys.argv[1]
verbose = len(sys.argv) > 2
for c in registry.CONTRACTS:
	if c.name == name:
		ctx = core.Ctx(timeout_ms=10000, max_paths=c.max_paths, deadline=time.time() + c.budget,
			second=lambda pc, g: runner.cvc5_check(pc, g, 10))
		if verbose:
			old = ctx.check
			def check(nm, cond, detail=""):
				n0 = len(ctx.obligations)
				r = old(nm, cond, detail)
				if len(ctx.obligations) > n0 and ctx.obligations[-1].status != "proved":
					print("FAILED", nm, ctx.obligations[-1].status)
					print("  goal:", str(cond.e if hasattr(cond, "e") else cond)[:1500])
					print("  taken:", ctx.taken)
					s = ctx.pc
					for p in s:
						print("    pc:", str(p).replace("\n", " ")[:300])
					ctx.worklist.clear()
					raise core.PathEnd()
				return r
			ctx.check = check
		v = SymV(runner.REPO, ctx)
		t = time.time()
		try:
			ctx.explore(lambda: runner._sym_path(c, v, ctx))
		except core.Unsupported as e:
			import traceback; traceback.print_exc()
		for o in ctx.obligations:
			if o.status != "proved":
				print(o.name, o.status, o.detail, str(o.model)[:200])
		print(len(ctx.obligations), "obligations", ctx.paths, "paths", "%.1fs" % (time.time() - t), ctx.covered)
