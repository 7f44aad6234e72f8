"""Registration of contracts (proof) and searches (bounded, concrete)."""
import importlib, os, pkgutil, sys

CONTRACTS = []
SEARCHES = []

class Contract(object):
	def __init__(self, fn, props, name, functions, budget, max_paths, bounded,
			iters, note):
		self.fn, self.props, self.name = fn, props, name
		self.functions, self.budget, self.max_paths = functions, budget, max_paths
		self.bounded, self.iters, self.note = bounded, iters, note

def contract(props, name, functions, budget=60, max_paths=4000, bounded=None,
		iters=200, note=""):
	"""bounded: text of the bound when the harness fixes sizes (then it is not
	counted as a proof for all inputs)."""
	if isinstance(props, str):
		props = [props]
	def deco(fn):
		CONTRACTS.append(Contract(fn, props, name, functions, budget, max_paths,
			bounded, iters, note))
		return fn
	return deco

class Search(object):
	def __init__(self, fn, props, name, bound, weight):
		self.fn, self.props, self.name, self.bound = fn, props, name, bound
		self.weight = weight

def search(props, name, bound, weight=1.0):
	if isinstance(props, str):
		props = [props]
	def deco(fn):
		SEARCHES.append(Search(fn, props, name, bound, weight))
		return fn
	return deco

def load_all():
	import contracts, search as s
	for pkg in (contracts, s):
		for m in sorted(x.name for x in pkgutil.iter_modules(pkg.__path__)):
			importlib.import_module(pkg.__name__ + "." + m)
