"""Which uses of a local variable can see the value of a given assignment,
decided on the structure of the code (blocks and loops)."""
import ast


def parent(n):
	return getattr(n, '_parent', None)


def stmt(n):
	while n is not None and not isinstance(n, ast.stmt):
		n = parent(n)
	return n


def chain(n):
	res = []
	while n is not None:
		res.append(n)
		if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
				ast.Module)):
			break
		n = parent(n)
	return res


def field(p, child):
	"""Name of the list of statements of p that child is in."""
	for f in ('body', 'orelse', 'finalbody', 'handlers'):
		v = getattr(p, f, None)
		if isinstance(v, list) and any(c is child for c in v):
			return f
	return None


def dominates(s, load):
	"""Statement s is executed before load whenever load is executed after the
	start of the block s is in (s comes first in a block around load)."""
	st = stmt(s)
	p = parent(st)
	up = chain(load)
	if isinstance(st, (ast.For, ast.AsyncFor)) and st in up:
		# loop target, seen from the body
		return any(any(x is b for b in st.body) for x in up)
	for i, x in enumerate(up):
		if x is p and i:
			f1, f2 = field(p, st), field(p, up[i - 1])
			if f1 is None or f1 != f2:
				return False
			lst = getattr(p, f1)
			i1 = [n for n, y in enumerate(lst) if y is st]
			i2 = [n for n, y in enumerate(lst) if y is up[i - 1]]
			if isinstance(st, (ast.If, ast.For, ast.While, ast.Try)):
				return False
			return i1[0] < i2[0]
	return False


def reaches(fnode, name, origin, load):
	"""Can the value assigned in the statement of origin be seen by load?"""
	if comprehension_bound(name, load):
		return False
	d = stmt(origin)
	stores = [n for n in ast.walk(fnode) if isinstance(n, ast.Name)
			and n.id == name and isinstance(n.ctx, ast.Store)
			and stmt(n) is not d and not isinstance(parent(n),
			ast.comprehension)]
	lst = stmt(load)
	if load.lineno > getattr(d, 'end_lineno', d.lineno) or lst is d or (
			d in chain(load)):
		for s in stores:
			ss = stmt(s)
			if ss.lineno > d.lineno and s.lineno <= load.lineno and (
					ss is not lst) and dominates(s, load) and d not in chain(s):
				return False
		if not dominates(d, load):
			# branches of the same statement exclude each other
			pd = chain(d)
			for i, x in enumerate(chain(load)):
				if i and isinstance(x, ast.If) and x in pd:
					j = pd.index(x)
					f1 = field(x, pd[j - 1]) if j else None
					f2 = field(x, chain(load)[i - 1])
					if f1 and f2 and f1 != f2 and not common_loop(d, load):
						return False
		return True
	loop = common_loop(d, load)
	if loop is None:
		return False
	for s in stores:
		ss = stmt(s)
		if loop in chain(s) and s.lineno <= load.lineno and ss is not lst and (
				dominates(s, load)):
			return False
	return True


def common_loop(a, b):
	up = [x for x in chain(a) if isinstance(x, (ast.For, ast.While))]
	down = chain(b)
	for x in up:
		if any(x is y for y in down):
			return x
	return None


def comprehension_bound(name, load):
	"""The name is bound by a comprehension around load."""
	n = load
	while n is not None and not isinstance(n, ast.stmt):
		p = parent(n)
		if isinstance(p, (ast.ListComp, ast.SetComp, ast.DictComp,
				ast.GeneratorExp)):
			gens = p.generators
			if n in gens:  # iterables see only the generators before
				i = gens.index(n)
				inner = n is not load and any(x is load
						for x in ast.walk(n.iter))
				gens = gens[:i] if inner else gens[:i + 1]
			for g in gens:
				if any(isinstance(x, ast.Name) and x.id == name
						for x in ast.walk(g.target)):
					return True
		elif isinstance(p, ast.Lambda) and name in {a.arg for a in ast.walk(
				p.args) if isinstance(a, ast.arg)}:
			return True
		n = p
	return False
