"""Symbolic execution of MIR (as dumped by driver/main.rs) over z3 terms.

A frame runs its basic blocks in reverse postorder; states that meet at a block are merged with if-then-else
on what tells their paths apart. Panics and failed assertions become obligations. Constants and functions
without arguments are executed once; a result that is a large term gets a name and a defining equation.
Anything not modelled raises Unsupported: no verdict then."""
import time
import z3

LIMIT_VISITS = 2000
LIMIT_DEPTH = 120


class Unsupported(Exception):
    pass


class Agg:
    """A tuple, array or struct value; enums have a variant."""
    __slots__ = ("kind", "ty", "variant", "fields")
    def __init__(self, kind, fields, ty=None, variant=0):
        self.kind, self.fields, self.ty, self.variant = kind, list(fields), ty, variant
    def __repr__(self): return f"{self.kind}{'#%d' % self.variant if self.variant else ''}{self.fields}"


class Ref:
    """A pointer to part of a cell. For slices meta is the length."""
    __slots__ = ("cell", "path", "meta")
    def __init__(self, cell, path=(), meta=None): self.cell, self.path, self.meta = cell, tuple(path), meta
    def same(self, o): return (self.cell, self.path) == (o.cell, o.path) and (self.meta is o.meta or (self.meta is not None and o.meta is not None and eq(self.meta, o.meta)))
    def __repr__(self): return f"&{self.cell}{list(self.path)}"


class VIte:
    __slots__ = ("c", "a", "b")
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
    def __repr__(self): return f"ite({self.c},{self.a},{self.b})"


class Zero:
    """All bytes zero."""
    __slots__ = ("ty",)
    def __init__(self, ty): self.ty = ty
    def __repr__(self): return "zero"


class Sym:
    """An unknown value of some type."""
    __slots__ = ("name", "ty")
    def __init__(self, name, ty): self.name, self.ty = name, ty
    def __repr__(self): return self.name


class App:
    """An uninterpreted function applied to values."""
    __slots__ = ("f", "args", "ty")
    def __init__(self, f, args, ty=None): self.f, self.args, self.ty = f, tuple(args), ty
    def __repr__(self): return f"{self.f}{self.args}"


class Str:
    """A string value or buffer: literal pieces and unknown ones."""
    __slots__ = ("pieces",)
    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, str) and out and isinstance(out[-1], str): out[-1] += p
            elif p != "": out.append(p)
        self.pieces = tuple(out)
    def __repr__(self): return f"str{self.pieces}"


class FnVal:
    __slots__ = ("ty",)
    def __init__(self, ty): self.ty = ty


class Fork:
    """What a call does in each of several cases: (condition, function from the case's state to the result, and
    optionally whether to keep the case apart from then on)."""
    __slots__ = ("cases",)
    def __init__(self, *cases): self.cases = cases


class Outcomes:
    """What a call did, on paths that are kept apart."""
    __slots__ = ("outs",)
    def __init__(self, outs): self.outs = outs


PATH, VALUE = ("path",), ("value",)


class Iter:
    """An iterator over a slice, or over an array's elements themselves."""
    __slots__ = ("ref", "pos", "n", "owned")
    def __init__(self, ref, pos, n, owned=False): self.ref, self.pos, self.n, self.owned = ref, pos, n, owned


UNIT = Agg("tuple", [])


def bv(n, w=64): return z3.BitVecVal(n, w)
def is_term(v): return isinstance(v, z3.ExprRef)
def num(v): return v.as_long() if isinstance(v, z3.BitVecNumRef) else None
def eq(a, b): return a is b or (is_term(a) and is_term(b) and z3.eq(a, b))
def truth(c):
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    return None


def same(a, b):
    """Structural equality of values."""
    if a is b: return True
    if is_term(a) and is_term(b): return z3.eq(a, b)
    if type(a) is not type(b): return False
    if isinstance(a, Agg):
        return a.kind == b.kind and a.variant == b.variant and len(a.fields) == len(b.fields) and all(map(same, a.fields, b.fields))
    if isinstance(a, Ref): return a.same(b)
    if isinstance(a, Zero): return True
    if isinstance(a, Sym): return a.name == b.name
    if isinstance(a, App): return a.f == b.f and len(a.args) == len(b.args) and all(map(same, a.args, b.args))
    if isinstance(a, Str): return a.pieces == b.pieces
    if isinstance(a, Iter): return a.ref.same(b.ref) and a.pos == b.pos and a.n == b.n and a.owned == b.owned
    if isinstance(a, FnVal): return a.ty == b.ty
    return False


def addends(e):
    """{id: (term, how often)} of a sum; constants as they come."""
    out = {}
    todo = [e]
    while todo:
        x = todo.pop()
        n = 1
        if x.decl().kind() == z3.Z3_OP_BADD:
            todo += x.children()
            continue
        if x.decl().kind() == z3.Z3_OP_BMUL and x.num_args() == 2 and num(x.arg(0)) is not None and num(x.arg(0)) <= 1000:
            n, x = num(x.arg(0)), x.arg(1)
        out[x.get_id()] = (x, out.get(x.get_id(), (x, 0))[1] + n)
    return out


def common(a, b):
    """(z, x, y) with a = z + x, b = z + y; z is None if there is nothing in common."""
    p, q = addends(a), addends(b)
    z = None
    w = a.size()
    total = lambda d: sum((t if n == 1 else t * n for t, n in d[1:]), d[0][0] if d[0][1] == 1 else d[0][0] * d[0][1]) if d else bv(0, w)
    both = {k: (t, min(n, q[k][1])) for k, (t, n) in p.items() if k in q and num(t) is None}
    if not both: return None, a, b
    rest = lambda d: [(t, n - both.get(k, (t, 0))[1]) for k, (t, n) in d.items() if n > both.get(k, (t, 0))[1]]
    return total(list(both.values())), z3.simplify(total(rest(p))), z3.simplify(total(rest(q)))


def elem_path(path, i):
    """The path of element i of what path denotes; parts of slices are paths with an offset."""
    while path and path[-1][0] == "off":
        i = z3.simplify(i + path[-1][1])
        path = path[:-1]
    return path + (("i", i),)


def offset_path(path):
    """(the path of the whole slice, the offset in it)"""
    o = bv(0)
    while path and path[-1][0] == "off":
        o = z3.simplify(o + path[-1][1])
        path = path[:-1]
    return path, o


def ite(c, a, b):
    t = truth(c)
    if t is True: return a
    if t is False: return b
    if a is None: return b      # uninitialised on the other path: never read there
    if b is None: return a
    if same(a, b): return a
    if is_term(a) and is_term(b) and a.sort() == b.sort():
        if z3.is_bv(a) and a.size() == 64 and num(a) is None and num(b) is None:
            # o + x or o + y is o + (x or y).
            both, x, y = common(a, b)
            if both is not None: return z3.simplify(both + z3.If(c, x, y))
        return z3.simplify(z3.If(c, a, b))
    if isinstance(a, Agg) and isinstance(b, Agg) and a.kind == b.kind and a.variant == b.variant and len(a.fields) == len(b.fields):
        return Agg(a.kind, [ite(c, x, y) for x, y in zip(a.fields, b.fields)], a.ty, a.variant)
    if isinstance(a, Ref) and isinstance(b, Ref) and a.cell == b.cell and a.meta is not None and b.meta is not None:
        # Parts of one slice.
        (p, x), (q, y) = map(offset_path, (a.path, b.path))
        if p == q:
            o = ite(c, x, y)
            return Ref(a.cell, p if num(o) == 0 else p + (("off", o),), ite(c, a.meta, b.meta))
    return VIte(c, a, b)


class Machine:
    def __init__(self, dump, hooks):
        self.bodies, self.adts = dump["bodies"], dump["adts"]
        self.hooks = hooks
        self.memo = {}
        self.globals = {}
        self.loop_check = 40
        self.loop_deadline = None # when to give up on loops that go on and on
        self.truncated = None
        self.dead = False       # whether a path turned out to be impossible
        self.name_results = False
        self.names = {}
        self.defs = []            # equations of named results
        self.assumptions = []     # what the caller knows about symbols
        self.obligations = []     # (path condition, condition, text)
        self.bound = {}           # symbol name -> inclusive upper bound
        self.values = {}          # symbol name -> set of possible values
        self.definition = {}      # symbol name -> term
        self._ub, self._vs, self._syms, self._lin = {}, {}, {}, {}
        self.lemmas = []          # consequences of all these
        self.sums = []            # (addends, symbol)
        self.domain_ids = set()
        self.fresh = 0
        self.rpo = {}
        self.executed = set()
        self.steps = 0
        self.queries = 0
        self.solver_s = 0.0

    # ---- what is known about terms ----
    def ub(self, e):
        k = e.get_id()
        if k in self._ub: return self._ub[k][1]
        full = (1 << e.size()) - 1
        n = num(e)
        d = e.decl().kind()
        if n is not None: r = n
        elif z3.is_const(e):
            r = self.bound.get(str(e), full)
        elif d == z3.Z3_OP_BADD: r = sum(self.ub(c) for c in e.children())
        elif d == z3.Z3_OP_BMUL:
            r = 1
            for c in e.children(): r *= self.ub(c)
        elif d == z3.Z3_OP_ITE: r = max(self.ub(e.arg(1)), self.ub(e.arg(2)))
        elif d == z3.Z3_OP_BAND: r = min(self.ub(c) for c in e.children())
        elif d in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I): r = min(self.ub(e.arg(0)), max(self.ub(e.arg(1)) - 1, 0)) if self.nonzero(e.arg(1)) else self.ub(e.arg(0))
        elif d in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I): r = self.ub(e.arg(0)) if self.nonzero(e.arg(1)) else full
        elif d == z3.Z3_OP_ZERO_EXT: r = self.ub(e.arg(0))
        elif d == z3.Z3_OP_BLSHR: r = self.ub(e.arg(0))
        elif d == z3.Z3_OP_CONCAT:
            r, w = 0, 0
            for c in reversed(e.children()):
                r += self.ub(c) << w
                w += c.size()
        else: r = full
        r = min(r, full)
        self._ub[k] = (e, r)
        return r

    def nonzero(self, e):
        v = self.valset(e)
        return v is not None and 0 not in v

    def valset(self, e):
        """A small set that contains every value the term can have, or None."""
        k = e.get_id()
        if k in self._vs: return self._vs[k][1]
        n = num(e)
        r = None
        if n is not None: r = frozenset([n])
        elif z3.is_const(e):
            s = str(e)
            if s in self.values: r = frozenset(self.values[s])
            elif s in self.definition: r = self.valset(self.definition[s])
        elif e.decl().kind() == z3.Z3_OP_ITE:
            a, b = self.valset(e.arg(1)), self.valset(e.arg(2))
            if a is not None and b is not None and len(a | b) <= 16: r = a | b
        self._vs[k] = (e, r)
        return r

    def by_value(self, y, f):
        """f applied to each possible value of y, as one term; None if y's values are not known."""
        vs = self.valset(y)
        if vs is None: return None
        vs = sorted(vs)
        out = f(vs[-1])
        for v in vs[:-1]: out = z3.If(y == bv(v, y.size()), f(v), out)
        return z3.simplify(out)

    def name(self, key, e):
        """Give a large term a name."""
        if num(e) is not None or z3.is_const(e) or z3.is_true(e) or z3.is_false(e) or not z3.is_bv(e): return e
        self.fresh += 1
        s = f"c{self.fresh}!{key.split('|')[0].split('::')[-1]}"
        x = z3.BitVec(s, e.size())
        self.definition[s] = e
        b = self.ub(e)
        # Most are paddings; that they are small keeps sums from overflowing.
        if b >= 1 << 40 and e.size() == 64 and any(self.easy(z3.ULE(e, bv(1 << 12)), n, 3) for n in (0, 1)): b = 1 << 12
        self.bound[s] = b
        self.defs.append(x == e)
        return x

    # ---- proofs ----
    def solver(self, timeout=60, full=True):
        s = z3.SolverFor("QF_BV")
        s.set("timeout", int(timeout * 1000))
        if full:
            s.add(*self.assumptions)
            s.add(*self.defs)
        return s

    def check(self, s):
        t = time.time()
        self.queries += 1
        r = s.check()
        self.solver_s += time.time() - t
        return r

    def addends(self, e): return addends(e)

    def name_sum(self, e):
        """A sum as one symbol, defined through the longest named part of it. Equal sums get the same symbol; what
        is proved about a part can then be used for the whole."""
        if not z3.is_bv(e): return e
        m = self.addends(e)
        if len(m) < 2: return e
        best = None
        for cm, cx in self.sums:
            if cx.size() == e.size() and len(cm) <= len(m) and all(k in m and m[k][1] >= n for k, (_, n) in cm.items()):
                if all(k in cm and cm[k][1] == n for k, (_, n) in m.items()): return cx
                if best is None or len(cm) > len(best[0]): best = (cm, cx)
        d = None
        for k, (t, n) in m.items():
            n -= best[0].get(k, (0, 0))[1] if best else 0
            if n: d = t * n if d is None else d + t * n
        if best: d = best[1] + d
        self.fresh += 1
        x = z3.BitVec(f"sum!{self.fresh}", e.size())
        self.bound[str(x)] = self.ub(e)
        self.definition[str(x)] = d
        self.defs.append(x == d)
        self.sums.append((m, x))
        return x

    def is_domain(self, f): return f.get_id() in self.domain_ids

    def symbols(self, e):
        k = e.get_id()
        r = self._syms.get(k)
        if r is None:
            if z3.is_const(e): out = frozenset([str(e)] if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else [])
            else: out = frozenset().union(*map(self.symbols, e.children()))
            r = self._syms[k] = (e, out)
        return r[1]

    def easy(self, c, levels, timeout):
        """Whether c follows from few facts, with sums taken as unknowns. Those are weaker assumptions than what
        is known: a positive answer is a proof, a negative one says nothing."""
        known = set(self.symbols(c))
        defs = []
        frontier = set(known)
        for _ in range(levels):
            new = set()
            for x in frontier:
                if x in self.definition:
                    d = z3.BitVec(x, self.definition[x].size()) == self.definition[x]
                    defs.append(d)
                    new |= self.symbols(d)
            frontier = new - known
            known |= new
        s = self.solver(timeout, False)
        s.add(*defs)
        for f in self.assumptions:
            k = self.symbols(f)
            if k & known and (k <= known or self.is_domain(f)): s.add(f)
        for x in known:
            if x in self.bound and "!" in x: s.add(z3.ULE(z3.BitVec(x, 64), bv(self.bound[x])))
        q = c
        s.add(z3.Not(q))
        return self.check(s) == z3.unsat

    def linear(self, c, levels, timeout=3):
        """Whether c follows from few facts over the integers: sums that cannot overflow are sums of integers, and
        what is not linear is an unknown number. Weaker assumptions again."""
        lin, none = self._lin, frozenset()      # term: (term, its translation, what has to hold of the unknowns in it)
        def parts(ch, f):
            x = [f(y) for y in ch]
            return [y for y, _ in x], none.union(*[a for _, a in x])
        def integer(e):
            k = e.get_id()
            if k in lin: return lin[k][1:]
            d, n, w, ch = e.decl().kind(), num(e), e.size(), e.children()
            r, at = None, none
            if n is not None: r = z3.IntVal(n)
            elif d == z3.Z3_OP_BADD and sum(self.ub(x) for x in ch) < 1 << w:
                x, at = parts(ch, integer)
                r = z3.Sum(x)
            elif d == z3.Z3_OP_BMUL and len(ch) == 2 and any(num(x) is not None and num(x) * self.ub(y) < 1 << w for x, y in (ch, ch[::-1])):
                (x, y), at = parts(ch, integer)
                r = x * y
            elif d == z3.Z3_OP_ITE:
                x, at = parts(ch[1:], integer)
                c, a = formula(ch[0])
                r, at = z3.If(c, *x), at | a
            elif d == z3.Z3_OP_CONCAT and len(ch) == 2 and num(ch[0]) == 0: r, at = integer(ch[1])
            elif d == z3.Z3_OP_ZERO_EXT: r, at = integer(ch[0])
            elif d == z3.Z3_OP_EXTRACT:
                (hi, lo), x = e.params(), ch[0]
                if hi == x.size() - 1 or lo == 0:
                    # x = 2^b * quotient + rest
                    b = lo or hi + 1
                    q = z3.Int(f"q{x.get_id()}_{b}")
                    t, at = integer(x)
                    at |= {z3.And(q >= 0, q * (1 << b) <= t, t < q * (1 << b) + (1 << b))}
                    r = q if lo else t - q * (1 << b)
            if r is None:
                r = z3.Int(f"i{k}")
                at = frozenset([z3.And(r >= 0, r <= self.ub(e))])
            lin[k] = (e, r, at)
            return r, at
        def formula(e):
            k = e.get_id()
            if k in lin: return lin[k][1:]
            d, ch, at = e.decl().kind(), e.children(), none
            cmp = {z3.Z3_OP_ULEQ: lambda a, b: a <= b, z3.Z3_OP_ULT: lambda a, b: a < b, z3.Z3_OP_UGEQ: lambda a, b: a >= b, z3.Z3_OP_UGT: lambda a, b: a > b,
                   z3.Z3_OP_EQ: lambda a, b: a == b}
            con = {z3.Z3_OP_EQ: lambda a, b: a == b, z3.Z3_OP_IFF: lambda a, b: a == b, z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_NOT: z3.Not,
                   z3.Z3_OP_IMPLIES: z3.Implies, z3.Z3_OP_ITE: z3.If}
            if d in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE): r = e
            elif d in cmp and z3.is_bv(ch[0]):
                x, at = parts(ch, integer)
                r = cmp[d](*x)
            elif d in con and all(map(z3.is_bool, ch)):
                x, at = parts(ch, formula)
                r = con[d](*x)
            else: r = z3.Bool(f"b{k}")
            lin[k] = (e, r, at)
            return r, at
        facts, known = [z3.Not(c)], set(self.symbols(c))
        frontier = set(known)
        for _ in range(levels):
            new = set()
            for x in frontier:
                if x in self.definition and z3.is_bv(self.definition[x]):
                    facts.append(z3.BitVec(x, self.definition[x].size()) == self.definition[x])
                    new |= self.symbols(self.definition[x])
            frontier = new - known
            known |= new
        facts += [f for f in self.assumptions + self.lemmas if self.symbols(f) <= known]
        s = z3.SolverFor("QF_LIA")
        s.set("timeout", int(timeout * 1000))
        x, at = parts(facts, formula)
        s.add(*x, *at)
        return self.check(s) == z3.unsat

    def prove(self, c, timeout=60):
        """True, False or None (no answer)."""
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        for levels, t in ((0, 2), (1, 5), (2, 10)):
            if self.easy(c, levels, min(t, timeout)): return True
        s = self.solver(timeout)
        s.add(z3.Not(c))
        r = self.check(s)
        return True if r == z3.unsat else False if r == z3.sat else None

    # ---- types ----
    def klen(self, k):
        """The value of a type-level constant."""
        if "int" in k: return bv(k["int"], k.get("bits", 64))
        if "const" in k: return self.const(k)
        raise Unsupported(f"type-level constant {k}")

    def size_align(self, t):
        h = self.hooks.size_align(self, t)
        if h is not None: return h
        k = t["k"]
        if k == "bool": return bv(1), bv(1)
        if k == "char": return bv(4), bv(4)
        if k in ("int", "float"): return bv(t["bits"] // 8), bv(min(t["bits"] // 8, 16))
        if k in ("ref", "ptr"):
            wide = t["to"]["k"] in ("slice", "str")
            return bv(16 if wide else 8), bv(8)
        if k == "tuple" and not t["elems"]: return bv(0), bv(1)
        if k == "array":
            s, a = self.size_align(t["elem"])
            n = self.klen(t["len"])
            return z3.simplify(self.binop("Mul", s, n)), a
        if k == "adt":
            d = self.adts[t["key"]]
            offs, size, align = self.layout(t)
            return size, align
        raise Unsupported(f"size of {t}")

    def layout(self, t):
        """Field offsets, size and alignment of a repr(C), transparent or concrete struct. Sizes of fields are
        assumed to be such that repr(C) inserts nothing; that is an obligation."""
        d = self.adts[t["key"]]
        if d["packed"] or d["enum"]: raise Unsupported(f"layout of {d['path']}")
        fs = d["variants"][0]["fields"]
        if d["union"]:
            live = [self.size_align(f["ty"]) for f in fs if f["ty"] != {"k": "tuple", "elems": []}]
            if len(live) != 1: raise Unsupported(f"union {d['path']}")
            return [bv(0)] * len(fs), live[0][0], live[0][1]
        if not d["repr_c"] and not d["transparent"] and len(fs) > 1: raise Unsupported(f"layout of {d['path']}")
        cur, align, offs = bv(0), bv(d["align"] or 1), []
        for f in fs:
            s, a = self.size_align(f["ty"])
            self.oblige([], self.mod(cur, a) == 0, f"implicit padding before {f['name']} in {d['path']}")
            offs.append(cur)
            cur = z3.simplify(cur + s)
            align = self.umax(align, a)
        self.oblige([], self.mod(cur, align) == 0, f"implicit padding at the end of {d['path']}")
        return offs, cur, align

    def umax(self, a, b):
        if eq(a, b): return a
        return z3.simplify(z3.If(z3.UGT(a, b), a, b))

    def mod(self, x, y):
        x = self.name_sum(x)
        r = self.by_value(y, lambda v: (x & bv(v - 1)) if v and v & (v - 1) == 0 else z3.URem(x, bv(v)) if v else x)
        return r if r is not None else z3.simplify(z3.URem(x, y))

    def oblige(self, pc, c, text):
        c = z3.simplify(c)
        if z3.is_true(c): return
        if any(z3.eq(o[1], c) and o[0] == pc for o in self.obligations if len(o[0]) == len(pc) == 0): return
        self.obligations.append((list(pc), c, text))

    # ---- constants ----
    def const(self, k):
        h = self.hooks.const(self, k)
        if h is not None: return h
        if not k.get("body"): raise Unsupported(f"constant {k['const']}")
        return self.run_nullary(k["body"])

    def run_nullary(self, key):
        if key in self.memo:
            if self.memo[key] is None: raise Unsupported(f"cyclic constant {key}")
            return self.memo[key]
        self.memo[key] = None
        st = {}
        try:
            r = self.run(key, [], st, [], 0)
        except BaseException:
            del self.memo[key]
            raise
        if is_term(r): r = self.name(key, r)
        self.globals.update(st)
        self.memo[key] = r
        return r

    def constant(self, o, st):
        v, t = o["val"], o["ty"]
        if "const" in v: return self.const(v)
        if "int" in v:
            if t["k"] == "bool": return z3.BoolVal(bool(v["int"]))
            if t["k"] in ("int", "char", "float"): return bv(v["int"], v["bits"])
            if t["k"] in ("ref", "ptr"): return bv(v["int"], 64)
            raise Unsupported(f"scalar constant of type {t}")
        if "zst" in v:
            if t["k"] == "fndef": return FnVal(t)
            if t["k"] == "tuple": return UNIT
            if t["k"] == "array": return Agg("array", [])
            if t["k"] == "closure": return Agg("closure", [], t)
            if t["k"] == "adt": return Agg("adt", [Agg("tuple", []) for _ in self.adts[t["key"]]["variants"][0]["fields"]], t)
            raise Unsupported(f"zero-sized constant of type {t}")
        if "slice" in v:
            b = bytes(v["slice"][:v["len"]])
            if t["k"] == "ref" and t["to"]["k"] == "str": return Str([b.decode()])
            return Ref(self.glob(Agg("array", [bv(x, 8) for x in b])), (), bv(len(b)))
        if "bytes" in v and t["k"] == "ref" and t["to"]["k"] == "array" and t["to"]["elem"].get("bits") == 8:
            return Ref(self.glob(Agg("array", [bv(x, 8) for x in v["bytes"][v["off"]:]])))
        if "mem" in v: return self.decode(v["mem"][v["off"]:], t)
        if "bytes" in v and t["k"] in ("ref", "ptr"): return Ref(self.glob(self.decode(v["bytes"][v["off"]:], t["to"])))
        raise Unsupported(f"constant {str(v)[:80]}")

    def decode(self, b, t):
        """Constant memory as a value."""
        if t["k"] in ("int", "float"):
            n = t["bits"] // 8
            if len(b) >= n: return bv(int.from_bytes(bytes(b[:n]), "little"), t["bits"])
        if t["k"] == "bool" and b: return z3.BoolVal(bool(b[0]))
        if t["k"] == "array" and t["elem"]["k"] in ("int", "float"):
            n, k = num(self.klen(t["len"])), t["elem"]["bits"] // 8
            if n is not None and n * k <= len(b): return Agg("array", [self.decode(b[i * k:], t["elem"]) for i in range(n)])
        raise Unsupported(f"constant memory of type {t}")

    def glob(self, v):
        self.fresh += 1
        c = ("g", self.fresh)
        self.globals[c] = v
        return c

    # ---- memory ----
    def load(self, st, cell):
        if cell in st: return st[cell]
        if cell in self.globals: return self.globals[cell]
        raise Unsupported(f"read of uninitialised {cell}")

    def project(self, v, p):
        if isinstance(v, VIte): return ite(v.c, self.project(v.a, p), self.project(v.b, p))
        kind = p[0]
        if kind == "d":
            if isinstance(v, (Agg,)): return v if v.variant == p[1] else None
            raise Unsupported(f"downcast of {v}")
        if v is None: return None
        v = self.expand(v)
        if not isinstance(v, Agg): raise Unsupported(f"projection {p} of {v}")
        if kind == "f":
            if p[1] >= len(v.fields): raise Unsupported(f"field {p[1]} of {v}")
            return v.fields[p[1]]
        n = num(p[1])
        if kind == "off":
            if n is None: raise Unsupported("part of an array")
            return Agg(v.kind, v.fields[n:], v.ty)
        if n is not None:
            if n >= len(v.fields): return None     # out of bounds: the bounds check is an obligation
            return v.fields[n]
        out = v.fields[-1] if v.fields else None
        for i in range(len(v.fields) - 2, -1, -1): out = ite(p[1] == bv(i), v.fields[i], out)
        return out

    def expand(self, v):
        """Zero and unknown structs as aggregates."""
        if isinstance(v, (Zero, Sym)):
            t = v.ty
            mk = (lambda i, ty: zero_of(ty)) if isinstance(v, Zero) else (lambda i, ty: self.unknown(f"{v.name}.{i}", ty))
            if t["k"] == "adt":
                d = self.adts[t["key"]]
                if d["enum"] or d["union"]: raise Unsupported(f"expansion of {d['path']}")
                return Agg("adt", [mk(f["name"], f["ty"]) for f in d["variants"][0]["fields"]], t)
            if t["k"] == "tuple": return Agg("tuple", [mk(i, e) for i, e in enumerate(t["elems"])])
            if t["k"] == "array":
                n = num(self.klen(t["len"]))
                if n is None or n > 4096: raise Unsupported("elements of an array of unknown length")
                return Agg("array", [mk(i, t["elem"]) for i in range(n)])
        return v

    def unknown(self, name, t):
        if t["k"] == "int": return z3.BitVec(name, t["bits"])
        if t["k"] == "bool": return z3.Bool(name)
        return Sym(name, t)

    def read(self, st, cell, path):
        v = self.load(st, cell)
        for p in path: v = self.project(v, p)
        return v

    def update(self, v, path, new):
        if not path: return new
        p = path[0]
        if isinstance(v, VIte): return VIte(v.c, self.update(v.a, path, new), self.update(v.b, path, new))
        if p[0] == "d": return self.update(v, path[1:], new)
        v = self.expand(v)
        if not isinstance(v, Agg): raise Unsupported(f"write to {p} of {v}")
        fs = list(v.fields)
        if p[0] == "f" or num(p[1]) is not None:
            i = p[1] if p[0] == "f" else num(p[1])
            if i >= len(fs): return v
            fs[i] = self.update(fs[i], path[1:], new)
        else:
            for i in range(len(fs)): fs[i] = ite(p[1] == bv(i), self.update(fs[i], path[1:], new), fs[i])
        return Agg(v.kind, fs, v.ty, v.variant)

    def write(self, st, cell, path, new):
        if not path:
            st[cell] = new
            return
        old = st[cell] if cell in st else self.globals.get(cell)
        if old is None:
            # Built field by field.
            t = self.cell_ty.get(cell)
            if t is None or path[0][0] != "f": raise Unsupported("partial write to uninitialised memory")
            old = self.blank(t)
        st[cell] = self.update(old, path, new)

    cell_ty = {}

    def blank(self, t):
        if t["k"] == "adt" and not self.adts[t["key"]]["enum"]:
            return Agg("adt", [None] * len(self.adts[t["key"]]["variants"][0]["fields"]), t)
        if t["k"] == "tuple": return Agg("tuple", [None] * len(t["elems"]))
        raise Unsupported("partial write to uninitialised memory")

    # ---- places and operands ----
    def place(self, fr, st, p):
        """(cell, path) a place denotes."""
        return self.place_meta(fr, st, p)[:2]

    def place_meta(self, fr, st, p):
        cell, path, meta = (fr, p["l"]), (), None
        def length():
            if meta is not None: return meta
            v = self.expand(self.read(st, cell, path))
            if not isinstance(v, Agg): raise Unsupported("elements of something of unknown length")
            return bv(len(v.fields))
        for e in p["proj"]:
            if e["p"] not in ("deref", "subslice", "cindex"): meta = None
            if e["p"] == "deref":
                v = self.read(st, cell, path)
                if isinstance(v, Str): raise Unsupported("a string as a place")
                if not isinstance(v, Ref): raise Unsupported(f"dereference of {v}")
                cell, path, meta = v.cell, v.path, v.meta
            elif e["p"] == "field": path += (("f", e["i"]),)
            elif e["p"] == "index": path = elem_path(path, self.read(st, (fr, e["l"]), ()))
            elif e["p"] == "downcast": path += (("d", e["v"]),)
            elif e["p"] == "cindex":
                n = bv(e["i"]) if not e["end"] else z3.simplify(length() - bv(e["i"]))
                path, meta = elem_path(path, n), None
            elif e["p"] == "subslice":
                n = length()
                meta = z3.simplify((n - bv(e["to"]) if e["end"] else bv(e["to"])) - bv(e["from"]))
                path += (("off", bv(e["from"])),)
            elif e["p"] == "cast": pass
            else: raise Unsupported(f"projection {e}")
        return cell, path, meta

    def operand(self, fr, st, o):
        if o["o"] == "place":
            p = o["place"]
            v = self.read(st, *self.place(fr, st, p))
            if v is None: raise Unsupported("use of an uninitialised value")
            return v
        if o["o"] == "const": return self.constant(o, st)
        if o["o"] == "checks": return z3.BoolVal(False)
        raise Unsupported(f"operand {o}")

    # ---- operators ----
    def binop(self, op, a, b, signed=False):
        if isinstance(a, VIte): return ite(a.c, self.binop(op, a.a, b, signed), self.binop(op, a.b, b, signed))
        if isinstance(b, VIte): return ite(b.c, self.binop(op, a, b.a, signed), self.binop(op, a, b.b, signed))
        if not (is_term(a) and is_term(b)): raise Unsupported(f"{op} of {a} and {b}")
        if z3.is_bool(a):
            r = {"Eq": lambda: a == b, "Ne": lambda: a != b, "BitAnd": lambda: z3.And(a, b), "BitOr": lambda: z3.Or(a, b),
                 "BitXor": lambda: z3.Xor(a, b)}.get(op)
            if r is None: raise Unsupported(f"{op} of booleans")
            return z3.simplify(r())
        w = a.size()
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked") and b.size() != w:
            b = z3.Extract(w - 1, 0, b) if b.size() > w else z3.ZeroExt(w - b.size(), b)
        if op.endswith("WithOverflow"):
            base = op[:-len("WithOverflow")]
            if signed: raise Unsupported("signed overflow")
            r = self.binop(base, a, b)
            ua, ub = self.ub(a), self.ub(b)
            if base == "Add": o = z3.BoolVal(False) if ua + ub < 1 << w else z3.Not(z3.BVAddNoOverflow(a, b, False))
            elif base == "Sub": o = z3.ULT(a, b)
            else: o = z3.BoolVal(False) if ua * ub < 1 << w else z3.Not(z3.BVMulNoOverflow(a, b, False))
            return Agg("tuple", [r, z3.simplify(o)])
        op = op.replace("Unchecked", "")
        if op == "Rem" and not signed: return self.mod(a, b)
        if op == "Div" and not signed:
            r = self.by_value(b, lambda v: z3.LShR(a, bv(v.bit_length() - 1, w)) if v and v & (v - 1) == 0 else z3.UDiv(a, bv(v, w)))
            return r if r is not None else z3.simplify(z3.UDiv(a, b))
        if op == "Mul":
            for x, y in ((a, b), (b, a)):
                if num(x) is None and num(y) is None and self.valset(y) is not None:
                    return self.by_value(y, lambda v: x * bv(v, w))
        if op in ("BitAnd", "Shr", "Div"): a, b = self.name_sum(a), self.name_sum(b)
        f = {
            "Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b,
            "BitXor": lambda: a ^ b, "Shl": lambda: a << (b & bv(w - 1, w)),
            "Shr": lambda: (a >> (b & bv(w - 1, w))) if signed else z3.LShR(a, b & bv(w - 1, w)),
            "Eq": lambda: a == b, "Ne": lambda: a != b,
            "Lt": lambda: a < b if signed else z3.ULT(a, b), "Le": lambda: a <= b if signed else z3.ULE(a, b),
            "Gt": lambda: a > b if signed else z3.UGT(a, b), "Ge": lambda: a >= b if signed else z3.UGE(a, b),
            "Rem": lambda: z3.SRem(a, b), "Div": lambda: a / b,
        }.get(op)
        if f is None: raise Unsupported(f"operator {op}")
        r = z3.simplify(f())
        # Comparisons decided by what is known of the operands.
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") and truth(r) is None and not signed:
            va, vb = self.valset(a), self.valset(b)
            if va is not None and vb is not None:
                fn = {"Lt": int.__lt__, "Le": int.__le__, "Gt": int.__gt__, "Ge": int.__ge__, "Eq": int.__eq__, "Ne": int.__ne__}[op]
                rs = {fn(x, y) for x in va for y in vb}
                if len(rs) == 1: return z3.BoolVal(rs.pop())
        return r

    def rvalue(self, fr, st, pc, rv, body):
        r = rv["r"]
        if r == "use": return self.operand(fr, st, rv["a"])
        if r == "ref":
            p = rv["place"]
            if p["proj"] and p["proj"][-1]["p"] == "deref":
                # A reborrow: keep lengths and strings.
                v = self.read(st, *self.place(fr, st, dict(l=p["l"], proj=p["proj"][:-1])))
                if isinstance(v, (Ref, Str, VIte, Sym)): return v
            cell, path, meta = self.place_meta(fr, st, p)
            return Ref(cell, path, meta if p["proj"] and p["proj"][-1]["p"] == "subslice" else None)
        if r == "bin":
            a, b = self.operand(fr, st, rv["a"]), self.operand(fr, st, rv["b"])
            t = operand_ty(rv["a"], body)
            return self.binop(rv["op"], a, b, bool(t and t.get("signed")))
        if r == "un":
            a = self.operand(fr, st, rv["a"])
            if rv["op"] == "Not": return z3.simplify(z3.Not(a) if z3.is_bool(a) else ~a)
            if rv["op"] == "Neg" and is_term(a): return z3.simplify(-a)
            if rv["op"] == "PtrMetadata" and isinstance(a, Ref) and a.meta is not None: return a.meta
            raise Unsupported(f"operator {rv['op']}")
        if r == "repeat":
            a, n = self.operand(fr, st, rv["a"]), self.klen(rv["n"])
            if is_term(a) and num(a) == 0 and num(n) is None: return Zero({"k": "array", "elem": {"k": "int", "bits": a.size(), "signed": False}, "len": rv["n"]})
            if isinstance(a, Zero) and num(n) is None: return Zero({"k": "array", "elem": a.ty, "len": rv["n"]})
            if num(n) is None or num(n) > 4096: raise Unsupported("array of unknown length")
            return Agg("array", [a] * num(n))
        if r == "agg":
            ops = [self.operand(fr, st, o) for o in rv["ops"]]
            if rv["kind"] in ("array", "tuple"): return Agg(rv["kind"], ops)
            if rv["kind"] == "closure": return Agg("closure", ops, rv["ty"])
            if rv["kind"] == "adt":
                d = self.adts[rv["ty"]["key"]]
                if d["union"]:
                    fs = [None] * len(d["variants"][0]["fields"])
                    fs[rv["active"] or 0] = ops[0]
                    return Agg("adt", fs, rv["ty"])
                return Agg("adt", ops, rv["ty"], rv["variant"])
            raise Unsupported(f"aggregate {rv}")
        if r == "discr":
            cell, path = self.place(fr, st, rv["place"])
            if not path and cell not in st and cell not in self.globals:
                n = self.only_variant(self.cell_ty.get(cell))
                if n is not None: return bv(n)
            return self.discr(self.read(st, cell, path))
        if r == "cast":
            a = self.operand(fr, st, rv["a"])
            return self.cast(rv["kind"], a, rv["ty"], operand_ty(rv["a"], body))
        raise Unsupported(f"rvalue {rv.get('text', r)}")

    def only_variant(self, t):
        """The variant of a zero-sized enum with one possible value: it is never written."""
        if not t or t["k"] != "adt" or not self.adts[t["key"]]["enum"]: return None
        live = [i for i, v in enumerate(self.adts[t["key"]]["variants"]) if not any(self.uninhabited(f["ty"]) for f in v["fields"])]
        return live[0] if len(live) == 1 and not self.adts[t["key"]]["variants"][live[0]]["fields"] else None

    def uninhabited(self, t):
        if t["k"] == "never": return True
        return t["k"] == "adt" and self.adts[t["key"]]["enum"] and not self.adts[t["key"]]["variants"]

    def discr(self, v):
        if isinstance(v, VIte): return ite(v.c, self.discr(v.a), self.discr(v.b))
        if isinstance(v, Agg) and v.kind == "adt": return bv(v.variant)
        if isinstance(v, Sym) and v.ty and "discr" in v.ty: return v.ty["discr"]
        raise Unsupported(f"discriminant of {v}")

    def cast(self, kind, a, t, from_):
        if kind.startswith("IntToInt") and is_term(a):
            w = t.get("bits", 8)
            if z3.is_bool(a): return z3.simplify(z3.If(a, bv(1, w), bv(0, w)))
            if a.size() >= w: return z3.simplify(z3.Extract(w - 1, 0, a))
            return z3.simplify(z3.SignExt(w - a.size(), a) if from_ and from_.get("signed") else z3.ZeroExt(w - a.size(), a))
        if "Unsize" in kind and isinstance(a, Ref) and t["k"] in ("ref", "ptr") and t["to"]["k"] == "slice" and from_ and from_["to"]["k"] == "array":
            return Ref(a.cell, a.path, self.klen(from_["to"]["len"]))
        if kind in ("PtrToPtr",) and isinstance(a, (Ref, Str)): return a
        if kind.startswith("PointerCoercion") and isinstance(a, (Ref, FnVal)): return a
        if kind == "Transmute":
            if isinstance(a, Zero): return zero_of(t)
            if t["k"] == "adt" and isinstance(a, Agg) and a.ty and a.ty.get("key") == t["key"]: return a
            if isinstance(a, (Ref, Str)): return a
            if isinstance(a, Agg) and a.ty and self.adts.get(a.ty["key"], {}).get("union"):
                live = [f for f in a.fields if f is not None]
                if len(live) == 1: return live[0]
            if isinstance(a, App) or isinstance(a, Sym): return a
        raise Unsupported(f"cast {kind} of {type(a).__name__}")

    # ---- control ----
    def order(self, key):
        if key in self.rpo: return self.rpo[key]
        b = self.bodies[key]["blocks"]
        seen, out, stack = set(), [], [(0, iter(succ(b[0]["term"])))]
        seen.add(0)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ(b[s]["term"]))))
                    break
            else:
                out.append(n)
                stack.pop()
        self.rpo[key] = {n: i for i, n in enumerate(reversed(out))}
        return self.rpo[key]

    def run(self, key, args, st, pc, depth):
        """Execute a body from the state st (updated in place); returns its value."""
        outs = self.run_paths(key, args, st, pc, depth)
        s, p = outs[0]
        for o in outs[1:]: s, p = self.merge((s, p), o)
        st.clear()
        st.update(s)
        return s.get(VALUE, UNIT)

    def run_paths(self, key, args, st, pc, depth):
        """Execute a body from the state st: [(state with the value at VALUE, path condition)], one for each set of
        paths that is kept apart."""
        if depth > LIMIT_DEPTH: raise Unsupported("recursion too deep")
        body = self.bodies.get(key)
        if body is None: raise Unsupported(f"no body {key}")
        self.executed.add(key)
        self.fresh += 1
        fr = f"{self.fresh}:{key.split('|')[0].split('::')[-1]}"
        cur = dict(st)
        for i, a in enumerate(args): cur[(fr, i + 1)] = a
        for i, t in enumerate(body["locals"]): Machine.cell_ty[(fr, i)] = t
        rpo = self.order(key)
        pending = {(0, 0, cur.get(PATH, 0)): (cur, list(pc))}
        done = {}
        visits = {}
        def push(b, s, p, case=0):
            # The cases of a fork stay apart until the next branch.
            at = (b, case, s.get(PATH, 0))
            pending[at] = self.merge(pending[at], (s, p)) if at in pending else (s, p)
        while pending:
            at = min(pending, key=lambda x: (rpo[x[0]],) + x[1:])
            n, case, path = at
            s, p = pending.pop(at)
            round = visits[n, path] = visits.get((n, path), 0) + 1
            if round > self.loop_check and round % 8 == 0 and len(p) > len(pc) and not self.feasible(p): continue
            if round > self.loop_check and self.loop_deadline and time.time() > self.loop_deadline:
                self.truncated = key.split("|")[0]
                continue
            if round > LIMIT_VISITS: raise Unsupported(f"loop bound in {key}")
            self.steps += 1
            blk = body["blocks"][n]
            for x in blk["stmts"]:
                if x["s"] == "other" and x.get("text", "").startswith("assume("): continue
                if x["s"] != "assign": raise Unsupported(f"statement {x.get('text')}")
                v = self.rvalue(fr, s, p, x["rv"], body)
                self.write(s, *self.place(fr, s, x["place"]), v)
            t = blk["term"]
            k = t["t"]
            if k == "goto": push(t["to"], s, p, case)
            elif k == "return":
                s[VALUE] = s.get((fr, 0), UNIT)
                # The frame is gone.
                if args:
                    for c in [c for c in s if c[0] == fr]: del s[c]
                done[path] = self.merge(done[path], (s, p)) if path in done else (s, p)
            elif k == "switch":
                a = self.operand(fr, s, t["a"])
                if isinstance(a, VIte) or not is_term(a): raise Unsupported("switch on a value that is not a term")
                if z3.is_bool(a): tests = [(z3.Not(a) if v == 0 else a, b) for v, b in t["cases"]]
                else: tests = [(a == bv(v, a.size()), b) for v, b in t["cases"]]
                rest = []
                for c, b in tests:
                    c = z3.simplify(z3.And(c, *[z3.Not(x) for x in rest]) if len(rest) else c)
                    if truth(c) is not False: push(b, dict(s), p + ([] if truth(c) else [c]))
                    rest.append(c)
                    if truth(c) is True: break
                else:
                    c = z3.simplify(z3.Not(z3.Or(*rest)) if len(rest) > 1 else z3.Not(rest[0]))
                    if truth(c) is not False: push(t["otherwise"], dict(s), p + ([] if truth(c) else [c]))
            elif k == "assert":
                a = self.operand(fr, s, t["a"])
                c = a if t["expected"] else z3.Not(a)
                self.oblige(p, c, f"{t['msg'].split('(')[0].split('{')[0].strip()} in {key.split('|')[0]}")
                if truth(z3.simplify(c)) is not False: push(t["to"], s, p, case)
            elif k == "call":
                v = self.call(fr, s, p, t, body, depth)
                if v is None or t["to"] is None: continue
                if isinstance(v, Fork):
                    for i, (c, result, *apart) in enumerate(v.cases):
                        c = z3.simplify(c)
                        if truth(c) is False: continue
                        s2 = dict(s)
                        if apart and apart[0]:
                            self.fresh += 1
                            s2[PATH] = self.fresh
                        r = result(s2)
                        self.write(s2, *self.place(fr, s2, t["dest"]), r)
                        push(t["to"], s2, p + ([] if truth(c) else [c]), 10 * case + i + 1)
                        if truth(c) is True: break
                    continue
                if isinstance(v, Outcomes):
                    for s2, p2 in v.outs:
                        r = s2.pop(VALUE)
                        self.write(s2, *self.place(fr, s2, t["dest"]), r)
                        push(t["to"], s2, p2, case)
                    continue
                self.write(s, *self.place(fr, s, t["dest"]), v)
                push(t["to"], s, p, case)
            elif k == "drop":
                if self.has_drop(t["ty"]): raise Unsupported("code that runs on drop")
                push(t["to"], s, p, case)
            elif k == "unreachable":
                self.oblige(p, z3.BoolVal(False), f"unreachable code in {key.split('|')[0]}")
            else: raise Unsupported(f"terminator {t.get('text', k)}")
        if not done and self.dead: return []
        if not done:
            raise Unsupported(f"{key} never returns") if not self.obligations else Unsupported(f"{key} always panics")
        return [done[k] for k in sorted(done)]

    def has_drop(self, t, seen=()):
        """Whether dropping a value runs code outside the standard library."""
        k = t["k"]
        if k == "adt":
            d = self.adts[t["key"]]
            if d.get("dtor"): return True
            if t["key"] in seen: return False
            seen += (t["key"],)
            return any(self.has_drop(f["ty"], seen) for v in d["variants"] for f in v["fields"]) \
                or any(self.has_drop(a, seen) for a in t["args"] if isinstance(a, dict) and "k" in a)
        if k == "tuple": return any(self.has_drop(e, seen) for e in t["elems"])
        if k in ("array", "slice"): return self.has_drop(t["elem"], seen)
        return False

    def feasible(self, pc):
        s = self.solver(10)
        s.add(*pc)
        return self.check(s) != z3.unsat

    def merge(self, x, y):
        (s1, p1), (s2, p2) = x, y
        i = 0
        while i < len(p1) and i < len(p2) and z3.eq(p1[i], p2[i]): i += 1
        r1, r2 = p1[i:], p2[i:]
        c1 = z3.And(*r1) if len(r1) > 1 else r1[0] if r1 else z3.BoolVal(True)
        c2 = z3.And(*r2) if len(r2) > 1 else r2[0] if r2 else z3.BoolVal(True)
        either = z3.simplify(z3.Or(c1, c2))
        pc = p1[:i] + ([] if z3.is_true(either) else [either])
        out = {}
        for k in s1.keys() | s2.keys():
            a, b = s1.get(k), s2.get(k)
            out[k] = a if a is b else ite(c1, a, b)
        return out, pc

    def call(self, fr, st, pc, t, body, depth):
        return self.invoke(t["f"], lambda: [self.operand(fr, st, a) for a in t["args"]], fr, st, pc, depth)

    def apply(self, fn, args, fr, st, pc, depth):
        """Call a function value or closure."""
        env = fn
        while isinstance(env, Ref): env = self.read(st, env.cell, env.path)
        if isinstance(env, FnVal) and "f" in env.ty: return self.invoke(env.ty["f"], lambda: list(args), fr, st, pc, depth)
        if not (isinstance(env, Agg) and env.kind == "closure" and env.ty.get("body")): raise Unsupported(f"call of the value {fn}")
        by_ref = self.bodies[env.ty["body"]]["locals"][1]["k"] == "ref"
        if by_ref:
            while isinstance(fn, Ref):
                v = self.read(st, fn.cell, fn.path)
                if not isinstance(v, Ref): break
                fn = v
            else:
                self.fresh += 1
                st["env", self.fresh] = env
                fn = Ref(("env", self.fresh))
        return self.body_call(env.ty["body"], [fn if by_ref else env] + list(args), st, pc, depth)

    def invoke(self, f, args, fr, st, pc, depth):
        if "unknown" in f: raise Unsupported("call through a pointer")
        path, item = f["path"], f["item"]
        if path.startswith("core::panicking::") or path.startswith("core::option::unwrap_failed") or path.startswith("core::option::expect_failed") \
                or path.startswith("core::result::unwrap_failed") or path.startswith("std::rt::begin_panic") or path.startswith("std::rt::panic"):
            self.oblige(pc, z3.BoolVal(False), f"panic in {fr.split(':', 1)[1]}")
            return None
        h = self.hooks.call(self, st, pc, f, args)
        if h is not None: return h
        if item in ("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call"):
            a = args()
            return self.apply(a[0], self.expand(a[1]).fields, fr, st, pc, depth)
        if item in ("core::iter::traits::iterator::Iterator::fold", "core::iter::traits::iterator::Iterator::for_each"):
            a = args()
            if isinstance(a[0], Iter):
                fold = item.endswith("fold")
                acc = a[1] if fold else UNIT
                for i in range(a[0].pos, a[0].n):
                    acc = self.apply(a[-1], ([acc] if fold else []) + [self.element(st, a[0], i)], fr, st, pc, depth)
                    if acc is None: return None
                    if isinstance(acc, (Outcomes, Fork)): raise Unsupported("a fold that forks")
                return acc
            if not isinstance(a[0], Agg): raise Unsupported(f"{item} of {a[0]}")
        h = self.builtin(st, pc, f, args)
        if h is not None: return h
        if f.get("body") is None: raise Unsupported(f"call of {path}")
        a = args()
        if not a:
            return self.run_nullary(f["body"])
        return self.body_call(f["body"], a, st, pc, depth)

    def subslice(self, st, pc, ref, rng):
        kind = rng.ty["path"].split("::")[-1]
        n = ref.meta
        if n is None:
            v = self.expand(self.read(st, ref.cell, ref.path))
            if not (isinstance(v, Agg) and v.kind == "array"): raise Unsupported("index by a range")
            n = bv(len(v.fields))
        if kind == "RangeTo": a, b = bv(0), rng.fields[0]
        elif kind == "Range": a, b = rng.fields
        elif kind == "RangeFrom": a, b = rng.fields[0], n
        elif kind == "RangeFull": a, b = bv(0), n
        else: raise Unsupported(f"index by {kind}")
        self.oblige(pc, z3.And(z3.ULE(a, b), z3.ULE(b, n)), "range index out of bounds")
        return self.part(ref, a, z3.simplify(b - a))

    def part(self, r, at, n):
        path, o = offset_path(r.path)
        o = z3.simplify(o + at)
        return Ref(r.cell, path if num(o) == 0 else path + (("off", o),), n)

    def element(self, st, it, i):
        r = Ref(it.ref.cell, elem_path(it.ref.path, bv(i)))
        return self.read(st, r.cell, r.path) if it.owned else r

    def body_call(self, key, a, st, pc, depth):
        outs = self.run_paths(key, a, st, pc, depth + 1)
        if len(outs) > 1: return Outcomes(outs)
        if not outs: return None
        # The condition is the caller's again, or implied by it where the callee panics otherwise.
        s = outs[0][0]
        v = s.pop(VALUE)
        st.clear()
        st.update(s)
        if self.name_results and is_term(v) and z3.is_bv(v) and v.size() == 64 and len(self.symbols(v)) and v.num_args() and not self.addends(v).keys() - {v.get_id()}:
            x = self.names.get(v.get_id())
            if x is None: x = self.names[v.get_id()] = (v, self.name(key, v))
            if self.bound[str(x[1])] <= 1 << 12: return x[1]
        return v

    def builtin(self, st, pc, f, args):
        name = f.get("intrinsic")
        path, item = f["path"], f["item"]
        targ = f["args"][0] if f["args"] and isinstance(f["args"][0], dict) and "k" in f["args"][0] else None
        if item == "core::ops::index::Index::index":
            a = args()
            if len(a) == 2 and isinstance(a[0], Ref) and isinstance(a[1], Agg) and a[1].ty and a[1].ty["path"].startswith("core::ops::range::"):
                return self.subslice(st, pc, a[0], a[1])
        if path == "core::mem::size_of" or name == "size_of": return self.size_align(targ)[0]
        if path == "core::mem::align_of" or name in ("align_of", "min_align_of"): return self.size_align(targ)[1]
        if path == "core::mem::size_of_val":
            if targ["k"] == "slice":
                (r,) = args()
                if not isinstance(r, Ref) or r.meta is None: raise Unsupported("size of a slice")
                return z3.simplify(r.meta * self.size_align(targ["elem"])[0])
            return self.size_align(targ)[0]
        if path.startswith("core::slice::") and path.endswith("::from_ref"):
            (r,) = args()
            if not isinstance(r, Ref): raise Unsupported("a slice of something that is not a place")
            self.fresh += 1
            c = ("one", self.fresh)
            st[c] = Agg("array", [self.read(st, r.cell, r.path)])
            return Ref(c, (), bv(1))
        if path == "bytemuck::cast_slice" and f["args"][1].get("bits") == 8 and f["args"][0].get("k") == "adt":
            (r,) = args()
            v = st.get(r.cell) if isinstance(r, Ref) and not r.path and r.cell[0] == "one" else None
            if v is None: raise Unsupported("cast of a slice")
            self.fresh += 1
            c = ("bytes", self.fresh)
            st[c] = Bytes(v.fields[0], targ)
            return Ref(c, (), self.size_align(targ)[0])
        if path == "core::mem::zeroed" or item == "bytemuck::zeroable::Zeroable::zeroed": return zero_of(targ if path == "core::mem::zeroed" else f["item_args"][0])
        if path.startswith("core::mem::maybe_uninit::") and path.endswith("::zeroed"): return zero_of(f["self"]["args"][0])
        if path.startswith("core::mem::maybe_uninit::") and path.endswith("::assume_init"): return args()[0]
        if name in ("assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "assume"): return UNIT
        if name == "ctpop":
            (a,) = args()
            r = self.by_value(a, lambda v: bv(bin(v).count("1"), 32))
            if r is None: r = z3.simplify(sum((z3.ZeroExt(31, z3.Extract(i, i, a)) for i in range(1, a.size())), z3.ZeroExt(31, z3.Extract(0, 0, a))))
            return r
        if name in ("cttz", "cttz_nonzero", "ctlz", "ctlz_nonzero"):
            (a,) = args()
            w = a.size()
            tz = lambda v: (v & -v).bit_length() - 1 if v else w
            r = self.by_value(a, lambda v: bv(tz(v) if name.startswith("cttz") else w - v.bit_length(), 32))
            if r is None:
                r = bv(w, 32)
                order = range(w - 1, -1, -1) if name.startswith("cttz") else range(w)
                for i in order: r = z3.If(z3.Extract(i, i, a) == 1, bv(i if name.startswith("cttz") else w - 1 - i, 32), r)
                r = z3.simplify(r)
            return r
        if name in ("wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add", "unchecked_sub", "unchecked_mul", "exact_div", "unchecked_rem", "unchecked_div", "unchecked_shl", "unchecked_shr"):
            a, b = args()
            op = name.split("_")[-1].replace("div", "Div").capitalize()
            return self.binop(op, a, b)
        if name in ("add_with_overflow", "sub_with_overflow", "mul_with_overflow"):
            a, b = args()
            return self.binop(name.split("_")[0].capitalize() + "WithOverflow", a, b)
        if name in ("integer_min", "integer_max", "saturating_add", "saturating_sub", "disjoint_bitor"):
            a, b = args()
            if targ and targ.get("signed") and name != "disjoint_bitor": raise Unsupported(f"signed {name}")
            if name == "disjoint_bitor": return self.binop("BitOr", a, b)
            if not (is_term(a) and is_term(b)): raise Unsupported(f"{name} of {a} and {b}")
            if name == "integer_min": return z3.simplify(z3.If(z3.ULE(a, b), a, b))
            if name == "integer_max": return self.umax(a, b)
            if name == "saturating_sub": return z3.simplify(z3.If(z3.ULE(b, a), a - b, bv(0, a.size())))
            if self.ub(a) + self.ub(b) < 1 << a.size(): return self.binop("Add", a, b)
            return z3.simplify(z3.If(z3.BVAddNoOverflow(a, b, False), a + b, bv(-1, a.size())))
        if name in ("likely", "unlikely", "black_box"): return args()[0]
        if name == "select_unpredictable":
            c, a, b = args()
            return ite(c, a, b)
        if path == "core::intrinsics::cold_path" or name == "cold_path": return UNIT
        # Formatted text.
        if path.startswith("core::fmt::rt::") and path.endswith("::new_display"):
            (r,) = args()
            while isinstance(r, Ref): r = self.read(st, r.cell, r.path)
            if isinstance(r, Str): return Agg("fmtarg", [r])
            raise Unsupported(f"display of {r}")
        if path.startswith("core::fmt::") and path.split("::")[-1] in ("new", "from_str", "from_str_nonconst") and f.get("self", {}) is not None and "Arguments" in str((f.get("self") or {}).get("path")):
            a = args()
            return Agg("fmt", [a[0]] if len(a) == 1 else [self.format(st, *a)])
        if path == "alloc::fmt::format": return args()[0].fields[0]
        if path.startswith("alloc::slice::") and path.split("::")[-1] in ("concat", "join") or path.startswith("alloc::str::") and path.split("::")[-1] in ("concat", "join"):
            a = args()
            if isinstance(a[0], Ref):
                v = self.expand(self.read(st, a[0].cell, a[0].path))
                if isinstance(v, Agg) and all(isinstance(x, Str) for x in v.fields) and (len(a) == 1 or isinstance(a[1], Str)):
                    out = ()
                    for i, x in enumerate(v.fields): out += (a[1].pieces if i and len(a) > 1 else ()) + x.pieces
                    return Str(out)
        # Strings.
        if path.startswith("alloc::string::") or item in ("alloc::string::ToString::to_string", "core::convert::From::from", "alloc::borrow::ToOwned::to_owned", "core::fmt::Write::write_str", "core::fmt::Write::write_char", "core::fmt::Write::write_fmt", "core::ops::arith::AddAssign::add_assign"):
            r = self.string(st, f, args)
            if r is not None: return r
        if path.startswith(("core::str::{", "core::str::traits::{", "alloc::str::{")) or item == "core::cmp::PartialEq::eq" and targ and targ["k"] == "str":
            r = self.literal(st, path.split("::")[-1], args())
            if r is not None: return r
        if path.startswith("core::char::methods::") and path.split("::")[-1] in ("is_ascii_uppercase", "is_ascii_lowercase", "is_alphanumeric", "is_ascii_alphanumeric", "to_ascii_lowercase", "to_ascii_uppercase"):
            (c,) = args()
            while isinstance(c, Ref): c = self.read(st, c.cell, c.path)
            if num(c) is not None and num(c) < 128:
                x, last = chr(num(c)), path.split("::")[-1]
                return bv(ord(x.lower() if last.endswith("lowercase") else x.upper()), 32) if last.startswith("to_") else \
                    z3.BoolVal(x.isupper() if "upper" in last else x.islower() if "lower" in last else x.isalnum())
        # Vectors of zeros.
        if path == "alloc::vec::from_elem":
            a, n = args()
            if is_term(a) and num(a) == 0: return Agg("vec", [n, Zero({"k": "array", "elem": {"k": "int", "bits": a.size(), "signed": False}, "len": None})])
            raise Unsupported("a vector of other elements than zeros")
        s = f.get("self")
        if (s and s.get("path") == "alloc::vec::Vec") and path.split("::")[-1] in ("deref", "as_slice", "as_ref", "borrow"):
            (r,) = args()
            v = self.read(st, r.cell, r.path)
            if isinstance(v, Agg) and v.kind == "vec": return Ref(r.cell, r.path + (("f", 1),), v.fields[0])
        # Slices.
        if item in ("core::iter::traits::collect::IntoIterator::into_iter",) or (path.startswith("core::slice::") and path.endswith("::iter")):
            a = args()
            if isinstance(a[0], Iter): return a[0]
            if isinstance(a[0], Ref):
                n = a[0].meta
                if n is None:
                    v = self.expand(self.read(st, a[0].cell, a[0].path))
                    if not (isinstance(v, Agg) and v.kind == "array"): raise Unsupported("iteration")
                    n = bv(len(v.fields))
                if num(n) is None: raise Unsupported("iteration over an unknown length")
                return Iter(a[0], 0, num(n))
            if isinstance(a[0], Agg) and a[0].ty and a[0].ty.get("path", "").startswith("core::ops::range::"): return a[0]
            if isinstance(a[0], Agg) and a[0].kind == "array":
                self.fresh += 1
                st["array", self.fresh] = a[0]
                return Iter(Ref(("array", self.fresh)), 0, len(a[0].fields), True)
            return None
        if item == "core::iter::traits::iterator::Iterator::next":
            (r,) = args()
            v = self.read(st, r.cell, r.path)
            if isinstance(v, Iter):
                opt = lambda *x: Agg("adt", x, None, 1 if x else 0)
                if v.pos >= v.n: return opt()
                self.write(st, r.cell, r.path, Iter(v.ref, v.pos + 1, v.n, v.owned))
                return opt(self.element(st, v, v.pos))
            if isinstance(v, Agg) and v.ty and v.ty.get("path") == "core::ops::range::Range":
                a, b = v.fields
                more = z3.simplify(z3.ULT(a, b))
                if num(a) is not None and num(a) >= self.ub(b): more = z3.BoolVal(False)
                def some(st):
                    self.write(st, r.cell, r.path, Agg("adt", [z3.simplify(a + 1), b], v.ty))
                    return Agg("adt", [a], None, 1)
                return Fork((more, some), (z3.Not(more), lambda st: Agg("adt", [], None, 0)))
            if isinstance(v, Agg) and v.kind == "chars":
                s = "".join(v.fields[0].pieces)
                if not s: return Agg("adt", [], None, 0)
                self.write(st, r.cell, r.path, Agg("chars", [Str([s[1:]])]))
                return Agg("adt", [bv(ord(s[0]), 32)], None, 1)
            if isinstance(v, Agg) and v.kind in ("chunks", "chunks_exact"):
                ref, at, k = v.fields
                more = z3.simplify(z3.ULT(at, ref.meta) if v.kind == "chunks" else z3.And(z3.ULE(at, ref.meta), z3.ULE(k, ref.meta - at)))
                def some(st):
                    self.write(st, r.cell, r.path, Agg(v.kind, [ref, z3.simplify(at + k), k]))
                    rest = z3.simplify(ref.meta - at)
                    return Agg("adt", [self.part(ref, at, k if v.kind != "chunks" else z3.simplify(z3.If(z3.ULT(rest, k), rest, k)))], None, 1)
                return Fork((more, some), (z3.Not(more), lambda st: Agg("adt", [], None, 0)))
            if not isinstance(v, Agg): raise Unsupported(f"next of {v}")
            return None
        if item == "core::iter::traits::iterator::Iterator::size_hint" or path.startswith("core::slice::iter::") and path.endswith("::as_slice"):
            (r,) = args()
            v = self.read(st, r.cell, r.path)
            if isinstance(v, Iter):
                n = bv(v.n - v.pos)
                if item.endswith("size_hint"): return Agg("tuple", [n, Agg("adt", [n], None, 1)])
                if not v.owned: return Ref(v.ref.cell, v.ref.path + ((("off", bv(v.pos)),) if v.pos else ()), n)
        if path.startswith("core::slice::{"):
            last = path.split("::")[-1]
            if last in ("chunks", "chunks_exact", "split_at"):
                r, k = args()
                if not (isinstance(r, Ref) and r.meta is not None): raise Unsupported(f"{last} of {r}")
                if last == "split_at":
                    self.oblige(pc, z3.ULE(k, r.meta), "split_at out of bounds")
                    return Agg("tuple", [Ref(r.cell, r.path, k), self.part(r, k, z3.simplify(r.meta - k))])
                self.oblige(pc, k != 0, f"{last} of size 0")
                return Agg(last, [r, bv(0), k])
        if path.startswith("core::slice::iter::"):
            last = path.split("::")[-1]
            if last == "remainder":
                (r,) = args()
                v = self.read(st, r.cell, r.path)
                if isinstance(v, Agg) and v.kind == "chunks_exact":
                    k = self.binop("Rem", v.fields[0].meta, v.fields[2])
                    return self.part(v.fields[0], z3.simplify(v.fields[0].meta - k), k)
        if path == "core::mem::forget": return UNIT
        return None

    def format(self, st, template, values):
        """The text of a format template (core::fmt::Arguments) with these values."""
        t = self.read(st, template.cell, template.path)
        v = self.expand(self.read(st, values.cell, values.path))
        b = [num(x) for x in t.fields]
        if None in b: raise Unsupported("format template")
        out, i, k = (), 0, 0
        while b[i]:
            n = b[i]
            i += 1
            if n < 0x80 or n == 0x80:
                if n == 0x80: n = b[i] + 256 * b[i + 1]; i += 2
                out += (bytes(b[i:i + n]).decode(),)
                i += n
            elif n == 0xC0 or n == 0xC8:
                if n == 0xC8: k = b[i] + 256 * b[i + 1]; i += 2
                x = v.fields[k]
                if not (isinstance(x, Agg) and x.kind == "fmtarg"): raise Unsupported("formatted value")
                out += x.fields[0].pieces
                k += 1
            else: raise Unsupported("format options")
        return Str(out)

    def literal(self, st, last, a):
        """Methods of strings all of whose characters are known."""
        def py(v):
            while isinstance(v, Ref): v = self.read(st, v.cell, v.path)
            if isinstance(v, Str) and all(isinstance(p, str) for p in v.pieces):
                s = "".join(v.pieces)
                return s if s.isascii() else None
            if is_term(v) and z3.is_bv(v) and v.size() == 32 and num(v) is not None and num(v) < 128: return chr(num(v))
            return None
        x = [py(v) for v in a]
        if None in x or not x: return None
        opt = lambda v: Agg("adt", [Str([v])], None, 1) if v is not None else Agg("adt", [], None, 0)
        if len(x) == 1:
            (s,) = x
            if last == "len": return bv(len(s))
            if last == "is_empty": return z3.BoolVal(not s)
            if last == "chars": return Agg("chars", [Str([s])])
            if last in ("to_lowercase", "to_ascii_lowercase"): return Str([s.lower()])
            if last in ("to_uppercase", "to_ascii_uppercase"): return Str([s.upper()])
            if last in ("trim", "trim_start", "trim_end"): return Str([{"trim": s.strip, "trim_start": s.lstrip, "trim_end": s.rstrip}[last](" \t\n\r\x0b\x0c")])
            if last == "as_bytes": return Ref(self.glob(Agg("array", [bv(c, 8) for c in s.encode()])), (), bv(len(s)))
        if len(x) == 2:
            s, p = x
            if last == "eq": return z3.BoolVal(s == p)
            if last == "starts_with": return z3.BoolVal(s.startswith(p))
            if last == "ends_with": return z3.BoolVal(s.endswith(p))
            if last == "contains": return z3.BoolVal(p in s)
            if last == "strip_prefix": return opt(s[len(p):] if s.startswith(p) else None)
            if last == "strip_suffix": return opt(s[:len(s) - len(p)] if s.endswith(p) else None)
            if last in ("trim_start_matches", "trim_end_matches", "trim_matches") and p:
                while last != "trim_end_matches" and s.startswith(p): s = s[len(p):]
                while last != "trim_start_matches" and s.endswith(p): s = s[:len(s) - len(p)]
                return Str([s])
        if len(x) == 3 and last == "replace" and x[1]: return Str([x[0].replace(x[1], x[2])])
        return None

    def string(self, st, f, args):
        path, item = f["path"], f["item"]
        last = path.split("::")[-1]
        a = args()
        def buf(r):
            v = self.read(st, r.cell, r.path)
            if not isinstance(v, Str): raise Unsupported(f"string buffer {v}")
            return v
        def text(v):
            if isinstance(v, Str): return v
            if isinstance(v, Ref): return buf(v)
            raise Unsupported(f"text {v}")
        if last == "new" and not a: return Str([])
        if last == "with_capacity": return Str([])
        if last in ("push_str", "add_assign", "write_str") and len(a) == 2:
            r = a[0]
            self.write(st, r.cell, r.path, Str(buf(r).pieces + text(a[1]).pieces))
            return UNIT if last != "write_str" else Agg("adt", [UNIT], None, 0)
        if last == "write_fmt" and len(a) == 2 and isinstance(a[1], Agg) and a[1].kind == "fmt" and isinstance(a[0], Ref):
            r = a[0]
            self.write(st, r.cell, r.path, Str(buf(r).pieces + a[1].fields[0].pieces))
            return Agg("adt", [UNIT], None, 0)
        if last in ("push", "write_char") and len(a) == 2 and num(a[1]) is not None:
            r = a[0]
            self.write(st, r.cell, r.path, Str(buf(r).pieces + (chr(num(a[1])),)))
            return UNIT if last == "push" else Agg("adt", [UNIT], None, 0)
        if last in ("from", "to_string", "to_owned", "as_str", "deref") and len(a) == 1 and (isinstance(a[0], Str) or isinstance(a[0], Ref)):
            return text(a[0])
        return None


class Bytes:
    """The bytes of a value."""
    def __init__(self, value, ty): self.value, self.ty = value, ty


def bytes_of(m, st, f, args):
    (r,) = args()
    if not isinstance(r, Ref): raise Unsupported("bytes of something that is not a place")
    m.fresh += 1
    c = ("bytes", m.fresh)
    ty = f["args"][0]
    st[c] = Bytes(m.read(st, r.cell, r.path), ty)
    return Ref(c, (), m.size_align(ty)[0])


def zero_of(t):
    if t["k"] == "int" or t["k"] == "float": return bv(0, t["bits"])
    if t["k"] == "bool": return z3.BoolVal(False)
    if t["k"] == "tuple" and not t["elems"]: return UNIT
    return Zero(t)


def succ(t):
    k = t["t"]
    if k in ("goto", "assert", "drop"): return [t["to"]]
    if k == "switch": return [b for _, b in t["cases"]] + [t["otherwise"]]
    if k == "call": return [] if t["to"] is None else [t["to"]]
    return []


def operand_ty(o, body):
    if o["o"] == "const": return o["ty"]
    if o["o"] == "place":
        p = o["place"]
        t = body["locals"][p["l"]]
        for e in p["proj"]:
            if e["p"] == "field": t = e["ty"]
            elif e["p"] == "deref": t = t.get("to") if t else None
            elif e["p"] in ("index", "cindex"): t = t.get("elem") if t else None
            elif e["p"] == "downcast": pass
            else: return None
        return t
    return None
