#!/usr/bin/env python3-vt
"""decide.py PROPERTY FIELDS SECONDS OUT.json: decide one property's obligations for every struct of up to FIELDS
fields, whatever GLSL types the fields have."""
import json, os, subprocess, sys, time, shutil, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import z3
import gen_opaque as G
from sym import *
import build, pool
MODE = "on" # debug assertions

VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, ".build", "mir")
PROP, N, LIMIT, OUT = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), sys.argv[4]
T0 = time.time()
def left(): return LIMIT - (time.time() - T0)

# (alignment, size, Rust alignment of the layout type, Rust size, Rust alignment of the field type)
COMMON = [(4, 4, 4, 4, 4), (4, 4, 4, 1, 1), (8, 8, 8, 8, 8), (8, 8, 4, 8, 4), (8, 8, 4, 2, 1), (16, 12, 4, 12, 4), (16, 12, 4, 3, 1),
          (16, 16, 4, 16, 4), (16, 16, 4, 4, 1), (16, 16, 8, 16, 8), (32, 24, 8, 24, 8), (32, 32, 8, 32, 8),
          (16, 48, 4, 36, 4), (16, 64, 4, 64, 4), (16, 32, 8, 32, 8), (32, 96, 8, 72, 8), (32, 128, 8, 128, 8)]
BUILTIN = {140: COMMON + [(16, 32, 4, 16, 4)], 430: COMMON + [(8, 16, 4, 16, 4)]}
# Nested structs: (alignment, Rust alignments); the size is a multiple of the alignment.
NESTED = {140: [(16, 4), (16, 8), (32, 8)], 430: [(4, 4), (8, 4), (8, 8), (16, 4), (16, 8), (32, 8)]}
EMPTY = {140: (16, 0, 1), 430: (1, 0, 1)}
ALIGNS = {140: {4, 8, 16, 32}, 430: {1, 4, 8, 16, 32}}
MAXSIZE = 1 << 32

GROUPS = {"C01": [(140, "layout")], "C02": [(430, "layout")], "C05": [(140, "enc"), (430, "enc"), (140, "view"), (430, "view")],
          "C06": [(140, "dec"), (430, "dec")], "C12": [(140, "size"), (430, "size"), (140, "view"), (430, "view")], "C15": [(0, "glsl")],
          "C16": [(0, "glsl"), (140, "layout"), (430, "layout")],
          "C18": [(140, "decenc"), (430, "decenc")]}[PROP]


def index_of(t):
    """I of an opaque type."""
    return t["args"][0].get("int") if t and t.get("k") == "adt" and t["args"] and isinstance(t["args"][0], dict) else None


class Hooks:
    def __init__(self):
        self.v = {}
    def sym(self, m, kind, l, i):
        n = f"{kind}{l}_{i}"
        if n not in self.v:
            x = z3.BitVec(n, 64)
            self.v[n] = x
            if kind == "A": m.values[n] = ALIGNS[l]; m.bound[n] = 32
            elif kind == "R": m.values[n] = {1, 4, 8}; m.bound[n] = 8
            elif kind == "RR": m.values[n] = {1, 2, 4, 8}; m.bound[n] = 8
            else: m.bound[n] = MAXSIZE
        return self.v[n]
    def size_align(self, m, t):
        if t["k"] != "adt" or not t["path"].startswith("opaque::"): return None
        p = t["path"][len("opaque::"):]
        i = index_of(t)
        if p in ("O140", "O430"): return self.sym(m, "S", p[1:], i), self.sym(m, "R", p[1:], i)
        if p == "F": return self.sym(m, "RS", "", i), self.sym(m, "RR", "", i)
        if p in SHAPES: return self.sym(m, "RS", "", p), self.sym(m, "RR", "", p)
        return None
    def const(self, m, k):
        t = k.get("self")
        if not t or t.get("k") != "adt": return None
        p, i = t["path"], index_of(t)
        if k["name"] == "ALIGNMENT" and p in ("opaque::O140", "opaque::O430"): return self.sym(m, "A", p[-3:], i)
        if k["name"] == "NAME" and p == "opaque::F": return Str([("name", i)])
        return None
    def call(self, m, st, pc, f, args):
        t = f.get("self")
        if f["path"] == "bytemuck::bytes_of" or f["path"].startswith("bytemuck::anybit"): return bytes_of(m, st, f, args)
        if not t or t.get("k") != "adt" or t["path"] != "opaque::F": return None
        last = f["item"].split("::")[-1]
        if last in ("as_std140", "as_std430"):
            (r,) = args()
            if not isinstance(r, Ref): raise Unsupported("encoding of something that is not a place")
            return App(("as", int(last[-3:]), index_of(t)), [m.read(st, r.cell, r.path)])
        if last in ("from_std140", "from_std430"):
            return App(("from", int(last[-3:]), index_of(t)), args())
        return None


class Failed(Exception):
    """An obligation that does not hold. group and solver model (None: for every assignment)."""
    def __init__(self, group, text, rows=None): self.group, self.text, self.rows = group, text, rows


class Case:
    """One definition in one layout."""
    def __init__(self, dump, shape, types, l):
        self.shape, self.types, self.l = shape, types, l
        self.roots = dump["roots"]
        self.h = Hooks()
        self.m = Machine(dump, self.h)
        self.plain = {}
        if l:
            for i in sorted(set(types)):
                d = self.domain(i)
                self.m.assumptions.append(d)
                self.m.domain_ids.add(d.get_id())

    def domain(self, i, nested=True, small=None):
        l, s = self.l, lambda k: self.h.sym(self.m, k, self.l, i)
        A, S, R, RS, RR = s("A"), s("S"), s("R"), self.h.sym(self.m, "RS", "", i), self.h.sym(self.m, "RR", "", i)
        cases = [z3.And(A == a, S == sz, R == r, RS == rs, RR == rr) for a, sz, r, rs, rr in BUILTIN[l]]
        if nested:
            top = small or MAXSIZE
            a, sz, r = EMPTY[l]
            cases.append(z3.And(A == a, S == sz, R == r, RS == 0, RR == 1))
            for a, r in NESTED[l]:
                cases.append(z3.And(A == a, S & (a - 1) == 0, z3.ULE(S, top), z3.UGE(S, a), R == r,
                                    z3.Or(RR == 1, RR == 4, RR == 8), z3.ULE(RS, top), z3.UGE(RS, 1), RS & (RR - 1) == 0))
        return z3.Or(*cases)

    def rows(self, model):
        g = lambda k, l, i: model.eval(self.h.sym(self.m, k, l, i), model_completion=True).as_long()
        return {i: (g("A", self.l, i), g("S", self.l, i), g("R", self.l, i), g("RS", "", i), g("RR", "", i)) for i in self.types}

    def prove(self, group, c, text, pc=()):
        m = self.m
        c = z3.simplify(z3.Implies(z3.And(*pc), c) if pc else c)
        self.count += 1
        if z3.is_true(c): return
        for levels, t in ((1, 5), (2, 10), (3, 10)):
            if m.easy(c, levels, t):
                m.assumptions.append(c)
                return
        # A counterexample: a small one if there is any.
        for nested, small in ((False, None), (True, 256), (True, 4096)):
            t = m.solver(max(1, min(60, left())))
            t.add(z3.Not(c))
            for i in sorted(set(self.types)): t.add(self.domain(i, nested, small))
            if m.check(t) == z3.sat: raise Failed(group, text, self.rows(t.model()))
        r = m.prove(c, max(1, min(120, left())))
        if r:
            m.assumptions.append(c)
            return
        raise Unsupported(f"{'solver gave no answer' if r is None else 'only large counterexamples'}: {text}")

    def obligations(self, group):
        m = self.m
        while m.obligations:
            pc, c, text = m.obligations.pop(0)
            self.prove(group, c, text, pc)

    def run_root(self, name, args=()):
        key = self.roots[name]
        st = {}
        vals = []
        for i, a in enumerate(args):
            st[("arg", i)] = a[1]
            vals.append(Ref(("arg", i)) if a[0] == "ref" else a[1])
        r = self.m.run(key, vals, st, [], 0) if vals else self.m.run_nullary(key)
        return r

    def slots(self, v, t, at, out):
        """What lies where: (offset, size, value)."""
        m = self.m
        if isinstance(v, (Zero,)) or (is_term(v) and num(v) == 0): out.append((at, m.size_align(t)[0], None)); return
        if isinstance(v, App): out.append((at, m.size_align(t)[0], v)); return
        if isinstance(v, Agg) and t["k"] == "adt" and not m.adts[t["key"]]["enum"]:
            offs, size, align = m.layout(t)
            for o, f, x in zip(offs, m.adts[t["key"]]["variants"][0]["fields"], v.fields): self.slots(x, f["ty"], z3.simplify(at + o), out)
            return
        if isinstance(v, Agg) and t["k"] == "array":
            s = m.size_align(t["elem"])[0]
            for i, x in enumerate(v.fields): self.slots(x, t["elem"], z3.simplify(at + s * i), out)
            return
        if isinstance(v, Agg) and not v.fields: return
        raise Unsupported(f"bytes of {v}")

    def layout(self, group):
        """Offsets, size and alignment of the generated struct against the rules. Fills self.spec."""
        m, l = self.m, self.l
        t = self.roots[f"root_out{l}_{self.shape}"]
        if t["k"] != "adt": raise Unsupported("Output is not a struct")
        offs, size, align = m.layout(t)
        A = [self.h.sym(m, "A", l, i) for i in self.types]
        S = [self.h.sym(m, "S", l, i) for i in self.types]
        fields = m.adts[t["key"]]["variants"][0]["fields"]
        # Where the values of the input's fields go is decided by what encoding does.
        enc = self.run_root(f"root_enc{l}_{self.shape}", [("ref", Sym("x", self.input_ty()))])
        out = []
        self.slots(enc, t, bv(0), out)
        at = {}
        for o, s, v in out:
            if v is None: continue
            if v.f[0] != "as" or v.f[1] != l or len(v.args) != 1 or not isinstance(v.args[0], Sym): raise Failed("enc", f"a slot of the encoding holds {v}")
            if v.args[0].name in at: raise Failed("enc", f"{v.args[0].name} is encoded twice")
            at[v.args[0].name] = (o, v)
        cur = bv(0)
        salign = bv(16 if l == 140 else 1)
        for k, (name, i) in enumerate(zip(G.fields(self.types), self.types)):
            salign = m.umax(salign, A[k])
            got = at.get(f"x.{name}")
            if got is None: raise Failed("enc", f"{name} is not encoded")
            if got[1].f[2] != i: raise Failed("enc", f"{name} is encoded as another type")
            self.place(group, got[0], cur, A[k], f"offset of {name}")
            plain = z3.simplify(got[0] + S[k])
            cur = m.name_sum(plain)
            self.plain[cur.get_id()] = (cur, plain)
        salign = m.name("struct alignment", salign)
        a = self.run_root(f"ROOT_ALIGN{l}_{self.shape}")
        self.prove(group, a == salign, "ALIGNMENT")
        self.place(group, size, cur, salign, "size")
        self.obligations(group)
        if len(at) != len(self.types): raise Failed("enc", "something else is encoded")

    def place(self, group, got, cur, align, text):
        """got is cur rounded up to align."""
        m = self.m
        pad = m.by_value(align, lambda v: (-cur) & (v - 1))
        a, b = m.addends(got), m.addends(self.plain.get(cur.get_id(), (0, cur))[1])
        if all(k in a and a[k][1] >= n for k, (_, n) in b.items()):
            # Compare what was added.
            rest = bv(0)
            for k, (t, n) in a.items():
                rest = rest + t * (n - b.get(k, (0, 0))[1])
            self.prove(group, rest == pad, text)
            whole = m.name_sum(got)
            m.assumptions.append(whole == cur + pad)
        else:
            whole = m.name_sum(got)
            self.prove(group, whole == cur + pad, text)
        self.prove(group, m.mod(whole, align) == 0, text + " is aligned")

    def size(self):
        """The static size is the size of the layout type."""
        m, l = self.m, self.l
        t = self.roots[f"root_out{l}_{self.shape}"]
        r = self.run_root(f"root_size{l}_{self.shape}")
        s = m.size_align(t)[0]
        self.obligations("size")
        self.prove("size", r == s, "static size")

    def view(self, group):
        """A byte view shows the whole value."""
        m, l = self.m, self.l
        t = self.roots[f"root_out{l}_{self.shape}"]
        for root in ("view", "tview"):
            y = Sym("y", t)
            st = {("arg", 0): y}
            r = m.run(self.roots[f"root_{root}{l}_{self.shape}"], [Ref(("arg", 0))], st, [], 0)
            self.obligations(group)
            if not isinstance(r, Ref) or r.meta is None: raise Unsupported("byte view")
            path, start = offset_path(r.path)
            v = m.read(st, r.cell, path)
            whole = isinstance(v, Bytes) and v.value is y
            if not whole and not (isinstance(v, Agg) and v.kind == "array" and not v.fields): raise Unsupported(f"byte view of {v}")
            self.prove(group, r.meta == m.size_align(t)[0], "length of the byte view")
            if whole: self.prove(group, start == 0, "begin of the byte view")

    def input_ty(self):
        return dict(k="adt", path=f"opaque::{self.shape}", args=[], key=f"opaque::{self.shape}|[]")

    def decode(self, v):
        r = self.run_root(f"root_dec{self.l}_{self.shape}", [("val", v)])
        self.obligations("dec")
        r = self.m.expand(r)
        if not isinstance(r, Agg): raise Unsupported("decoded value")
        return r

    V = z3.DeclareSort("Value")
    def term(self, v):
        """An encoding or decoding as a term over uninterpreted functions."""
        if isinstance(v, Sym): return z3.Const("v_" + v.name, self.V)
        if isinstance(v, App) and len(v.args) == 1:
            return z3.Function("_".join(map(str, v.f)), self.V, self.V)(self.term(v.args[0]))
        raise Unsupported(f"value {v}")

    def same(self, group, a, b, text):
        """Two values are the same whatever the field types' own functions do."""
        self.count += 1
        s = z3.Solver()
        s.add(a != b)
        if self.m.check(s) != z3.unsat: raise Failed(group, text)

    def text(self, pieces):
        """Text with unknown names as a term."""
        ps = [z3.StringVal(p) if isinstance(p, str) else z3.String(f"NAME_{p[1]}") for p in pieces]
        return z3.StringVal("") if not ps else ps[0] if len(ps) == 1 else z3.Concat(*ps)

    def dec(self):
        """Decoding an encoded value gives every field the decoding of its own encoding."""
        l = self.l
        enc = self.run_root(f"root_enc{l}_{self.shape}", [("ref", Sym("x", self.input_ty()))])
        r = self.decode(enc)
        for v, name, i in zip(r.fields, G.fields(self.types), self.types):
            want = App(("from", l, i), [App(("as", l, i), [Sym(f"x.{name}", None)])])
            self.same("dec", self.term(v), self.term(want), f"{name} is decoded as {v}")
        self.obligations("dec")

    def decenc(self):
        """Encoding a decoded value puts the encoding of what was decoded from a place back at that place."""
        m, l = self.m, self.l
        t = self.roots[f"root_out{l}_{self.shape}"]
        raw = self.m.expand(Sym("y", t))
        dec = self.decode(raw)
        enc = self.run_root(f"root_enc{l}_{self.shape}", [("ref", dec)])
        out = []
        self.slots(enc, t, bv(0), out)
        offs, size, align = m.layout(t)
        self.obligations("decenc")
        where = {f"y.{f['name']}": o for f, o in zip(m.adts[t["key"]]["variants"][0]["fields"], offs)}
        n = 0
        for o, s, v in out:
            if v is None: continue
            self.count += 1
            ok = v.f[:2] == ("as", l) and isinstance(v.args[0], App) and v.args[0].f == ("from", l, v.f[2]) and isinstance(v.args[0].args[0], Sym)
            if not ok: raise Failed("decenc", f"a slot holds {v}")
            src = where.get(v.args[0].args[0].name)
            if src is None: raise Failed("decenc", f"a slot comes from {v}")
            self.prove("decenc", o == src, "slot of a decoded field")
            n += 1
        if n != len(self.types): raise Failed("decenc", "not every field")

    def glsl(self):
        """The field list and the text, with unknown type names."""
        fs = G.fields(self.types)
        name = self.run_root(f"ROOT_NAME_{self.shape}")
        if not isinstance(name, Str): raise Unsupported("NAME")
        self.count += 1
        if name.pieces != (self.shape,): raise Failed("glsl", f"NAME {name}")
        r = self.run_root(f"ROOT_FIELDS_{self.shape}")
        lst = self.m.expand(self.m.read({}, r.cell, r.path)) if isinstance(r, Ref) else None
        if not isinstance(lst, Agg): raise Unsupported("FIELDS")
        ft = [f["name"] for f in self.m.adts["crevice::glsl::GlslField|[]"]["variants"][0]["fields"]]
        got = [dict(zip(ft, x.fields)) for x in lst.fields]
        text = lambda v: v.pieces if isinstance(v, Str) else None
        want = [((("name", i),), (n,)) for i, n in zip(self.types, fs)]
        if any(not isinstance(g["ty"], Str) or not isinstance(g["name"], Str) for g in got): raise Unsupported("FIELDS entries")
        if len(got) != len(want): raise Failed("glsl", f"FIELDS {got}")
        for g, (a, b) in zip(got, want):
            self.same("glsl", self.text(text(g["ty"])), self.text(a), f"FIELDS {got}")
            self.same("glsl", self.text(text(g["name"])), self.text(b), f"FIELDS {got}")
        v = self.run_root(f"root_glsl_{self.shape}")
        self.obligations("glsl")
        if not isinstance(v, Str): raise Unsupported("text")
        toks = []
        for p in v.pieces:
            if not isinstance(p, str): toks.append(("glued", p) if toks and toks[-1][0] == "open" else ("w", p)); toks.append(("open", "")); continue
            first = True
            i = 0
            while i < len(p):
                c = p[i]
                if c.isalnum() or c == "_":
                    j = i
                    while j < len(p) and (p[j].isalnum() or p[j] == "_"): j += 1
                    toks.append(("glued" if toks and toks[-1][0] == "open" else "w", p[i:j]))
                    if j == len(p): toks.append(("open", ""))
                    i = j
                else:
                    if toks and toks[-1][0] == "open": toks.pop()
                    if not c.isspace(): toks.append(("p", c))
                    i += 1
        toks = [x for x in toks if x[0] != "open"]
        want = [("w", "struct"), ("w", self.shape), ("p", "{")]
        for i, n in zip(self.types, fs): want += [("w", ("name", i)), ("w", n), ("p", ";")]
        want += [("p", "}"), ("p", ";")]
        flat = lambda ts: [x for k, v in ts for x in ((k[0] + " "), v, " ")]
        self.same("glsl", self.text(flat(toks)), self.text(flat(want)), f"text {v.pieces}")
        if len(toks) != len(want): raise Failed("glsl", f"text {v.pieces}")

    count = 0
    def decide(self, group):
        if group == "layout":
            self.layout(group)
            self.size()
        elif group == "enc": self.layout(group)
        elif group == "view": self.view(group)
        elif group == "glsl": self.glsl()
        else: getattr(self, group)()


def decide(w):
    """One definition, one layout, one group of obligations."""
    shape, types, l, group = w
    def fresh():
        c = Case(DUMP, shape, types, l)
        c.group = group
        return c
    c = fresh()
    if group in ("size", "decenc", "view"):
        # The offsets, where they follow the rules, make the rest easy.
        try:
            c.layout("offsets")
        except (Failed, Unsupported):
            c = fresh()
    try:
        c.decide(group)
        return c, "held", None
    except Unsupported as e: return c, "unsupported", str(e)[:200]
    except Failed as f: return c, "failed", (f.group, f.text, f.rows)


# ---- replay ----
def numbers(case, rows):
    if rows is None: rows = {i: (16, 12, 4, 12, 4) for i in case.types}
    off, cur, al = [], 0, 16 if case.l == 140 else 1
    for i in case.types:
        a, s = rows[i][:2]
        cur = -(-cur // a) * a
        off.append(cur)
        cur += s
        al = max(al, a)
    return rows, off, -(-cur // al) * al, al


def native(program, tag):
    """Build and run a program against /repo. (exit code or None, output)"""
    d = os.path.join(BUILD, "replay")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    shutil.copy(os.path.join(HERE, "opaque", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    toml = open(os.path.join(HERE, "opaque", "Cargo.toml")).read()
    open(os.path.join(d, "Cargo.toml"), "w").write(toml)
    open(os.path.join(d, "src", "main.rs"), "w").write(program)
    for f in os.listdir(os.path.join(d, "src")):
        if f != "main.rs": os.unlink(os.path.join(d, "src", f))
    return build.run(d, os.path.join(BUILD, "rt"), MODE, max(60, left()))


WANTED = {"layout": ("layout", "enc", "size"), "enc": ("enc", "layout"), "size": ("size",), "view": ("size", "enc"), "dec": ("dec",), "decenc": ("decenc",)}


def reproduce(case, f):
    """The counterexample as a program with real types, run against /repo: (text, path) if it shows the violation."""
    if case.l == 0: return glsl_program(case, f)
    rows, off, size, al = numbers(case, f.rows)
    prog = G.concrete(case.shape, case.types, case.l, rows, off, size, al)
    rc, out = native(prog, case.shape)
    bad = [x[4:] for x in out.splitlines() if x.startswith("BAD ")]
    want = set(WANTED[case.group])
    if PROP in ("C05",): want = {"enc"}
    bad = [b for b in bad if b.split(":")[0] in want]
    if "DONE" not in out and "E0080" in out: bad = ["the definition does not compile: " + next(x for x in out.splitlines() if "E0080" in x)]
    elif "DONE" not in out and "panicked" in out: bad = [next(x for x in out.splitlines() if "panicked" in x)]
    elif "DONE" not in out and "crevice" in out and "error" in out: return None, out[-2000:]
    if not bad: return None, out[-2000:]
    return save(case, f, prog, bad), out


def save(case, f, prog, bad):
    path = os.path.join(VERIF, "evidence", f"{PROP}.replay.rs")
    with open(path, "w") as o:
        o.write(f"// property {PROP}: {case.shape}: {f.text}\n// Replay: as src/main.rs of a crate that depends on crevice (path /repo), cargo run. It printed:\n")
        for b in bad: o.write(f"//   {b[:400]}\n")
        o.write(prog)
    return f"struct {case.shape}, std{case.l}: {f.text}; {bad[0][:200]}" if case.l else f"struct {case.shape}: {f.text[:200]}; {bad[0][:200]}", path


def glsl_program(case, f):
    fs = G.fields(case.types)
    ids = sorted(set(case.types))
    p = G.HEAD + "\npub struct F<const I: usize>(u32);\n" + "".join(f'unsafe impl Glsl for F<{i}> {{ const NAME: &\'static str = "Ty{i}"; }}\n' for i in ids) + G.aliases(ids)
    p += G.struct(case.shape, case.types, "GlslStruct")
    toks = ["struct", case.shape, "{"] + [x for i, n in zip(case.types, fs) for x in (f"Ty{i}", n, ";")] + ["}", ";"]
    p += f'''
fn main() {{
    let want: &[&str] = &{json.dumps(toks)};
    let text = {case.shape}::glsl_definition();
    let mut toks: Vec<String> = Vec::new();
    let mut word = false;
    for c in text.chars() {{
        if c.is_alphanumeric() || c == '_' {{
            if !word {{ toks.push(String::new()); }}
            toks.last_mut().unwrap().push(c);
            word = true;
        }} else {{
            word = false;
            if !c.is_whitespace() {{ toks.push(c.to_string()); }}
        }}
    }}
    if toks != want {{ println!("BAD glsl: {{:?}} instead of {{:?}}", toks, want); }}
    let fields: Vec<(&str, &str)> = <{case.shape} as GlslStruct>::FIELDS.iter().map(|f| (f.ty, f.name)).collect();
    let list: &[(&str, &str)] = &[{", ".join(f'("Ty{i}", "{n}")' for i, n in zip(case.types, fs))}];
    if fields != list {{ println!("BAD glsl: fields {{:?}} instead of {{:?}}", fields, list); }}
    println!("DONE");
}}
'''
    rc, out = native(p, case.shape)
    bad = [x[4:] for x in out.splitlines() if x.startswith("BAD ")]
    if not bad: return None, out[-2000:]
    return save(case, f, p, bad), out


def one(w):
    t = time.time()
    c = None
    try:
        if left() < 15: kind, x = "unsupported", "out of time"
        else: c, kind, x = decide(w)
    except Exception: kind, x = "unsupported", "internal: " + traceback.format_exc()[-700:]
    return w, kind, x, (c.count, c.m.queries, c.m.solver_s, c.m.executed, round(time.time() - t, 1)) if c else (0, 0, 0.0, set(), 0)


def uncompilable():
    """Definitions that have to compile and do not, although crevice does."""
    derives = {"C01": "AsStd140", "C02": "AsStd430", "C15": "GlslStruct"}.get(PROP, "AsStd140, AsStd430, GlslStruct")
    try:
        if native("use crevice as _;\nfn main() { println!(\"DONE\"); }\n", "empty")[1].strip() != "DONE": return None
        prog = G.plain(N, derives)
        rc, out = native(prog, "plain")
    except subprocess.TimeoutExpired: return None
    error = next((x for x in out.splitlines() if x.startswith("error")), None)
    if rc == 0 or error is None: return None
    path = os.path.join(VERIF, "evidence", f"{PROP}.replay.rs")
    open(path, "w").write(f"// property {PROP}: as src/main.rs of a crate that depends on crevice (path /repo, feature std), cargo build fails:\n//   {error}\n" + prog)
    return f"definitions with built-in field types do not compile: {error}", path


def main():
    global SHAPES
    SHAPES = G.shapes(N)
    d = os.path.join(BUILD, "opaque")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    for x in ("Cargo.toml", "Cargo.lock"): shutil.copy(os.path.join(HERE, "opaque", x), d)
    open(os.path.join(d, "src", "lib.rs"), "w").write(G.opaque(N))
    result = dict(method="MIR of the generated code executed symbolically, z3 %s decides" % z3.get_version_string(),
                  bounds=f"structs of 0 to {N} fields, each field any GLSL type by (alignment, size, Rust alignment): scalars, vectors, matrices, booleans, nested structs up to 2^32 bytes",
                  definitions=0, obligations=0, queries=0, solver_s=0.0, undecided=[], violations=[], functions_encoded=[])
    dumps = {}
    for mode in ("on", "off"):
        dumps[mode], log = build.dump(d, os.path.join(BUILD, f"dump-{mode}.json"), mode, max(60, left()))
        if dumps[mode] is None:
            result["undecided"].append(f"no MIR (debug assertions {mode}): " + log[-1500:])
            if mode == "off": break
            r = uncompilable()
            if r: result["violations"].append(r)
            return result
    result["dump_s"] = round(time.time() - T0, 1)
    result["debug_assertions"] = "make no difference" if dumps["on"] == dumps["off"] else "decided with and without"
    if dumps["on"] == dumps["off"]: del dumps["off"]
    for mode, dump in dumps.items():
        if dump is not None and not result["violations"]: one_build(result, mode, dump)
    result["solver_s"] = round(result["solver_s"], 2)
    result["wall_s"] = round(time.time() - T0, 1)
    return result


def one_build(result, mode, dump):
    """All definitions as compiled in one mode."""
    global DUMP, MODE
    DUMP, MODE = dump, mode
    executed, unsup = set(), {}
    work = [(shape, types, l, group) for shape, types in SHAPES.items() for l, group in GROUPS
            if not (PROP == "C16" and group == "layout" and len(types) > N // 2) and (shape != "Words" or group == "glsl")]
    # The large ones first.
    work.sort(key=lambda w: -len(w[1]))
    for i, r in pool.results(one, work, time.time() + left()):
        w, kind, x, stat = r or (work[i], "unsupported", "out of time", (0, 0, 0.0, set(), 0))
        shape, types, l, group = w
        where = f"{shape}/{l}/{group}"
        result["obligations"] += stat[0]
        result["queries"] += stat[1]
        result["solver_s"] += stat[2]
        executed |= stat[3]
        if os.environ.get("VERBOSE"): print(where, kind, stat[:3], stat[4], round(time.time() - T0, 1), flush=True)
        if kind == "held": result["definitions"] += 1
        elif kind == "unsupported": unsup.setdefault(x, []).append(where)
        elif result["violations"]: pass
        else:
            c = Case(dump, shape, types, l)
            c.group = group
            f = Failed(*x)
            try:
                r, out = reproduce(c, f) if left() > 20 else (None, "out of time")
            except Exception as e:
                r, out = None, repr(e)
            if r:
                result["violations"].append(r)
                break
            unsup.setdefault(f"counterexample does not reproduce: {f.text[:150]}: {out[-300:]}", []).append(where)
    result["undecided"] += [f"{', '.join(v[:6])}{' ...' if len(v) > 6 else ''} ({len(v)}): {k}" for k, v in unsup.items()]
    result["functions_encoded"] = sorted({x.split("|")[0] for x in executed} | set(result["functions_encoded"]))[:200]


if __name__ == "__main__":
    r = main()
    json.dump(r, open(OUT, "w"), indent=1)
    if os.environ.get("VERBOSE"): print(json.dumps({k: v for k, v in r.items() if k != "functions_encoded"}, indent=1))
