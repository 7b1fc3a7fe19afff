#!/usr/bin/env python3-vt
"""stream.py PROPERTY TIER SECONDS OUT.json: decide one property of Writer and Sizer for field types of any size
and alignment, any position and any history, by symbolic execution of their MIR."""
import json, os, subprocess, sys, time, shutil, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import z3
from sym import *
import build, pool
MODE = "on" # debug assertions
import replay_stream

VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, ".build", "mir")
PROP, TIER, LIMIT, OUT = sys.argv[1], sys.argv[2], float(sys.argv[3]), sys.argv[4]
T0 = time.time()
def left(): return LIMIT - (time.time() - T0)

MAXPOS = 1 << 62
MAXSIZE = 1 << 40
TYPES = 4        # the last one only for history: any size, alignment 1
L2 = (140, 430)

HEAD = '''//! Generated by stream.py.
#![allow(dead_code, warnings)]
use crevice::std140::{self, AsStd140, Std140, WriteStd140};
use crevice::std430::{self, AsStd430, Std430, WriteStd430};
use std::io::{self, Write};
'''


def source():
    o = HEAD + '''
pub struct Sink;
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { loop {} }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> { loop {} }
    fn flush(&mut self) -> io::Result<()> { loop {} }
}
/// A type with opaque encodings; so are its sizes and alignments.
pub struct F<const I: usize>(u32);
/// An iterator over an unknown collection.
pub struct It<const I: usize>(u32);
impl<const I: usize> Iterator for It<I> {
    type Item = F<I>;
    fn next(&mut self) -> Option<F<I>> { loop {} }
    fn size_hint(&self) -> (usize, Option<usize>) { loop {} }
}
/// The same over values that write two values.
pub struct ItPair(u32);
impl Iterator for ItPair {
    type Item = Pair<1, 2>;
    fn next(&mut self) -> Option<Pair<1, 2>> { loop {} }
    fn size_hint(&self) -> (usize, Option<usize>) { loop {} }
}
/// A type that writes none, one or two values.
pub struct Var(u8, F<1>, F<2>);
pub struct ItVar(u32);
impl Iterator for ItVar {
    type Item = Var;
    fn next(&mut self) -> Option<Var> { loop {} }
    fn size_hint(&self) -> (usize, Option<usize>) { loop {} }
}
/// A type that writes two values.
pub struct Pair<const I: usize, const J: usize>(F<I>, F<J>);
pub fn root_dyn_enc(x: &std140::DynamicUniform<F<0>>) -> <std140::DynamicUniform<F<0>> as AsStd140>::Output { x.as_std140() }
pub fn root_dyn_dec(x: <std140::DynamicUniform<F<0>> as AsStd140>::Output) -> std140::DynamicUniform<F<0>> { AsStd140::from_std140(x) }
pub fn root_dyn_bytes(x: &<std140::DynamicUniform<F<0>> as AsStd140>::Output) -> &[u8] { Std140::as_bytes(x) }
pub type root_dyn_out = <std140::DynamicUniform<F<0>> as AsStd140>::Output;
pub const ROOT_DYN_ALIGN: usize = <<std140::DynamicUniform<F<0>> as AsStd140>::Output as Std140>::ALIGNMENT;
'''
    for l in L2:
        o += f'''
#[derive(Debug, Clone, Copy)]
#[repr(C)]
pub struct O{l}<const I: usize>([u32; 4]);
unsafe impl<const I: usize> crevice::internal::bytemuck::Zeroable for O{l}<I> {{}}
unsafe impl<const I: usize> crevice::internal::bytemuck::Pod for O{l}<I> {{}}
unsafe impl<const I: usize> Std{l} for O{l}<I> {{ const ALIGNMENT: usize = 16; }}
impl<const I: usize> AsStd{l} for F<I> {{
    type Output = O{l}<I>;
    fn as_std{l}(&self) -> O{l}<I> {{ loop {{}} }}
    fn from_std{l}(val: O{l}<I>) -> Self {{ loop {{}} }}
}}
impl<const I: usize, const J: usize> WriteStd{l} for Pair<I, J> {{
    fn write_std{l}<W: Write>(&self, w: &mut std{l}::Writer<W>) -> io::Result<usize> {{
        let at = w.write(&self.0)?;
        w.write(&self.1)?;
        Ok(at)
    }}
}}
impl WriteStd{l} for Var {{
    fn write_std{l}<W: Write>(&self, w: &mut std{l}::Writer<W>) -> io::Result<usize> {{
        let mut at = w.len();
        if self.0 & 1 != 0 {{ at = w.write(&self.1)?; }}
        if self.0 & 2 != 0 {{
            let b = w.write(&self.2)?;
            if self.0 & 1 == 0 {{ at = b; }}
        }}
        Ok(at)
    }}
}}
pub fn root_vars{l}(w: &mut std{l}::Writer<Sink>, x: &[Var]) -> io::Result<usize> {{ w.write(x) }}
pub fn root_itervars{l}(w: &mut std{l}::Writer<Sink>, x: ItVar) -> io::Result<usize> {{ w.write_iter(x) }}
pub fn root_size_vars{l}(x: &[Var]) -> usize {{ WriteStd{l}::std{l}_size(x) }}
pub fn root_new{l}() -> std{l}::Writer<Sink> {{ std{l}::Writer::new(Sink) }}
pub fn root_len{l}(w: &std{l}::Writer<Sink>) -> usize {{ w.len() }}
pub fn root_pair{l}(w: &mut std{l}::Writer<Sink>, x: &Pair<1, 2>) -> io::Result<usize> {{ w.write(x) }}
pub fn root_pairs{l}(w: &mut std{l}::Writer<Sink>, x: &[Pair<1, 2>]) -> io::Result<usize> {{ w.write(x) }}
pub fn root_iterpairs{l}(w: &mut std{l}::Writer<Sink>, x: ItPair) -> io::Result<usize> {{ w.write_iter(x) }}
pub fn root_size_pair{l}(x: &Pair<1, 2>) -> usize {{ WriteStd{l}::std{l}_size(x) }}
pub fn root_size_pairs{l}(x: &[Pair<1, 2>]) -> usize {{ WriteStd{l}::std{l}_size(x) }}
pub fn root_snew{l}() -> std{l}::Sizer {{ std{l}::Sizer::new() }}
pub fn root_slen{l}(s: &std{l}::Sizer) -> usize {{ s.len() }}
'''
        for i in range(TYPES):
            o += f'''
pub fn root_write{l}_{i}(w: &mut std{l}::Writer<Sink>, x: &F<{i}>) -> io::Result<usize> {{ w.write(x) }}
pub fn root_direct{l}_{i}(w: &mut std{l}::Writer<Sink>, x: &O{l}<{i}>) -> io::Result<usize> {{ w.write_std{l}(x) }}
pub fn root_out{l}_{i}(w: &mut std{l}::Writer<Sink>, x: &O{l}<{i}>) -> io::Result<usize> {{ w.write(x) }}
pub fn root_slice{l}_{i}(w: &mut std{l}::Writer<Sink>, x: &[F<{i}>]) -> io::Result<usize> {{ w.write(x) }}
pub fn root_iter{l}_{i}(w: &mut std{l}::Writer<Sink>, x: It<{i}>) -> io::Result<usize> {{ w.write_iter(x) }}
pub fn root_size{l}_{i}(x: &F<{i}>) -> usize {{ WriteStd{l}::std{l}_size(x) }}
pub fn root_size_slice{l}_{i}(x: &[F<{i}>]) -> usize {{ WriteStd{l}::std{l}_size(x) }}
pub fn root_static{l}_{i}() -> usize {{ F::<{i}>::std{l}_size_static() }}
pub fn root_bytes{l}_{i}(x: &O{l}<{i}>) -> &[u8] {{ Std{l}::as_bytes(x) }}
pub fn root_add{l}_{i}(s: &mut std{l}::Sizer) -> usize {{ s.add::<F<{i}>>() }}
'''
    for i in range(TYPES):
        o += f'''
#[allow(deprecated)]
pub fn root_old140_{i}(w: &mut std140::Writer<Sink>, x: &[F<{i}>]) -> io::Result<usize> {{ w.write_slice(x) }}
pub fn root_dyn140_{i}(w: &mut std140::Writer<Sink>, x: &std140::DynamicUniform<F<{i}>>) -> io::Result<usize> {{ w.write(x) }}
pub fn root_dyns140_{i}(w: &mut std140::Writer<Sink>, x: &[std140::DynamicUniform<F<{i}>>]) -> io::Result<usize> {{ w.write(x) }}
pub fn root_dyn_add140_{i}(s: &mut std140::Sizer) -> usize {{ s.add::<std140::DynamicUniform<F<{i}>>>() }}
pub fn root_dyn_size140_{i}(x: &std140::DynamicUniform<F<{i}>>) -> usize {{ WriteStd140::std140_size(x) }}
pub fn root_dyn_static140_{i}() -> usize {{ <std140::DynamicUniform<F<{i}>> as AsStd140>::std140_size_static() }}
'''
    return o


def index_of(t):
    return t["args"][0].get("int") if t and t.get("k") == "adt" and t["args"] and isinstance(t["args"][0], dict) else None


GHOST, EVENTS = ("ghost",), ("in", "events")
# Kinds an error of the sink can have (write_all does not report Interrupted), as far as stable code can name them.
KINDS = "NotFound PermissionDenied ConnectionRefused ConnectionReset ConnectionAborted NotConnected AddrInUse AddrNotAvailable BrokenPipe AlreadyExists WouldBlock InvalidInput InvalidData TimedOut WriteZero StorageFull Unsupported UnexpectedEof OutOfMemory Other".split()


class Items:
    """The state of an arbitrary iterator: what it still yields."""
    def __init__(self, items, low, high): self.items, self.low, self.high = items, low, high


class Hooks:
    """Opaque types, and a sink that accepts FAIL bytes and then reports an error. Of the bytes it accepts it
    remembers the one at the arbitrary position P."""
    def __init__(self, case):
        self.case = case
        self.ids = {}

    def size_align(self, m, t):
        if t["k"] != "adt" or not t["path"].startswith("opaque::"): return None
        p, i = t["path"][len("opaque::"):], index_of(t)
        if p in ("O140", "O430"): return self.case.size[i], self.case.rust_align[i]
        if p == "F": return z3.BitVec(f"RS{i}", 64), bv(4)
        return None

    def const(self, m, k):
        t = k.get("self")
        if t and t.get("k") == "adt" and k["name"] == "ALIGNMENT" and t["path"] in ("opaque::O140", "opaque::O430"):
            return bv(self.case.align[index_of(t)])
        return None

    def id_of(self, v):
        """A number for an encoded value."""
        return self.ids.setdefault(repr(v), len(self.ids) + 1)

    def content(self, m, st, ref):
        """What lies behind a byte slice: a list of (size or None for the rest, source, offset of the first byte in
        it). Source 0 is zero bytes, 253 a known byte."""
        path, start = offset_path(ref.path)
        v = m.read(st, ref.cell, path)
        if isinstance(v, Bytes):
            parts = []
            self.parts(m, v.value, v.ty, bv(0), parts)
            parts = [x for x in parts if num(x[1]) != 0]
            if len(parts) == 1 and num(parts[0][0]) == 0:
                x = parts[0][2]
                return [(None, bv(0 if x is None else self.id_of(x), 8), start)]
            raise Unsupported("bytes of several values")
        if isinstance(v, Zero): return [(None, bv(0, 8), bv(0))]
        if isinstance(v, Agg) and v.kind == "array" and all(is_term(x) and x.size() == 8 for x in v.fields):
            if all(num(x) == 0 for x in v.fields): return [(None, bv(0, 8), bv(0))]
            if num(start) is not None and all(num(x) is not None for x in v.fields):
                return [(bv(1), bv(253, 8), bv(num(x))) for x in v.fields[num(start):]]
        raise Unsupported(f"bytes of {v}")

    def parts(self, m, v, t, at, out):
        v = v if isinstance(v, (App, Zero)) else m.expand(v)
        if isinstance(v, Zero): out.append((at, m.size_align(t)[0], None)); return
        if isinstance(v, App): out.append((at, m.size_align(t)[0], v)); return
        if isinstance(v, Agg) and t["k"] == "adt" and not m.adts[t["key"]]["enum"]:
            offs, size, align = m.layout(t)
            for o, f, x in zip(offs, m.adts[t["key"]]["variants"][0]["fields"], v.fields): self.parts(m, x, f["ty"], z3.simplify(at + o), out)
            return
        raise Unsupported(f"bytes of {v}")

    def accept(self, m, st, pc, what, n):
        """The sink takes n bytes. Its state is how many it has taken and what the parts of them are, every other
        part being zero bytes: (start, source, offset in it)."""
        g = st[GHOST]
        if isinstance(g, VIte):
            a, b = {GHOST: g.a}, {GHOST: g.b}
            self.accept(m, a, pc, what, n)
            self.accept(m, b, pc, what, n)
            st[GHOST] = ite(g.c, a[GHOST], b[GHOST])
            return
        segs = list(g.fields[1:])
        pos = g.fields[0]
        for size, src, off in what:
            k = n if size is None else z3.If(z3.ULT(n, size), n, size)
            if num(src) != 0 and len(segs) > 1 and self.goes_on(segs[-2:], pos, src, off):
                segs[-1] = Agg("seg", [z3.simplify(pos + k), bv(0, 8), bv(0)])
            elif num(src) != 0:
                segs += [Agg("seg", [pos, src, off]), Agg("seg", [z3.simplify(pos + k), bv(0, 8), bv(0)])]
            pos = z3.simplify(pos + k)
            if size is not None: n = z3.simplify(n - k)
        st[GHOST] = Agg("ghost", [pos] + segs)

    def goes_on(self, segs, pos, src, off):
        """Whether these are the bytes that follow the last ones in the same value."""
        (p, s, o), (end, z, _) = segs[0].fields, segs[1].fields
        return num(z) == 0 and num(src) not in (None, 253) and num(s) == num(src) and eq(z3.simplify(end), z3.simplify(pos)) and num(z3.simplify(o + pos - p - off)) == 0

    def settle(self, m, st, pc, what):
        """Before a value is written: if the sink is provably where that value has to be, say so in fewer words."""
        g = st[GHOST]
        if not isinstance(g, Agg) or len(what) != 1: return
        at = self.case.want.get(num(what[0][1]))
        if at is None: return
        def same(t):
            if not is_term(t) or not z3.is_bv(t) or t.size() != 64 or num(t) is not None or eq(t, at): return t
            _, x, y = common(t, m.definition.get(str(at), at))
            c = z3.simplify(z3.Implies(z3.And(*pc), x == y) if pc else x == y)
            for levels in (0, 1, 2):
                if m.easy(c, levels, 4): return at
            return t
        st[GHOST] = Agg("ghost", [same(g.fields[0])] + g.fields[1:])
        def go(v):
            if is_term(v): return same(v) if not z3.is_const(v) else v
            if isinstance(v, Agg): return Agg(v.kind, [go(f) if f is not None else None for f in v.fields], v.ty, v.variant)
            return v
        w = self.case.w.cell
        if w in st: st[w] = go(st[w])

    def call(self, m, st, pc, f, args):
        path, item, t = f["path"], f["item"], f.get("self")
        last = item.split("::")[-1]
        # What is written.
        if item.endswith("::Write::write_all"):
            on = f["item_args"][0]
            while on["k"] == "ref": on = on["to"]
            r, buf = args()
            if not isinstance(buf, Ref): raise Unsupported("bytes that are not a place")
            n = buf.meta
            if n is None: raise Unsupported("bytes of unknown number")
            ok, bad = Agg("adt", [UNIT], None, 0), Agg("adt", [Sym("io_error", None)], None, 1)
            if on["k"] == "adt" and on["path"].endswith("::io::util::Sink"): return ok
            if not (on["k"] == "adt" and on["path"] == "opaque::Sink"): raise Unsupported(f"write to {on}")
            what = self.content(m, st, buf)
            self.settle(m, st, pc, what)
            fail = self.case.FAIL
            def done(st):
                self.accept(m, st, pc, what, n)
                return ok
            if fail is None:
                return done(st)
            g = st[GHOST]
            if not isinstance(g, Agg): raise Unsupported("sink in an unclear state")
            room = z3.simplify(fail - g.fields[0])
            new = z3.simplify(g.fields[0] + n)     # no overflow: both are at most 2^63
            def failed(st):
                self.accept(m, st, pc, what, room)
                return bad
            fits = z3.ULE(new, fail)
            if m.ub(n) > 1 << 63: fits = z3.And(z3.ULE(n, bv(1 << 63)), fits)
            return Fork((fits, done), (z3.Not(fits), failed, True))
        if item.endswith("::Write::write"): return self.short_write(m, st, pc, f, args)
        if "::io::" in item and "::Write::" in item and last != "by_ref": raise Unsupported(item)
        if path.endswith("::io::util::sink"): return Sym("sink", None)
        if "::io::error::" in path and path.endswith("::kind"):
            (r,) = args()
            v = m.read(st, r.cell, r.path) if isinstance(r, Ref) else r
            d = next((d for k, d in m.adts.items() if k.endswith("io::error::ErrorKind|[]")), None)
            if not (isinstance(v, Sym) and v.name in ("io_error", "io_interrupted") and d): raise Unsupported(f"kind of {v}")
            all = [x["name"] for x in d["variants"]]
            if v.name == "io_interrupted": return Sym("io_kind", {"k": "kind", "discr": bv(all.index("Interrupted"))})
            if self.case.KIND is None:
                self.case.KIND = z3.BitVec("kind", 64)
                m.assumptions.append(z3.Or(*[self.case.KIND == bv(all.index(x)) for x in KINDS if x in all]))
            self.kinds = all
            return Sym("io_kind", {"k": "kind", "discr": self.case.KIND})
        if item == "core::convert::From::from" and t and t.get("k") == "adt" and t["path"].endswith("::io::error::Error") or "::io::error::" in path and last in ("new", "other"):
            a = args()
            if not (isinstance(a[0], Sym) and a[0].name.startswith("io_") and a[0].name != "io_kind"):
                # An error of the code's own, if it can come to that.
                if m.feasible(pc): return Sym("io_own_error", None)
                m.dead = True
                return Fork()
        if path == "bytemuck::bytes_of" or path.startswith("bytemuck::anybit"): return bytes_of(m, st, f, args)
        if item == "core::clone::Clone::clone" and t and t.get("k") == "adt" and t["path"] in ("opaque::O140", "opaque::O430"):
            (r,) = args()
            return m.read(st, r.cell, r.path)
        if t and t.get("k") == "adt" and t["path"] == "opaque::F":
            if last in ("as_std140", "as_std430"):
                (r,) = args()
                if not isinstance(r, Ref): raise Unsupported("encoding of something that is not a place")
                return App(("as", int(last[-3:]), index_of(t)), [m.read(st, r.cell, r.path)])
            if last in ("from_std140", "from_std430"):
                return App(("from", int(last[-3:]), index_of(t)), args())
        if t and t.get("k") == "adt" and t["path"] in ("opaque::It", "opaque::ItPair", "opaque::ItVar"):
            a = args()
            if last == "next":
                v = m.read(st, a[0].cell, a[0].path)
                if not isinstance(v, Items): raise Unsupported("iterator")
                if not v.items: return Agg("adt", [], None, 0)
                m.write(st, a[0].cell, a[0].path, Items(v.items[1:], v.low, v.high))
                return Agg("adt", [v.items[0]], None, 1)
            if last == "size_hint":
                v = m.read(st, a[0].cell, a[0].path)
                return Agg("tuple", [v.low, v.high])
        if item == "core::iter::traits::collect::IntoIterator::into_iter":
            a = args()
            if isinstance(a[0], Items): return a[0]
        if item == "core::iter::traits::iterator::Iterator::size_hint":
            (r,) = args()
            v = m.read(st, r.cell, r.path)
            if isinstance(v, Iter): n = bv(v.n - v.pos); return Agg("tuple", [n, Agg("adt", [n], None, 1)])
        return None

    def short_write(self, m, st, pc, f, args):
        """A single write: the sink may take only some of the bytes, or be interrupted, twice in each operation."""
        on = f["item_args"][0]
        while on["k"] == "ref": on = on["to"]
        r, buf = args()
        n = buf.meta if isinstance(buf, Ref) else None
        if n is None: raise Unsupported("bytes of unknown number")
        ok = lambda k: Agg("adt", [k], None, 0)
        if on["k"] == "adt" and on["path"].endswith("::io::util::Sink"): return ok(n)
        if not (on["k"] == "adt" and on["path"] == "opaque::Sink"): raise Unsupported(f"write to {on}")
        what = self.content(m, st, buf)
        self.settle(m, st, pc, what)
        self.case.shorts = True
        def take(k, event=False):
            def go(st):
                self.accept(m, st, pc, what, k)
                if event: st[EVENTS] = bv(num(st[EVENTS]) + 1, 8)
                return ok(k)
            return go
        fail = self.case.FAIL
        if fail is None: return take(n)(st)
        g, events = st[GHOST], num(st[EVENTS])
        if not isinstance(g, Agg) or events is None: raise Unsupported("sink in an unclear state")
        def error(name):
            def go(st):
                if name == "io_interrupted": st[EVENTS] = bv(num(st[EVENTS]) + 1, 8)
                return Agg("adt", [Sym(name, None)], None, 1)
            return go
        room = z3.simplify(fail - g.fields[0])
        m.fresh += 1
        how, k = z3.BitVec(f"how{m.fresh}", 8), z3.BitVec(f"part{m.fresh}", 64)
        m.bound[str(k)] = MAXSIZE
        full = how == 0 if events < 2 else z3.BoolVal(True)
        some = z3.And(n != 0, room != 0)
        cases = [(n == 0, take(bv(0)), True), (z3.And(n != 0, room == 0), error("io_error"), True),
                 (z3.And(some, full, z3.ULE(n, room)), take(n), True), (z3.And(some, full, z3.ULT(room, n)), take(room), True)]
        if events < 2:
            cases += [(z3.And(some, how == 1, z3.ULT(0, k), z3.ULT(k, n), z3.ULT(k, room)), take(k, True), True),
                      (z3.And(some, how == 2), error("io_interrupted"), True)]
        return Fork(*[c for c in cases if m.feasible(pc + [c[0]])])


class Late(list):
    """Items of which none belongs to the first element."""


class Failed(Exception):
    def __init__(self, text, model=None): self.text, self.model = text, model


class Case:
    """One scenario: alignments of the types, layout; sizes, positions and values are unknown."""
    def __init__(self, dump, l, align, fail=False):
        self.l = l
        self.roots = dump["roots"]
        self.start = z3.BitVec("START", 64)
        self.align = list(align) + [1]
        self.size = [z3.BitVec(f"S{i}", 64) for i in range(TYPES - 1)] + [self.start]
        self.rust_align = [z3.BitVec(f"R{i}", 64) for i in range(TYPES)]
        self.P = z3.BitVec("P", 64)
        self.FAIL = z3.BitVec("FAIL", 64) if fail else None
        self.KIND = None
        self.h = Hooks(self)
        self.m = m = Machine(dump, self.h)
        m.loop_check = 8
        for i in range(TYPES - 1):
            m.bound[f"S{i}"] = MAXSIZE
            m.values[f"R{i}"] = {1, 2, 4, 8}
            m.bound[f"R{i}"] = 8
            m.assumptions.append(z3.ULE(self.size[i], bv(MAXSIZE)))
            m.assumptions.append(z3.Or(*[z3.And(self.rust_align[i] == bv(r), self.size[i] & bv(r - 1) == 0) for r in (1, 2, 4, 8) if r <= max(self.align[i], 1)]))
        m.assumptions.append(self.rust_align[-1] == 1)
        m.bound["START"] = MAXPOS
        m.assumptions.append(z3.ULE(self.start, bv(MAXPOS)))
        self.st = {GHOST: self.start_ghost(bv(0)), EVENTS: bv(0, 8)}
        self.shorts = False
        self.count = 0
        self.want = {}
        self.w = Ref(("in", 0))

    def start_ghost(self, o): return Agg("ghost", [o, Agg("seg", [o, bv(0, 8), bv(0)])])

    def emitted(self):
        """How many bytes the sink has taken."""
        def go(g): return z3.If(g.c, go(g.a), go(g.b)) if isinstance(g, VIte) else g.fields[0]
        return z3.simplify(go(self.st[GHOST]))

    def at_P(self):
        """The byte at P, since the last sync: (source, index). Source 255: not written."""
        def go(g):
            if isinstance(g, VIte):
                a, b = go(g.a), go(g.b)
                return z3.If(g.c, a[0], b[0]), z3.If(g.c, a[1], b[1])
            segs = g.fields[1:]
            src, idx = bv(255, 8), bv(0)
            end = g.fields[0]
            for s in reversed(segs):
                at, k, off = s.fields
                hit = z3.And(z3.UGE(self.P, at), z3.ULT(self.P, end))
                src = z3.If(hit, k, src)
                idx = z3.If(hit, bv(0) if num(k) == 0 else off if num(k) == 253 else self.P - at + off, idx)
                end = at
            return src, idx
        s, i = go(self.st[GHOST])
        return z3.simplify(s), z3.simplify(i)

    def small(self, level):
        """What makes a counterexample easy to replay."""
        top = (64, 4096, 1 << 33)[level]
        lens = [z3.BitVec(n, 64) for n in self.m.bound if n.startswith("LEN")]
        return [z3.ULE(s, bv(min(top, 4096))) for s in self.size[:-1]] + [z3.ULE(s, bv(top)) for s in [self.start] + lens]

    # ---- proofs ----
    def prove(self, c, text, pc=()):
        m = self.m
        c = z3.simplify(z3.Implies(z3.And(*pc), c) if pc else c)
        self.count += 1
        if z3.is_true(c): return
        if self.FAIL is not None and any(m.linear(c, levels) for levels in (0, 1, 2, 4, 20)): return
        for levels in (0, 1, 2):
            if m.easy(c, levels, 5): return
        s = m.solver(max(1, min(60, left())))
        s.add(z3.Not(c))
        r = m.check(s)
        if r == z3.unsat:
            return
        if r == z3.unknown: raise Unsupported(f"no answer: {text}")
        for level in range(3):
            t = m.solver(max(1, min(60, left())))
            t.add(z3.Not(c), *self.small(level))
            if m.check(t) == z3.sat: raise Failed(text, self.numbers(t.model()))
        raise Unsupported(f"only counterexamples that cannot be replayed: {text}")

    def numbers(self, model):
        def g(x):
            v = model.eval(x, model_completion=True)
            return z3.is_true(v) if z3.is_bool(v) else v.as_long()
        hints = {str(d): g(d()) for d in model.decls() if d.arity() == 0 and str(d).split("_")[0] in ("low", "high", "known")}
        lens = [n for n in self.m.bound if n.startswith("LEN")]
        return dict(size=[g(s) for s in self.size], rust=[max(1, g(r)) for r in self.rust_align],
                    fail=g(self.FAIL) if self.FAIL is not None else None, error=self.h.kinds[g(self.KIND)] if self.KIND is not None else "Other", align=self.align, hints=hints, step=self.step, shorts=self.shorts,
                    length=g(z3.BitVec(lens[-1], 64)) if lens else None)

    def obligations(self):
        m = self.m
        while m.obligations:
            pc, c, text = m.obligations.pop(0)
            self.prove(c, text, pc)

    # ---- running ----
    def call(self, name, *args):
        r = self.m.run(self.roots[name], list(args), self.st, [], 0)
        return r

    def cell(self, v):
        self.m.fresh += 1
        c = ("in", self.m.fresh)
        self.st[c] = v
        return Ref(c)

    def slice(self, vs):
        r = self.cell(Agg("array", vs))
        r.meta = bv(len(vs))
        return r

    def cut(self, end, obj, length, top):
        """The length, just shown to be end, becomes an unknown number up to top: what holds from there on holds
        for every length. Where the object's state says more than its length, the link is kept."""
        m = self.m
        if z3.is_const(end) and num(end) is None and str(end) not in m.definition: return end
        m.fresh += 1
        x = z3.BitVec(f"LEN{m.fresh}", 64)
        m.bound[str(x)] = top
        m.assumptions.append(z3.ULE(x, bv(top)))
        left = []
        def go(v):
            if is_term(v):
                if v.size() == 64 if z3.is_bv(v) else False:
                    v = z3.substitute(v, (length, x), (end, x))
                names = m.symbols(v)
                if any(n == "START" or n[0] == "S" and n[1:].isdigit() or n.startswith("LEN") and n != str(x) for n in names): left.append(v)
                return v
            if isinstance(v, Agg): return Agg(v.kind, [go(f) if f is not None else None for f in v.fields], v.ty, v.variant)
            if isinstance(v, VIte): return VIte(v.c, go(v.a), go(v.b))
            return v
        self.st = {c: v for c, v in self.st.items() if c == GHOST or c[0] == "in"}
        self.st[obj.cell] = go(m.load(self.st, obj.cell))
        if self.emits: self.st[GHOST] = self.start_ghost(x)
        if left or self.FAIL is not None or self.exact: m.defs.append(x == end); m.definition[str(x)] = end
        return x
    emits = True
    exact = False
    step = 0

    def result(self, v):
        """(is ok, value if ok, error if not) of a Result."""
        if isinstance(v, VIte):
            a, b = self.result(v.a), self.result(v.b)
            return z3.simplify(z3.If(v.c, a[0], b[0])), ite(v.c, a[1], b[1]) if a[1] is not None and b[1] is not None else (a[1] if a[1] is not None else b[1]), \
                [x for x in a[2] + b[2]]
        if isinstance(v, Agg) and v.kind == "adt" and v.variant == 0: return z3.BoolVal(True), v.fields[0], []
        if isinstance(v, Agg) and v.kind == "adt" and v.variant == 1: return z3.BoolVal(False), None, [v.fields[0]]
        raise Unsupported(f"result {v}")

    def value(self, i, name): return Sym(name, dict(k="adt", path="opaque::F", args=[{"int": i, "bits": 64}], key=f"opaque::F|[{i}]"))

    def encoding(self, i, name):
        return App(("as", self.l, i), [self.value(i, name)])

    # ---- specification ----
    def up(self, o, a): return z3.simplify((-o) & bv(a - 1))

    def spec(self, o, items):
        """Positions of items (index of type, value) written from o: (offsets, end, byte at P as (source, index))."""
        m = self.m
        offs, cur, src, idx = [], o, bv(255, 8), bv(0)
        top = m.ub(o)
        segs = [(o, 0)]
        for i, v in items:
            a = self.align_of(i)
            at = z3.simplify(cur + self.up(cur, a))
            top += a
            if num(at) is None and not z3.is_const(at):
                m.fresh += 1
                x = z3.BitVec(f"at!{m.fresh}", 64)
                m.bound[str(x)] = top
                m.definition[str(x)] = at
                m.defs.append(x == at)
                at = x
            offs.append(at)
            n = self.h.id_of(v)
            self.want[n] = at
            end = m.name_sum(z3.simplify(at + self.size[i % 10]))
            top += MAXSIZE
            src = z3.If(z3.And(z3.UGE(self.P, cur), z3.ULT(self.P, at)), bv(0, 8), src)
            hit = z3.And(z3.UGE(self.P, at), z3.ULT(self.P, end))
            src, idx = z3.If(hit, bv(n, 8), src), z3.If(hit, self.P - at, idx)
            segs += [(at, n), (end, 0)]
            cur = end
        self.segs = segs
        return offs, cur, (src, idx)

    def align_of(self, i): return self.align[i] if i < 10 else max(256, self.align[i - 10])

    def fresh_writer(self):
        self.w = self.cell(self.call(f"root_new{self.l}"))
        self.prove(self.length() == bv(0), "a fresh writer's length is 0")

    def length(self):
        v = self.call(f"root_len{self.l}", self.w)
        if not is_term(v): raise Unsupported(f"length {v}")
        return v

    def sync(self):
        """Forget how the sink got where it is."""
        self.st[GHOST] = self.start_ghost(self.emitted())

    def history(self, kind):
        """A writer at an arbitrary position. kind 'blob': after one value of that many bytes; 'more': and after
        a value of type 2."""
        self.fresh_writer()
        if kind == "fresh":
            self.m.assumptions.append(self.start == 0)
            o = bv(0)
        else:
            fail, self.FAIL = self.FAIL, None
            r = self.call(f"root_direct{self.l}_3", self.w, self.cell(App(("blob",), [])))
            self.FAIL = fail
            o = self.start
            self.expect(r, bv(0), o, "the first write")
            if kind == "more":
                o2 = o + self.up(o, self.align[2])
                fail, self.FAIL = self.FAIL, None
                r = self.call(f"root_write{self.l}_2", self.w, self.cell(self.value(2, "h")))
                self.FAIL = fail
                o = z3.simplify(o2 + self.size[2])
                self.expect(r, o2, o, "the second write")
                o = self.cut(o, self.w, self.length(), MAXPOS + (1 << 42))
        self.sync()
        if self.FAIL is not None:
            self.m.assumptions.append(z3.ULE(o, self.FAIL))
            self.m.assumptions.append(z3.ULE(self.FAIL, bv(1 << 63)))
        self.origin = o
        return o

    def expect(self, r, at, end, what):
        self.obligations()
        ok, v, errs = self.result(r)
        self.prove(ok, f"{what} fails")
        self.prove(v == at, f"{what}: returned offset")
        self.prove(self.length() == end, f"{what}: length")
        self.prove(self.emitted() == end, f"{what}: number of bytes emitted")
        self.obligations()

    def bytes(self, spec, what):
        g = self.st[GHOST]
        if isinstance(g, Agg) and len(g.fields) == 1 + len(self.segs) and all(num(f.fields[1]) == n and num(f.fields[2]) == 0 for f, (_, n) in zip(g.fields[1:], self.segs)):
            # The same parts: each has to begin at the same place.
            for f, (at, n) in zip(g.fields[1:], self.segs): self.prove(f.fields[0] == at, f"{what}: where a part begins")
            return
        src, idx = spec
        s, i = self.at_P()
        self.prove(s == src, f"{what}: source of a byte")
        self.prove(z3.Implies(src != 255, i == idx), f"{what}: a byte")


    def run_items(self, root, arg, items, what):
        """Run one root that has to emit items from the current position."""
        if self.FAIL is not None: return self.run_faulty(root, arg, items, what)
        o = self.origin
        offs, end, spec = self.spec(o, items)
        first = offs[0] if offs and not isinstance(items, Late) else o
        r = self.call(root, self.w, arg)
        self.expect(r, first, end, what)
        self.bytes(spec, what)
        self.origin = self.cut(end, self.w, self.length(), MAXPOS + (1 << 50))

    def run_faulty(self, root, arg, items, what):
        """The same with a sink that fails: every place where it can fail is looked at by itself."""
        m = self.m
        o = self.origin
        offs, end, spec = self.spec(o, items)
        first = offs[0] if offs and not isinstance(items, Late) else o
        segs = self.segs
        known = set(m.definition)
        m.name_results = True
        self.st[EVENTS] = bv(0, 8)
        outs = m.run_paths(self.roots[root], [self.w, arg], dict(self.st), [], 0)
        m.name_results = False
        if not outs: raise Unsupported("nothing can happen")
        # Paddings the code computes: the spec's.
        for x in [x for x in m.definition if x not in known and m.bound.get(x, MAXPOS) <= 1 << 12]:
            for (cur, z), (at, n) in zip(segs[0::2], segs[1::2]):
                c = z3.simplify(cur + z3.BitVec(x, 64) == at)
                if any(m.easy(c, levels, 5) for levels in (0, 1)):
                    m.lemmas.append(c)
                    break
        self.obligations()
        cases = []
        for st, pc in outs:
            st = dict(st)
            ok, v, errs = self.result(st.pop(VALUE))
            if truth(ok) is not None: cases.append((st, pc, ok, v, errs))
            else: cases += [(st, pc + [ok], z3.BoolVal(True), v, errs), (st, pc + [z3.Not(ok)], z3.BoolVal(False), v, errs)]
        for st, pc, ok, v, errs in cases:
            self.st = st
            g = st[GHOST]
            if not isinstance(g, Agg): raise Unsupported("sink in an unclear state")
            pos, parts = g.fields[0], g.fields[1:]
            n = self.length()
            if truth(ok) is True:
                self.prove(z3.ULE(end, self.FAIL), f"{what}: the error of the sink is reported", pc)
                self.prove(v == first, f"{what}: returned offset", pc)
                self.prove(n == end, f"{what}: length", pc)
                self.prove(pos == end, f"{what}: number of bytes emitted", pc)
            elif truth(ok) is False:
                for e in errs:
                    if not (isinstance(e, Sym) and e.name == "io_error"): raise Failed(f"{what}: the error is {e}", self.some(pc))
                self.prove(z3.ULT(self.FAIL, end), f"{what}: no error unless the sink fails", pc)
                self.prove(z3.And(z3.UGE(n, o), z3.ULE(n, pos)), f"{what}: length after an error", pc)
            else: raise Unsupported("result in an unclear state")
            # What was accepted is a prefix of what had to be written.
            if len(parts) > len(segs): raise Failed(f"{what}: more than the values is emitted", self.some(pc))
            for k, (f, (at, i)) in enumerate(zip(parts, segs)):
                if num(f.fields[1]) != i or num(f.fields[2]) != 0: raise Failed(f"{what}: other bytes than those of the values", self.some(pc))
                self.prove(f.fields[0] == at if k + 1 < len(parts) or i else z3.Or(f.fields[0] == at, z3.And(pos == f.fields[0], z3.ULE(pos, at))), f"{what}: where a part begins", pc)
            nxt = segs[len(parts)][0] if len(parts) < len(segs) else end
            self.prove(z3.ULE(pos, nxt), f"{what}: where the last part ends", pc)
        self.obligations()

    def some(self, pc):
        for level in range(3):
            t = self.m.solver(max(1, min(60, left())))
            t.add(*pc, *self.small(level))
            if self.m.check(t) == z3.sat: return self.numbers(t.model())
        raise Unsupported("no small counterexample")

    # ---- operations: (root, argument, items) ----
    def op(self, kind, i, n=1, tag="x"):
        l = self.l
        pair = lambda k: Agg("adt", [self.value(1, f"{tag}{k}a"), self.value(2, f"{tag}{k}b")], None)
        items = lambda k: [(1, self.encoding(1, f"{tag}{k}a")), (2, self.encoding(2, f"{tag}{k}b"))]
        if kind == "write": return f"root_write{l}_{i}", self.cell(self.value(i, tag)), [(i, self.encoding(i, tag))]
        if kind in ("direct", "out"):
            v = App(("raw", l, i, tag), [])
            return f"root_{kind}{l}_{i}", self.cell(v), [(i, v)]
        if kind in ("slice", "old"):
            return f"root_{kind}{l}_{i}", self.slice([self.value(i, f"{tag}{k}") for k in range(n)]), [(i, self.encoding(i, f"{tag}{k}")) for k in range(n)]
        if kind in ("vars", "itervars"):
            # The digits of i to the base 4: what the elements write.
            kinds = [i >> 2 * k & 3 for k in range(n)]
            vs = [Agg("adt", [bv(c, 8), self.value(1, f"{tag}{k}a"), self.value(2, f"{tag}{k}b")], None) for k, c in enumerate(kinds)]
            what = [x for k, c in enumerate(kinds) for x in items(k)[0 if c & 1 else 1:2 if c & 2 else 1]]
            if kinds[0] == 0: what = Late(what)
            if kind == "vars": return f"root_vars{l}", self.slice(vs), what
        if kind in ("iter", "iterpairs", "itervars"):
            low = z3.BitVec(f"low_{tag}", 64)
            high = z3.BitVec(f"high_{tag}", 64)
            self.m.assumptions += [z3.ULE(low, bv(n)), z3.UGE(high, bv(n))]
            known = z3.Bool(f"known_{tag}")
            hint = VIte(known, Agg("adt", [high], None, 1), Agg("adt", [], None, 0))
            if kind == "itervars": return f"root_itervars{l}", Items(vs, low, hint), what
            if kind == "iterpairs": return f"root_iterpairs{l}", Items([pair(k) for k in range(n)], low, hint), [x for k in range(n) for x in items(k)]
            return f"root_iter{l}_{i}", Items([self.value(i, f"{tag}{k}") for k in range(n)], low, hint), [(i, self.encoding(i, f"{tag}{k}")) for k in range(n)]
        if kind == "pair": return f"root_pair{l}", self.cell(pair(0)), items(0)
        if kind == "pairs": return f"root_pairs{l}", self.slice([pair(k) for k in range(n)]), [x for k in range(n) for x in items(k)]
        wrap = lambda t: Agg("adt", [self.value(i, t)], None)
        if kind == "dyn": return f"root_dyn140_{i}", self.cell(wrap(tag)), [(10 + i, self.encoding(i, tag))]
        if kind == "dyns": return f"root_dyns140_{i}", self.slice([wrap(f"{tag}{k}") for k in range(n)]), [(10 + i, self.encoding(i, f"{tag}{k}")) for k in range(n)]
        raise KeyError(kind)

    # ---- properties ----
    def scenario(self, sc):
        kind = sc["kind"]
        if kind == "writer":
            self.history(sc["history"])
            for k, (op, i, n) in enumerate(sc["ops"]):
                self.step = k
                self.run_items(*self.op(op, i, n, f"x{k}_"), f"{op} {k}")
        elif kind == "size": self.sizes(sc)
        elif kind == "sizer": self.sizer(sc)
        elif kind == "dynamic": self.dynamic()

    def sizes(self, sc):
        """Predicted sizes against what the rules say a fresh writer emits (and C09, C10 show that it does)."""
        for k, (op, i, n) in enumerate(sc["ops"]):
            root, arg, items = self.op(op, i, n, f"x{k}_")
            self.history("fresh")
            _, end, _ = self.spec(bv(0), items)
            r = self.call(root, self.w, arg)
            self.obligations()
            self.prove(self.length() == end, f"{op} {k}: emitted")
            size = {"write": f"root_size{self.l}_{i}", "slice": f"root_size_slice{self.l}_{i}", "pair": f"root_size_pair{self.l}",
                    "pairs": f"root_size_pairs{self.l}", "vars": f"root_size_vars{self.l}", "dyn": f"root_dyn_size140_{i}"}[op]
            self.prove(self.call(size, arg) == end, f"{op} {k}: value size")
            self.obligations()
            if op in ("write", "dyn"):
                r = self.m.run_nullary(self.roots[f"root_static{self.l}_{i}" if op == "write" else f"root_dyn_static140_{i}"])
                self.prove(r == end, f"{op} {k}: static size")
            if op == "write":
                r = self.call(f"root_bytes{self.l}_{i}", self.cell(App(("raw",), [])))
                if not isinstance(r, Ref) or r.meta is None: raise Unsupported("byte view")
                self.prove(r.meta == end, f"{op} {k}: length of the byte view")

    def sizer(self, sc):
        l = self.l
        s = self.cell(self.call(f"root_snew{l}"))
        length = lambda: self.call(f"root_slen{l}", s)
        self.prove(length() == bv(0), "a fresh sizer's length is 0")
        cur, top = bv(0), 0
        for k, (op, i, n) in enumerate(sc["ops"]):
            self.step = k
            a = self.align_of(i + 10 if op == "dyn" else i)
            at = z3.simplify(cur + self.up(cur, a))
            r = self.call(f"root_dyn_add140_{i}" if op == "dyn" else f"root_add{l}_{i}", s)
            self.obligations()
            self.prove(r == at, f"add {k}: offset")
            cur = z3.simplify(at + self.size[i])
            self.prove(length() == cur, f"add {k}: length")
            top += 1 << 42 if i != 3 else MAXPOS
            self.emits = False
            cur = self.cut(cur, s, length(), top)

    def dynamic(self):
        """Alignment, size, bytes and decoding of a dynamic uniform."""
        m = self.m
        a = m.run_nullary(self.roots["ROOT_DYN_ALIGN"])
        self.prove(a == bv(max(256, self.align[0])), "alignment of a dynamic uniform")
        t = self.roots["root_dyn_out"]
        self.prove(m.size_align(t)[0] == self.size[0], "size of a dynamic uniform")
        self.obligations()
        x = Agg("adt", [self.value(0, "x")], None)
        enc = self.call("root_dyn_enc", self.cell(x))
        self.obligations()
        r = self.call("root_dyn_bytes", self.cell(enc))
        if not isinstance(r, Ref) or r.meta is None: raise Unsupported("byte view")
        self.prove(r.meta == self.size[0], "length of the byte view of a dynamic uniform")
        what = self.h.content(m, self.st, r)
        self.prove(z3.And(len(what) == 1, what[0][1] == bv(self.h.id_of(self.encoding(0, "x")), 8), what[0][2] == 0), "the bytes of a dynamic uniform")
        dec = m.expand(self.call("root_dyn_dec", enc))
        self.obligations()
        want = App(("from", 140, 0), [self.encoding(0, "x")])
        self.count += 1
        V = z3.DeclareSort("Value")
        def term(v):
            if isinstance(v, Sym): return z3.Const("v_" + v.name, V)
            if isinstance(v, App) and len(v.args) == 1: return z3.Function("_".join(map(str, v.f)), V, V)(term(v.args[0]))
            raise Unsupported(f"value {v}")
        if not isinstance(dec, Agg) or len(dec.fields) != 1: raise Unsupported(f"decoded {dec}")
        s = z3.Solver()
        s.add(term(dec.fields[0]) != term(want))
        if m.check(s) != z3.unsat: raise Failed(f"decoding gives {dec}", None)


QUICK = TIER == "quick"
# What two or three elements write: 1 the first value, 2 the second, 3 both, 0 none.
CODES = [a + 4 * b for a, b in ((0, 1), (1, 0), (1, 2), (2, 1), (3, 1), (1, 3), (3, 0), (0, 2), (2, 3))] + [1 + 4 * 0 + 16 * 2, 3 + 4 * 1 + 16 * 2, 2 + 4 * 3 + 16 * 1]
def scenarios():
    out = []
    base = [1, 2, 4, 8, 16, 32] + ([] if QUICK else [64, 128])
    def add(l, align, kind, ops, history="blob", fail=False):
        out.append(dict(l=l, align=list(align), kind=kind, ops=ops, history=history, fail=fail))
    for l in L2:
        if PROP == "C09":
            for n, a2 in enumerate(base):
                for k, a1 in enumerate(base):
                    add(l, (base[(n + k) % len(base)], a1, a2), "writer", [("write", 1, 1), (("direct", "out")[k % 2], 0, 1)], "more")
        if PROP == "C10":
            for n in (0, 1, 2, 3) if QUICK else range(7):
                for k, a in enumerate(base):
                    for op in ("slice", "iter") + (("old",) if l == 140 else ()):
                        add(l, (a, a, base[k - 1]), "writer", [(op, 1, n)] + ([("write", 2, 1)] if n < 3 else []), "blob")
                    if n <= 2:
                        for op in ("pairs", "iterpairs"): add(l, (4, a, base[k - 2]), "writer", [(op, 0, n)])
            for k, a in enumerate(base):
                for c in CODES[k % 3::3] if QUICK else CODES:
                    for op in ("vars", "itervars"): add(l, (4, a, base[k - 1 - c % 3]), "writer", [(op, c, 3 if c > 15 else 2)], "blob")
            for a in (1, 16) if QUICK else base:
                for n in (20, 70) if QUICK else (20, 40, 70, 140, 280):
                    for op in ("slice", "iter") + (("old",) if l == 140 else ()): add(l, (a, a, 4), "writer", [(op, 1, n)], "blob")
        if PROP == "C17":
            # Elements one after the other at multiples of their alignment: the stride is the size rounded up to it.
            for k, a in enumerate(base):
                if l == 140 and a < 16: continue
                for n in (0, 1, 2, 3, 20, 70) if QUICK else (0, 1, 2, 3, 4, 5, 6, 20, 70, 280):
                    for op in ("slice",) + (("old",) if l == 140 else ()):
                        add(l, (a, a, base[k - 1]), "writer", [(op, 1, n)], "blob")
        if PROP == "C11":
            for k, a in enumerate(base):
                add(l, (4, a, base[k - 1]), "writer", [("write", 1, 1)], "more", True)
                for n in (0, 1, 2, 3) if QUICK else range(6):
                    if QUICK and n + (a > 8) > 2: continue
                    for op in ("slice", "iter") + (("old",) if l == 140 else ()):
                        add(l, (4, a, base[k - 1]), "writer", [(op, 1, n)], "blob", True)
                if not QUICK or max(a, base[k - 2]) <= 16: add(l, (4, a, base[k - 2]), "writer", [("pairs", 0, 2)], "blob", True)
        if PROP == "C12":
            for k, a in enumerate(base):
                for j, b in enumerate(base):
                    add(l, (a, a, b), "size", [("write", 1, 1), ("pair", 0, 1)])
                    if k != j and QUICK: continue
                    for n in (0, 1, 2, 3) if QUICK else range(7):
                        add(l, (a, a, b), "size", [("slice", 1, n), ("pairs", 0, min(n, 3))])
            for k, a in enumerate(base):
                for c in CODES[k % 3::3] if QUICK else CODES: add(l, (4, a, base[k - 1 - c % 3]), "size", [("vars", c, 3 if c > 15 else 2)])
            for a in (4, 8) if QUICK else base:
                for n in ((20, 70) if a == 4 else (20,50)) if QUICK else (20, 40, 70, 140, 280): add(l, (a, a, 4), "size", [("slice", 1, n)])
        if PROP == "C13":
            for a in base:
                for b in base:
                    for c in base if not QUICK else (4, 16, 32):
                        add(l, (a, b, c), "sizer", [(x, y, 1) for x, y in (("add", 3), ("add", 0), ("add", 1), ("add", 2), ("add", 1), ("add", 3), ("add", 0))])
    if PROP in ("C12", "C13", "C14"):
        for a in (1, 4, 8, 16, 32, 256, 512):
            if PROP == "C12": add(140, (a, a, 4), "size", [("dyn", 1, 1)])
            if PROP == "C13": add(140, (a, 16, 4), "sizer", [("add", 3, 1), ("dyn", 0, 1), ("add", 1, 1), ("dyn", 0, 1), ("dyn", 0, 1)])
            if PROP == "C14":
                add(140, (a, 4, 16), "dynamic", [])
                add(140, (a, a, 16), "writer", [("dyn", 1, 1)], "blob")
                if a == 16 or not QUICK and a <= 256: add(140, (a, a, 16), "writer", [("dyn", 1, 1)], "blob", True)
                add(140, (a, 16, 4), "sizer", [("add", 3, 1), ("dyn", 0, 1), ("add", 1, 1), ("dyn", 0, 1), ("dyn", 0, 1)])
                add(140, (a, a, 16), "size", [("dyn", 1, 1)])
                add(140, (a, a, 16), "writer", [("dyns", 1, 2)], "fresh" if QUICK else "blob")
    return out


def decide(sc):
    c = Case(DUMP, sc["l"], sc["align"], sc["fail"])
    c.m.loop_deadline = time.time() + min(90 if QUICK else 400, left() / 3)
    try:
        c.scenario(sc)
        if c.m.truncated: return c, "unsupported", f"many rounds of a loop in {c.m.truncated}"
        return c, "held", None
    except Unsupported as e: return c, "unsupported", str(e)[:300]
    except Failed as f: return c, "failed", (f.text, f.model)


def one(sc):
    t = time.time()
    c = None
    try:
        if left() < 15: kind, x = "unsupported", "out of time"
        else: c, kind, x = decide(sc)
    except Exception: kind, x = "unsupported", "internal: " + traceback.format_exc()[-900:]
    return sc, kind, x, (c.count, c.m.queries, c.m.solver_s, c.m.executed, round(time.time() - t, 1)) if c else (0, 0, 0.0, set(), 0)


def main():
    d = os.path.join(BUILD, "stream")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    for x in ("Cargo.toml", "Cargo.lock"): shutil.copy(os.path.join(HERE, "opaque", x), d)
    open(os.path.join(d, "src", "lib.rs"), "w").write(source())
    result = dict(method="MIR of Writer and Sizer executed symbolically for opaque types, z3 %s decides" % z3.get_version_string(),
                  bounds="types of any size up to 2^40 bytes, positions up to 2^62, failures at any byte; alignments and numbers of operations as listed in scenarios",
                  scenarios=0, obligations=0, queries=0, solver_s=0.0, undecided=[], violations=[], functions_encoded=[])
    dumps = {}
    for mode in ("on", "off"):
        dumps[mode], log = build.dump(d, os.path.join(BUILD, f"stream-{mode}.json"), mode, max(60, left()))
        if dumps[mode] is None:
            result["undecided"].append(f"no MIR (debug assertions {mode}): " + log[-1500:])
            if mode == "on": return result
    result["dump_s"] = round(time.time() - T0, 1)
    result["debug_assertions"] = "make no difference" if dumps["on"] == dumps["off"] else "decided with and without"
    if dumps["on"] == dumps["off"]: del dumps["off"]
    for mode, dump in dumps.items():
        if dump is not None and not result["violations"]: one_build(result, mode, dump)
    result["solver_s"] = round(result["solver_s"], 2)
    result["wall_s"] = round(time.time() - T0, 1)
    return result


def one_build(result, mode, dump):
    """All scenarios as compiled in one mode."""
    global DUMP, MODE
    DUMP, MODE = dump, mode
    work = scenarios()
    executed, unsup = set(), {}
    work.sort(key=lambda sc: -max(sc["align"]) * (1 + sc["fail"]) * (1 + len(sc["ops"])))
    for i, r in pool.results(one, work, time.time() + left()):
        sc, kind, x, stat = r or (work[i], "unsupported", "out of time", (0, 0, 0.0, set(), 0))
        where = f"std{sc['l']} {sc['kind']} {sc['align']} {sc['ops']} {sc['history']}{' fail' if sc['fail'] else ''}"
        result["obligations"] += stat[0]
        result["queries"] += stat[1]
        result["solver_s"] += stat[2]
        executed |= stat[3]
        if os.environ.get("VERBOSE"): print(where, kind, x, stat[:3], stat[4], round(time.time() - T0, 1), flush=True)
        if kind == "held": result["scenarios"] += 1
        elif kind == "unsupported": unsup.setdefault(x, []).append(where)
        elif result["violations"]: pass
        else:
            try: r, out = reproduce(sc, *x) if left() > 20 else (None, "out of time")
            except Exception as e: r, out = None, traceback.format_exc()[-600:]
            if r:
                result["violations"].append(r)
                break
            unsup.setdefault(f"counterexample does not reproduce: {x[0][:150]}: {out[-300:]}", []).append(where)
    result["undecided"] += [f"{'; '.join(v[:4])}{' ...' if len(v) > 4 else ''} ({len(v)}): {k}" for k, v in unsup.items()]
    result["functions_encoded"] = sorted({x.split("|")[0] for x in executed} | set(result["functions_encoded"]))[:200]


def native(program):
    """Build and run a program against /repo: its output."""
    d = os.path.join(BUILD, "replay-stream")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    for x in ("Cargo.toml", "Cargo.lock"): shutil.copy(os.path.join(HERE, "opaque", x), d)
    open(os.path.join(d, "src", "main.rs"), "w").write(program)
    return build.run(d, os.path.join(BUILD, "rt"), MODE, min(180, max(60, left())))[1]


def reproduce(sc, text, numbers):
    """The counterexample as a program with real types, run against /repo: (text, path) if it shows the violation."""
    if numbers is None: numbers = dict(size=[8] * 4, rust=[1] * 4, fail=None, hints={}, length=None, step=0)
    runs = [(numbers["size"][3] if sc["history"] != "fresh" or sc["kind"] != "writer" else 0, sc["history"], sc["ops"])]
    if numbers["length"] is not None:
        # From the position where it fails.
        k = numbers["step"]
        runs.append((numbers["length"], "blob", sc["ops"][k:] if sc["kind"] != "sizer" else [("add", 3, 1)] + sc["ops"][k:]))
        if sc["kind"] == "sizer": runs[-1] = (numbers["length"], "blob", [("add", 3, 1)] + [x for x in sc["ops"][k:] if x[1] != 3])
    out = ""
    for start, history, ops in runs:
        prog = replay_stream.program(sc, numbers, start, history, ops)
        out = native(prog)
        bad = [x[4:] for x in out.splitlines() if x.startswith("BAD ")]
        if not bad and "DONE" not in out: bad = [x for x in out.splitlines() if "panicked at" in x and "/repo/" in x][:1]
        if not bad: continue
        path = os.path.join(VERIF, "evidence", f"{PROP}.replay.rs")
        with open(path, "w") as f:
            f.write(f"// property {PROP}: {text}\n// Replay: as src/main.rs of a crate that depends on crevice (path /repo, feature std), cargo run. It printed:\n")
            for b in bad: f.write(f"//   {b[:400]}\n")
            f.write(prog)
        return (f"std{sc['l']}, types of alignment and size {list(zip(sc['align'], numbers['size']))}, {sc['ops']} from position {start}: {bad[0][:300]}", path), out
    if EXACT and left() > 60:
        # The counterexample begins in the middle, where it may not be all that the past allows: one from the beginning.
        EXACT.pop()
        c = Case(DUMP, sc["l"], sc["align"], sc["fail"])
        c.exact = True
        c.m.loop_deadline = time.time() + 30
        try: c.scenario(sc)
        except Failed as f:
            if f.model: return reproduce(sc, f.text, dict(f.model, length=None))
        except Unsupported: pass
    return None, f"{text} {numbers} {out[-1500:]}"


EXACT = [1, 2, 3]


if __name__ == "__main__":
    r = main()
    json.dump(r, open(OUT, "w"), indent=1)
    if os.environ.get("VERBOSE"): print(json.dumps({k: v for k, v in r.items() if k != "functions_encoded"}, indent=1))
