#!/usr/bin/env python3
"""Writes src/family.rs, src/props.rs and index.json: which harness decides what, within which bounds.

The tables here only choose instantiations and loop bounds; the oracle the harnesses assert is in
src/spec.rs and src/model.rs (a bound that is too small is reported by Kani's unwinding checks).
"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))

# ---- types -----------------------------------------------------------------------------------
N = {"f32": 4, "f64": 8, "i32": 4, "u32": 4, "bool": 4}
def up(x, a): return (x + a - 1) // a * a

class Leaf:
    def __init__(self, name, rust, kind, cols, rows):
        self.name, self.rust, self.kind, self.cols, self.rows = name, rust, kind, cols, rows
    def align(self, lay):
        n = N[self.kind]
        a = {1: n, 2: 2 * n, 3: 4 * n, 4: 4 * n}[self.rows]
        return up(a, 16) if self.cols > 1 and lay == 140 else a
    def size(self, lay):
        return self.cols * up(self.rows * N[self.kind], self.align(lay)) if self.cols > 1 else self.rows * N[self.kind]
    def loops(self): return self.cols * self.rows
    def has_bool(self): return self.kind == "bool"

class Struct:
    def __init__(self, name, fields):
        self.name, self.rust, self.fields = name, name, fields
    def align(self, lay): return max([16 if lay == 140 else 1] + [t.align(lay) for _, t in self.fields])
    def size(self, lay):
        o = 0
        for _, t in self.fields:
            o = up(o, t.align(lay)) + t.size(lay)
        return up(o, self.align(lay))
    def loops(self): return max([1] + [t.loops() for _, t in self.fields])
    def has_bool(self): return any(t.has_bool() for _, t in self.fields)
    def declarable(self):
        """Every field has a GLSL name that names a built-in type."""
        return not any(isinstance(t, Struct) or t.name == "bool" for _, t in self.fields)
    def nested(self): return any(isinstance(t, Struct) for _, t in self.fields)

T = {}
def leaf(name, rust, kind, cols, rows): T[name] = Leaf(name, rust, kind, cols, rows)
for k in N: leaf(k, k, k, 1, 1)
PRE = {"f32": "", "f64": "d", "i32": "i", "u32": "u", "bool": "b"}
for k in N:
    for r in (2, 3, 4): leaf(f"{PRE[k]}vec{r}", f"Vector{r}<{k}>", k, 1, r)
    for r in (2, 3): leaf(f"{PRE[k]}point{r}", f"Point{r}<{k}>", k, 1, r)
for k in ("f32", "f64"):
    for r in (2, 3, 4): leaf(f"{PRE[k]}mat{r}", f"ColumnMatrix{r}<{k}>", k, r, r)
LEAVES = list(T.values())
# crevice's own layout types, used directly.
LAYOUT_TYPES = {}
for k in N:
    for r in (2, 3, 4): LAYOUT_TYPES[f"{PRE[k]}vec{r}"] = (f"{PRE[k].upper()}Vec{r}", k, 1, r)
for k in ("f32", "f64"):
    for r in (2, 3, 4): LAYOUT_TYPES[f"{PRE[k]}mat{r}"] = (f"{PRE[k].upper()}Mat{r}", k, r, r)

STRUCTS = []
def struct(name, fields):
    fs = []
    for f in fields.split(","):
        n, t = f.split(":")
        fs.append((n.strip(), T[t.strip()]))
    s = Struct(name, fs)
    T[name] = s
    STRUCTS.append(s)

struct("One", "x: f32")
struct("OneVec3", "v: vec3")
struct("OneVec2", "v: vec2")
struct("OneDouble", "v: f64")
struct("OneDVec3", "v: dvec3")
struct("OneMat2", "m: mat2")
struct("OneBool", "b: bool")
struct("Pair", "a: f32, b: f32")
struct("Swap", "first: vec2, second: vec2, third: f32, fourth: f32")
struct("Scalars", "a: f32, b: f64, c: i32, d: u32, e: bool")
struct("Scalars2", "a: bool, b: u32, c: f32, d: f64")
struct("Vecs", "a: vec3, b: f32, c: vec2, d: vec4, e: f32")
struct("Vecs2", "a: f32, b: vec3, c: vec3, d: vec2, e: vec3, f: vec2, g: f32, h: vec2")
struct("Points", "a: point2, b: point3, c: upoint3, d: i32, e: ipoint2, f: dpoint3, g: dpoint2")
struct("IntVecs", "a: ivec2, b: uvec3, c: u32, d: ivec4, e: uvec2, f: ivec3, g: uvec4")
struct("DVecs", "a: f32, b: dvec3, c: f64, d: dvec2, e: u32, f: dvec4")
struct("Mats", "a: f32, b: mat2, c: f32, d: mat3, e: f32")
struct("Mat4s", "a: vec2, b: mat4, c: vec3")
struct("DMats", "a: f32, b: dmat3, c: f64, d: dmat2")
struct("DMat4s", "a: i32, b: dmat4, c: bool")
struct("Bools", "a: bool, b: bvec2, c: bvec3, d: bvec4, e: bool, f: bpoint2, g: bpoint3")
struct("Light", "position: point3, color: vec3, brightness: f32")
struct("Main", "orientation: mat3, position: point3, scale: f32")
struct("Nested", "a: One, b: f32, c: Pair, d: vec3, e: One, f: Bools")
struct("NestedD", "a: f32, b: OneDVec3, c: f32, d: OneVec2, e: f32, f: OneMat2")
struct("Deep", "a: u32, n: Nested, t: f64, d: DVecs, z: OneVec3")
struct("Twelve", ", ".join(f"{c}: f32" for c in "abcdefghijkl"))
struct("Long", "a: f32, b: vec3, c: vec3, d: f32, e: vec2, f: f64, g: u32, h: vec4, i: i32, j: dvec2, k: dvec3, "
               "l: f32, m: One, n: ivec3, o: bool, p: mat2, q: f32, r: uvec2, s: f64, t: f32")
struct("Padly", "_pad: f32, pad0: vec3, input: f32, value: vec2, r#type: u32, size: vec3")
S = {s.name: s for s in STRUCTS}

# Math library types: (module, key, rust type, kind, cols, rows)
MATH = []
for k in N:
    for r in (2, 3, 4): MATH.append(("cgmath", f"{PRE[k]}vec{r}", f"cgmath::Vector{r}<{k}>", k, 1, r))
    for r in (2, 3): MATH.append(("cgmath", f"{PRE[k]}point{r}", f"cgmath::Point{r}<{k}>", k, 1, r))
for k in ("f32", "f64"):
    for r in (2, 3, 4): MATH.append(("cgmath", f"{PRE[k]}mat{r}", f"cgmath::Matrix{r}<{k}>", k, r, r))
for k in N:
    for r in (2, 3, 4): MATH.append(("nalgebra", f"{PRE[k]}vec{r}", f"nalgebra::Vector{r}<{k}>", k, 1, r))
    for r in (2, 3): MATH.append(("nalgebra", f"{PRE[k]}point{r}", f"nalgebra::Point{r}<{k}>", k, 1, r))
for k in ("f32", "f64"):
    for r in (2, 3, 4): MATH.append(("nalgebra", f"{PRE[k]}mat{r}", f"nalgebra::Matrix{r}<{k}>", k, r, r))
for k in ("f32", "f64", "i32", "u32"):
    for r in (2, 3, 4): MATH.append(("glam", f"{PRE[k]}vec{r}", f"glam::{PRE[k].upper()}Vec{r}", k, 1, r))
for k in ("f32", "f64"):
    for r in (2, 3, 4): MATH.append(("glam", f"{PRE[k]}mat{r}", f"glam::{PRE[k].upper()}Mat{r}", k, r, r))

# ---- harnesses -------------------------------------------------------------------------------
MODS = {}      # module -> list of (name, unwind, expr)
INDEX = {}     # harness -> dict
def h(prop, name, unwind, expr, tier="quick", mod=None, **info):
    mod = mod or prop.lower()
    MODS.setdefault(mod, []).append((name, unwind, expr))
    INDEX[f"{mod}::{name}"] = dict(property=prop, tier=tier, unwind=unwind, run=expr, **info)

LAYS = (140, 430)
def uw(t, lay, extra=0): return max(t.align(lay), t.loops(), extra, 4) + 2
def low(n): return n.lower() if n[0].isupper() else n
def nm(t): return {"f32": "f32_", "f64": "f64_", "i32": "i32_", "u32": "u32_", "bool": "bool_"}.get(t.name, t.name.lower())

QUICK_STRUCTS = set(S)
def tier(cond): return "quick" if cond else "thorough"

# C01 / C02: the structs of the family, byte for byte against the GLSL rules.
for lay, prop in ((140, "C01"), (430, "C02")):
    for s in STRUCTS:
        h(prop, low(s.name), s.loops() + 2, f"s{lay}::image::<{s.rust}>()")
# C03 / C04: built-in types.
for lay, prop in ((140, "C03"), (430, "C04")):
    for t in LEAVES:
        h(prop, nm(t), t.loops() + 2, f"s{lay}::image::<{t.rust}>()")
    for k, (ty, kind, c, r) in LAYOUT_TYPES.items():
        h(prop, f"own_{k}", c * r + 2, f"s{lay}::image::<crevice::std{lay}::{ty}>()")
# C05: image by the generated offsets. C06: round trip. C18: decode any bytes.
for lay in LAYS:
    for s in STRUCTS:
        h("C05", f"s{lay}_{low(s.name)}", s.loops() + 2, f"s{lay}::fields::<{s.rust}>()")
        h("C06", f"s{lay}_{low(s.name)}", s.loops() + 2, f"s{lay}::roundtrip::<{s.rust}>()")
        n = s.size(lay)
        h("C18", f"s{lay}_{low(s.name)}", max(n // 4, s.loops()) + 2, f"s{lay}::readback::<{s.rust}, {n}>()")
    for t in LEAVES:
        n = t.size(lay)
        h("C18", f"s{lay}_{nm(t)}", max(n // 4, t.loops()) + 2, f"s{lay}::readback::<{t.rust}, {n}>()")
        h("C06", f"s{lay}_{nm(t)}", t.loops() + 2, f"s{lay}::roundtrip::<{t.rust}>()")
# C07: math libraries.
for lib, key, ty, k, c, r in MATH:
    h("C07", f"{lib}_{key}", max(c * r, 8) + 2, f"both::like_glsl::<{ty}>()", features=["mathlibs"])
# C08: booleans.
for lay in LAYS:
    for key in ("bool", "bvec2", "bvec3", "bvec4", "bpoint2", "bpoint3"):
        t = T[key]
        h("C08", f"s{lay}_{nm(t)}_out", 6, f"s{lay}::bool_out::<{t.rust}>()")
        h("C08", f"s{lay}_{nm(t)}_in", 6, f"s{lay}::bool_in::<{t.rust}, {t.size(lay)}>()")
    for key in ("Bools", "Scalars", "Scalars2", "OneBool"):
        s = S[key]
        h("C08", f"s{lay}_{low(key)}", max(s.size(lay) // 4, s.loops()) + 2, f"s{lay}::readback::<{s.rust}, {s.size(lay)}>()")
# C09: one write from anywhere; sequences from scratch.
for lay in LAYS:
    for t in LEAVES:
        if t.name in ("f32", "f64", "vec2", "vec3", "dvec3", "mat3", "bool", "uvec2"):
            h("C09", f"s{lay}_{nm(t)}", uw(t, lay), f"s{lay}::write_step::<{t.rust}>()")
        else:
            h("C09", f"s{lay}_{nm(t)}", uw(t, lay), f"s{lay}::write_step::<{t.rust}>()", tier="thorough")
    for s in STRUCTS:
        q = s.name in ("Light", "OneVec2", "Scalars", "OneDVec3", "Nested")
        h("C09", f"s{lay}_{low(s.name)}", uw(s, lay), f"s{lay}::write_step::<{s.rust}>()", tier=tier(q))
    h("C09", f"s{lay}_own_vec3", 18, f"s{lay}::write_step::<crevice::std{lay}::Vec3>()")
    h("C09", f"s{lay}_blob5", 8, f"s{lay}::write_step::<Blob<5>>()")
    h("C09", f"s{lay}_wide64", 66, f"s{lay}::write_step::<Wide<64>>()", tier="thorough")
    h("C09", f"s{lay}_seq_a", 18, f"s{lay}::write_seq::<f32, Vector3<f32>, One>()")
    h("C09", f"s{lay}_seq_b", 18, f"s{lay}::write_seq::<Blob<3>, Vector2<f32>, f64>()")
    h("C09", f"s{lay}_seq_c", 34, f"s{lay}::write_seq::<u32, Vector3<f64>, Light>()", tier="thorough")
# C10: slices and iterators.
for lay in LAYS:
    vias = ["Slice", "Iter", "LazyIter", "Filter"] + (["OldSlice"] if lay == 140 else [])
    for key, n, u in (("f32", 3, 6), ("f64", 2, 10), ("vec3", 2, 18), ("Light", 2, 18), ("vec2", 3, 10), ("mat2", 2, 18), ("bool", 3, 6)):
        for via in vias:
            q = key == "f32" or (key == "vec3" and via in ("Slice", "LazyIter")) or (key == "Light" and via == "Slice") \
                or (key == "f64" and via in ("Iter", "OldSlice"))
            h("C10", f"s{lay}_{key.lower()}_{via.lower()}", u, f"s{lay}::many::<{T[key].rust}, {n}>(s{lay}::Via::{via})", tier=tier(q))
    h("C10", f"s{lay}_mixed_small", 6, f"s{lay}::many_mixed::<f32, u32>(2, 1)", tier="quick")
    h("C10", f"s{lay}_mixed_scalar", 6, f"s{lay}::many_mixed::<f32, u32>(2, 3)", tier="thorough")
    h("C10", f"s{lay}_mixed", 10, f"s{lay}::many_mixed::<f32, f64>(2, 3)", tier="thorough")
    h("C10", f"s{lay}_f32_slice6", 8, f"s{lay}::many::<f32, 6>(s{lay}::Via::Slice)", tier="thorough")
# C11: faults.
for lay in LAYS:
    for key in ("f32", "f64", "vec3", "Light", "mat3", "dvec3", "Scalars"):
        h("C11", f"s{lay}_{key.lower()}_fault", uw(T[key], lay), f"s{lay}::fault_one::<{T[key].rust}>()",
          tier=tier(key in ("f32", "f64", "vec3", "Light")))
        h("C11", f"s{lay}_{key.lower()}_short", uw(T[key], lay), f"s{lay}::short_one::<{T[key].rust}>(2)",
          tier=tier(key in ("f32", "vec3", "Light")))
    for key, n, u in (("f32", 3, 6), ("f64", 2, 10), ("vec3", 2, 18)):
        for via in ("Slice", "Iter"):
            h("C11", f"s{lay}_{key}_{via.lower()}_fault", u, f"s{lay}::fault_many::<{T[key].rust}, {n}>(s{lay}::Via::{via})",
              tier=tier(key == "f32" or (key == "f64" and via == "Slice")))
        h("C11", f"s{lay}_{key}_slice_short", u, f"s{lay}::short_many::<{T[key].rust}, {n}>(2)", tier=tier(key == "f32"))
    h("C11", f"s{lay}_f32_fault_std", 6, f"s{lay}::fault_one_std::<f32>()", tier="thorough")
    h("C11", f"s{lay}_f32_short_std", 6, f"s{lay}::short_one_std::<f32>(2)", tier="thorough")
# C12: sizes.
for lay in LAYS:
    for t in LEAVES + STRUCTS:
        q = isinstance(t, Struct) or t.cols > 1 or t.kind in ("f32", "f64") or t.name in ("bool", "bvec3", "i32", "uvec2")
        h("C12", f"s{lay}_{nm(t)}", uw(t, lay), f"s{lay}::size_one::<{t.rust}>()", tier=tier(q))
    for key, n in (("f32", 3), ("f64", 3), ("vec2", 3), ("vec3", 3), ("mat2", 3), ("bvec3", 3), ("dvec3", 2), ("Light", 3), ("One", 3), ("Scalars", 3), ("Deep", 2)):
        h("C12", f"s{lay}_{low(key)}_slice", uw(T[key], lay), f"s{lay}::size_slice::<{T[key].rust}, {n}>()")
    for a, b, n in (("f32", "vec3", 2), ("u32", "Light", 2), ("vec3", "f32", 3), ("f32", "f64", 3)):
        h("C12", f"s{lay}_mixed_{a}_{low(b)}", 18, f"s{lay}::size_mixed::<{T[a].rust}, {T[b].rust}, {n}>()")
    for key, n in (("f32", 6), ("vec3", 6), ("Light", 5)):
        h("C12", f"s{lay}_{low(key)}_slice_long", uw(T[key], lay), f"s{lay}::size_slice::<{T[key].rust}, {n}>()", tier="thorough")
# C13: sizer.
for lay in LAYS:
    for t in LEAVES + STRUCTS:
        q = t.name in ("f32", "f64", "bool", "vec2", "vec3", "mat2", "dmat3", "Light", "OneDouble", "OneDVec3", "OneVec2", "OneBool", "Scalars", "Nested", "Mats", "Long")
        h("C13", f"s{lay}_{nm(t)}", uw(t, lay), f"s{lay}::sizer_step::<{t.rust}>()", tier=tier(q))
    h("C13", f"s{lay}_seq_a", 18, f"s{lay}::sizer_seq::<f32, Vector3<f32>, Light>()")
    h("C13", f"s{lay}_seq_b", 18, f"s{lay}::sizer_seq::<Blob<3>, Vector2<f32>, f64>()")
    h("C13", f"s{lay}_seq_c", 34, f"s{lay}::sizer_seq::<u32, Vector3<f64>, OneVec2>()", tier="thorough")
# C14: dynamic uniforms.
for key in ("f32", "f64", "vec3", "bool", "mat3", "dmat4", "Light", "OneDVec3", "Deep", "Bools"):
    t = T[key]
    du = f"DynamicUniform<{t.rust}>"
    h("C14", f"{nm(t)}_image", t.loops() + 2, f"s140::image::<{du}>()")
    h("C14", f"{nm(t)}_roundtrip", t.loops() + 2, f"s140::roundtrip::<{du}>()")
    h("C14", f"{nm(t)}_sizer", 260, f"s140::sizer_add::<{du}>()")
    n = t.size(140)
    h("C14", f"{nm(t)}_readback", max(n // 4, t.loops()) + 2, f"s140::readback::<{du}, {n}>()")
for key in ("f32", "vec3", "Light"):
    t = T[key]
    du = f"DynamicUniform<{t.rust}>"
    h("C14", f"{nm(t)}_near", 34, f"s140::write_near::<{du}, 32>()")
    for at in (1, 4, 100, 252, 256, 260):
        h("C14", f"{nm(t)}_at{at}", 260, f"s140::write_at::<{du}, {at}>()", tier=tier(key == "f32" and at in (4, 100, 260)))
    h("C14", f"{nm(t)}_far", 260, f"s140::write_step::<{du}>()", tier="thorough")
h("C14", "wide512", 6, "dynamic_align::<Wide<512>, 512>()")
h("C14", "wide128", 6, "dynamic_align::<Wide<128>, 256>()")
h("C14", "wide256", 6, "dynamic_align::<Wide<256>, 256>()")
h("C14", "wide32", 6, "dynamic_align::<Vector3<f64>, 256>()")
h("C14", "slice", 260, "dynamic_pair::<Light>()")
# C15: GLSL text.
for n, ty, name, q in ((0, 1, 1, 1), (1, 1, 1, 1), (1, 4, 8, 1), (1, 8, 3, 1), (2, 3, 2, 1), (3, 1, 5, 1), (3, 8, 8, 0), (4, 2, 1, 0), (4, 7, 6, 0), (6, 5, 8, 0), (6, 1, 1, 0)):
    h("C15", f"hand_{n}_{ty}_{name}", 13, f"glsl::hand::<{n}, {ty}, {name}>()", tier=tier(q))
for s, q in (("G0", 1), ("G1", 1), ("Gl_3x_", 1), ("r#type", 1), ("snake", 1), ("G9", 0), ("Real", 0)):
    u = 48 if s == "Real" else 13
    b = s.replace("r#", "raw_").lower()
    h("C15", f"text_{b}", u, f"glsl::text::<glsl::{s}>()", tier=tier(q))
    h("C15", f"list_{b}", u, f"glsl::list::<glsl::{s}>()")
# C16: GLSL names.
for t in LEAVES:
    if t.name == "bool": continue
    h("C16", nm(t), max(t.loops(), 8) + 2, f"both::named::<{t.rust}>()")
for k, (ty, kind, c, r) in LAYOUT_TYPES.items():
    for lay in LAYS:
        h("C16", f"s{lay}_own_{k}", max(c * r, 8) + 2, f"s{lay}::named::<crevice::std{lay}::{ty}>()")
for s in STRUCTS:
    if not s.declarable(): continue
    for lay in LAYS:
        h("C16", f"s{lay}_{low(s.name)}", max(s.loops(), 8, len(s.fields)) + 2, f"s{lay}::declared::<{s.rust}>()")
for lib, key, ty, k, c, r in MATH:
    h("C16", f"{lib}_{key}", max(c * r, 8) + 2, f"both::named::<{ty}>()", mod="c16m", features=["mathlibs"])
# C17: arrays.
KNOWN_PACKED = []
for lay in LAYS:
    for t in LEAVES + STRUCTS:
        n = 2 if t.align(lay) >= 16 else 3
        a = up(t.align(lay), 16) if lay == 140 else t.align(lay)
        u = max(a, t.loops(), 4) + 2
        q = t.name in ("f32", "vec2", "vec3", "vec4", "mat2", "f64", "dvec3", "bool", "Light", "OneVec2", "Scalars")
        h("C17", f"s{lay}_{nm(t)}", u, f"s{lay}::array::<{t.rust}, {n}>()", tier=tier(q))
        if lay == 140 and t.align(lay) < 16:
            h("C17", f"s{lay}_{nm(t)}_packed", u, f"s{lay}::packed::<{t.rust}, {n}>()", tier=tier(q))

# ---- output ----------------------------------------------------------------------------------
def w(path, text):
    path = os.path.join(HERE, path)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)

fam = "//! Generated by gen.py: the structs the harnesses derive layouts for.\n\nuse mint::*;\n\nfamily! {\n"
for s in STRUCTS:
    if s.declarable(): fam += "    #[derive(crevice::glsl::GlslStruct)]\n"
    fam += f"    struct {s.name} {{ " + ", ".join(f"{n}: {t.rust}" for n, t in s.fields) + " }\n"
fam += "}\n\ndeclared! {\n"
for s in STRUCTS:
    if s.declarable(): fam += f"    {s.name} {{ " + ", ".join(n for n, t in s.fields) + " }\n"
fam += "}\n"
w("src/family.rs", fam)

out = """//! Generated by gen.py: the harnesses, one module per property: `cNN::name [unwind] = body`.

#![allow(unused_imports)]
use crate::checks::{both, dynamic_align, dynamic_pair, s140, s430, Blob, Wide};
use crate::family::*;
use crate::glsl;
use crevice::std140::DynamicUniform;
use mint::*;

harnesses! {
"""
for mod, hs in MODS.items():
    feats = {f for n, *_ in hs for f in INDEX[f"{mod}::{n}"].get("features", [])}
    if feats: out += f'    #[cfg(feature = "{feats.pop()}")]\n'
    out += f"    {mod} {{\n"
    for n, u, e in hs: out += f"        {n} [{u}] = {e};\n"
    out += "    }\n"
out += "}\n"
w("src/props.rs", out)
w("index.json", json.dumps(INDEX, indent=0, sort_keys=True) + "\n")
if __name__ == "__main__":
    import collections
    print(collections.Counter((v["property"], v["tier"]) for v in INDEX.values()))
