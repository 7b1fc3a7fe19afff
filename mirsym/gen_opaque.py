"""Struct definitions with opaque field types, for symbolic execution, and the same definitions with concrete
field types, to replay a counterexample.

S<n> has n fields of n types, R<n> has n fields of fewer types. Names and the way types are written vary."""

HEAD = '''//! Generated by gen_opaque.py.
#![allow(dead_code, warnings)]
use crevice::glsl::{Glsl, GlslField, GlslStruct};
use crevice::std140::{AsStd140, Std140};
use crevice::std430::{AsStd430, Std430};
'''

# What the derive macros generate depends on these types' sizes and alignments through constants that
# engine M replaces by symbols, so the numbers here do not matter.
OPAQUE = '''
/// An opaque field type; its encodings are opaque too.
pub struct F<const I: usize>(u32);
''' + "".join(f'''
#[derive(Debug, Clone, Copy)]
#[repr(C)]
pub struct O{l}<const I: usize>([u32; 4]);
unsafe impl<const I: usize> crevice::internal::bytemuck::Zeroable for O{l}<I> {{}}
unsafe impl<const I: usize> crevice::internal::bytemuck::Pod for O{l}<I> {{}}
unsafe impl<const I: usize> Std{l} for O{l}<I> {{
    const ALIGNMENT: usize = 16;
}}
impl<const I: usize> AsStd{l} for F<I> {{
    type Output = O{l}<I>;
    fn as_std{l}(&self) -> O{l}<I> {{ loop {{}} }}
    fn from_std{l}(val: O{l}<I>) -> Self {{ loop {{}} }}
}}
''' for l in (140, 430)) + '''
unsafe impl<const I: usize> Glsl for F<I> {
    const NAME: &'static str = "opaque";
}
'''

def aliases(ids):
    """Other ways to write the field types."""
    out = "pub mod m {\n    pub use super::F as G;\n    pub trait Id { type It; }\n"
    out += "".join(f"    pub type T{i} = super::F<{i}>;\n    impl Id for super::F<{i}> {{ type It = super::F<{i}>; }}\n" for i in ids) + "}\nuse m::*;\n"
    return out + "".join(f"pub mod p{i} {{ pub type Same = super::F<{i}>; }}\n" for i in ids)

NAMES = ["x", "value_1", "r#type", "_x", "Camel", "zeroed", "input", "position", "a_rather_long_field_name_indeed", "r#match",
         "_pad", "offset", "size", "alignment", "output", "pad0", "Self_", "UPPER", "f18", "n1n1", "z_", "max", "index", "padding",
         "r#fn", "vec3", "__", "r_type", "gl_FragCoord", "r", "a_name_of_more_than_sixty_four_characters_because_nothing_limits_the_length_of_names",
         "_0", "r#struct", "mat4x4", "R2D2_", "l", "I", "\u00e9t\u00e9"]
# Where types repeat, fields of one type have names that are easily confused.
ALIKE = ["k", "value", "K", "r#type", "value_1", "value1", "n_0", "k_", "type_", "__a", "_a", "n0"]
# Names that mean something in GLSL and nothing in Rust. Only the names matter in this struct.
WORDS = """sample buffer shared uniform varying flat attribute coherent volatile restrict readonly writeonly layout centroid smooth
noperspective patch subroutine in_ out inout float int void bool_ true_ false_ invariant precise discard return_ mat2 vec4 ivec3 uvec2 bvec2
dmat3 uint double sampler2D image2D atomic_uint lowp mediump highp precision switch case default common partition active filter resource
input_ output_ texture main gl_Position normal color position length radians mix step fract mod_ abs_ min clamp This self_ union auto
dyn_ raw asm class template_ namespace using goto short long half fixed unsigned hvec2 sizeof cast external interface static_ const_""".split()
def names(types):
    if len(types) == len(WORDS): return WORDS
    pool = NAMES if len(set(types)) == len(types) else ALIKE
    return [pool[i] if i < len(pool) else f"f{i}" for i in range(len(types))]
def ty(i, k=0):
    return (f"F<{i}>", f"T{i}", f"crate::F<{i}>", f"p{i}::Same", f"m::G<{{ {i} }}>", f"(F<{i}>)", f"m::T{i}", f"<F<{i}> as m::Id>::It", f"self::p{i}::Same")[(i + k) % 9]
# What else can stand before a field.
BEFORE = ["pub ", "", "/// Documented.\n    pub ", "pub(crate) ", "#[allow(dead_code)] pub ", "#[doc(hidden)] ", "pub(self) ", "#[cfg(all())] pub ", "/** One\n    two. */ #[deny(unused_must_use)] "]
def repeated(n): return [0, 0] if n == 2 else [(0, 1, 0, 2, 1, 1, 3, 0, 2, 4, 4, 3)[i % 12] for i in range(n)]

def shapes(n):
    out = {f"S{k}": list(range(k)) for k in list(range(n + 1)) + ([33] if 20 <= n < 33 else [])}
    for k in (2, 3, 4, 5, 6, 8, 12, 16):
        if k <= n: out[f"R{k}"] = repeated(k)
    # Struct names of other forms.
    for k, s in enumerate(("lower", "UPPER_CASE", "_Lead", "Trailing_", "Two__Under", "A1b2C3", "Type", "vec4_", "ALongNameOfAStructThatSaysEverythingThereIsToSayAboutWhatItContains")):
        out[s] = list(range(1 + k % 3))
    out["Words"] = [0] * len(WORDS)
    return out

def struct(s, types, derives="AsStd140, AsStd430, GlslStruct"):
    fs = ",\n    ".join(f"{BEFORE[(k + len(types)) % len(BEFORE)]}{a}: {ty(i, k)}" for k, (a, i) in enumerate(zip(names(types), types)))
    return f"\n/// A definition.\n#[derive({derives})]\n#[allow(dead_code)]\npub struct {s} {{\n    {fs}{',' if len(types) % 2 else ''}\n}}\n"

def fields(types): return [a.replace("r#", "") for a in names(types)]

def opaque(n):
    out = HEAD + OPAQUE + aliases(range(max(i for t in shapes(n).values() for i in t) + 1))
    for s, types in shapes(n).items():
        out += struct(s, types)
        for l in (140, 430):
            out += f'''pub type root_out{l}_{s} = <{s} as AsStd{l}>::Output;
pub const ROOT_ALIGN{l}_{s}: usize = <<{s} as AsStd{l}>::Output as Std{l}>::ALIGNMENT;
pub fn root_size{l}_{s}() -> usize {{ <{s} as AsStd{l}>::std{l}_size_static() }}
pub fn root_enc{l}_{s}(x: &{s}) -> <{s} as AsStd{l}>::Output {{ x.as_std{l}() }}
pub fn root_view{l}_{s}(x: &<{s} as AsStd{l}>::Output) -> &[u8] {{ x.as_bytes() }}
pub fn root_tview{l}_{s}(x: &<{s} as AsStd{l}>::Output) -> &[u8] {{ Std{l}::as_bytes(x) }}
pub fn root_dec{l}_{s}(x: <{s} as AsStd{l}>::Output) -> {s} {{ <{s} as AsStd{l}>::from_std{l}(x) }}
'''
        out += f'''pub const ROOT_NAME_{s}: &str = <{s} as Glsl>::NAME;
pub const ROOT_FIELDS_{s}: &[GlslField] = <{s} as GlslStruct>::FIELDS;
pub fn root_glsl_{s}() -> String {{ <{s} as GlslStruct>::glsl_definition() }}
'''
    return out

def concrete(s, types, l, rows, spec_off, spec_size, spec_align):
    """A program that compares one definition, with the given numbers per field type, with the rules.
    rows: {type index: (A, S, R, RS, RR)}."""
    ids = sorted(set(types))
    out = HEAD + "\n/// A field type with given sizes and alignments; it holds a number from which its encoding is made.\n"
    out += "pub trait Store { type T: Copy; }\npub struct Sel<const I: usize>;\npub struct F<const I: usize>(pub u8, pub Option<u8>);\n"
    # The Rust size matters only to code that uses it by mistake.
    out = HEAD + "\n/// Selects the Rust size of a field type.\npub trait Store { type T: Copy; fn put(n: u8) -> Self::T; fn get(t: &Self::T) -> u8; }\npub struct Sel<const I: usize>;\n"
    out += "pub struct F<const I: usize>(pub <Sel<I> as Store>::T) where Sel<I>: Store;\n"
    for i in ids:
        a, sz, r, rs, rr = rows[i]
        el = {1: "u8", 2: "u16", 4: "u32", 8: "u64"}
        n = rs // rr
        out += f'''
impl Store for Sel<{i}> {{
    type T = [{el[rr]}; {n}];
    fn put(n: u8) -> Self::T {{ [n as {el[rr]}; {n}] }}
    fn get(t: &Self::T) -> u8 {{ t.get(0).copied().unwrap_or(0) as u8 }}
}}
#[derive(Debug, Clone, Copy)]
#[repr(C)]
pub struct O{i}([{el[r]}; {sz // r}]);
unsafe impl crevice::internal::bytemuck::Zeroable for O{i} {{}}
unsafe impl crevice::internal::bytemuck::Pod for O{i} {{}}
unsafe impl Std{l} for O{i} {{ const ALIGNMENT: usize = {a}; }}
impl AsStd{l} for F<{i}> {{
    type Output = O{i};
    fn as_std{l}(&self) -> O{i} {{
        let b: Vec<u8> = pattern(<Sel<{i}> as Store>::get(&self.0), {sz});
        let mut o: O{i} = crevice::internal::bytemuck::Zeroable::zeroed();
        crevice::internal::bytemuck::bytes_of_mut(&mut o).copy_from_slice(&b);
        o
    }}
    fn from_std{l}(val: O{i}) -> Self {{
        let b = crevice::internal::bytemuck::bytes_of(&val);
        F(<Sel<{i}> as Store>::put(if b.is_empty() {{ 0 }} else {{ b[0] - 1 }}))
    }}
}}
unsafe impl Glsl for F<{i}> {{ const NAME: &'static str = "T{i}"; }}
'''
    out += '''
fn pattern(n: u8, len: usize) -> Vec<u8> { (0..len).map(|k| 1 + ((n as usize + 7 * k) % 250) as u8).collect() }
'''
    out += aliases(ids)
    out += struct(s, types, f"AsStd{l}")
    fs = names(types)
    init = ", ".join(f"{a}: F(<Sel<{i}> as Store>::put({k + 1}))" for k, (a, i) in enumerate(zip(fs, types)))
    out += f'''
fn main() {{
    let value = {s} {{ {init} }};
    let mut want = vec![0u8; {spec_size}];
    let mut garbage = vec![0xAAu8; {spec_size}];
'''
    for k, i in enumerate(types):
        o, sz = spec_off[k], rows[i][1]
        if sz and rows[i][3] == 0: continue
        out += f"    for v in [&mut want, &mut garbage] {{ v[{o}..{o + sz}].copy_from_slice(&pattern({k + 1}, {sz})); }} // {fs[k]} at {o}\n"
    out += f'''    type Out = <{s} as AsStd{l}>::Output;
    let mut bad = Vec::new();
    let mut say = |ok: bool, group: &str, text: String| if !ok {{ bad.push(format!("{{group}}: {{text}}")) }};
    let out = value.as_std{l}();
    let got = out.as_bytes().to_vec();
    say(std::mem::size_of::<Out>() == {spec_size}, "layout", format!("size {{}} instead of {spec_size}", std::mem::size_of::<Out>()));
    say(<{s} as AsStd{l}>::std{l}_size_static() == got.len(), "size", format!("static size {{}} of {{}} bytes", <{s} as AsStd{l}>::std{l}_size_static(), got.len()));
    say(<Out as Std{l}>::ALIGNMENT == {spec_align}, "layout", format!("alignment {{}} instead of {spec_align}", <Out as Std{l}>::ALIGNMENT));
    say(Std{l}::as_bytes(&out) == &got[..], "enc", format!("Std{l}::as_bytes is {{:?}}, as_bytes is {{:?}}", Std{l}::as_bytes(&out), got));
    say(std::mem::size_of::<Out>() == got.len(), "size", format!("byte view of {{}} bytes for {{}}", got.len(), std::mem::size_of::<Out>()));
    say(got == want, "enc", format!("bytes {{:?}} instead of {{:?}}", got, want));
    if got.len() == want.len() && std::mem::size_of::<Out>() == {spec_size} {{
        let back = <{s} as AsStd{l}>::from_std{l}(out);
        say(back.as_std{l}().as_bytes() == &want[..], "dec", format!("decoded and encoded again {{:?}} instead of {{:?}}", back.as_std{l}().as_bytes(), want));
        let mut raw: Out = crevice::internal::bytemuck::Zeroable::zeroed();
        crevice::internal::bytemuck::bytes_of_mut(&mut raw).copy_from_slice(&garbage);
        let again = <{s} as AsStd{l}>::from_std{l}(raw).as_std{l}();
        say(again.as_bytes() == &want[..], "decenc", format!("arbitrary bytes decoded and encoded again {{:?}} instead of {{:?}}", again.as_bytes(), want));
    }}
    for b in &bad {{ println!("BAD {{b}}"); }}
    println!("DONE {{}}", bad.len());
}}
'''
    return out


PLAIN = ["f32", "f64", "i32", "u32", "S1", "S3"]

def plain(n, derives):
    """The same definitions with built-in types and derived structs as field types."""
    out = "#![allow(dead_code, warnings)]\nuse crevice::{glsl::GlslStruct, std140::AsStd140, std430::AsStd430};\n"
    for s, types in shapes(n).items():
        k = 4 if s in ("S0", "S1", "S2", "S3") else len(PLAIN)
        fs = ", ".join(f"{a}: {PLAIN[i % k]}" for a, i in zip(names(types), types))
        out += f"#[derive({derives})]\npub struct {s} {{ {fs} }}\n"
    return out + "fn main() {\n    println!(\"DONE\");\n}\n"
