//! What each Rust value should look like in GLSL memory, component by component.

use crate::nd;
use crate::spec::{Kind, Layout, Spec};

/// A value with a known GLSL meaning.
pub trait Model: Sized {
    /// An arbitrary value: every bit of every component is symbolic.
    fn nd() -> Self;
    fn size(l: Layout) -> usize;
    fn align(l: Layout) -> usize;
    /// Byte `k` of the value in GLSL memory (`k < size`); 0 for padding.
    fn byte(&self, l: Layout, k: usize) -> u8;
    /// Bit-for-bit equality of all components.
    fn same(&self, other: &Self) -> bool;
    /// Byte `k` expected after decoding the bytes `raw[base..]` and encoding again.
    fn renorm(l: Layout, raw: &[u8], base: usize, k: usize) -> u8;
}

/// A scalar, vector or matrix.
pub trait Leaf: Sized {
    const SPEC: Spec;
    fn build(c: &[u64; 16]) -> Self;
    fn comps(&self) -> [u64; 16];
}

pub trait Comp: Copy {
    const KIND: Kind;
    fn of(c: u64) -> Self;
    fn bits(self) -> u64;
}
impl Comp for f32 {
    const KIND: Kind = Kind::Float;
    fn of(c: u64) -> Self {
        f32::from_bits(c as u32)
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
}
impl Comp for f64 {
    const KIND: Kind = Kind::Double;
    fn of(c: u64) -> Self {
        f64::from_bits(c)
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
}
impl Comp for i32 {
    const KIND: Kind = Kind::Int;
    fn of(c: u64) -> Self {
        c as u32 as i32
    }
    fn bits(self) -> u64 {
        self as u32 as u64
    }
}
impl Comp for u32 {
    const KIND: Kind = Kind::Uint;
    fn of(c: u64) -> Self {
        c as u32
    }
    fn bits(self) -> u64 {
        self as u64
    }
}
impl Comp for bool {
    const KIND: Kind = Kind::Bool;
    fn of(c: u64) -> Self {
        c != 0
    }
    fn bits(self) -> u64 {
        self as u64
    }
}

pub fn nd_comps(s: Spec) -> [u64; 16] {
    let mut c = [0u64; 16];
    let mut i = 0;
    while i < s.comps() {
        c[i] = match s.kind {
            Kind::Double => nd::u64(),
            Kind::Bool => (nd::u8() & 1) as u64,
            _ => nd::u32() as u64,
        };
        i += 1;
    }
    c
}

pub fn leaf_byte(s: Spec, c: &[u64; 16], l: Layout, k: usize) -> u8 {
    match s.at(l, k) {
        Some((i, b)) => (c[i] >> (8 * b)) as u8,
        None => 0,
    }
}

pub fn leaf_renorm(s: Spec, l: Layout, raw: &[u8], base: usize, k: usize) -> u8 {
    match s.at(l, k) {
        Some((_, b)) => {
            if s.kind == Kind::Bool {
                let at = base + k - b;
                let word = raw[at] | raw[at + 1] | raw[at + 2] | raw[at + 3];
                (b == 0 && word != 0) as u8
            } else {
                raw[base + k]
            }
        }
        None => 0,
    }
}

#[macro_export]
macro_rules! leaf_model {
    ($($t:ty),+ $(,)?) => {$(
        impl $crate::model::Model for $t {
            fn nd() -> Self {
                <$t as $crate::model::Leaf>::build(&$crate::model::nd_comps(<$t as $crate::model::Leaf>::SPEC))
            }
            fn size(l: $crate::spec::Layout) -> usize {
                <$t as $crate::model::Leaf>::SPEC.size(l)
            }
            fn align(l: $crate::spec::Layout) -> usize {
                <$t as $crate::model::Leaf>::SPEC.align(l)
            }
            fn byte(&self, l: $crate::spec::Layout, k: usize) -> u8 {
                $crate::model::leaf_byte(<$t as $crate::model::Leaf>::SPEC, &$crate::model::Leaf::comps(self), l, k)
            }
            fn same(&self, other: &Self) -> bool {
                let (a, b) = ($crate::model::Leaf::comps(self), $crate::model::Leaf::comps(other));
                let mut eq = true;
                let mut i = 0;
                while i < <$t as $crate::model::Leaf>::SPEC.comps() {
                    eq &= a[i] == b[i];
                    i += 1;
                }
                eq
            }
            fn renorm(l: $crate::spec::Layout, raw: &[u8], base: usize, k: usize) -> u8 {
                $crate::model::leaf_renorm(<$t as $crate::model::Leaf>::SPEC, l, raw, base, k)
            }
        }
    )+};
}

macro_rules! scalars {
    ($($t:ty),+) => {$(
        impl Leaf for $t {
            const SPEC: Spec = Spec::new(<$t as Comp>::KIND, 1, 1);
            fn build(c: &[u64; 16]) -> Self { <$t as Comp>::of(c[0]) }
            fn comps(&self) -> [u64; 16] {
                let mut o = [0; 16];
                o[0] = self.bits();
                o
            }
        }
        leaf_model!($t);
    )+};
}
scalars!(f32, f64, i32, u32, bool);

/// Vector-like types with named fields.
#[macro_export]
macro_rules! vec_leaf {
    ($($t:ty = $e:ty, $n:literal { $($f:ident . $i:literal),+ });+ $(;)?) => {$(
        impl $crate::model::Leaf for $t {
            const SPEC: $crate::spec::Spec = $crate::spec::Spec::new(<$e as $crate::model::Comp>::KIND, 1, $n);
            fn build(c: &[u64; 16]) -> Self {
                Self { $($f: <$e as $crate::model::Comp>::of(c[$i])),+ }
            }
            fn comps(&self) -> [u64; 16] {
                let mut o = [0; 16];
                $(o[$i] = $crate::model::Comp::bits(self.$f);)+
                o
            }
        }
        $crate::leaf_model!($t);
    )+};
}
/// Square column-major matrices whose columns are named fields of a vector type.
#[macro_export]
macro_rules! mat_leaf {
    ($($t:ty = $e:ty, $v:ty, $n:literal { $($f:ident . $i:literal),+ });+ $(;)?) => {$(
        impl $crate::model::Leaf for $t {
            const SPEC: $crate::spec::Spec = $crate::spec::Spec::new(<$e as $crate::model::Comp>::KIND, $n, $n);
            fn build(c: &[u64; 16]) -> Self {
                Self { $($f: {
                    let mut col = [0u64; 16];
                    let mut r = 0;
                    while r < $n { col[r] = c[$i * $n + r]; r += 1; }
                    <$v as $crate::model::Leaf>::build(&col)
                }),+ }
            }
            fn comps(&self) -> [u64; 16] {
                let mut o = [0; 16];
                $({
                    let col = <$v as $crate::model::Leaf>::comps(&self.$f);
                    let mut r = 0;
                    while r < $n { o[$i * $n + r] = col[r]; r += 1; }
                })+
                o
            }
        }
        $crate::leaf_model!($t);
    )+};
}

macro_rules! mint_vecs {
    ($($e:ty),+) => {$(
        vec_leaf! {
            mint::Vector2<$e> = $e, 2 { x.0, y.1 };
            mint::Vector3<$e> = $e, 3 { x.0, y.1, z.2 };
            mint::Vector4<$e> = $e, 4 { x.0, y.1, z.2, w.3 };
            mint::Point2<$e> = $e, 2 { x.0, y.1 };
            mint::Point3<$e> = $e, 3 { x.0, y.1, z.2 };
        }
    )+};
}
mint_vecs!(f32, f64, i32, u32, bool);
mat_leaf! {
    mint::ColumnMatrix2<f32> = f32, mint::Vector2<f32>, 2 { x.0, y.1 };
    mint::ColumnMatrix3<f32> = f32, mint::Vector3<f32>, 3 { x.0, y.1, z.2 };
    mint::ColumnMatrix4<f32> = f32, mint::Vector4<f32>, 4 { x.0, y.1, z.2, w.3 };
    mint::ColumnMatrix2<f64> = f64, mint::Vector2<f64>, 2 { x.0, y.1 };
    mint::ColumnMatrix3<f64> = f64, mint::Vector3<f64>, 3 { x.0, y.1, z.2 };
    mint::ColumnMatrix4<f64> = f64, mint::Vector4<f64>, 4 { x.0, y.1, z.2, w.3 };
}

/// Declares structs that derive both layouts, together with their GLSL meaning (rule 9: members in
/// order at multiples of their alignment; the struct's alignment is its largest member's, rounded up
/// to 16 in std140; its size is padded to its alignment).
#[macro_export]
macro_rules! family {
    ($($(#[$m:meta])* struct $name:ident { $($f:ident : $t:ty),+ $(,)? })+) => {$(
        #[derive(crevice::std140::AsStd140, crevice::std430::AsStd430)]
        $(#[$m])*
        pub struct $name { $(pub $f: $t),+ }
        impl $crate::model::Fields for $name {
            fn own_140(&self, k: usize) -> u8 {
                type Out = <$name as crevice::std140::AsStd140>::Output;
                $({
                    let own = crevice::std140::AsStd140::as_std140(&self.$f);
                    let bytes = crevice::std140::Std140::as_bytes(&own);
                    let at = ::core::mem::offset_of!(Out, $f);
                    if k >= at && k - at < bytes.len() { return bytes[k - at]; }
                })+
                0
            }
            fn own_430(&self, k: usize) -> u8 {
                type Out = <$name as crevice::std430::AsStd430>::Output;
                $({
                    let own = crevice::std430::AsStd430::as_std430(&self.$f);
                    let bytes = crevice::std430::Std430::as_bytes(&own);
                    let at = ::core::mem::offset_of!(Out, $f);
                    if k >= at && k - at < bytes.len() { return bytes[k - at]; }
                })+
                0
            }
        }
        impl $crate::model::Model for $name {
            fn nd() -> Self {
                $(let $f = <$t as $crate::model::Model>::nd();)+
                $name { $($f),+ }
            }
            fn size(l: $crate::spec::Layout) -> usize {
                let mut off = 0;
                $(off = $crate::spec::up(off, <$t as $crate::model::Model>::align(l)) + <$t as $crate::model::Model>::size(l);)+
                $crate::spec::up(off, Self::align(l))
            }
            fn align(l: $crate::spec::Layout) -> usize {
                let mut a = match l { $crate::spec::Layout::Std140 => 16, $crate::spec::Layout::Std430 => 1 };
                $(if <$t as $crate::model::Model>::align(l) > a { a = <$t as $crate::model::Model>::align(l); })+
                a
            }
            #[allow(unused_assignments)]
            fn byte(&self, l: $crate::spec::Layout, k: usize) -> u8 {
                let mut off = 0;
                $(
                    off = $crate::spec::up(off, <$t as $crate::model::Model>::align(l));
                    if k >= off && k < off + <$t as $crate::model::Model>::size(l) {
                        return $crate::model::Model::byte(&self.$f, l, k - off);
                    }
                    off += <$t as $crate::model::Model>::size(l);
                )+
                0
            }
            fn same(&self, other: &Self) -> bool {
                true $(& $crate::model::Model::same(&self.$f, &other.$f))+
            }
            #[allow(unused_assignments)]
            fn renorm(l: $crate::spec::Layout, raw: &[u8], base: usize, k: usize) -> u8 {
                let mut off = 0;
                $(
                    off = $crate::spec::up(off, <$t as $crate::model::Model>::align(l));
                    if k >= off && k < off + <$t as $crate::model::Model>::size(l) {
                        return <$t as $crate::model::Model>::renorm(l, raw, base + off, k - off);
                    }
                    off += <$t as $crate::model::Model>::size(l);
                )+
                0
            }
        }
    )+};
}

use crevice::std140::DynamicUniform;
/// std140 only: same bytes as the inner value, alignment at least 256.
impl<T: Model> Model for DynamicUniform<T> {
    fn nd() -> Self {
        DynamicUniform(T::nd())
    }
    fn size(l: Layout) -> usize {
        T::size(l)
    }
    fn align(l: Layout) -> usize {
        if T::align(l) > 256 { T::align(l) } else { 256 }
    }
    fn byte(&self, l: Layout, k: usize) -> u8 {
        self.0.byte(l, k)
    }
    fn same(&self, other: &Self) -> bool {
        self.0.same(&other.0)
    }
    fn renorm(l: Layout, raw: &[u8], base: usize, k: usize) -> u8 {
        T::renorm(l, raw, base, k)
    }
}

/// How the fields of a derived struct are encoded on their own.
pub trait Fields {
    /// Byte `k` according to the offsets the generated struct has, whatever they are: the byte of the
    /// field's own encoding there, or 0 between fields.
    fn own_140(&self, k: usize) -> u8;
    fn own_430(&self, k: usize) -> u8;
}

/// A struct whose fields are all built-in GLSL types.
pub trait Declared {
    const COUNT: usize;
    fn field(&self, i: usize) -> [u64; 16];
}
#[macro_export]
macro_rules! declared {
    ($($name:ident { $($f:ident),+ })+) => {$(
        impl $crate::model::Declared for $name {
            const COUNT: usize = [$(stringify!($f)),+].len();
            #[allow(unused_assignments)]
            fn field(&self, i: usize) -> [u64; 16] {
                let mut n = 0;
                $(
                    if i == n { return $crate::model::Leaf::comps(&self.$f); }
                    n += 1;
                )+
                unreachable!()
            }
        }
    )+};
}

// ---- crevice's own layout types, used directly ------------------------------------------------------

macro_rules! own_vec {
    ($m:ident, $As:ident, $as_:ident, $from_:ident; $($v:ident $e:ty, $n:literal { $($f:ident . $i:literal),+ });+ $(;)?) => {$(
        impl Leaf for crevice::$m::$v {
            const SPEC: Spec = Spec::new(<$e as Comp>::KIND, 1, $n);
            fn build(c: &[u64; 16]) -> Self {
                crevice::$m::$v { $($f: crevice::$m::$As::$as_(&<$e as Comp>::of(c[$i]))),+ }
            }
            fn comps(&self) -> [u64; 16] {
                let mut o = [0; 16];
                $(o[$i] = Comp::bits(<$e as crevice::$m::$As>::$from_(self.$f));)+
                o
            }
        }
        leaf_model!(crevice::$m::$v);
    )+};
}
macro_rules! own_mat {
    ($m:ident; $($v:ident $e:ty, $col:ident, $n:literal { $($f:ident . $i:literal),+ });+ $(;)?) => {$(
        impl Leaf for crevice::$m::$v {
            const SPEC: Spec = Spec::new(<$e as Comp>::KIND, $n, $n);
            #[allow(clippy::needless_update)]
            fn build(c: &[u64; 16]) -> Self {
                crevice::$m::$v { $($f: {
                    let mut col = [0u64; 16];
                    let mut r = 0;
                    while r < $n { col[r] = c[$i * $n + r]; r += 1; }
                    <crevice::$m::$col as Leaf>::build(&col)
                },)+ ..bytemuck::Zeroable::zeroed() }
            }
            fn comps(&self) -> [u64; 16] {
                let mut o = [0; 16];
                $({
                    let col = <crevice::$m::$col as Leaf>::comps(&self.$f);
                    let mut r = 0;
                    while r < $n { o[$i * $n + r] = col[r]; r += 1; }
                })+
                o
            }
        }
        leaf_model!(crevice::$m::$v);
    )+};
}
macro_rules! own {
    ($($m:ident $As:ident $as_:ident $from_:ident),+) => {$(
        own_vec! { $m, $As, $as_, $from_;
            Vec2 f32, 2 { x.0, y.1 }; Vec3 f32, 3 { x.0, y.1, z.2 }; Vec4 f32, 4 { x.0, y.1, z.2, w.3 };
            DVec2 f64, 2 { x.0, y.1 }; DVec3 f64, 3 { x.0, y.1, z.2 }; DVec4 f64, 4 { x.0, y.1, z.2, w.3 };
            IVec2 i32, 2 { x.0, y.1 }; IVec3 i32, 3 { x.0, y.1, z.2 }; IVec4 i32, 4 { x.0, y.1, z.2, w.3 };
            UVec2 u32, 2 { x.0, y.1 }; UVec3 u32, 3 { x.0, y.1, z.2 }; UVec4 u32, 4 { x.0, y.1, z.2, w.3 };
            BVec2 bool, 2 { x.0, y.1 }; BVec3 bool, 3 { x.0, y.1, z.2 }; BVec4 bool, 4 { x.0, y.1, z.2, w.3 };
        }
        own_mat! { $m;
            Mat2 f32, Vec2, 2 { x.0, y.1 }; Mat3 f32, Vec3, 3 { x.0, y.1, z.2 }; Mat4 f32, Vec4, 4 { x.0, y.1, z.2, w.3 };
            DMat2 f64, DVec2, 2 { x.0, y.1 }; DMat3 f64, DVec3, 3 { x.0, y.1, z.2 }; DMat4 f64, DVec4, 4 { x.0, y.1, z.2, w.3 };
        }
    )+};
}
own!(std140 AsStd140 as_std140 from_std140, std430 AsStd430 as_std430 from_std430);
