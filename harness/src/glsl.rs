//! GLSL text with arbitrary names. The bytes of a name live in a mutable static that constants point to,
//! so that one symbolic run covers every content of a name of the given length.

use crate::nd;
use crevice::glsl::{Glsl, GlslField, GlslStruct};

pub const SLOTS: usize = 12;
pub const LEN: usize = 8;

// Unique initial bytes, see spy.rs.
macro_rules! slots {
    ($($s:ident $i:literal),+) => {
        $(static mut $s: [u8; LEN] = [b'n', b'A', b'q', b'Z', b'0' + $i, b'x', b'K', b'_'];)+
        /// The first `L` bytes of slot `I`.
        pub const fn slot<const I: usize, const L: usize>() -> &'static str {
            let p = match I {
                $($i => &raw const $s as *const u8,)+
                _ => panic!(),
            };
            unsafe { &*(core::ptr::slice_from_raw_parts(p, L) as *const str) }
        }
        /// Gives every slot an arbitrary identifier.
        fn any_names() {
            unsafe { $(
                let mut j = 0;
                while j < LEN {
                    let b = nd::u8();
                    nd::assume(b == b'_' || (b >= b'0' && b <= b'9') || (b >= b'A' && b <= b'Z') || (b >= b'a' && b <= b'z'));
                    $s[j] = b;
                    j += 1;
                }
            )+ }
        }
        /// The bytes of slot `i` now. (Copies of them in a local array of arrays are misread by CBMC 6.11.)
        fn now(i: usize, len: usize) -> &'static [u8] {
            let p = match i {
                $($i => &raw const $s as *const u8,)+
                _ => panic!(),
            };
            unsafe { core::slice::from_raw_parts(p, len) }
        }
    };
}
slots!(S0 0, S1 1, S2 2, S3 3, S4 4, S5 5, S6 6, S7 7, S8 8, S9 9, S10 10, S11 11);

/// A type whose GLSL name is the first `L` bytes of slot `I`.
#[derive(Clone, Copy)]
pub struct Ty<const I: usize, const L: usize>;
unsafe impl<const I: usize, const L: usize> Glsl for Ty<I, L> {
    const NAME: &'static str = slot::<I, L>();
}

/// A hand-written list of `N` (at most 6) fields: types from the slots `0..N`, names from `6..6 + N`.
pub struct Hand<const N: usize, const TY: usize, const NAME: usize>;
unsafe impl<const N: usize, const TY: usize, const NAME: usize> Glsl for Hand<N, TY, NAME> {
    const NAME: &'static str = "H0b_";
}
macro_rules! hand {
    ($($n:literal { $($t:literal $f:literal),* })+) => {$(
        unsafe impl<const TY: usize, const NAME: usize> GlslStruct for Hand<$n, TY, NAME> {
            const FIELDS: &'static [GlslField] = &[
                $(GlslField { ty: slot::<$t, TY>(), name: slot::<$f, NAME>() }),*
            ];
        }
    )+};
}
hand! {
    0 { }
    1 { 0 6 }
    2 { 0 6, 1 7 }
    3 { 0 6, 1 7, 2 8 }
    4 { 0 6, 1 7, 2 8, 3 9 }
    6 { 0 6, 1 7, 2 8, 3 9, 4 10, 5 11 }
}

/// Reads GLSL tokens; whitespace between them is free.
struct Reader<'a> {
    text: &'a [u8],
    at: usize,
}
fn blank(b: u8) -> bool {
    b == b' ' || b == b'\t' || b == b'\n' || b == b'\r'
}
impl Reader<'_> {
    fn gap(&mut self) -> usize {
        let from = self.at;
        while self.at < self.text.len() && blank(self.text[self.at]) {
            self.at += 1;
        }
        self.at - from
    }
    /// The next bytes are exactly `t`, which holds no whitespace.
    fn token(&mut self, t: &[u8]) {
        assert!(t.len() <= self.text.len() - self.at, "the text goes on");
        let mut i = 0;
        while i < t.len() {
            assert!(self.text[self.at + i] == t[i], "the text is the declaration of the struct");
            i += 1;
        }
        self.at += t.len();
    }
    /// `struct name {`
    fn open(&mut self, name: &[u8]) {
        self.gap();
        self.token(b"struct");
        assert!(self.gap() > 0, "the name is a word of its own");
        self.token(name);
        self.gap();
        self.token(b"{");
        self.gap();
    }
    /// `type name;`
    fn member(&mut self, ty: &[u8], name: &[u8]) {
        self.token(ty);
        assert!(self.gap() > 0, "type and name are words of their own");
        self.token(name);
        self.gap();
        self.token(b";");
        self.gap();
    }
    /// `};` and nothing else.
    fn close(&mut self) {
        self.token(b"}");
        self.gap();
        self.token(b";");
        self.gap();
        assert!(self.at == self.text.len(), "nothing follows the declaration");
    }
}

/// The text of a hand-written field list with arbitrary names.
pub fn hand<const N: usize, const TY: usize, const NAME: usize>()
where
    Hand<N, TY, NAME>: GlslStruct,
{
    any_names();
    let text = Hand::<N, TY, NAME>::glsl_definition();
    let mut r = Reader { text: text.as_bytes(), at: 0 };
    r.open(b"H0b_");
    let mut i = 0;
    while i < N {
        r.member(now(i, TY), now(6 + i, NAME));
        i += 1;
    }
    r.close();
    reached!();
}

/// What a derived struct is declared as.
pub trait Shape: GlslStruct {
    const IDENT: &'static str;
    /// Slot and length of each field's type name (or the name itself), and the field's name.
    const MEMBERS: &'static [(usize, usize, &'static str, &'static str)];
}

fn check<T: Shape>(text: &[u8]) {
    let mut r = Reader { text, at: 0 };
    r.open(T::IDENT.as_bytes());
    let mut i = 0;
    while i < T::MEMBERS.len() {
        let (slot, len, ty, name) = T::MEMBERS[i];
        if slot < SLOTS {
            r.member(now(slot, len), name.as_bytes());
        } else {
            r.member(ty.as_bytes(), name.as_bytes());
        }
        i += 1;
    }
    r.close();
}

/// The text of a derived struct whose field types have arbitrary names.
pub fn text<T: Shape>() {
    any_names();
    let text = T::glsl_definition();
    check::<T>(text.as_bytes());
    reached!();
}

fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}

/// The field list of a derived struct whose field types have arbitrary names.
pub fn list<T: Shape>() {
    any_names();
    assert!(same(T::NAME.as_bytes(), T::IDENT.as_bytes()), "the struct's own name");
    assert!(T::FIELDS.len() == T::MEMBERS.len(), "one member per field");
    let mut i = 0;
    while i < T::MEMBERS.len() {
        let (slot, len, ty, name) = T::MEMBERS[i];
        let f = &T::FIELDS[i];
        assert!(same(f.name.as_bytes(), name.as_bytes()), "the field's own name, in order");
        if slot < SLOTS {
            assert!(same(f.ty.as_bytes(), now(slot, len)), "the name of the field's type");
        } else {
            assert!(same(f.ty.as_bytes(), ty.as_bytes()), "the name of the field's type");
        }
        i += 1;
    }
    reached!();
}

/// `struct Ident = "Ident" { field "field": Ty<slot, len>, ... }`
macro_rules! shapes {
    ($($v:vis struct $s:ident $n:literal { $($f:ident $fname:literal : $t:ty = ($slot:expr, $len:literal, $tn:literal)),* $(,)? })+) => {$(
        #[derive(crevice::glsl::GlslStruct)]
        #[allow(dead_code, non_camel_case_types, non_snake_case)]
        $v struct $s { $($f: $t),* }
        impl Shape for $s {
            const IDENT: &'static str = $n;
            const MEMBERS: &'static [(usize, usize, &'static str, &'static str)] = &[$(($slot, $len, $tn, $fname)),*];
        }
    )+};
}
const NONE: usize = SLOTS;
shapes! {
    pub struct G0 "G0" { }
    pub struct G1 "G1" { a "a": Ty<0, 1> = (0, 1, "") }
    pub struct Gl_3x_ "Gl_3x_" {
        _x "_x": Ty<0, 3> = (0, 3, ""),
        x_ "x_": Ty<1, 1> = (1, 1, ""),
        __ "__": Ty<2, 8> = (2, 8, ""),
    }
    pub struct r#type "type" {
        r#in "in": Ty<0, 2> = (0, 2, ""),
        r#struct "struct": Ty<1, 2> = (1, 2, ""),
        r#fn "fn": Ty<0, 2> = (0, 2, ""),
        r#r "r": Ty<2, 1> = (2, 1, ""),
    }
    pub struct snake "snake" {
        name "name": Ty<0, 4> = (0, 4, ""),
        ty "ty": Ty<0, 4> = (0, 4, ""),
        output "output": Ty<1, 5> = (1, 5, ""),
        field "field": Ty<2, 6> = (2, 6, ""),
        camelCase "camelCase": Ty<3, 7> = (3, 7, ""),
        UPPER_9 "UPPER_9": Ty<3, 7> = (3, 7, ""),
    }
    pub struct G9 "G9" {
        i "i": Ty<8, 2> = (8, 2, ""), h "h": Ty<7, 3> = (7, 3, ""), g "g": Ty<6, 1> = (6, 1, ""),
        f "f": Ty<5, 4> = (5, 4, ""), e "e": Ty<4, 1> = (4, 1, ""), d "d": Ty<3, 2> = (3, 2, ""),
        c "c": Ty<2, 1> = (2, 1, ""), b "b": Ty<1, 1> = (1, 1, ""), a "a": Ty<0, 5> = (0, 5, ""),
    }
    pub struct Real "Real" {
        position "position": mint::Vector3<f32> = (NONE, 0, "vec3"),
        a_very_long_field_name_with_0123456789_digits "a_very_long_field_name_with_0123456789_digits": Ty<4, 8> = (4, 8, ""),
        nested "nested": Gl_3x_ = (NONE, 0, "Gl_3x_"),
        deep "deep": r#type = (NONE, 0, "type"),
        m "m": mint::ColumnMatrix4<f64> = (NONE, 0, "dmat4"),
        n "n": i32 = (NONE, 0, "int"),
    }
}
