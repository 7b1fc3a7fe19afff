//! The generic checks, once per layout. Every function is one bounded symbolic run of the real code.

use crate::model::{self, Declared, Fields, Leaf, Model};
use crate::nd;
use crate::spec::{self, up, Kind, Layout};
use crate::spy::{self, FaultSpy, QuirkySpy, Spy};
use std::mem::{size_of, transmute_copy};

/// Positions a writer or sizer can start from. Everything below 2^62 keeps the arithmetic of the
/// code and of the oracle free of overflow.
pub const MAX_POS: usize = 1 << 62;

/// Distance from `o` to the next multiple of `a` (a power of two).
pub fn gap(o: usize, a: usize) -> usize {
    ((o as u16).wrapping_neg() & (a as u16 - 1)) as usize
}

/// Runs `f` on one arbitrary length `n <= max <= 6`. Every length is its own path, so that loops over a
/// slice of that length end exactly where they should.
pub fn by_len(max: usize, f: impl Fn(usize)) {
    let n = nd::below(max + 1);
    if n == 0 {
        f(0)
    } else if n == 1 && 1 <= max {
        f(1)
    } else if n == 2 && 2 <= max {
        f(2)
    } else if n == 3 && 3 <= max {
        f(3)
    } else if n == 4 && 4 <= max {
        f(4)
    } else if n == 5 && 5 <= max {
        f(5)
    } else if n == 6 && 6 <= max {
        f(6)
    } else {
        unreachable!()
    }
}

/// Opaque `N` bytes with alignment 1, to move a writer or sizer to any position through its API.
#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct Blob<const N: usize>(pub [u8; N]);
unsafe impl<const N: usize> bytemuck::Zeroable for Blob<N> {}
unsafe impl<const N: usize> bytemuck::Pod for Blob<N> {}
unsafe impl<const N: usize> crevice::std140::Std140 for Blob<N> {
    const ALIGNMENT: usize = 1;
}
unsafe impl<const N: usize> crevice::std430::Std430 for Blob<N> {
    const ALIGNMENT: usize = 1;
}

impl<const N: usize> Model for Blob<N> {
    fn nd() -> Self {
        Blob(core::array::from_fn(|_| nd::u8()))
    }
    fn size(_: Layout) -> usize {
        N
    }
    fn align(_: Layout) -> usize {
        1
    }
    fn byte(&self, _: Layout, k: usize) -> u8 {
        self.0[k]
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
    fn renorm(_: Layout, raw: &[u8], base: usize, k: usize) -> u8 {
        raw[base + k]
    }
}

/// A user-defined layout type with a large alignment.
#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct Wide<const A: usize>(pub u32);
unsafe impl<const A: usize> bytemuck::Zeroable for Wide<A> {}
unsafe impl<const A: usize> bytemuck::Pod for Wide<A> {}
unsafe impl<const A: usize> crevice::std140::Std140 for Wide<A> {
    const ALIGNMENT: usize = A;
}
unsafe impl<const A: usize> crevice::std430::Std430 for Wide<A> {
    const ALIGNMENT: usize = A;
}
impl<const A: usize> Model for Wide<A> {
    fn nd() -> Self {
        Wide(nd::u32())
    }
    fn size(_: Layout) -> usize {
        4
    }
    fn align(_: Layout) -> usize {
        A
    }
    fn byte(&self, _: Layout, k: usize) -> u8 {
        self.0.to_ne_bytes()[k]
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
    fn renorm(_: Layout, raw: &[u8], base: usize, k: usize) -> u8 {
        raw[base + k]
    }
}

macro_rules! layout_checks {
    ($m:ident, $lay:ident, $L:expr, $Std:ident, $As:ident, $Write:ident, $as_:ident, $from_:ident,
     $size:ident, $size_static:ident, $write_direct:ident, $write_slice:ident, $own:ident) => {
pub mod $m {
    #![allow(unused_imports)]
    use super::*;
    use crevice::$lay::{$As, $Std, $Write, Sizer, Writer};
    pub const L: Layout = $L;
    type Out<T> = <T as $As>::Output;

    // ---- images -------------------------------------------------------------------------------

    /// Size, alignment and every byte of the encoding of an arbitrary value.
    pub fn image<T: Model + $As>() {
        let v = T::nd();
        let out = v.$as_();
        let bytes = $Std::as_bytes(&out);
        assert!(bytes.len() == T::size(L), "size is the GLSL size");
        assert!(<T as $As>::$size_static() == T::size(L), "static size is the GLSL size");
        assert!(<Out<T> as $Std>::ALIGNMENT == T::align(L), "alignment is the GLSL alignment");
        let k = nd::below(T::size(L));
        assert!(bytes[k] == v.byte(L, k), "byte image is the GLSL image");
        reached!();
    }

    /// The encoding of an arbitrary value of a derived struct, field by field at the generated offsets.
    pub fn fields<T: Model + $As + Fields>() {
        let v = T::nd();
        let out = v.$as_();
        let bytes = $Std::as_bytes(&out);
        assert!(bytes.len() == <T as $As>::$size_static(), "as many bytes as the static size");
        let k = nd::usize();
        nd::assume(k < bytes.len());
        assert!(bytes[k] == v.$own(k), "a field's own bytes at the field's offset, zero elsewhere");
        // Encoding depends on the value only.
        let again = v.$as_();
        assert!($Std::as_bytes(&again)[k] == bytes[k], "encoding is a function of the value");
        reached!();
    }

    // ---- names --------------------------------------------------------------------------------

    /// The type's GLSL name denotes a type with exactly this byte image.
    pub fn named<T: Leaf + $As + crevice::glsl::Glsl>() {
        let c = model::nd_comps(T::SPEC);
        let v = T::build(&c);
        let s = spec::by_name(<T as crevice::glsl::Glsl>::NAME);
        assert!(s.is_some(), "the name is a GLSL type name");
        let s = s.unwrap();
        let out = v.$as_();
        let bytes = $Std::as_bytes(&out);
        assert!(s.comps() == T::SPEC.comps(), "the named type has as many components");
        assert!(s.kind == T::SPEC.kind, "the named type has the element kind");
        assert!(bytes.len() == s.size(L), "size is that of the named type");
        assert!(<Out<T> as $Std>::ALIGNMENT == s.align(L), "alignment is that of the named type");
        let k = nd::below(s.size(L));
        assert!(bytes[k] == model::leaf_byte(s, &c, L, k), "bytes are those of the named type");
        reached!();
    }

    /// A shader that declares the struct from its GLSL field list reads every member correctly.
    pub fn declared<T: Model + $As + crevice::glsl::GlslStruct + Declared>() {
        let v = T::nd();
        let out = v.$as_();
        let bytes = $Std::as_bytes(&out);
        let fields = <T as crevice::glsl::GlslStruct>::FIELDS;
        assert!(fields.len() == T::COUNT, "one member per field");
        let k = nd::usize();
        nd::assume(k < bytes.len());
        let mut end = 0;
        let mut align = match L {
            Layout::Std140 => 16,
            Layout::Std430 => 1,
        };
        let mut i = 0;
        while i < T::COUNT {
            let s = spec::by_name(fields[i].ty);
            assert!(s.is_some(), "the member's type is a GLSL type name");
            let s = s.unwrap();
            let at = up(end, s.align(L));
            end = at + s.size(L);
            if s.align(L) > align {
                align = s.align(L);
            }
            if k >= at && k < end {
                assert!(bytes[k] == model::leaf_byte(s, &v.field(i), L, k - at), "the shader reads the member's bytes");
            }
            i += 1;
        }
        assert!(bytes.len() == up(end, align), "size is that of the declared struct");
        assert!(<Out<T> as $Std>::ALIGNMENT == align, "alignment is that of the declared struct");
        reached!();
    }

    // ---- booleans -----------------------------------------------------------------------------

    /// true is 1, false is 0, as 32-bit words.
    pub fn bool_out<T: Leaf + $As>() {
        let c = model::nd_comps(T::SPEC);
        let out = T::build(&c).$as_();
        let bytes = $Std::as_bytes(&out);
        assert!(T::SPEC.kind == Kind::Bool && bytes.len() == 4 * T::SPEC.rows, "four bytes each");
        let i = nd::below(T::SPEC.rows);
        let word = u32::from_ne_bytes([bytes[4 * i], bytes[4 * i + 1], bytes[4 * i + 2], bytes[4 * i + 3]]);
        assert!(word == if c[i] != 0 { 1 } else { 0 }, "true is 1, false is 0");
        reached!();
    }
    /// Zero is false, everything else is true.
    pub fn bool_in<T: Leaf + $As, const N: usize>() {
        assert!(size_of::<Out<T>>() == N && N == 4 * T::SPEC.rows, "four bytes each");
        let mut words = [0u32; 4];
        let mut raw = [0u8; N];
        let mut i = 0;
        while i < N / 4 {
            words[i] = nd::u32();
            let b = words[i].to_ne_bytes();
            raw[4 * i] = b[0];
            raw[4 * i + 1] = b[1];
            raw[4 * i + 2] = b[2];
            raw[4 * i + 3] = b[3];
            i += 1;
        }
        let out: Out<T> = bytemuck::pod_read_unaligned(&raw);
        let c = T::$from_(out).comps();
        let i = nd::below(N / 4);
        assert!((c[i] != 0) == (words[i] != 0), "nonzero is true, zero is false");
        reached!();
    }

    /// Encode then decode an arbitrary value, directly and through a byte buffer.
    pub fn roundtrip<T: Model + $As>() {
        let v = T::nd();
        let out = v.$as_();
        let back = T::$from_(out);
        assert!(v.same(&back), "decode(encode(v)) is v");
        let copy: Out<T> = bytemuck::pod_read_unaligned($Std::as_bytes(&out));
        let back = T::$from_(copy);
        assert!(v.same(&back), "decode(bytes(encode(v))) is v");
        reached!();
    }

    /// Decode arbitrary bytes and encode again. `N` is the size of the encoding.
    pub fn readback<T: Model + $As, const N: usize>() {
        assert!(size_of::<Out<T>>() == N, "size is the GLSL size");
        let mut raw = [0u8; N];
        let mut i = 0;
        while i + 4 <= N {
            let w = nd::u32().to_le_bytes();
            raw[i] = w[0];
            raw[i + 1] = w[1];
            raw[i + 2] = w[2];
            raw[i + 3] = w[3];
            i += 4;
        }
        let out: Out<T> = bytemuck::pod_read_unaligned(&raw);
        let v = T::$from_(out);
        let again = v.$as_();
        let bytes = $Std::as_bytes(&again);
        let k = nd::below(N);
        assert!(bytes[k] == T::renorm(L, &raw, 0, k), "re-encoding keeps every component byte, zeroes padding");
        reached!();
    }

    // ---- writer -------------------------------------------------------------------------------

    /// A writer that has already emitted an arbitrary number of bytes, as after any history.
    macro_rules! writer_at {
        ($sink:ident, $o:expr) => { writer_at!($sink, $sink, $o) };
        ($sink:ident, $val:expr, $o:expr) => {{
            let o: usize = $o;
            if size_of::<$sink>() == 0 && size_of::<Writer<$sink>>() == size_of::<usize>() {
                // The whole state of a writer over a zero-sized sink is its position.
                let w: Writer<$sink> = unsafe { transmute_copy(&o) };
                nd::assume(w.len() == o);
                w
            } else {
                // More state than a position: get there by writing.
                nd::assume(o < 512);
                spy::start(usize::MAX);
                let mut w: Writer<$sink> = Writer::new($val);
                if o & 1 != 0 { w.write(&Blob([0; 1])).unwrap(); }
                if o & 2 != 0 { w.write(&Blob([0; 2])).unwrap(); }
                if o & 4 != 0 { w.write(&Blob([0; 4])).unwrap(); }
                if o & 8 != 0 { w.write(&Blob([0; 8])).unwrap(); }
                if o & 16 != 0 { w.write(&Blob([0; 16])).unwrap(); }
                if o & 32 != 0 { w.write(&Blob([0; 32])).unwrap(); }
                if o & 64 != 0 { w.write(&Blob([0; 64])).unwrap(); }
                if o & 128 != 0 { w.write(&Blob([0; 128])).unwrap(); }
                if o & 256 != 0 { w.write(&Blob([0; 256])).unwrap(); }
                assert!(w.len() == o, "byte blobs are written tightly");
                w
            }
        }};
    }

    fn any_pos() -> usize {
        nd::below(MAX_POS)
    }

    /// One write from position `o`.
    fn write_from<T: Model + $As>(o: usize) {
        let v = T::nd();
        let enc = v.$as_();
        let size = size_of::<Out<T>>();
        let pad = gap(o, T::align(L));
        let k = nd::below(pad + size);
        let mut w = writer_at!(Spy, o);
        spy::start(k);
        let direct = nd::u8();
        let r = if direct == 0 { w.write(&v) } else { w.$write_direct(&enc) };
        assert!(matches!(r, Ok(x) if x == o + pad), "returns the aligned offset");
        assert!(w.len() == o + pad + size, "length is the end of the value");
        let s = spy::seen();
        assert!(s.pos == pad + size, "emits padding and value and nothing else");
        assert!(s.seen);
        if k < pad {
            assert!(s.val == 0, "padding is zero");
        } else {
            assert!(s.val == $Std::as_bytes(&enc)[k - pad], "value bytes are the encoding");
        }
        reached!();
    }
    /// From an arbitrary position.
    pub fn write_step<T: Model + $As>() {
        write_from::<T>(any_pos());
    }
    /// From an arbitrary position that needs at most `G` bytes of padding.
    pub fn write_near<T: Model + $As, const G: usize>() {
        let o = any_pos();
        nd::assume(gap(o, T::align(L)) <= G);
        write_from::<T>(o);
    }
    /// From position `O`.
    pub fn write_at<T: Model + $As, const O: usize>() {
        write_from::<T>(O);
    }

    /// Three writes of arbitrarily chosen types from a fresh writer.
    pub fn write_seq<A: Model + $As, B: Model + $As, C: Model + $As>() {
        let mut w = Writer::new(Spy);
        assert!(w.len() == 0, "a fresh writer has length 0");
        let k = nd::usize();
        spy::start(k);
        let (a, b, c) = (A::nd(), B::nd(), C::nd());
        let mut end = 0;
        let mut want = None;
        let mut n = 0;
        while n < 3 {
            let which = nd::u8();
            let (r, e, size, byte) = if which == 0 {
                let e = up(end, A::align(L));
                (w.write(&a), e, A::size(L), if k >= e && k < e + A::size(L) { Some(a.byte(L, k - e)) } else { None })
            } else if which == 1 {
                let e = up(end, B::align(L));
                (w.write(&b), e, B::size(L), if k >= e && k < e + B::size(L) { Some(b.byte(L, k - e)) } else { None })
            } else {
                let e = up(end, C::align(L));
                (w.write(&c), e, C::size(L), if k >= e && k < e + C::size(L) { Some(c.byte(L, k - e)) } else { None })
            };
            assert!(matches!(r, Ok(x) if x == e), "returns the aligned offset");
            if let Some(x) = byte {
                want = Some(x);
            }
            end = e + size;
            assert!(w.len() == end, "length is the end of the last value");
            assert!(spy::seen().pos == end, "length is the number of bytes emitted");
            n += 1;
        }
        let s = spy::seen();
        assert!(s.seen == (k < end));
        assert!(s.val == want.unwrap_or(0), "every byte is a value byte or zero");
        reached!();
    }

    // ---- slices and iterators -----------------------------------------------------------------

    #[derive(Clone, Copy, PartialEq, Eq)]
    pub enum Via {
        Slice,
        OldSlice,
        Iter,
        LazyIter,
        Filter,
    }

    /// `n` elements at once against one by one, from the same arbitrary position.
    fn many_n<T: Model + $As, const N: usize>(n: usize, via: Via) {
        let o = any_pos();
        let k = nd::usize();
        let xs: [T; N] = core::array::from_fn(|_| T::nd());

        let mut w = writer_at!(Spy, o);
        spy::start(k);
        #[allow(deprecated)]
        let r = match via {
            Via::Slice => w.write(&xs[..n]),
            Via::OldSlice => w.$write_slice(&xs[..n]),
            Via::Iter => w.write_iter(xs[..n].iter().map(|x| x.$as_())),
            Via::LazyIter => {
                let mut i = 0;
                w.write_iter(core::iter::from_fn(|| {
                    i += 1;
                    if i <= n { Some(xs[i - 1].$as_()) } else { None }
                }))
            }
            Via::Filter => {
                // Not an exact-size iterator: its size hint is (0, Some(n)).
                w.write_iter(xs[..n].iter().map(|x| x.$as_()).filter(|_| true))
            }
        };
        let many = spy::seen();
        let many_len = w.len();

        let mut w = writer_at!(Spy, o);
        spy::start(k);
        let mut first = o;
        let mut i = 0;
        while i < n {
            let r = w.write(&xs[i]);
            match r {
                Ok(x) => {
                    if i == 0 {
                        first = x;
                    }
                }
                Err(_) => assert!(false, "writing to an infallible sink fails"),
            }
            i += 1;
        }
        assert!(matches!(r, Ok(x) if x == first), "returns the first element's offset, or the length if empty");
        assert!(many == spy::seen(), "same bytes as element by element");
        assert!(many_len == w.len(), "same length as element by element");
        reached!();
    }
    /// As `many_n` for every `n <= N`.
    pub fn many<T: Model + $As, const N: usize>(via: Via) {
        by_len(N, |n| many_n::<T, N>(n, via));
    }

    /// Slices of a user type that writes a header and then a dynamic number of elements.
    fn many_mixed_n<A: Model + $As, B: Model + $As>(n: usize, m: usize) {
        let o = any_pos();
        let k = nd::usize();
        let xs: [B; 3] = core::array::from_fn(|_| B::nd());
        let ms = [Mixed(A::nd(), &xs[..m]), Mixed(A::nd(), &xs[m..])];

        let mut w = writer_at!(Spy, o);
        spy::start(k);
        let r = w.write(&ms[..n]);
        let many = spy::seen();
        let many_len = w.len();

        let mut w = writer_at!(Spy, o);
        spy::start(k);
        let mut first = o;
        let mut i = 0;
        while i < n {
            match w.write(&ms[i].0) {
                Ok(x) => {
                    if i == 0 {
                        first = x;
                    }
                }
                Err(_) => assert!(false, "writing to an infallible sink fails"),
            }
            let mut j = if i == 0 { 0 } else { m };
            while j < if i == 0 { m } else { 3 } {
                assert!(w.write(&xs[j]).is_ok());
                j += 1;
            }
            i += 1;
        }
        assert!(matches!(r, Ok(x) if x == first), "returns the first element's offset, or the length if empty");
        assert!(many == spy::seen(), "same bytes as part by part");
        assert!(many_len == w.len(), "same length as part by part");
        reached!();
    }
    pub fn many_mixed<A: Model + $As, B: Model + $As>(ns: usize, ms: usize) {
        by_len(ns, |n| by_len(ms, |m| many_mixed_n::<A, B>(n, m)));
    }

    /// Array rules: where the elements of a written slice have to lie.
    fn array_n<T: Model + $As, const N: usize>(i: usize, a: usize) {
        let o = any_pos();
        let xs: [T; N] = core::array::from_fn(|_| T::nd());
        let stride = up(T::size(L), a);
        let pad = gap(o, a);
        // Byte `in_elem` of element `i`.
        let in_elem = nd::below(T::size(L));
        let mut w = writer_at!(Spy, o);
        spy::start(pad + i * stride + in_elem);
        let r = w.write(&xs[..]);
        assert!(matches!(r, Ok(x) if x == o + pad), "the slice starts at its base alignment");
        let s = spy::seen();
        assert!(s.seen, "every element lies within what was written");
        assert!(s.val == xs[i].byte(L, in_elem), "element i lies at base + i * stride");
        reached!();
    }
    /// GLSL array rules: std140 rounds the base alignment and the stride up to 16.
    pub fn array<T: Model + $As, const N: usize>() {
        let a = match L {
            Layout::Std140 => up(T::align(L), 16),
            Layout::Std430 => T::align(L),
        };
        by_len(N - 1, |i| array_n::<T, N>(i, a));
    }
    /// What slices whose stride does not follow the array rules do today: elements back to back at
    /// multiples of the element's own alignment.
    pub fn packed<T: Model + $As, const N: usize>() {
        let a = T::align(L);
        by_len(N - 1, |i| array_n::<T, N>(i, a));
    }

    // ---- sizes --------------------------------------------------------------------------------

    /// A value against what a fresh writer emits.
    pub fn size_one<T: Model + $As>() {
        let x = T::nd();
        let mut w = Writer::new(Spy);
        spy::start(usize::MAX);
        assert!(w.write(&x).is_ok());
        let emitted = spy::seen().pos;
        assert!(w.len() == emitted, "length is the number of bytes emitted");
        assert!($Write::$size(&x) == emitted, "value size is what is emitted");
        assert!(<T as $As>::$size_static() == emitted, "static size is what is emitted");
        assert!($Std::as_bytes(&x.$as_()).len() == emitted, "byte view is as long as what is emitted");
        reached!();
    }
    /// A slice against what a fresh writer emits.
    fn size_slice_n<T: Model + $As, const N: usize>(n: usize) {
        let xs: [T; N] = core::array::from_fn(|_| T::nd());
        let mut w = Writer::new(Spy);
        spy::start(usize::MAX);
        assert!(w.write(&xs[..n]).is_ok());
        let emitted = spy::seen().pos;
        assert!(w.len() == emitted, "length is the number of bytes emitted");
        assert!($Write::$size(&xs[..n]) == emitted, "slice size is what is emitted");
        assert!(n > 0 || emitted == 0, "an empty slice emits nothing");
        reached!();
    }
    pub fn size_slice<T: Model + $As, const N: usize>() {
        by_len(N, |n| size_slice_n::<T, N>(n));
    }

    /// A user type that writes a header and then a dynamic number of elements.
    pub struct Mixed<'a, A, B>(pub A, pub &'a [B]);
    impl<'a, A: $As, B: $As> $Write for Mixed<'a, A, B> {
        fn $write_direct<W: std::io::Write>(&self, w: &mut Writer<W>) -> std::io::Result<usize> {
            let at = w.write(&self.0)?;
            w.write(self.1)?;
            Ok(at)
        }
    }
    fn size_mixed_n<A: Model + $As, B: Model + $As, const N: usize>(n: usize) {
        let xs: [B; N] = core::array::from_fn(|_| B::nd());
        let m = [Mixed(A::nd(), &xs[..n])];
        let mut w = Writer::new(Spy);
        spy::start(usize::MAX);
        assert!(w.write(&m[0]).is_ok());
        assert!(w.len() == spy::seen().pos, "length is the number of bytes emitted");
        assert!($Write::$size(&m[0]) == w.len(), "size of a composite is what is emitted");
        assert!($Write::$size(&m[..]) == w.len(), "size of a slice of composites is what is emitted");
        reached!();
    }
    pub fn size_mixed<A: Model + $As, B: Model + $As, const N: usize>() {
        by_len(N, |n| size_mixed_n::<A, B, N>(n));
    }

    // ---- sizer --------------------------------------------------------------------------------

    fn sizer_at(o: usize) -> Sizer {
        if size_of::<Sizer>() == size_of::<usize>() {
            let s: Sizer = unsafe { transmute_copy(&o) };
            nd::assume(s.len() == o);
            s
        } else {
            nd::assume(o < 512);
            let mut s = Sizer::new();
            if o & 1 != 0 { s.add::<Blob<1>>(); }
            if o & 2 != 0 { s.add::<Blob<2>>(); }
            if o & 4 != 0 { s.add::<Blob<4>>(); }
            if o & 8 != 0 { s.add::<Blob<8>>(); }
            if o & 16 != 0 { s.add::<Blob<16>>(); }
            if o & 32 != 0 { s.add::<Blob<32>>(); }
            if o & 64 != 0 { s.add::<Blob<64>>(); }
            if o & 128 != 0 { s.add::<Blob<128>>(); }
            if o & 256 != 0 { s.add::<Blob<256>>(); }
            assert!(s.len() == o, "byte blobs are added tightly");
            s
        }
    }

    /// One `add` from an arbitrary position, and the write of a value of that type.
    pub fn sizer_step<T: Model + $As>() {
        let o = any_pos();
        let pad = gap(o, T::align(L));
        let mut s = sizer_at(o);
        let at = s.add::<T>();
        assert!(at == o + pad, "offset is the next multiple of the alignment");
        assert!(s.len() == o + pad + T::size(L), "length is offset plus size");
        let v = T::nd();
        let mut w = writer_at!(Spy, o);
        spy::start(usize::MAX);
        let r = w.write(&v);
        assert!(matches!(r, Ok(x) if x == at), "sizer and writer agree on the offset");
        assert!(w.len() == s.len(), "sizer and writer agree on the length");
        reached!();
    }

    /// One `add` from an arbitrary position.
    pub fn sizer_add<T: Model + $As>() {
        let o = any_pos();
        let pad = gap(o, T::align(L));
        let mut s = sizer_at(o);
        let at = s.add::<T>();
        assert!(at == o + pad, "offset is the next multiple of the alignment");
        assert!(s.len() == o + pad + T::size(L), "length is offset plus size");
        reached!();
    }

    /// Four adds of arbitrarily chosen types from a fresh sizer, against a fresh writer.
    pub fn sizer_seq<A: Model + $As, B: Model + $As, C: Model + $As>() {
        let mut s = Sizer::new();
        assert!(s.len() == 0, "a fresh sizer has length 0");
        let mut w = Writer::new(Spy);
        spy::start(usize::MAX);
        let (a, b, c) = (A::nd(), B::nd(), C::nd());
        let mut end = 0;
        let mut n = 0;
        while n < 4 {
            let which = nd::u8();
            let (at, r, al, size) = if which == 0 {
                (s.add::<A>(), w.write(&a), A::align(L), A::size(L))
            } else if which == 1 {
                (s.add::<B>(), w.write(&b), B::align(L), B::size(L))
            } else {
                (s.add::<C>(), w.write(&c), C::align(L), C::size(L))
            };
            let e = up(end, al);
            end = e + size;
            assert!(at == e, "offset is the next multiple of the alignment");
            assert!(s.len() == end, "length is offset plus size");
            assert!(matches!(r, Ok(x) if x == at), "sizer and writer agree on the offset");
            assert!(w.len() == s.len(), "sizer and writer agree on the length");
            n += 1;
        }
        reached!();
    }

    // ---- faults -------------------------------------------------------------------------------

    /// What a fault-free write of `xs` from `o` emits: how many bytes, and the `k`-th of them.
    fn fault_free<T: Model>(xs: &[T], o: usize, k: usize) -> (usize, u8) {
        let mut end = 0;
        let mut val = 0;
        let mut i = 0;
        while i < xs.len() {
            let e = end + gap(o.wrapping_add(end), T::align(L));
            end = e + T::size(L);
            if k >= e && k < end {
                val = xs[i].byte(L, k - e);
            }
            i += 1;
        }
        (end, val)
    }

    /// The sink fails at an arbitrary byte of a write of one value, a slice or an iterator.
    fn fault_n<T: Model + $As, S: std::io::Write, const N: usize>(sink: S, n: usize, via: Option<Via>) {
        let o = any_pos();
        let k = nd::usize();
        let xs: [T; N] = core::array::from_fn(|_| T::nd());
        let (end, val) = fault_free(&xs[..n], o, k);
        let fail = nd::below(end + 1);
        let mode = nd::u8();
        let mut w = writer_at!(S, sink, o);
        spy::start(k);
        spy::fail_at(fail, mode);
        let r = match via {
            None => w.write(&xs[0]),
            Some(Via::Slice) => w.write(&xs[..n]),
            Some(_) => w.write_iter(xs[..n].iter().map(|x| x.$as_())),
        };
        let s = spy::seen();
        match r {
            Ok(_) => {
                assert!(fail >= end, "a failing sink is reported");
                assert!(s.pos == end && w.len() == o + end, "without a fault everything is emitted");
            }
            Err(e) => {
                assert!(fail < end, "no error without a failing sink");
                assert!(e.kind() == spy::expected_error(), "the sink's error is reported");
                assert!(w.len() >= o, "length does not go backwards");
                assert!(w.len() - o <= s.pos, "length does not exceed what was accepted");
                core::mem::forget(e);
            }
        }
        if s.seen {
            assert!(s.val == val, "accepted bytes are a prefix of the fault-free bytes");
        }
        reached!();
    }
    pub fn fault_one<T: Model + $As>() {
        fault_n::<T, FaultSpy, 1>(FaultSpy, 1, None);
    }
    pub fn fault_one_std<T: Model + $As>() {
        fault_n::<T, spy::StdFaultSpy, 1>(spy::StdFaultSpy, 1, None);
    }
    pub fn fault_many<T: Model + $As, const N: usize>(via: Via) {
        by_len(N, |n| fault_n::<T, FaultSpy, N>(FaultSpy, n, Some(via)));
    }

    /// The sink interrupts and accepts only parts.
    fn short_n<T: Model + $As, S: std::io::Write, const N: usize>(sink: S, n: usize, single: bool, quirks: u8) {
        let o = any_pos();
        let k = nd::usize();
        let xs: [T; N] = core::array::from_fn(|_| T::nd());
        let (end, val) = fault_free(&xs[..n], o, k);
        let mut w = writer_at!(S, sink, o);
        spy::start(k);
        spy::quirks(quirks);
        let r = if single { w.write(&xs[0]) } else { w.write(&xs[..n]) };
        let first = if n == 0 { o } else { o + gap(o, T::align(L)) };
        assert!(matches!(r, Ok(x) if x == first), "short writes do not change the result");
        let s = spy::seen();
        assert!(s.pos == end && w.len() == o + end, "everything is emitted exactly once");
        if s.seen {
            assert!(s.val == val, "bytes are those of an all-accepting sink");
        }
        reached!();
    }
    pub fn short_one<T: Model + $As>(quirks: u8) {
        short_n::<T, QuirkySpy, 1>(QuirkySpy, 1, true, quirks);
    }
    pub fn short_one_std<T: Model + $As>(quirks: u8) {
        short_n::<T, spy::StdQuirkySpy, 1>(spy::StdQuirkySpy, 1, true, quirks);
    }
    pub fn short_many<T: Model + $As, const N: usize>(quirks: u8) {
        by_len(N, |n| short_n::<T, QuirkySpy, N>(QuirkySpy, n, false, quirks));
    }
}
    };
}

layout_checks!(s140, std140, Layout::Std140, Std140, AsStd140, WriteStd140, as_std140, from_std140,
    std140_size, std140_size_static, write_std140, write_slice, own_140);
layout_checks!(s430, std430, Layout::Std430, Std430, AsStd430, WriteStd430, as_std430, from_std430,
    std430_size, std430_size_static, write_std430, write, own_430);

/// Checks that concern both layouts at once.
pub mod both {
    use super::*;
    use crevice::std140::AsStd140;
    use crevice::std430::AsStd430;

    pub fn named<T: Leaf + AsStd140 + AsStd430 + crevice::glsl::Glsl>() {
        s140::named::<T>();
        s430::named::<T>();
    }
    /// A math library's type has the image of the GLSL value with its components, and comes back.
    pub fn like_glsl<T: Model + Leaf + AsStd140 + AsStd430 + crevice::glsl::Glsl>() {
        s140::image::<T>();
        s140::roundtrip::<T>();
        s430::image::<T>();
        s430::roundtrip::<T>();
        assert!(spec::by_name(<T as crevice::glsl::Glsl>::NAME) == Some(T::SPEC), "GLSL name is that of the components");
        reached!();
    }
}

/// `ALIGNMENT` of a dynamic uniform over a type, and where it goes.
pub fn dynamic_align<T: crevice::std140::AsStd140 + Model, const A: usize>() {
    use crevice::std140::{AsStd140, DynamicUniform, Sizer, Std140};
    type Out<T> = <DynamicUniform<T> as AsStd140>::Output;
    assert!(<Out<T> as Std140>::ALIGNMENT == A, "alignment is the larger of 256 and the inner alignment");
    assert!(size_of::<Out<T>>() == size_of::<T::Output>(), "size is unchanged");
    let mut s = Sizer::new();
    let mut i = nd::below(4);
    let mut at = 0;
    while i > 0 {
        s.add::<Blob<1>>();
        at += 1;
        i -= 1;
    }
    assert!(s.add::<DynamicUniform<T>>() == if at == 0 { 0 } else { A }, "next multiple of the alignment");
    reached!();
}

/// A slice of dynamic uniforms.
pub fn dynamic_pair<T: Model + crevice::std140::AsStd140>() {
    use crevice::std140::{DynamicUniform, Writer};
    let xs = [DynamicUniform(T::nd()), DynamicUniform(T::nd())];
    let size = T::size(Layout::Std140);
    let k = nd::below(256 + size);
    let mut w = Writer::new(Spy);
    spy::start(k);
    assert!(matches!(w.write(&xs[..]), Ok(0)), "starts at 0");
    assert!(w.len() == 256 + size && spy::seen().pos == 256 + size, "second one at 256");
    let want = if k < size {
        xs[0].0.byte(Layout::Std140, k)
    } else if k >= 256 {
        xs[1].0.byte(Layout::Std140, k - 256)
    } else {
        0
    };
    assert!(spy::seen().seen && spy::seen().val == want, "bytes of each at multiples of 256, zero between");
    reached!();
}
