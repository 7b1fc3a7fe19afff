//! The oracle: GLSL 4.60 section 7.6.2.2 (std140 / std430), written from the specification text and
//! not from crevice's code.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Layout {
    Std140,
    Std430,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Float,
    Double,
    Int,
    Uint,
    Bool,
}

/// A GLSL scalar (1x1), vector (1 column, n rows) or column-major matrix.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Spec {
    pub kind: Kind,
    pub cols: usize,
    pub rows: usize,
}

pub const fn up(x: usize, a: usize) -> usize {
    // a is a power of two
    (x + (a - 1)) & !(a - 1)
}

impl Spec {
    pub const fn new(kind: Kind, cols: usize, rows: usize) -> Self {
        Spec { kind, cols, rows }
    }
    /// Size of one component: the "basic machine unit" N of the rules.
    pub const fn n(&self) -> usize {
        match self.kind {
            Kind::Double => 8,
            _ => 4,
        }
    }
    /// Rules 1-3: alignment of a scalar or of a 2-, 3- or 4-component vector.
    pub const fn vec_align(&self) -> usize {
        match self.rows {
            1 => self.n(),
            2 => 2 * self.n(),
            _ => 4 * self.n(),
        }
    }
    /// Rules 5 and 4: a column-major matrix is an array of column vectors; std140 rounds the array
    /// element's alignment and stride up to that of a vec4.
    pub const fn align(&self, l: Layout) -> usize {
        let a = self.vec_align();
        if self.cols > 1 {
            match l {
                Layout::Std140 => up(a, 16),
                Layout::Std430 => a,
            }
        } else {
            a
        }
    }
    /// Distance between columns.
    pub const fn stride(&self, l: Layout) -> usize {
        up(self.rows * self.n(), self.align(l))
    }
    pub const fn size(&self, l: Layout) -> usize {
        if self.cols > 1 {
            self.cols * self.stride(l)
        } else {
            self.rows * self.n()
        }
    }
    pub const fn comps(&self) -> usize {
        self.cols * self.rows
    }
    /// Which component, and which byte of it, lies at byte `k`; None for padding.
    pub fn at(&self, l: Layout, k: usize) -> Option<(usize, usize)> {
        let n = self.n();
        let (col, in_col) = if self.cols > 1 {
            let s = self.stride(l);
            (k / s, k % s)
        } else {
            (0, k)
        };
        let row = in_col / n;
        if row < self.rows && col < self.cols {
            Some((col * self.rows + row, in_col % n))
        } else {
            None
        }
    }
}

/// The GLSL type a name denotes.
pub fn by_name(name: &str) -> Option<Spec> {
    use Kind::*;
    Some(match name {
        "float" => Spec::new(Float, 1, 1),
        "double" => Spec::new(Double, 1, 1),
        "int" => Spec::new(Int, 1, 1),
        "uint" => Spec::new(Uint, 1, 1),
        "bool" => Spec::new(Bool, 1, 1),
        "vec2" => Spec::new(Float, 1, 2),
        "vec3" => Spec::new(Float, 1, 3),
        "vec4" => Spec::new(Float, 1, 4),
        "ivec2" => Spec::new(Int, 1, 2),
        "ivec3" => Spec::new(Int, 1, 3),
        "ivec4" => Spec::new(Int, 1, 4),
        "uvec2" => Spec::new(Uint, 1, 2),
        "uvec3" => Spec::new(Uint, 1, 3),
        "uvec4" => Spec::new(Uint, 1, 4),
        "bvec2" => Spec::new(Bool, 1, 2),
        "bvec3" => Spec::new(Bool, 1, 3),
        "bvec4" => Spec::new(Bool, 1, 4),
        "dvec2" => Spec::new(Double, 1, 2),
        "dvec3" => Spec::new(Double, 1, 3),
        "dvec4" => Spec::new(Double, 1, 4),
        "mat2" | "mat2x2" => Spec::new(Float, 2, 2),
        "mat3" | "mat3x3" => Spec::new(Float, 3, 3),
        "mat4" | "mat4x4" => Spec::new(Float, 4, 4),
        "dmat2" | "dmat2x2" => Spec::new(Double, 2, 2),
        "dmat3" | "dmat3x3" => Spec::new(Double, 3, 3),
        "dmat4" | "dmat4x4" => Spec::new(Double, 4, 4),
        _ => return None,
    })
}
