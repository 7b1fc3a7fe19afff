//! The math libraries' types as GLSL values. Component access goes through each library's own documented
//! constructors and accessors (x first; matrices column by column).

use crate::model::{Comp, Leaf};
use crate::spec::Spec;

macro_rules! cgmath_vecs {
    ($($e:ty),+) => {$(
        vec_leaf! {
            cgmath::Vector2<$e> = $e, 2 { x.0, y.1 };
            cgmath::Vector3<$e> = $e, 3 { x.0, y.1, z.2 };
            cgmath::Vector4<$e> = $e, 4 { x.0, y.1, z.2, w.3 };
            cgmath::Point2<$e> = $e, 2 { x.0, y.1 };
            cgmath::Point3<$e> = $e, 3 { x.0, y.1, z.2 };
        }
    )+};
}
cgmath_vecs!(f32, f64, i32, u32, bool);
mat_leaf! {
    cgmath::Matrix2<f32> = f32, cgmath::Vector2<f32>, 2 { x.0, y.1 };
    cgmath::Matrix3<f32> = f32, cgmath::Vector3<f32>, 3 { x.0, y.1, z.2 };
    cgmath::Matrix4<f32> = f32, cgmath::Vector4<f32>, 4 { x.0, y.1, z.2, w.3 };
    cgmath::Matrix2<f64> = f64, cgmath::Vector2<f64>, 2 { x.0, y.1 };
    cgmath::Matrix3<f64> = f64, cgmath::Vector3<f64>, 3 { x.0, y.1, z.2 };
    cgmath::Matrix4<f64> = f64, cgmath::Vector4<f64>, 4 { x.0, y.1, z.2, w.3 };
}

/// Types built from and turned into flat arrays of components.
macro_rules! array_leaf {
    ($($t:ty = $e:ty, $cols:literal x $rows:literal, $n:literal, |$a:ident| $build:expr, |$v:ident| $arr:expr);+ $(;)?) => {$(
        impl Leaf for $t {
            const SPEC: Spec = Spec::new(<$e as Comp>::KIND, $cols, $rows);
            fn build(c: &[u64; 16]) -> Self {
                let mut $a: [$e; $n] = [<$e as Comp>::of(0); $n];
                let mut i = 0;
                while i < $n { $a[i] = <$e as Comp>::of(c[i]); i += 1; }
                $build
            }
            fn comps(&self) -> [u64; 16] {
                let $v = self;
                let a: [$e; $n] = $arr;
                let mut o = [0; 16];
                let mut i = 0;
                while i < $n { o[i] = Comp::bits(a[i]); i += 1; }
                o
            }
        }
        leaf_model!($t);
    )+};
}
macro_rules! nalgebra_vecs {
    ($($e:ty),+) => {$(
        array_leaf! {
            nalgebra::Vector2<$e> = $e, 1 x 2, 2, |a| nalgebra::Vector2::new(a[0], a[1]), |v| [v[0], v[1]];
            nalgebra::Vector3<$e> = $e, 1 x 3, 3, |a| nalgebra::Vector3::new(a[0], a[1], a[2]), |v| [v[0], v[1], v[2]];
            nalgebra::Vector4<$e> = $e, 1 x 4, 4, |a| nalgebra::Vector4::new(a[0], a[1], a[2], a[3]), |v| [v[0], v[1], v[2], v[3]];
            nalgebra::Point2<$e> = $e, 1 x 2, 2, |a| nalgebra::Point2::new(a[0], a[1]), |v| [v.coords[0], v.coords[1]];
            nalgebra::Point3<$e> = $e, 1 x 3, 3, |a| nalgebra::Point3::new(a[0], a[1], a[2]), |v| [v.coords[0], v.coords[1], v.coords[2]];
        }
    )+};
}
nalgebra_vecs!(f32, f64, i32, u32, bool);
macro_rules! nalgebra_mats {
    ($($e:ty),+) => {$(
        array_leaf! {
            // nalgebra's matrices are indexed (row, column) and built row by row.
            nalgebra::Matrix2<$e> = $e, 2 x 2, 4, |a| nalgebra::Matrix2::new(a[0], a[2], a[1], a[3]),
                |v| [v[(0, 0)], v[(1, 0)], v[(0, 1)], v[(1, 1)]];
            nalgebra::Matrix3<$e> = $e, 3 x 3, 9,
                |a| nalgebra::Matrix3::new(a[0], a[3], a[6], a[1], a[4], a[7], a[2], a[5], a[8]),
                |v| [v[(0, 0)], v[(1, 0)], v[(2, 0)], v[(0, 1)], v[(1, 1)], v[(2, 1)], v[(0, 2)], v[(1, 2)], v[(2, 2)]];
            nalgebra::Matrix4<$e> = $e, 4 x 4, 16,
                |a| nalgebra::Matrix4::new(a[0], a[4], a[8], a[12], a[1], a[5], a[9], a[13],
                    a[2], a[6], a[10], a[14], a[3], a[7], a[11], a[15]),
                |v| [v[(0, 0)], v[(1, 0)], v[(2, 0)], v[(3, 0)], v[(0, 1)], v[(1, 1)], v[(2, 1)], v[(3, 1)],
                    v[(0, 2)], v[(1, 2)], v[(2, 2)], v[(3, 2)], v[(0, 3)], v[(1, 3)], v[(2, 3)], v[(3, 3)]];
        }
    )+};
}
nalgebra_mats!(f32, f64);
macro_rules! glam_vecs {
    ($($e:ty: $v2:ident $v3:ident $v4:ident),+) => {$(
        array_leaf! {
            glam::$v2 = $e, 1 x 2, 2, |a| glam::$v2::new(a[0], a[1]), |v| [v.x, v.y];
            glam::$v3 = $e, 1 x 3, 3, |a| glam::$v3::new(a[0], a[1], a[2]), |v| [v.x, v.y, v.z];
            glam::$v4 = $e, 1 x 4, 4, |a| glam::$v4::new(a[0], a[1], a[2], a[3]), |v| [v.x, v.y, v.z, v.w];
        }
    )+};
}
glam_vecs!(f32: Vec2 Vec3 Vec4, f64: DVec2 DVec3 DVec4, i32: IVec2 IVec3 IVec4, u32: UVec2 UVec3 UVec4);
macro_rules! glam_mats {
    ($($e:ty: $m2:ident $m3:ident $m4:ident),+) => {$(
        array_leaf! {
            glam::$m2 = $e, 2 x 2, 4, |a| glam::$m2::from_cols_array(&a), |v| v.to_cols_array();
            glam::$m3 = $e, 3 x 3, 9, |a| glam::$m3::from_cols_array(&a), |v| v.to_cols_array();
            glam::$m4 = $e, 4 x 4, 16, |a| glam::$m4::from_cols_array(&a), |v| v.to_cols_array();
        }
    )+};
}
glam_mats!(f32: Mat2 Mat3 Mat4, f64: DMat2 DMat3 DMat4);
