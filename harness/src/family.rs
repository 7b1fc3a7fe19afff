//! Generated by gen.py: the structs the harnesses derive layouts for.

use mint::*;

family! {
    #[derive(crevice::glsl::GlslStruct)]
    struct One { x: f32 }
    #[derive(crevice::glsl::GlslStruct)]
    struct OneVec3 { v: Vector3<f32> }
    #[derive(crevice::glsl::GlslStruct)]
    struct OneVec2 { v: Vector2<f32> }
    #[derive(crevice::glsl::GlslStruct)]
    struct OneDouble { v: f64 }
    #[derive(crevice::glsl::GlslStruct)]
    struct OneDVec3 { v: Vector3<f64> }
    #[derive(crevice::glsl::GlslStruct)]
    struct OneMat2 { m: ColumnMatrix2<f32> }
    struct OneBool { b: bool }
    #[derive(crevice::glsl::GlslStruct)]
    struct Pair { a: f32, b: f32 }
    #[derive(crevice::glsl::GlslStruct)]
    struct Swap { first: Vector2<f32>, second: Vector2<f32>, third: f32, fourth: f32 }
    struct Scalars { a: f32, b: f64, c: i32, d: u32, e: bool }
    struct Scalars2 { a: bool, b: u32, c: f32, d: f64 }
    #[derive(crevice::glsl::GlslStruct)]
    struct Vecs { a: Vector3<f32>, b: f32, c: Vector2<f32>, d: Vector4<f32>, e: f32 }
    #[derive(crevice::glsl::GlslStruct)]
    struct Vecs2 { a: f32, b: Vector3<f32>, c: Vector3<f32>, d: Vector2<f32>, e: Vector3<f32>, f: Vector2<f32>, g: f32, h: Vector2<f32> }
    #[derive(crevice::glsl::GlslStruct)]
    struct Points { a: Point2<f32>, b: Point3<f32>, c: Point3<u32>, d: i32, e: Point2<i32>, f: Point3<f64>, g: Point2<f64> }
    #[derive(crevice::glsl::GlslStruct)]
    struct IntVecs { a: Vector2<i32>, b: Vector3<u32>, c: u32, d: Vector4<i32>, e: Vector2<u32>, f: Vector3<i32>, g: Vector4<u32> }
    #[derive(crevice::glsl::GlslStruct)]
    struct DVecs { a: f32, b: Vector3<f64>, c: f64, d: Vector2<f64>, e: u32, f: Vector4<f64> }
    #[derive(crevice::glsl::GlslStruct)]
    struct Mats { a: f32, b: ColumnMatrix2<f32>, c: f32, d: ColumnMatrix3<f32>, e: f32 }
    #[derive(crevice::glsl::GlslStruct)]
    struct Mat4s { a: Vector2<f32>, b: ColumnMatrix4<f32>, c: Vector3<f32> }
    #[derive(crevice::glsl::GlslStruct)]
    struct DMats { a: f32, b: ColumnMatrix3<f64>, c: f64, d: ColumnMatrix2<f64> }
    struct DMat4s { a: i32, b: ColumnMatrix4<f64>, c: bool }
    struct Bools { a: bool, b: Vector2<bool>, c: Vector3<bool>, d: Vector4<bool>, e: bool, f: Point2<bool>, g: Point3<bool> }
    #[derive(crevice::glsl::GlslStruct)]
    struct Light { position: Point3<f32>, color: Vector3<f32>, brightness: f32 }
    #[derive(crevice::glsl::GlslStruct)]
    struct Main { orientation: ColumnMatrix3<f32>, position: Point3<f32>, scale: f32 }
    struct Nested { a: One, b: f32, c: Pair, d: Vector3<f32>, e: One, f: Bools }
    struct NestedD { a: f32, b: OneDVec3, c: f32, d: OneVec2, e: f32, f: OneMat2 }
    struct Deep { a: u32, n: Nested, t: f64, d: DVecs, z: OneVec3 }
    #[derive(crevice::glsl::GlslStruct)]
    struct Twelve { a: f32, b: f32, c: f32, d: f32, e: f32, f: f32, g: f32, h: f32, i: f32, j: f32, k: f32, l: f32 }
    struct Long { a: f32, b: Vector3<f32>, c: Vector3<f32>, d: f32, e: Vector2<f32>, f: f64, g: u32, h: Vector4<f32>, i: i32, j: Vector2<f64>, k: Vector3<f64>, l: f32, m: One, n: Vector3<i32>, o: bool, p: ColumnMatrix2<f32>, q: f32, r: Vector2<u32>, s: f64, t: f32 }
    #[derive(crevice::glsl::GlslStruct)]
    struct Padly { _pad: f32, pad0: Vector3<f32>, input: f32, value: Vector2<f32>, r#type: u32, size: Vector3<f32> }
}

declared! {
    One { x }
    OneVec3 { v }
    OneVec2 { v }
    OneDouble { v }
    OneDVec3 { v }
    OneMat2 { m }
    Pair { a, b }
    Swap { first, second, third, fourth }
    Vecs { a, b, c, d, e }
    Vecs2 { a, b, c, d, e, f, g, h }
    Points { a, b, c, d, e, f, g }
    IntVecs { a, b, c, d, e, f, g }
    DVecs { a, b, c, d, e, f }
    Mats { a, b, c, d, e }
    Mat4s { a, b, c }
    DMats { a, b, c, d }
    Light { position, color, brightness }
    Main { orientation, position, scale }
    Twelve { a, b, c, d, e, f, g, h, i, j, k, l }
    Padly { _pad, pad0, input, value, r#type, size }
}
