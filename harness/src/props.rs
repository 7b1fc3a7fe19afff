//! Generated by gen.py: the harnesses, one module per property: `cNN::name [unwind] = body`.

#![allow(unused_imports)]
use crate::checks::{both, dynamic_align, dynamic_pair, s140, s430, Blob, Wide};
use crate::family::*;
use crate::glsl;
use crevice::std140::DynamicUniform;
use mint::*;

harnesses! {
    c01 {
        one [3] = s140::image::<One>();
        onevec3 [5] = s140::image::<OneVec3>();
        onevec2 [4] = s140::image::<OneVec2>();
        onedouble [3] = s140::image::<OneDouble>();
        onedvec3 [5] = s140::image::<OneDVec3>();
        onemat2 [6] = s140::image::<OneMat2>();
        onebool [3] = s140::image::<OneBool>();
        pair [3] = s140::image::<Pair>();
        swap [4] = s140::image::<Swap>();
        scalars [3] = s140::image::<Scalars>();
        scalars2 [3] = s140::image::<Scalars2>();
        vecs [6] = s140::image::<Vecs>();
        vecs2 [5] = s140::image::<Vecs2>();
        points [5] = s140::image::<Points>();
        intvecs [6] = s140::image::<IntVecs>();
        dvecs [6] = s140::image::<DVecs>();
        mats [11] = s140::image::<Mats>();
        mat4s [18] = s140::image::<Mat4s>();
        dmats [11] = s140::image::<DMats>();
        dmat4s [18] = s140::image::<DMat4s>();
        bools [6] = s140::image::<Bools>();
        light [5] = s140::image::<Light>();
        main [11] = s140::image::<Main>();
        nested [6] = s140::image::<Nested>();
        nestedd [6] = s140::image::<NestedD>();
        deep [6] = s140::image::<Deep>();
        twelve [3] = s140::image::<Twelve>();
        long [6] = s140::image::<Long>();
        padly [5] = s140::image::<Padly>();
    }
    c02 {
        one [3] = s430::image::<One>();
        onevec3 [5] = s430::image::<OneVec3>();
        onevec2 [4] = s430::image::<OneVec2>();
        onedouble [3] = s430::image::<OneDouble>();
        onedvec3 [5] = s430::image::<OneDVec3>();
        onemat2 [6] = s430::image::<OneMat2>();
        onebool [3] = s430::image::<OneBool>();
        pair [3] = s430::image::<Pair>();
        swap [4] = s430::image::<Swap>();
        scalars [3] = s430::image::<Scalars>();
        scalars2 [3] = s430::image::<Scalars2>();
        vecs [6] = s430::image::<Vecs>();
        vecs2 [5] = s430::image::<Vecs2>();
        points [5] = s430::image::<Points>();
        intvecs [6] = s430::image::<IntVecs>();
        dvecs [6] = s430::image::<DVecs>();
        mats [11] = s430::image::<Mats>();
        mat4s [18] = s430::image::<Mat4s>();
        dmats [11] = s430::image::<DMats>();
        dmat4s [18] = s430::image::<DMat4s>();
        bools [6] = s430::image::<Bools>();
        light [5] = s430::image::<Light>();
        main [11] = s430::image::<Main>();
        nested [6] = s430::image::<Nested>();
        nestedd [6] = s430::image::<NestedD>();
        deep [6] = s430::image::<Deep>();
        twelve [3] = s430::image::<Twelve>();
        long [6] = s430::image::<Long>();
        padly [5] = s430::image::<Padly>();
    }
    c03 {
        f32_ [3] = s140::image::<f32>();
        f64_ [3] = s140::image::<f64>();
        i32_ [3] = s140::image::<i32>();
        u32_ [3] = s140::image::<u32>();
        bool_ [3] = s140::image::<bool>();
        vec2 [4] = s140::image::<Vector2<f32>>();
        vec3 [5] = s140::image::<Vector3<f32>>();
        vec4 [6] = s140::image::<Vector4<f32>>();
        point2 [4] = s140::image::<Point2<f32>>();
        point3 [5] = s140::image::<Point3<f32>>();
        dvec2 [4] = s140::image::<Vector2<f64>>();
        dvec3 [5] = s140::image::<Vector3<f64>>();
        dvec4 [6] = s140::image::<Vector4<f64>>();
        dpoint2 [4] = s140::image::<Point2<f64>>();
        dpoint3 [5] = s140::image::<Point3<f64>>();
        ivec2 [4] = s140::image::<Vector2<i32>>();
        ivec3 [5] = s140::image::<Vector3<i32>>();
        ivec4 [6] = s140::image::<Vector4<i32>>();
        ipoint2 [4] = s140::image::<Point2<i32>>();
        ipoint3 [5] = s140::image::<Point3<i32>>();
        uvec2 [4] = s140::image::<Vector2<u32>>();
        uvec3 [5] = s140::image::<Vector3<u32>>();
        uvec4 [6] = s140::image::<Vector4<u32>>();
        upoint2 [4] = s140::image::<Point2<u32>>();
        upoint3 [5] = s140::image::<Point3<u32>>();
        bvec2 [4] = s140::image::<Vector2<bool>>();
        bvec3 [5] = s140::image::<Vector3<bool>>();
        bvec4 [6] = s140::image::<Vector4<bool>>();
        bpoint2 [4] = s140::image::<Point2<bool>>();
        bpoint3 [5] = s140::image::<Point3<bool>>();
        mat2 [6] = s140::image::<ColumnMatrix2<f32>>();
        mat3 [11] = s140::image::<ColumnMatrix3<f32>>();
        mat4 [18] = s140::image::<ColumnMatrix4<f32>>();
        dmat2 [6] = s140::image::<ColumnMatrix2<f64>>();
        dmat3 [11] = s140::image::<ColumnMatrix3<f64>>();
        dmat4 [18] = s140::image::<ColumnMatrix4<f64>>();
        own_vec2 [4] = s140::image::<crevice::std140::Vec2>();
        own_vec3 [5] = s140::image::<crevice::std140::Vec3>();
        own_vec4 [6] = s140::image::<crevice::std140::Vec4>();
        own_dvec2 [4] = s140::image::<crevice::std140::DVec2>();
        own_dvec3 [5] = s140::image::<crevice::std140::DVec3>();
        own_dvec4 [6] = s140::image::<crevice::std140::DVec4>();
        own_ivec2 [4] = s140::image::<crevice::std140::IVec2>();
        own_ivec3 [5] = s140::image::<crevice::std140::IVec3>();
        own_ivec4 [6] = s140::image::<crevice::std140::IVec4>();
        own_uvec2 [4] = s140::image::<crevice::std140::UVec2>();
        own_uvec3 [5] = s140::image::<crevice::std140::UVec3>();
        own_uvec4 [6] = s140::image::<crevice::std140::UVec4>();
        own_bvec2 [4] = s140::image::<crevice::std140::BVec2>();
        own_bvec3 [5] = s140::image::<crevice::std140::BVec3>();
        own_bvec4 [6] = s140::image::<crevice::std140::BVec4>();
        own_mat2 [6] = s140::image::<crevice::std140::Mat2>();
        own_mat3 [11] = s140::image::<crevice::std140::Mat3>();
        own_mat4 [18] = s140::image::<crevice::std140::Mat4>();
        own_dmat2 [6] = s140::image::<crevice::std140::DMat2>();
        own_dmat3 [11] = s140::image::<crevice::std140::DMat3>();
        own_dmat4 [18] = s140::image::<crevice::std140::DMat4>();
    }
    c04 {
        f32_ [3] = s430::image::<f32>();
        f64_ [3] = s430::image::<f64>();
        i32_ [3] = s430::image::<i32>();
        u32_ [3] = s430::image::<u32>();
        bool_ [3] = s430::image::<bool>();
        vec2 [4] = s430::image::<Vector2<f32>>();
        vec3 [5] = s430::image::<Vector3<f32>>();
        vec4 [6] = s430::image::<Vector4<f32>>();
        point2 [4] = s430::image::<Point2<f32>>();
        point3 [5] = s430::image::<Point3<f32>>();
        dvec2 [4] = s430::image::<Vector2<f64>>();
        dvec3 [5] = s430::image::<Vector3<f64>>();
        dvec4 [6] = s430::image::<Vector4<f64>>();
        dpoint2 [4] = s430::image::<Point2<f64>>();
        dpoint3 [5] = s430::image::<Point3<f64>>();
        ivec2 [4] = s430::image::<Vector2<i32>>();
        ivec3 [5] = s430::image::<Vector3<i32>>();
        ivec4 [6] = s430::image::<Vector4<i32>>();
        ipoint2 [4] = s430::image::<Point2<i32>>();
        ipoint3 [5] = s430::image::<Point3<i32>>();
        uvec2 [4] = s430::image::<Vector2<u32>>();
        uvec3 [5] = s430::image::<Vector3<u32>>();
        uvec4 [6] = s430::image::<Vector4<u32>>();
        upoint2 [4] = s430::image::<Point2<u32>>();
        upoint3 [5] = s430::image::<Point3<u32>>();
        bvec2 [4] = s430::image::<Vector2<bool>>();
        bvec3 [5] = s430::image::<Vector3<bool>>();
        bvec4 [6] = s430::image::<Vector4<bool>>();
        bpoint2 [4] = s430::image::<Point2<bool>>();
        bpoint3 [5] = s430::image::<Point3<bool>>();
        mat2 [6] = s430::image::<ColumnMatrix2<f32>>();
        mat3 [11] = s430::image::<ColumnMatrix3<f32>>();
        mat4 [18] = s430::image::<ColumnMatrix4<f32>>();
        dmat2 [6] = s430::image::<ColumnMatrix2<f64>>();
        dmat3 [11] = s430::image::<ColumnMatrix3<f64>>();
        dmat4 [18] = s430::image::<ColumnMatrix4<f64>>();
        own_vec2 [4] = s430::image::<crevice::std430::Vec2>();
        own_vec3 [5] = s430::image::<crevice::std430::Vec3>();
        own_vec4 [6] = s430::image::<crevice::std430::Vec4>();
        own_dvec2 [4] = s430::image::<crevice::std430::DVec2>();
        own_dvec3 [5] = s430::image::<crevice::std430::DVec3>();
        own_dvec4 [6] = s430::image::<crevice::std430::DVec4>();
        own_ivec2 [4] = s430::image::<crevice::std430::IVec2>();
        own_ivec3 [5] = s430::image::<crevice::std430::IVec3>();
        own_ivec4 [6] = s430::image::<crevice::std430::IVec4>();
        own_uvec2 [4] = s430::image::<crevice::std430::UVec2>();
        own_uvec3 [5] = s430::image::<crevice::std430::UVec3>();
        own_uvec4 [6] = s430::image::<crevice::std430::UVec4>();
        own_bvec2 [4] = s430::image::<crevice::std430::BVec2>();
        own_bvec3 [5] = s430::image::<crevice::std430::BVec3>();
        own_bvec4 [6] = s430::image::<crevice::std430::BVec4>();
        own_mat2 [6] = s430::image::<crevice::std430::Mat2>();
        own_mat3 [11] = s430::image::<crevice::std430::Mat3>();
        own_mat4 [18] = s430::image::<crevice::std430::Mat4>();
        own_dmat2 [6] = s430::image::<crevice::std430::DMat2>();
        own_dmat3 [11] = s430::image::<crevice::std430::DMat3>();
        own_dmat4 [18] = s430::image::<crevice::std430::DMat4>();
    }
    c05 {
        s140_one [3] = s140::fields::<One>();
        s140_onevec3 [5] = s140::fields::<OneVec3>();
        s140_onevec2 [4] = s140::fields::<OneVec2>();
        s140_onedouble [3] = s140::fields::<OneDouble>();
        s140_onedvec3 [5] = s140::fields::<OneDVec3>();
        s140_onemat2 [6] = s140::fields::<OneMat2>();
        s140_onebool [3] = s140::fields::<OneBool>();
        s140_pair [3] = s140::fields::<Pair>();
        s140_swap [4] = s140::fields::<Swap>();
        s140_scalars [3] = s140::fields::<Scalars>();
        s140_scalars2 [3] = s140::fields::<Scalars2>();
        s140_vecs [6] = s140::fields::<Vecs>();
        s140_vecs2 [5] = s140::fields::<Vecs2>();
        s140_points [5] = s140::fields::<Points>();
        s140_intvecs [6] = s140::fields::<IntVecs>();
        s140_dvecs [6] = s140::fields::<DVecs>();
        s140_mats [11] = s140::fields::<Mats>();
        s140_mat4s [18] = s140::fields::<Mat4s>();
        s140_dmats [11] = s140::fields::<DMats>();
        s140_dmat4s [18] = s140::fields::<DMat4s>();
        s140_bools [6] = s140::fields::<Bools>();
        s140_light [5] = s140::fields::<Light>();
        s140_main [11] = s140::fields::<Main>();
        s140_nested [6] = s140::fields::<Nested>();
        s140_nestedd [6] = s140::fields::<NestedD>();
        s140_deep [6] = s140::fields::<Deep>();
        s140_twelve [3] = s140::fields::<Twelve>();
        s140_long [6] = s140::fields::<Long>();
        s140_padly [5] = s140::fields::<Padly>();
        s430_one [3] = s430::fields::<One>();
        s430_onevec3 [5] = s430::fields::<OneVec3>();
        s430_onevec2 [4] = s430::fields::<OneVec2>();
        s430_onedouble [3] = s430::fields::<OneDouble>();
        s430_onedvec3 [5] = s430::fields::<OneDVec3>();
        s430_onemat2 [6] = s430::fields::<OneMat2>();
        s430_onebool [3] = s430::fields::<OneBool>();
        s430_pair [3] = s430::fields::<Pair>();
        s430_swap [4] = s430::fields::<Swap>();
        s430_scalars [3] = s430::fields::<Scalars>();
        s430_scalars2 [3] = s430::fields::<Scalars2>();
        s430_vecs [6] = s430::fields::<Vecs>();
        s430_vecs2 [5] = s430::fields::<Vecs2>();
        s430_points [5] = s430::fields::<Points>();
        s430_intvecs [6] = s430::fields::<IntVecs>();
        s430_dvecs [6] = s430::fields::<DVecs>();
        s430_mats [11] = s430::fields::<Mats>();
        s430_mat4s [18] = s430::fields::<Mat4s>();
        s430_dmats [11] = s430::fields::<DMats>();
        s430_dmat4s [18] = s430::fields::<DMat4s>();
        s430_bools [6] = s430::fields::<Bools>();
        s430_light [5] = s430::fields::<Light>();
        s430_main [11] = s430::fields::<Main>();
        s430_nested [6] = s430::fields::<Nested>();
        s430_nestedd [6] = s430::fields::<NestedD>();
        s430_deep [6] = s430::fields::<Deep>();
        s430_twelve [3] = s430::fields::<Twelve>();
        s430_long [6] = s430::fields::<Long>();
        s430_padly [5] = s430::fields::<Padly>();
    }
    c06 {
        s140_one [3] = s140::roundtrip::<One>();
        s140_onevec3 [5] = s140::roundtrip::<OneVec3>();
        s140_onevec2 [4] = s140::roundtrip::<OneVec2>();
        s140_onedouble [3] = s140::roundtrip::<OneDouble>();
        s140_onedvec3 [5] = s140::roundtrip::<OneDVec3>();
        s140_onemat2 [6] = s140::roundtrip::<OneMat2>();
        s140_onebool [3] = s140::roundtrip::<OneBool>();
        s140_pair [3] = s140::roundtrip::<Pair>();
        s140_swap [4] = s140::roundtrip::<Swap>();
        s140_scalars [3] = s140::roundtrip::<Scalars>();
        s140_scalars2 [3] = s140::roundtrip::<Scalars2>();
        s140_vecs [6] = s140::roundtrip::<Vecs>();
        s140_vecs2 [5] = s140::roundtrip::<Vecs2>();
        s140_points [5] = s140::roundtrip::<Points>();
        s140_intvecs [6] = s140::roundtrip::<IntVecs>();
        s140_dvecs [6] = s140::roundtrip::<DVecs>();
        s140_mats [11] = s140::roundtrip::<Mats>();
        s140_mat4s [18] = s140::roundtrip::<Mat4s>();
        s140_dmats [11] = s140::roundtrip::<DMats>();
        s140_dmat4s [18] = s140::roundtrip::<DMat4s>();
        s140_bools [6] = s140::roundtrip::<Bools>();
        s140_light [5] = s140::roundtrip::<Light>();
        s140_main [11] = s140::roundtrip::<Main>();
        s140_nested [6] = s140::roundtrip::<Nested>();
        s140_nestedd [6] = s140::roundtrip::<NestedD>();
        s140_deep [6] = s140::roundtrip::<Deep>();
        s140_twelve [3] = s140::roundtrip::<Twelve>();
        s140_long [6] = s140::roundtrip::<Long>();
        s140_padly [5] = s140::roundtrip::<Padly>();
        s140_f32_ [3] = s140::roundtrip::<f32>();
        s140_f64_ [3] = s140::roundtrip::<f64>();
        s140_i32_ [3] = s140::roundtrip::<i32>();
        s140_u32_ [3] = s140::roundtrip::<u32>();
        s140_bool_ [3] = s140::roundtrip::<bool>();
        s140_vec2 [4] = s140::roundtrip::<Vector2<f32>>();
        s140_vec3 [5] = s140::roundtrip::<Vector3<f32>>();
        s140_vec4 [6] = s140::roundtrip::<Vector4<f32>>();
        s140_point2 [4] = s140::roundtrip::<Point2<f32>>();
        s140_point3 [5] = s140::roundtrip::<Point3<f32>>();
        s140_dvec2 [4] = s140::roundtrip::<Vector2<f64>>();
        s140_dvec3 [5] = s140::roundtrip::<Vector3<f64>>();
        s140_dvec4 [6] = s140::roundtrip::<Vector4<f64>>();
        s140_dpoint2 [4] = s140::roundtrip::<Point2<f64>>();
        s140_dpoint3 [5] = s140::roundtrip::<Point3<f64>>();
        s140_ivec2 [4] = s140::roundtrip::<Vector2<i32>>();
        s140_ivec3 [5] = s140::roundtrip::<Vector3<i32>>();
        s140_ivec4 [6] = s140::roundtrip::<Vector4<i32>>();
        s140_ipoint2 [4] = s140::roundtrip::<Point2<i32>>();
        s140_ipoint3 [5] = s140::roundtrip::<Point3<i32>>();
        s140_uvec2 [4] = s140::roundtrip::<Vector2<u32>>();
        s140_uvec3 [5] = s140::roundtrip::<Vector3<u32>>();
        s140_uvec4 [6] = s140::roundtrip::<Vector4<u32>>();
        s140_upoint2 [4] = s140::roundtrip::<Point2<u32>>();
        s140_upoint3 [5] = s140::roundtrip::<Point3<u32>>();
        s140_bvec2 [4] = s140::roundtrip::<Vector2<bool>>();
        s140_bvec3 [5] = s140::roundtrip::<Vector3<bool>>();
        s140_bvec4 [6] = s140::roundtrip::<Vector4<bool>>();
        s140_bpoint2 [4] = s140::roundtrip::<Point2<bool>>();
        s140_bpoint3 [5] = s140::roundtrip::<Point3<bool>>();
        s140_mat2 [6] = s140::roundtrip::<ColumnMatrix2<f32>>();
        s140_mat3 [11] = s140::roundtrip::<ColumnMatrix3<f32>>();
        s140_mat4 [18] = s140::roundtrip::<ColumnMatrix4<f32>>();
        s140_dmat2 [6] = s140::roundtrip::<ColumnMatrix2<f64>>();
        s140_dmat3 [11] = s140::roundtrip::<ColumnMatrix3<f64>>();
        s140_dmat4 [18] = s140::roundtrip::<ColumnMatrix4<f64>>();
        s430_one [3] = s430::roundtrip::<One>();
        s430_onevec3 [5] = s430::roundtrip::<OneVec3>();
        s430_onevec2 [4] = s430::roundtrip::<OneVec2>();
        s430_onedouble [3] = s430::roundtrip::<OneDouble>();
        s430_onedvec3 [5] = s430::roundtrip::<OneDVec3>();
        s430_onemat2 [6] = s430::roundtrip::<OneMat2>();
        s430_onebool [3] = s430::roundtrip::<OneBool>();
        s430_pair [3] = s430::roundtrip::<Pair>();
        s430_swap [4] = s430::roundtrip::<Swap>();
        s430_scalars [3] = s430::roundtrip::<Scalars>();
        s430_scalars2 [3] = s430::roundtrip::<Scalars2>();
        s430_vecs [6] = s430::roundtrip::<Vecs>();
        s430_vecs2 [5] = s430::roundtrip::<Vecs2>();
        s430_points [5] = s430::roundtrip::<Points>();
        s430_intvecs [6] = s430::roundtrip::<IntVecs>();
        s430_dvecs [6] = s430::roundtrip::<DVecs>();
        s430_mats [11] = s430::roundtrip::<Mats>();
        s430_mat4s [18] = s430::roundtrip::<Mat4s>();
        s430_dmats [11] = s430::roundtrip::<DMats>();
        s430_dmat4s [18] = s430::roundtrip::<DMat4s>();
        s430_bools [6] = s430::roundtrip::<Bools>();
        s430_light [5] = s430::roundtrip::<Light>();
        s430_main [11] = s430::roundtrip::<Main>();
        s430_nested [6] = s430::roundtrip::<Nested>();
        s430_nestedd [6] = s430::roundtrip::<NestedD>();
        s430_deep [6] = s430::roundtrip::<Deep>();
        s430_twelve [3] = s430::roundtrip::<Twelve>();
        s430_long [6] = s430::roundtrip::<Long>();
        s430_padly [5] = s430::roundtrip::<Padly>();
        s430_f32_ [3] = s430::roundtrip::<f32>();
        s430_f64_ [3] = s430::roundtrip::<f64>();
        s430_i32_ [3] = s430::roundtrip::<i32>();
        s430_u32_ [3] = s430::roundtrip::<u32>();
        s430_bool_ [3] = s430::roundtrip::<bool>();
        s430_vec2 [4] = s430::roundtrip::<Vector2<f32>>();
        s430_vec3 [5] = s430::roundtrip::<Vector3<f32>>();
        s430_vec4 [6] = s430::roundtrip::<Vector4<f32>>();
        s430_point2 [4] = s430::roundtrip::<Point2<f32>>();
        s430_point3 [5] = s430::roundtrip::<Point3<f32>>();
        s430_dvec2 [4] = s430::roundtrip::<Vector2<f64>>();
        s430_dvec3 [5] = s430::roundtrip::<Vector3<f64>>();
        s430_dvec4 [6] = s430::roundtrip::<Vector4<f64>>();
        s430_dpoint2 [4] = s430::roundtrip::<Point2<f64>>();
        s430_dpoint3 [5] = s430::roundtrip::<Point3<f64>>();
        s430_ivec2 [4] = s430::roundtrip::<Vector2<i32>>();
        s430_ivec3 [5] = s430::roundtrip::<Vector3<i32>>();
        s430_ivec4 [6] = s430::roundtrip::<Vector4<i32>>();
        s430_ipoint2 [4] = s430::roundtrip::<Point2<i32>>();
        s430_ipoint3 [5] = s430::roundtrip::<Point3<i32>>();
        s430_uvec2 [4] = s430::roundtrip::<Vector2<u32>>();
        s430_uvec3 [5] = s430::roundtrip::<Vector3<u32>>();
        s430_uvec4 [6] = s430::roundtrip::<Vector4<u32>>();
        s430_upoint2 [4] = s430::roundtrip::<Point2<u32>>();
        s430_upoint3 [5] = s430::roundtrip::<Point3<u32>>();
        s430_bvec2 [4] = s430::roundtrip::<Vector2<bool>>();
        s430_bvec3 [5] = s430::roundtrip::<Vector3<bool>>();
        s430_bvec4 [6] = s430::roundtrip::<Vector4<bool>>();
        s430_bpoint2 [4] = s430::roundtrip::<Point2<bool>>();
        s430_bpoint3 [5] = s430::roundtrip::<Point3<bool>>();
        s430_mat2 [6] = s430::roundtrip::<ColumnMatrix2<f32>>();
        s430_mat3 [11] = s430::roundtrip::<ColumnMatrix3<f32>>();
        s430_mat4 [18] = s430::roundtrip::<ColumnMatrix4<f32>>();
        s430_dmat2 [6] = s430::roundtrip::<ColumnMatrix2<f64>>();
        s430_dmat3 [11] = s430::roundtrip::<ColumnMatrix3<f64>>();
        s430_dmat4 [18] = s430::roundtrip::<ColumnMatrix4<f64>>();
    }
    c18 {
        s140_one [6] = s140::readback::<One, 16>();
        s140_onevec3 [6] = s140::readback::<OneVec3, 16>();
        s140_onevec2 [6] = s140::readback::<OneVec2, 16>();
        s140_onedouble [6] = s140::readback::<OneDouble, 16>();
        s140_onedvec3 [10] = s140::readback::<OneDVec3, 32>();
        s140_onemat2 [10] = s140::readback::<OneMat2, 32>();
        s140_onebool [6] = s140::readback::<OneBool, 16>();
        s140_pair [6] = s140::readback::<Pair, 16>();
        s140_swap [10] = s140::readback::<Swap, 32>();
        s140_scalars [10] = s140::readback::<Scalars, 32>();
        s140_scalars2 [10] = s140::readback::<Scalars2, 32>();
        s140_vecs [18] = s140::readback::<Vecs, 64>();
        s140_vecs2 [30] = s140::readback::<Vecs2, 112>();
        s140_points [34] = s140::readback::<Points, 128>();
        s140_intvecs [26] = s140::readback::<IntVecs, 96>();
        s140_dvecs [34] = s140::readback::<DVecs, 128>();
        s140_mats [34] = s140::readback::<Mats, 128>();
        s140_mat4s [26] = s140::readback::<Mat4s, 96>();
        s140_dmats [50] = s140::readback::<DMats, 192>();
        s140_dmat4s [50] = s140::readback::<DMat4s, 192>();
        s140_bools [22] = s140::readback::<Bools, 80>();
        s140_light [10] = s140::readback::<Light, 32>();
        s140_main [18] = s140::readback::<Main, 64>();
        s140_nested [42] = s140::readback::<Nested, 160>();
        s140_nestedd [42] = s140::readback::<NestedD, 160>();
        s140_deep [90] = s140::readback::<Deep, 352>();
        s140_twelve [14] = s140::readback::<Twelve, 48>();
        s140_long [66] = s140::readback::<Long, 256>();
        s140_padly [18] = s140::readback::<Padly, 64>();
        s140_f32_ [3] = s140::readback::<f32, 4>();
        s140_f64_ [4] = s140::readback::<f64, 8>();
        s140_i32_ [3] = s140::readback::<i32, 4>();
        s140_u32_ [3] = s140::readback::<u32, 4>();
        s140_bool_ [3] = s140::readback::<bool, 4>();
        s140_vec2 [4] = s140::readback::<Vector2<f32>, 8>();
        s140_vec3 [5] = s140::readback::<Vector3<f32>, 12>();
        s140_vec4 [6] = s140::readback::<Vector4<f32>, 16>();
        s140_point2 [4] = s140::readback::<Point2<f32>, 8>();
        s140_point3 [5] = s140::readback::<Point3<f32>, 12>();
        s140_dvec2 [6] = s140::readback::<Vector2<f64>, 16>();
        s140_dvec3 [8] = s140::readback::<Vector3<f64>, 24>();
        s140_dvec4 [10] = s140::readback::<Vector4<f64>, 32>();
        s140_dpoint2 [6] = s140::readback::<Point2<f64>, 16>();
        s140_dpoint3 [8] = s140::readback::<Point3<f64>, 24>();
        s140_ivec2 [4] = s140::readback::<Vector2<i32>, 8>();
        s140_ivec3 [5] = s140::readback::<Vector3<i32>, 12>();
        s140_ivec4 [6] = s140::readback::<Vector4<i32>, 16>();
        s140_ipoint2 [4] = s140::readback::<Point2<i32>, 8>();
        s140_ipoint3 [5] = s140::readback::<Point3<i32>, 12>();
        s140_uvec2 [4] = s140::readback::<Vector2<u32>, 8>();
        s140_uvec3 [5] = s140::readback::<Vector3<u32>, 12>();
        s140_uvec4 [6] = s140::readback::<Vector4<u32>, 16>();
        s140_upoint2 [4] = s140::readback::<Point2<u32>, 8>();
        s140_upoint3 [5] = s140::readback::<Point3<u32>, 12>();
        s140_bvec2 [4] = s140::readback::<Vector2<bool>, 8>();
        s140_bvec3 [5] = s140::readback::<Vector3<bool>, 12>();
        s140_bvec4 [6] = s140::readback::<Vector4<bool>, 16>();
        s140_bpoint2 [4] = s140::readback::<Point2<bool>, 8>();
        s140_bpoint3 [5] = s140::readback::<Point3<bool>, 12>();
        s140_mat2 [10] = s140::readback::<ColumnMatrix2<f32>, 32>();
        s140_mat3 [14] = s140::readback::<ColumnMatrix3<f32>, 48>();
        s140_mat4 [18] = s140::readback::<ColumnMatrix4<f32>, 64>();
        s140_dmat2 [10] = s140::readback::<ColumnMatrix2<f64>, 32>();
        s140_dmat3 [26] = s140::readback::<ColumnMatrix3<f64>, 96>();
        s140_dmat4 [34] = s140::readback::<ColumnMatrix4<f64>, 128>();
        s430_one [3] = s430::readback::<One, 4>();
        s430_onevec3 [6] = s430::readback::<OneVec3, 16>();
        s430_onevec2 [4] = s430::readback::<OneVec2, 8>();
        s430_onedouble [4] = s430::readback::<OneDouble, 8>();
        s430_onedvec3 [10] = s430::readback::<OneDVec3, 32>();
        s430_onemat2 [6] = s430::readback::<OneMat2, 16>();
        s430_onebool [3] = s430::readback::<OneBool, 4>();
        s430_pair [4] = s430::readback::<Pair, 8>();
        s430_swap [8] = s430::readback::<Swap, 24>();
        s430_scalars [10] = s430::readback::<Scalars, 32>();
        s430_scalars2 [8] = s430::readback::<Scalars2, 24>();
        s430_vecs [18] = s430::readback::<Vecs, 64>();
        s430_vecs2 [30] = s430::readback::<Vecs2, 112>();
        s430_points [34] = s430::readback::<Points, 128>();
        s430_intvecs [26] = s430::readback::<IntVecs, 96>();
        s430_dvecs [34] = s430::readback::<DVecs, 128>();
        s430_mats [26] = s430::readback::<Mats, 96>();
        s430_mat4s [26] = s430::readback::<Mat4s, 96>();
        s430_dmats [50] = s430::readback::<DMats, 192>();
        s430_dmat4s [50] = s430::readback::<DMat4s, 192>();
        s430_bools [22] = s430::readback::<Bools, 80>();
        s430_light [10] = s430::readback::<Light, 32>();
        s430_main [18] = s430::readback::<Main, 64>();
        s430_nested [30] = s430::readback::<Nested, 112>();
        s430_nestedd [34] = s430::readback::<NestedD, 128>();
        s430_deep [82] = s430::readback::<Deep, 320>();
        s430_twelve [14] = s430::readback::<Twelve, 48>();
        s430_long [58] = s430::readback::<Long, 224>();
        s430_padly [18] = s430::readback::<Padly, 64>();
        s430_f32_ [3] = s430::readback::<f32, 4>();
        s430_f64_ [4] = s430::readback::<f64, 8>();
        s430_i32_ [3] = s430::readback::<i32, 4>();
        s430_u32_ [3] = s430::readback::<u32, 4>();
        s430_bool_ [3] = s430::readback::<bool, 4>();
        s430_vec2 [4] = s430::readback::<Vector2<f32>, 8>();
        s430_vec3 [5] = s430::readback::<Vector3<f32>, 12>();
        s430_vec4 [6] = s430::readback::<Vector4<f32>, 16>();
        s430_point2 [4] = s430::readback::<Point2<f32>, 8>();
        s430_point3 [5] = s430::readback::<Point3<f32>, 12>();
        s430_dvec2 [6] = s430::readback::<Vector2<f64>, 16>();
        s430_dvec3 [8] = s430::readback::<Vector3<f64>, 24>();
        s430_dvec4 [10] = s430::readback::<Vector4<f64>, 32>();
        s430_dpoint2 [6] = s430::readback::<Point2<f64>, 16>();
        s430_dpoint3 [8] = s430::readback::<Point3<f64>, 24>();
        s430_ivec2 [4] = s430::readback::<Vector2<i32>, 8>();
        s430_ivec3 [5] = s430::readback::<Vector3<i32>, 12>();
        s430_ivec4 [6] = s430::readback::<Vector4<i32>, 16>();
        s430_ipoint2 [4] = s430::readback::<Point2<i32>, 8>();
        s430_ipoint3 [5] = s430::readback::<Point3<i32>, 12>();
        s430_uvec2 [4] = s430::readback::<Vector2<u32>, 8>();
        s430_uvec3 [5] = s430::readback::<Vector3<u32>, 12>();
        s430_uvec4 [6] = s430::readback::<Vector4<u32>, 16>();
        s430_upoint2 [4] = s430::readback::<Point2<u32>, 8>();
        s430_upoint3 [5] = s430::readback::<Point3<u32>, 12>();
        s430_bvec2 [4] = s430::readback::<Vector2<bool>, 8>();
        s430_bvec3 [5] = s430::readback::<Vector3<bool>, 12>();
        s430_bvec4 [6] = s430::readback::<Vector4<bool>, 16>();
        s430_bpoint2 [4] = s430::readback::<Point2<bool>, 8>();
        s430_bpoint3 [5] = s430::readback::<Point3<bool>, 12>();
        s430_mat2 [6] = s430::readback::<ColumnMatrix2<f32>, 16>();
        s430_mat3 [14] = s430::readback::<ColumnMatrix3<f32>, 48>();
        s430_mat4 [18] = s430::readback::<ColumnMatrix4<f32>, 64>();
        s430_dmat2 [10] = s430::readback::<ColumnMatrix2<f64>, 32>();
        s430_dmat3 [26] = s430::readback::<ColumnMatrix3<f64>, 96>();
        s430_dmat4 [34] = s430::readback::<ColumnMatrix4<f64>, 128>();
    }
    #[cfg(feature = "mathlibs")]
    c07 {
        cgmath_vec2 [10] = both::like_glsl::<cgmath::Vector2<f32>>();
        cgmath_vec3 [10] = both::like_glsl::<cgmath::Vector3<f32>>();
        cgmath_vec4 [10] = both::like_glsl::<cgmath::Vector4<f32>>();
        cgmath_point2 [10] = both::like_glsl::<cgmath::Point2<f32>>();
        cgmath_point3 [10] = both::like_glsl::<cgmath::Point3<f32>>();
        cgmath_dvec2 [10] = both::like_glsl::<cgmath::Vector2<f64>>();
        cgmath_dvec3 [10] = both::like_glsl::<cgmath::Vector3<f64>>();
        cgmath_dvec4 [10] = both::like_glsl::<cgmath::Vector4<f64>>();
        cgmath_dpoint2 [10] = both::like_glsl::<cgmath::Point2<f64>>();
        cgmath_dpoint3 [10] = both::like_glsl::<cgmath::Point3<f64>>();
        cgmath_ivec2 [10] = both::like_glsl::<cgmath::Vector2<i32>>();
        cgmath_ivec3 [10] = both::like_glsl::<cgmath::Vector3<i32>>();
        cgmath_ivec4 [10] = both::like_glsl::<cgmath::Vector4<i32>>();
        cgmath_ipoint2 [10] = both::like_glsl::<cgmath::Point2<i32>>();
        cgmath_ipoint3 [10] = both::like_glsl::<cgmath::Point3<i32>>();
        cgmath_uvec2 [10] = both::like_glsl::<cgmath::Vector2<u32>>();
        cgmath_uvec3 [10] = both::like_glsl::<cgmath::Vector3<u32>>();
        cgmath_uvec4 [10] = both::like_glsl::<cgmath::Vector4<u32>>();
        cgmath_upoint2 [10] = both::like_glsl::<cgmath::Point2<u32>>();
        cgmath_upoint3 [10] = both::like_glsl::<cgmath::Point3<u32>>();
        cgmath_bvec2 [10] = both::like_glsl::<cgmath::Vector2<bool>>();
        cgmath_bvec3 [10] = both::like_glsl::<cgmath::Vector3<bool>>();
        cgmath_bvec4 [10] = both::like_glsl::<cgmath::Vector4<bool>>();
        cgmath_bpoint2 [10] = both::like_glsl::<cgmath::Point2<bool>>();
        cgmath_bpoint3 [10] = both::like_glsl::<cgmath::Point3<bool>>();
        cgmath_mat2 [10] = both::like_glsl::<cgmath::Matrix2<f32>>();
        cgmath_mat3 [11] = both::like_glsl::<cgmath::Matrix3<f32>>();
        cgmath_mat4 [18] = both::like_glsl::<cgmath::Matrix4<f32>>();
        cgmath_dmat2 [10] = both::like_glsl::<cgmath::Matrix2<f64>>();
        cgmath_dmat3 [11] = both::like_glsl::<cgmath::Matrix3<f64>>();
        cgmath_dmat4 [18] = both::like_glsl::<cgmath::Matrix4<f64>>();
        nalgebra_vec2 [10] = both::like_glsl::<nalgebra::Vector2<f32>>();
        nalgebra_vec3 [10] = both::like_glsl::<nalgebra::Vector3<f32>>();
        nalgebra_vec4 [10] = both::like_glsl::<nalgebra::Vector4<f32>>();
        nalgebra_point2 [10] = both::like_glsl::<nalgebra::Point2<f32>>();
        nalgebra_point3 [10] = both::like_glsl::<nalgebra::Point3<f32>>();
        nalgebra_dvec2 [10] = both::like_glsl::<nalgebra::Vector2<f64>>();
        nalgebra_dvec3 [10] = both::like_glsl::<nalgebra::Vector3<f64>>();
        nalgebra_dvec4 [10] = both::like_glsl::<nalgebra::Vector4<f64>>();
        nalgebra_dpoint2 [10] = both::like_glsl::<nalgebra::Point2<f64>>();
        nalgebra_dpoint3 [10] = both::like_glsl::<nalgebra::Point3<f64>>();
        nalgebra_ivec2 [10] = both::like_glsl::<nalgebra::Vector2<i32>>();
        nalgebra_ivec3 [10] = both::like_glsl::<nalgebra::Vector3<i32>>();
        nalgebra_ivec4 [10] = both::like_glsl::<nalgebra::Vector4<i32>>();
        nalgebra_ipoint2 [10] = both::like_glsl::<nalgebra::Point2<i32>>();
        nalgebra_ipoint3 [10] = both::like_glsl::<nalgebra::Point3<i32>>();
        nalgebra_uvec2 [10] = both::like_glsl::<nalgebra::Vector2<u32>>();
        nalgebra_uvec3 [10] = both::like_glsl::<nalgebra::Vector3<u32>>();
        nalgebra_uvec4 [10] = both::like_glsl::<nalgebra::Vector4<u32>>();
        nalgebra_upoint2 [10] = both::like_glsl::<nalgebra::Point2<u32>>();
        nalgebra_upoint3 [10] = both::like_glsl::<nalgebra::Point3<u32>>();
        nalgebra_bvec2 [10] = both::like_glsl::<nalgebra::Vector2<bool>>();
        nalgebra_bvec3 [10] = both::like_glsl::<nalgebra::Vector3<bool>>();
        nalgebra_bvec4 [10] = both::like_glsl::<nalgebra::Vector4<bool>>();
        nalgebra_bpoint2 [10] = both::like_glsl::<nalgebra::Point2<bool>>();
        nalgebra_bpoint3 [10] = both::like_glsl::<nalgebra::Point3<bool>>();
        nalgebra_mat2 [10] = both::like_glsl::<nalgebra::Matrix2<f32>>();
        nalgebra_mat3 [11] = both::like_glsl::<nalgebra::Matrix3<f32>>();
        nalgebra_mat4 [18] = both::like_glsl::<nalgebra::Matrix4<f32>>();
        nalgebra_dmat2 [10] = both::like_glsl::<nalgebra::Matrix2<f64>>();
        nalgebra_dmat3 [11] = both::like_glsl::<nalgebra::Matrix3<f64>>();
        nalgebra_dmat4 [18] = both::like_glsl::<nalgebra::Matrix4<f64>>();
        glam_vec2 [10] = both::like_glsl::<glam::Vec2>();
        glam_vec3 [10] = both::like_glsl::<glam::Vec3>();
        glam_vec4 [10] = both::like_glsl::<glam::Vec4>();
        glam_dvec2 [10] = both::like_glsl::<glam::DVec2>();
        glam_dvec3 [10] = both::like_glsl::<glam::DVec3>();
        glam_dvec4 [10] = both::like_glsl::<glam::DVec4>();
        glam_ivec2 [10] = both::like_glsl::<glam::IVec2>();
        glam_ivec3 [10] = both::like_glsl::<glam::IVec3>();
        glam_ivec4 [10] = both::like_glsl::<glam::IVec4>();
        glam_uvec2 [10] = both::like_glsl::<glam::UVec2>();
        glam_uvec3 [10] = both::like_glsl::<glam::UVec3>();
        glam_uvec4 [10] = both::like_glsl::<glam::UVec4>();
        glam_mat2 [10] = both::like_glsl::<glam::Mat2>();
        glam_mat3 [11] = both::like_glsl::<glam::Mat3>();
        glam_mat4 [18] = both::like_glsl::<glam::Mat4>();
        glam_dmat2 [10] = both::like_glsl::<glam::DMat2>();
        glam_dmat3 [11] = both::like_glsl::<glam::DMat3>();
        glam_dmat4 [18] = both::like_glsl::<glam::DMat4>();
    }
    c08 {
        s140_bool__out [6] = s140::bool_out::<bool>();
        s140_bool__in [6] = s140::bool_in::<bool, 4>();
        s140_bvec2_out [6] = s140::bool_out::<Vector2<bool>>();
        s140_bvec2_in [6] = s140::bool_in::<Vector2<bool>, 8>();
        s140_bvec3_out [6] = s140::bool_out::<Vector3<bool>>();
        s140_bvec3_in [6] = s140::bool_in::<Vector3<bool>, 12>();
        s140_bvec4_out [6] = s140::bool_out::<Vector4<bool>>();
        s140_bvec4_in [6] = s140::bool_in::<Vector4<bool>, 16>();
        s140_bpoint2_out [6] = s140::bool_out::<Point2<bool>>();
        s140_bpoint2_in [6] = s140::bool_in::<Point2<bool>, 8>();
        s140_bpoint3_out [6] = s140::bool_out::<Point3<bool>>();
        s140_bpoint3_in [6] = s140::bool_in::<Point3<bool>, 12>();
        s140_bools [22] = s140::readback::<Bools, 80>();
        s140_scalars [10] = s140::readback::<Scalars, 32>();
        s140_scalars2 [10] = s140::readback::<Scalars2, 32>();
        s140_onebool [6] = s140::readback::<OneBool, 16>();
        s430_bool__out [6] = s430::bool_out::<bool>();
        s430_bool__in [6] = s430::bool_in::<bool, 4>();
        s430_bvec2_out [6] = s430::bool_out::<Vector2<bool>>();
        s430_bvec2_in [6] = s430::bool_in::<Vector2<bool>, 8>();
        s430_bvec3_out [6] = s430::bool_out::<Vector3<bool>>();
        s430_bvec3_in [6] = s430::bool_in::<Vector3<bool>, 12>();
        s430_bvec4_out [6] = s430::bool_out::<Vector4<bool>>();
        s430_bvec4_in [6] = s430::bool_in::<Vector4<bool>, 16>();
        s430_bpoint2_out [6] = s430::bool_out::<Point2<bool>>();
        s430_bpoint2_in [6] = s430::bool_in::<Point2<bool>, 8>();
        s430_bpoint3_out [6] = s430::bool_out::<Point3<bool>>();
        s430_bpoint3_in [6] = s430::bool_in::<Point3<bool>, 12>();
        s430_bools [22] = s430::readback::<Bools, 80>();
        s430_scalars [10] = s430::readback::<Scalars, 32>();
        s430_scalars2 [8] = s430::readback::<Scalars2, 24>();
        s430_onebool [3] = s430::readback::<OneBool, 4>();
    }
    c09 {
        s140_f32_ [6] = s140::write_step::<f32>();
        s140_f64_ [10] = s140::write_step::<f64>();
        s140_i32_ [6] = s140::write_step::<i32>();
        s140_u32_ [6] = s140::write_step::<u32>();
        s140_bool_ [6] = s140::write_step::<bool>();
        s140_vec2 [10] = s140::write_step::<Vector2<f32>>();
        s140_vec3 [18] = s140::write_step::<Vector3<f32>>();
        s140_vec4 [18] = s140::write_step::<Vector4<f32>>();
        s140_point2 [10] = s140::write_step::<Point2<f32>>();
        s140_point3 [18] = s140::write_step::<Point3<f32>>();
        s140_dvec2 [18] = s140::write_step::<Vector2<f64>>();
        s140_dvec3 [34] = s140::write_step::<Vector3<f64>>();
        s140_dvec4 [34] = s140::write_step::<Vector4<f64>>();
        s140_dpoint2 [18] = s140::write_step::<Point2<f64>>();
        s140_dpoint3 [34] = s140::write_step::<Point3<f64>>();
        s140_ivec2 [10] = s140::write_step::<Vector2<i32>>();
        s140_ivec3 [18] = s140::write_step::<Vector3<i32>>();
        s140_ivec4 [18] = s140::write_step::<Vector4<i32>>();
        s140_ipoint2 [10] = s140::write_step::<Point2<i32>>();
        s140_ipoint3 [18] = s140::write_step::<Point3<i32>>();
        s140_uvec2 [10] = s140::write_step::<Vector2<u32>>();
        s140_uvec3 [18] = s140::write_step::<Vector3<u32>>();
        s140_uvec4 [18] = s140::write_step::<Vector4<u32>>();
        s140_upoint2 [10] = s140::write_step::<Point2<u32>>();
        s140_upoint3 [18] = s140::write_step::<Point3<u32>>();
        s140_bvec2 [10] = s140::write_step::<Vector2<bool>>();
        s140_bvec3 [18] = s140::write_step::<Vector3<bool>>();
        s140_bvec4 [18] = s140::write_step::<Vector4<bool>>();
        s140_bpoint2 [10] = s140::write_step::<Point2<bool>>();
        s140_bpoint3 [18] = s140::write_step::<Point3<bool>>();
        s140_mat2 [18] = s140::write_step::<ColumnMatrix2<f32>>();
        s140_mat3 [18] = s140::write_step::<ColumnMatrix3<f32>>();
        s140_mat4 [18] = s140::write_step::<ColumnMatrix4<f32>>();
        s140_dmat2 [18] = s140::write_step::<ColumnMatrix2<f64>>();
        s140_dmat3 [34] = s140::write_step::<ColumnMatrix3<f64>>();
        s140_dmat4 [34] = s140::write_step::<ColumnMatrix4<f64>>();
        s140_one [18] = s140::write_step::<One>();
        s140_onevec3 [18] = s140::write_step::<OneVec3>();
        s140_onevec2 [18] = s140::write_step::<OneVec2>();
        s140_onedouble [18] = s140::write_step::<OneDouble>();
        s140_onedvec3 [34] = s140::write_step::<OneDVec3>();
        s140_onemat2 [18] = s140::write_step::<OneMat2>();
        s140_onebool [18] = s140::write_step::<OneBool>();
        s140_pair [18] = s140::write_step::<Pair>();
        s140_swap [18] = s140::write_step::<Swap>();
        s140_scalars [18] = s140::write_step::<Scalars>();
        s140_scalars2 [18] = s140::write_step::<Scalars2>();
        s140_vecs [18] = s140::write_step::<Vecs>();
        s140_vecs2 [18] = s140::write_step::<Vecs2>();
        s140_points [34] = s140::write_step::<Points>();
        s140_intvecs [18] = s140::write_step::<IntVecs>();
        s140_dvecs [34] = s140::write_step::<DVecs>();
        s140_mats [18] = s140::write_step::<Mats>();
        s140_mat4s [18] = s140::write_step::<Mat4s>();
        s140_dmats [34] = s140::write_step::<DMats>();
        s140_dmat4s [34] = s140::write_step::<DMat4s>();
        s140_bools [18] = s140::write_step::<Bools>();
        s140_light [18] = s140::write_step::<Light>();
        s140_main [18] = s140::write_step::<Main>();
        s140_nested [18] = s140::write_step::<Nested>();
        s140_nestedd [34] = s140::write_step::<NestedD>();
        s140_deep [34] = s140::write_step::<Deep>();
        s140_twelve [18] = s140::write_step::<Twelve>();
        s140_long [34] = s140::write_step::<Long>();
        s140_padly [18] = s140::write_step::<Padly>();
        s140_own_vec3 [18] = s140::write_step::<crevice::std140::Vec3>();
        s140_blob5 [8] = s140::write_step::<Blob<5>>();
        s140_wide64 [66] = s140::write_step::<Wide<64>>();
        s140_seq_a [18] = s140::write_seq::<f32, Vector3<f32>, One>();
        s140_seq_b [18] = s140::write_seq::<Blob<3>, Vector2<f32>, f64>();
        s140_seq_c [34] = s140::write_seq::<u32, Vector3<f64>, Light>();
        s430_f32_ [6] = s430::write_step::<f32>();
        s430_f64_ [10] = s430::write_step::<f64>();
        s430_i32_ [6] = s430::write_step::<i32>();
        s430_u32_ [6] = s430::write_step::<u32>();
        s430_bool_ [6] = s430::write_step::<bool>();
        s430_vec2 [10] = s430::write_step::<Vector2<f32>>();
        s430_vec3 [18] = s430::write_step::<Vector3<f32>>();
        s430_vec4 [18] = s430::write_step::<Vector4<f32>>();
        s430_point2 [10] = s430::write_step::<Point2<f32>>();
        s430_point3 [18] = s430::write_step::<Point3<f32>>();
        s430_dvec2 [18] = s430::write_step::<Vector2<f64>>();
        s430_dvec3 [34] = s430::write_step::<Vector3<f64>>();
        s430_dvec4 [34] = s430::write_step::<Vector4<f64>>();
        s430_dpoint2 [18] = s430::write_step::<Point2<f64>>();
        s430_dpoint3 [34] = s430::write_step::<Point3<f64>>();
        s430_ivec2 [10] = s430::write_step::<Vector2<i32>>();
        s430_ivec3 [18] = s430::write_step::<Vector3<i32>>();
        s430_ivec4 [18] = s430::write_step::<Vector4<i32>>();
        s430_ipoint2 [10] = s430::write_step::<Point2<i32>>();
        s430_ipoint3 [18] = s430::write_step::<Point3<i32>>();
        s430_uvec2 [10] = s430::write_step::<Vector2<u32>>();
        s430_uvec3 [18] = s430::write_step::<Vector3<u32>>();
        s430_uvec4 [18] = s430::write_step::<Vector4<u32>>();
        s430_upoint2 [10] = s430::write_step::<Point2<u32>>();
        s430_upoint3 [18] = s430::write_step::<Point3<u32>>();
        s430_bvec2 [10] = s430::write_step::<Vector2<bool>>();
        s430_bvec3 [18] = s430::write_step::<Vector3<bool>>();
        s430_bvec4 [18] = s430::write_step::<Vector4<bool>>();
        s430_bpoint2 [10] = s430::write_step::<Point2<bool>>();
        s430_bpoint3 [18] = s430::write_step::<Point3<bool>>();
        s430_mat2 [10] = s430::write_step::<ColumnMatrix2<f32>>();
        s430_mat3 [18] = s430::write_step::<ColumnMatrix3<f32>>();
        s430_mat4 [18] = s430::write_step::<ColumnMatrix4<f32>>();
        s430_dmat2 [18] = s430::write_step::<ColumnMatrix2<f64>>();
        s430_dmat3 [34] = s430::write_step::<ColumnMatrix3<f64>>();
        s430_dmat4 [34] = s430::write_step::<ColumnMatrix4<f64>>();
        s430_one [6] = s430::write_step::<One>();
        s430_onevec3 [18] = s430::write_step::<OneVec3>();
        s430_onevec2 [10] = s430::write_step::<OneVec2>();
        s430_onedouble [10] = s430::write_step::<OneDouble>();
        s430_onedvec3 [34] = s430::write_step::<OneDVec3>();
        s430_onemat2 [10] = s430::write_step::<OneMat2>();
        s430_onebool [6] = s430::write_step::<OneBool>();
        s430_pair [6] = s430::write_step::<Pair>();
        s430_swap [10] = s430::write_step::<Swap>();
        s430_scalars [10] = s430::write_step::<Scalars>();
        s430_scalars2 [10] = s430::write_step::<Scalars2>();
        s430_vecs [18] = s430::write_step::<Vecs>();
        s430_vecs2 [18] = s430::write_step::<Vecs2>();
        s430_points [34] = s430::write_step::<Points>();
        s430_intvecs [18] = s430::write_step::<IntVecs>();
        s430_dvecs [34] = s430::write_step::<DVecs>();
        s430_mats [18] = s430::write_step::<Mats>();
        s430_mat4s [18] = s430::write_step::<Mat4s>();
        s430_dmats [34] = s430::write_step::<DMats>();
        s430_dmat4s [34] = s430::write_step::<DMat4s>();
        s430_bools [18] = s430::write_step::<Bools>();
        s430_light [18] = s430::write_step::<Light>();
        s430_main [18] = s430::write_step::<Main>();
        s430_nested [18] = s430::write_step::<Nested>();
        s430_nestedd [34] = s430::write_step::<NestedD>();
        s430_deep [34] = s430::write_step::<Deep>();
        s430_twelve [6] = s430::write_step::<Twelve>();
        s430_long [34] = s430::write_step::<Long>();
        s430_padly [18] = s430::write_step::<Padly>();
        s430_own_vec3 [18] = s430::write_step::<crevice::std430::Vec3>();
        s430_blob5 [8] = s430::write_step::<Blob<5>>();
        s430_wide64 [66] = s430::write_step::<Wide<64>>();
        s430_seq_a [18] = s430::write_seq::<f32, Vector3<f32>, One>();
        s430_seq_b [18] = s430::write_seq::<Blob<3>, Vector2<f32>, f64>();
        s430_seq_c [34] = s430::write_seq::<u32, Vector3<f64>, Light>();
    }
    c10 {
        s140_f32_slice [6] = s140::many::<f32, 3>(s140::Via::Slice);
        s140_f32_iter [6] = s140::many::<f32, 3>(s140::Via::Iter);
        s140_f32_lazyiter [6] = s140::many::<f32, 3>(s140::Via::LazyIter);
        s140_f32_filter [6] = s140::many::<f32, 3>(s140::Via::Filter);
        s140_f32_oldslice [6] = s140::many::<f32, 3>(s140::Via::OldSlice);
        s140_f64_slice [10] = s140::many::<f64, 2>(s140::Via::Slice);
        s140_f64_iter [10] = s140::many::<f64, 2>(s140::Via::Iter);
        s140_f64_lazyiter [10] = s140::many::<f64, 2>(s140::Via::LazyIter);
        s140_f64_filter [10] = s140::many::<f64, 2>(s140::Via::Filter);
        s140_f64_oldslice [10] = s140::many::<f64, 2>(s140::Via::OldSlice);
        s140_vec3_slice [18] = s140::many::<Vector3<f32>, 2>(s140::Via::Slice);
        s140_vec3_iter [18] = s140::many::<Vector3<f32>, 2>(s140::Via::Iter);
        s140_vec3_lazyiter [18] = s140::many::<Vector3<f32>, 2>(s140::Via::LazyIter);
        s140_vec3_filter [18] = s140::many::<Vector3<f32>, 2>(s140::Via::Filter);
        s140_vec3_oldslice [18] = s140::many::<Vector3<f32>, 2>(s140::Via::OldSlice);
        s140_light_slice [18] = s140::many::<Light, 2>(s140::Via::Slice);
        s140_light_iter [18] = s140::many::<Light, 2>(s140::Via::Iter);
        s140_light_lazyiter [18] = s140::many::<Light, 2>(s140::Via::LazyIter);
        s140_light_filter [18] = s140::many::<Light, 2>(s140::Via::Filter);
        s140_light_oldslice [18] = s140::many::<Light, 2>(s140::Via::OldSlice);
        s140_vec2_slice [10] = s140::many::<Vector2<f32>, 3>(s140::Via::Slice);
        s140_vec2_iter [10] = s140::many::<Vector2<f32>, 3>(s140::Via::Iter);
        s140_vec2_lazyiter [10] = s140::many::<Vector2<f32>, 3>(s140::Via::LazyIter);
        s140_vec2_filter [10] = s140::many::<Vector2<f32>, 3>(s140::Via::Filter);
        s140_vec2_oldslice [10] = s140::many::<Vector2<f32>, 3>(s140::Via::OldSlice);
        s140_mat2_slice [18] = s140::many::<ColumnMatrix2<f32>, 2>(s140::Via::Slice);
        s140_mat2_iter [18] = s140::many::<ColumnMatrix2<f32>, 2>(s140::Via::Iter);
        s140_mat2_lazyiter [18] = s140::many::<ColumnMatrix2<f32>, 2>(s140::Via::LazyIter);
        s140_mat2_filter [18] = s140::many::<ColumnMatrix2<f32>, 2>(s140::Via::Filter);
        s140_mat2_oldslice [18] = s140::many::<ColumnMatrix2<f32>, 2>(s140::Via::OldSlice);
        s140_bool_slice [6] = s140::many::<bool, 3>(s140::Via::Slice);
        s140_bool_iter [6] = s140::many::<bool, 3>(s140::Via::Iter);
        s140_bool_lazyiter [6] = s140::many::<bool, 3>(s140::Via::LazyIter);
        s140_bool_filter [6] = s140::many::<bool, 3>(s140::Via::Filter);
        s140_bool_oldslice [6] = s140::many::<bool, 3>(s140::Via::OldSlice);
        s140_mixed_small [6] = s140::many_mixed::<f32, u32>(2, 1);
        s140_mixed_scalar [6] = s140::many_mixed::<f32, u32>(2, 3);
        s140_mixed [10] = s140::many_mixed::<f32, f64>(2, 3);
        s140_f32_slice6 [8] = s140::many::<f32, 6>(s140::Via::Slice);
        s430_f32_slice [6] = s430::many::<f32, 3>(s430::Via::Slice);
        s430_f32_iter [6] = s430::many::<f32, 3>(s430::Via::Iter);
        s430_f32_lazyiter [6] = s430::many::<f32, 3>(s430::Via::LazyIter);
        s430_f32_filter [6] = s430::many::<f32, 3>(s430::Via::Filter);
        s430_f64_slice [10] = s430::many::<f64, 2>(s430::Via::Slice);
        s430_f64_iter [10] = s430::many::<f64, 2>(s430::Via::Iter);
        s430_f64_lazyiter [10] = s430::many::<f64, 2>(s430::Via::LazyIter);
        s430_f64_filter [10] = s430::many::<f64, 2>(s430::Via::Filter);
        s430_vec3_slice [18] = s430::many::<Vector3<f32>, 2>(s430::Via::Slice);
        s430_vec3_iter [18] = s430::many::<Vector3<f32>, 2>(s430::Via::Iter);
        s430_vec3_lazyiter [18] = s430::many::<Vector3<f32>, 2>(s430::Via::LazyIter);
        s430_vec3_filter [18] = s430::many::<Vector3<f32>, 2>(s430::Via::Filter);
        s430_light_slice [18] = s430::many::<Light, 2>(s430::Via::Slice);
        s430_light_iter [18] = s430::many::<Light, 2>(s430::Via::Iter);
        s430_light_lazyiter [18] = s430::many::<Light, 2>(s430::Via::LazyIter);
        s430_light_filter [18] = s430::many::<Light, 2>(s430::Via::Filter);
        s430_vec2_slice [10] = s430::many::<Vector2<f32>, 3>(s430::Via::Slice);
        s430_vec2_iter [10] = s430::many::<Vector2<f32>, 3>(s430::Via::Iter);
        s430_vec2_lazyiter [10] = s430::many::<Vector2<f32>, 3>(s430::Via::LazyIter);
        s430_vec2_filter [10] = s430::many::<Vector2<f32>, 3>(s430::Via::Filter);
        s430_mat2_slice [18] = s430::many::<ColumnMatrix2<f32>, 2>(s430::Via::Slice);
        s430_mat2_iter [18] = s430::many::<ColumnMatrix2<f32>, 2>(s430::Via::Iter);
        s430_mat2_lazyiter [18] = s430::many::<ColumnMatrix2<f32>, 2>(s430::Via::LazyIter);
        s430_mat2_filter [18] = s430::many::<ColumnMatrix2<f32>, 2>(s430::Via::Filter);
        s430_bool_slice [6] = s430::many::<bool, 3>(s430::Via::Slice);
        s430_bool_iter [6] = s430::many::<bool, 3>(s430::Via::Iter);
        s430_bool_lazyiter [6] = s430::many::<bool, 3>(s430::Via::LazyIter);
        s430_bool_filter [6] = s430::many::<bool, 3>(s430::Via::Filter);
        s430_mixed_small [6] = s430::many_mixed::<f32, u32>(2, 1);
        s430_mixed_scalar [6] = s430::many_mixed::<f32, u32>(2, 3);
        s430_mixed [10] = s430::many_mixed::<f32, f64>(2, 3);
        s430_f32_slice6 [8] = s430::many::<f32, 6>(s430::Via::Slice);
    }
    c11 {
        s140_f32_fault [6] = s140::fault_one::<f32>();
        s140_f32_short [6] = s140::short_one::<f32>(2);
        s140_f64_fault [10] = s140::fault_one::<f64>();
        s140_f64_short [10] = s140::short_one::<f64>(2);
        s140_vec3_fault [18] = s140::fault_one::<Vector3<f32>>();
        s140_vec3_short [18] = s140::short_one::<Vector3<f32>>(2);
        s140_light_fault [18] = s140::fault_one::<Light>();
        s140_light_short [18] = s140::short_one::<Light>(2);
        s140_mat3_fault [18] = s140::fault_one::<ColumnMatrix3<f32>>();
        s140_mat3_short [18] = s140::short_one::<ColumnMatrix3<f32>>(2);
        s140_dvec3_fault [34] = s140::fault_one::<Vector3<f64>>();
        s140_dvec3_short [34] = s140::short_one::<Vector3<f64>>(2);
        s140_scalars_fault [18] = s140::fault_one::<Scalars>();
        s140_scalars_short [18] = s140::short_one::<Scalars>(2);
        s140_f32_slice_fault [6] = s140::fault_many::<f32, 3>(s140::Via::Slice);
        s140_f32_iter_fault [6] = s140::fault_many::<f32, 3>(s140::Via::Iter);
        s140_f32_slice_short [6] = s140::short_many::<f32, 3>(2);
        s140_f64_slice_fault [10] = s140::fault_many::<f64, 2>(s140::Via::Slice);
        s140_f64_iter_fault [10] = s140::fault_many::<f64, 2>(s140::Via::Iter);
        s140_f64_slice_short [10] = s140::short_many::<f64, 2>(2);
        s140_vec3_slice_fault [18] = s140::fault_many::<Vector3<f32>, 2>(s140::Via::Slice);
        s140_vec3_iter_fault [18] = s140::fault_many::<Vector3<f32>, 2>(s140::Via::Iter);
        s140_vec3_slice_short [18] = s140::short_many::<Vector3<f32>, 2>(2);
        s140_f32_fault_std [6] = s140::fault_one_std::<f32>();
        s140_f32_short_std [6] = s140::short_one_std::<f32>(2);
        s430_f32_fault [6] = s430::fault_one::<f32>();
        s430_f32_short [6] = s430::short_one::<f32>(2);
        s430_f64_fault [10] = s430::fault_one::<f64>();
        s430_f64_short [10] = s430::short_one::<f64>(2);
        s430_vec3_fault [18] = s430::fault_one::<Vector3<f32>>();
        s430_vec3_short [18] = s430::short_one::<Vector3<f32>>(2);
        s430_light_fault [18] = s430::fault_one::<Light>();
        s430_light_short [18] = s430::short_one::<Light>(2);
        s430_mat3_fault [18] = s430::fault_one::<ColumnMatrix3<f32>>();
        s430_mat3_short [18] = s430::short_one::<ColumnMatrix3<f32>>(2);
        s430_dvec3_fault [34] = s430::fault_one::<Vector3<f64>>();
        s430_dvec3_short [34] = s430::short_one::<Vector3<f64>>(2);
        s430_scalars_fault [10] = s430::fault_one::<Scalars>();
        s430_scalars_short [10] = s430::short_one::<Scalars>(2);
        s430_f32_slice_fault [6] = s430::fault_many::<f32, 3>(s430::Via::Slice);
        s430_f32_iter_fault [6] = s430::fault_many::<f32, 3>(s430::Via::Iter);
        s430_f32_slice_short [6] = s430::short_many::<f32, 3>(2);
        s430_f64_slice_fault [10] = s430::fault_many::<f64, 2>(s430::Via::Slice);
        s430_f64_iter_fault [10] = s430::fault_many::<f64, 2>(s430::Via::Iter);
        s430_f64_slice_short [10] = s430::short_many::<f64, 2>(2);
        s430_vec3_slice_fault [18] = s430::fault_many::<Vector3<f32>, 2>(s430::Via::Slice);
        s430_vec3_iter_fault [18] = s430::fault_many::<Vector3<f32>, 2>(s430::Via::Iter);
        s430_vec3_slice_short [18] = s430::short_many::<Vector3<f32>, 2>(2);
        s430_f32_fault_std [6] = s430::fault_one_std::<f32>();
        s430_f32_short_std [6] = s430::short_one_std::<f32>(2);
    }
    c12 {
        s140_f32_ [6] = s140::size_one::<f32>();
        s140_f64_ [10] = s140::size_one::<f64>();
        s140_i32_ [6] = s140::size_one::<i32>();
        s140_u32_ [6] = s140::size_one::<u32>();
        s140_bool_ [6] = s140::size_one::<bool>();
        s140_vec2 [10] = s140::size_one::<Vector2<f32>>();
        s140_vec3 [18] = s140::size_one::<Vector3<f32>>();
        s140_vec4 [18] = s140::size_one::<Vector4<f32>>();
        s140_point2 [10] = s140::size_one::<Point2<f32>>();
        s140_point3 [18] = s140::size_one::<Point3<f32>>();
        s140_dvec2 [18] = s140::size_one::<Vector2<f64>>();
        s140_dvec3 [34] = s140::size_one::<Vector3<f64>>();
        s140_dvec4 [34] = s140::size_one::<Vector4<f64>>();
        s140_dpoint2 [18] = s140::size_one::<Point2<f64>>();
        s140_dpoint3 [34] = s140::size_one::<Point3<f64>>();
        s140_ivec2 [10] = s140::size_one::<Vector2<i32>>();
        s140_ivec3 [18] = s140::size_one::<Vector3<i32>>();
        s140_ivec4 [18] = s140::size_one::<Vector4<i32>>();
        s140_ipoint2 [10] = s140::size_one::<Point2<i32>>();
        s140_ipoint3 [18] = s140::size_one::<Point3<i32>>();
        s140_uvec2 [10] = s140::size_one::<Vector2<u32>>();
        s140_uvec3 [18] = s140::size_one::<Vector3<u32>>();
        s140_uvec4 [18] = s140::size_one::<Vector4<u32>>();
        s140_upoint2 [10] = s140::size_one::<Point2<u32>>();
        s140_upoint3 [18] = s140::size_one::<Point3<u32>>();
        s140_bvec2 [10] = s140::size_one::<Vector2<bool>>();
        s140_bvec3 [18] = s140::size_one::<Vector3<bool>>();
        s140_bvec4 [18] = s140::size_one::<Vector4<bool>>();
        s140_bpoint2 [10] = s140::size_one::<Point2<bool>>();
        s140_bpoint3 [18] = s140::size_one::<Point3<bool>>();
        s140_mat2 [18] = s140::size_one::<ColumnMatrix2<f32>>();
        s140_mat3 [18] = s140::size_one::<ColumnMatrix3<f32>>();
        s140_mat4 [18] = s140::size_one::<ColumnMatrix4<f32>>();
        s140_dmat2 [18] = s140::size_one::<ColumnMatrix2<f64>>();
        s140_dmat3 [34] = s140::size_one::<ColumnMatrix3<f64>>();
        s140_dmat4 [34] = s140::size_one::<ColumnMatrix4<f64>>();
        s140_one [18] = s140::size_one::<One>();
        s140_onevec3 [18] = s140::size_one::<OneVec3>();
        s140_onevec2 [18] = s140::size_one::<OneVec2>();
        s140_onedouble [18] = s140::size_one::<OneDouble>();
        s140_onedvec3 [34] = s140::size_one::<OneDVec3>();
        s140_onemat2 [18] = s140::size_one::<OneMat2>();
        s140_onebool [18] = s140::size_one::<OneBool>();
        s140_pair [18] = s140::size_one::<Pair>();
        s140_swap [18] = s140::size_one::<Swap>();
        s140_scalars [18] = s140::size_one::<Scalars>();
        s140_scalars2 [18] = s140::size_one::<Scalars2>();
        s140_vecs [18] = s140::size_one::<Vecs>();
        s140_vecs2 [18] = s140::size_one::<Vecs2>();
        s140_points [34] = s140::size_one::<Points>();
        s140_intvecs [18] = s140::size_one::<IntVecs>();
        s140_dvecs [34] = s140::size_one::<DVecs>();
        s140_mats [18] = s140::size_one::<Mats>();
        s140_mat4s [18] = s140::size_one::<Mat4s>();
        s140_dmats [34] = s140::size_one::<DMats>();
        s140_dmat4s [34] = s140::size_one::<DMat4s>();
        s140_bools [18] = s140::size_one::<Bools>();
        s140_light [18] = s140::size_one::<Light>();
        s140_main [18] = s140::size_one::<Main>();
        s140_nested [18] = s140::size_one::<Nested>();
        s140_nestedd [34] = s140::size_one::<NestedD>();
        s140_deep [34] = s140::size_one::<Deep>();
        s140_twelve [18] = s140::size_one::<Twelve>();
        s140_long [34] = s140::size_one::<Long>();
        s140_padly [18] = s140::size_one::<Padly>();
        s140_f32_slice [6] = s140::size_slice::<f32, 3>();
        s140_f64_slice [10] = s140::size_slice::<f64, 3>();
        s140_vec2_slice [10] = s140::size_slice::<Vector2<f32>, 3>();
        s140_vec3_slice [18] = s140::size_slice::<Vector3<f32>, 3>();
        s140_mat2_slice [18] = s140::size_slice::<ColumnMatrix2<f32>, 3>();
        s140_bvec3_slice [18] = s140::size_slice::<Vector3<bool>, 3>();
        s140_dvec3_slice [34] = s140::size_slice::<Vector3<f64>, 2>();
        s140_light_slice [18] = s140::size_slice::<Light, 3>();
        s140_one_slice [18] = s140::size_slice::<One, 3>();
        s140_scalars_slice [18] = s140::size_slice::<Scalars, 3>();
        s140_deep_slice [34] = s140::size_slice::<Deep, 2>();
        s140_mixed_f32_vec3 [18] = s140::size_mixed::<f32, Vector3<f32>, 2>();
        s140_mixed_u32_light [18] = s140::size_mixed::<u32, Light, 2>();
        s140_mixed_vec3_f32 [18] = s140::size_mixed::<Vector3<f32>, f32, 3>();
        s140_mixed_f32_f64 [18] = s140::size_mixed::<f32, f64, 3>();
        s140_f32_slice_long [6] = s140::size_slice::<f32, 6>();
        s140_vec3_slice_long [18] = s140::size_slice::<Vector3<f32>, 6>();
        s140_light_slice_long [18] = s140::size_slice::<Light, 5>();
        s430_f32_ [6] = s430::size_one::<f32>();
        s430_f64_ [10] = s430::size_one::<f64>();
        s430_i32_ [6] = s430::size_one::<i32>();
        s430_u32_ [6] = s430::size_one::<u32>();
        s430_bool_ [6] = s430::size_one::<bool>();
        s430_vec2 [10] = s430::size_one::<Vector2<f32>>();
        s430_vec3 [18] = s430::size_one::<Vector3<f32>>();
        s430_vec4 [18] = s430::size_one::<Vector4<f32>>();
        s430_point2 [10] = s430::size_one::<Point2<f32>>();
        s430_point3 [18] = s430::size_one::<Point3<f32>>();
        s430_dvec2 [18] = s430::size_one::<Vector2<f64>>();
        s430_dvec3 [34] = s430::size_one::<Vector3<f64>>();
        s430_dvec4 [34] = s430::size_one::<Vector4<f64>>();
        s430_dpoint2 [18] = s430::size_one::<Point2<f64>>();
        s430_dpoint3 [34] = s430::size_one::<Point3<f64>>();
        s430_ivec2 [10] = s430::size_one::<Vector2<i32>>();
        s430_ivec3 [18] = s430::size_one::<Vector3<i32>>();
        s430_ivec4 [18] = s430::size_one::<Vector4<i32>>();
        s430_ipoint2 [10] = s430::size_one::<Point2<i32>>();
        s430_ipoint3 [18] = s430::size_one::<Point3<i32>>();
        s430_uvec2 [10] = s430::size_one::<Vector2<u32>>();
        s430_uvec3 [18] = s430::size_one::<Vector3<u32>>();
        s430_uvec4 [18] = s430::size_one::<Vector4<u32>>();
        s430_upoint2 [10] = s430::size_one::<Point2<u32>>();
        s430_upoint3 [18] = s430::size_one::<Point3<u32>>();
        s430_bvec2 [10] = s430::size_one::<Vector2<bool>>();
        s430_bvec3 [18] = s430::size_one::<Vector3<bool>>();
        s430_bvec4 [18] = s430::size_one::<Vector4<bool>>();
        s430_bpoint2 [10] = s430::size_one::<Point2<bool>>();
        s430_bpoint3 [18] = s430::size_one::<Point3<bool>>();
        s430_mat2 [10] = s430::size_one::<ColumnMatrix2<f32>>();
        s430_mat3 [18] = s430::size_one::<ColumnMatrix3<f32>>();
        s430_mat4 [18] = s430::size_one::<ColumnMatrix4<f32>>();
        s430_dmat2 [18] = s430::size_one::<ColumnMatrix2<f64>>();
        s430_dmat3 [34] = s430::size_one::<ColumnMatrix3<f64>>();
        s430_dmat4 [34] = s430::size_one::<ColumnMatrix4<f64>>();
        s430_one [6] = s430::size_one::<One>();
        s430_onevec3 [18] = s430::size_one::<OneVec3>();
        s430_onevec2 [10] = s430::size_one::<OneVec2>();
        s430_onedouble [10] = s430::size_one::<OneDouble>();
        s430_onedvec3 [34] = s430::size_one::<OneDVec3>();
        s430_onemat2 [10] = s430::size_one::<OneMat2>();
        s430_onebool [6] = s430::size_one::<OneBool>();
        s430_pair [6] = s430::size_one::<Pair>();
        s430_swap [10] = s430::size_one::<Swap>();
        s430_scalars [10] = s430::size_one::<Scalars>();
        s430_scalars2 [10] = s430::size_one::<Scalars2>();
        s430_vecs [18] = s430::size_one::<Vecs>();
        s430_vecs2 [18] = s430::size_one::<Vecs2>();
        s430_points [34] = s430::size_one::<Points>();
        s430_intvecs [18] = s430::size_one::<IntVecs>();
        s430_dvecs [34] = s430::size_one::<DVecs>();
        s430_mats [18] = s430::size_one::<Mats>();
        s430_mat4s [18] = s430::size_one::<Mat4s>();
        s430_dmats [34] = s430::size_one::<DMats>();
        s430_dmat4s [34] = s430::size_one::<DMat4s>();
        s430_bools [18] = s430::size_one::<Bools>();
        s430_light [18] = s430::size_one::<Light>();
        s430_main [18] = s430::size_one::<Main>();
        s430_nested [18] = s430::size_one::<Nested>();
        s430_nestedd [34] = s430::size_one::<NestedD>();
        s430_deep [34] = s430::size_one::<Deep>();
        s430_twelve [6] = s430::size_one::<Twelve>();
        s430_long [34] = s430::size_one::<Long>();
        s430_padly [18] = s430::size_one::<Padly>();
        s430_f32_slice [6] = s430::size_slice::<f32, 3>();
        s430_f64_slice [10] = s430::size_slice::<f64, 3>();
        s430_vec2_slice [10] = s430::size_slice::<Vector2<f32>, 3>();
        s430_vec3_slice [18] = s430::size_slice::<Vector3<f32>, 3>();
        s430_mat2_slice [10] = s430::size_slice::<ColumnMatrix2<f32>, 3>();
        s430_bvec3_slice [18] = s430::size_slice::<Vector3<bool>, 3>();
        s430_dvec3_slice [34] = s430::size_slice::<Vector3<f64>, 2>();
        s430_light_slice [18] = s430::size_slice::<Light, 3>();
        s430_one_slice [6] = s430::size_slice::<One, 3>();
        s430_scalars_slice [10] = s430::size_slice::<Scalars, 3>();
        s430_deep_slice [34] = s430::size_slice::<Deep, 2>();
        s430_mixed_f32_vec3 [18] = s430::size_mixed::<f32, Vector3<f32>, 2>();
        s430_mixed_u32_light [18] = s430::size_mixed::<u32, Light, 2>();
        s430_mixed_vec3_f32 [18] = s430::size_mixed::<Vector3<f32>, f32, 3>();
        s430_mixed_f32_f64 [18] = s430::size_mixed::<f32, f64, 3>();
        s430_f32_slice_long [6] = s430::size_slice::<f32, 6>();
        s430_vec3_slice_long [18] = s430::size_slice::<Vector3<f32>, 6>();
        s430_light_slice_long [18] = s430::size_slice::<Light, 5>();
    }
    c13 {
        s140_f32_ [6] = s140::sizer_step::<f32>();
        s140_f64_ [10] = s140::sizer_step::<f64>();
        s140_i32_ [6] = s140::sizer_step::<i32>();
        s140_u32_ [6] = s140::sizer_step::<u32>();
        s140_bool_ [6] = s140::sizer_step::<bool>();
        s140_vec2 [10] = s140::sizer_step::<Vector2<f32>>();
        s140_vec3 [18] = s140::sizer_step::<Vector3<f32>>();
        s140_vec4 [18] = s140::sizer_step::<Vector4<f32>>();
        s140_point2 [10] = s140::sizer_step::<Point2<f32>>();
        s140_point3 [18] = s140::sizer_step::<Point3<f32>>();
        s140_dvec2 [18] = s140::sizer_step::<Vector2<f64>>();
        s140_dvec3 [34] = s140::sizer_step::<Vector3<f64>>();
        s140_dvec4 [34] = s140::sizer_step::<Vector4<f64>>();
        s140_dpoint2 [18] = s140::sizer_step::<Point2<f64>>();
        s140_dpoint3 [34] = s140::sizer_step::<Point3<f64>>();
        s140_ivec2 [10] = s140::sizer_step::<Vector2<i32>>();
        s140_ivec3 [18] = s140::sizer_step::<Vector3<i32>>();
        s140_ivec4 [18] = s140::sizer_step::<Vector4<i32>>();
        s140_ipoint2 [10] = s140::sizer_step::<Point2<i32>>();
        s140_ipoint3 [18] = s140::sizer_step::<Point3<i32>>();
        s140_uvec2 [10] = s140::sizer_step::<Vector2<u32>>();
        s140_uvec3 [18] = s140::sizer_step::<Vector3<u32>>();
        s140_uvec4 [18] = s140::sizer_step::<Vector4<u32>>();
        s140_upoint2 [10] = s140::sizer_step::<Point2<u32>>();
        s140_upoint3 [18] = s140::sizer_step::<Point3<u32>>();
        s140_bvec2 [10] = s140::sizer_step::<Vector2<bool>>();
        s140_bvec3 [18] = s140::sizer_step::<Vector3<bool>>();
        s140_bvec4 [18] = s140::sizer_step::<Vector4<bool>>();
        s140_bpoint2 [10] = s140::sizer_step::<Point2<bool>>();
        s140_bpoint3 [18] = s140::sizer_step::<Point3<bool>>();
        s140_mat2 [18] = s140::sizer_step::<ColumnMatrix2<f32>>();
        s140_mat3 [18] = s140::sizer_step::<ColumnMatrix3<f32>>();
        s140_mat4 [18] = s140::sizer_step::<ColumnMatrix4<f32>>();
        s140_dmat2 [18] = s140::sizer_step::<ColumnMatrix2<f64>>();
        s140_dmat3 [34] = s140::sizer_step::<ColumnMatrix3<f64>>();
        s140_dmat4 [34] = s140::sizer_step::<ColumnMatrix4<f64>>();
        s140_one [18] = s140::sizer_step::<One>();
        s140_onevec3 [18] = s140::sizer_step::<OneVec3>();
        s140_onevec2 [18] = s140::sizer_step::<OneVec2>();
        s140_onedouble [18] = s140::sizer_step::<OneDouble>();
        s140_onedvec3 [34] = s140::sizer_step::<OneDVec3>();
        s140_onemat2 [18] = s140::sizer_step::<OneMat2>();
        s140_onebool [18] = s140::sizer_step::<OneBool>();
        s140_pair [18] = s140::sizer_step::<Pair>();
        s140_swap [18] = s140::sizer_step::<Swap>();
        s140_scalars [18] = s140::sizer_step::<Scalars>();
        s140_scalars2 [18] = s140::sizer_step::<Scalars2>();
        s140_vecs [18] = s140::sizer_step::<Vecs>();
        s140_vecs2 [18] = s140::sizer_step::<Vecs2>();
        s140_points [34] = s140::sizer_step::<Points>();
        s140_intvecs [18] = s140::sizer_step::<IntVecs>();
        s140_dvecs [34] = s140::sizer_step::<DVecs>();
        s140_mats [18] = s140::sizer_step::<Mats>();
        s140_mat4s [18] = s140::sizer_step::<Mat4s>();
        s140_dmats [34] = s140::sizer_step::<DMats>();
        s140_dmat4s [34] = s140::sizer_step::<DMat4s>();
        s140_bools [18] = s140::sizer_step::<Bools>();
        s140_light [18] = s140::sizer_step::<Light>();
        s140_main [18] = s140::sizer_step::<Main>();
        s140_nested [18] = s140::sizer_step::<Nested>();
        s140_nestedd [34] = s140::sizer_step::<NestedD>();
        s140_deep [34] = s140::sizer_step::<Deep>();
        s140_twelve [18] = s140::sizer_step::<Twelve>();
        s140_long [34] = s140::sizer_step::<Long>();
        s140_padly [18] = s140::sizer_step::<Padly>();
        s140_seq_a [18] = s140::sizer_seq::<f32, Vector3<f32>, Light>();
        s140_seq_b [18] = s140::sizer_seq::<Blob<3>, Vector2<f32>, f64>();
        s140_seq_c [34] = s140::sizer_seq::<u32, Vector3<f64>, OneVec2>();
        s430_f32_ [6] = s430::sizer_step::<f32>();
        s430_f64_ [10] = s430::sizer_step::<f64>();
        s430_i32_ [6] = s430::sizer_step::<i32>();
        s430_u32_ [6] = s430::sizer_step::<u32>();
        s430_bool_ [6] = s430::sizer_step::<bool>();
        s430_vec2 [10] = s430::sizer_step::<Vector2<f32>>();
        s430_vec3 [18] = s430::sizer_step::<Vector3<f32>>();
        s430_vec4 [18] = s430::sizer_step::<Vector4<f32>>();
        s430_point2 [10] = s430::sizer_step::<Point2<f32>>();
        s430_point3 [18] = s430::sizer_step::<Point3<f32>>();
        s430_dvec2 [18] = s430::sizer_step::<Vector2<f64>>();
        s430_dvec3 [34] = s430::sizer_step::<Vector3<f64>>();
        s430_dvec4 [34] = s430::sizer_step::<Vector4<f64>>();
        s430_dpoint2 [18] = s430::sizer_step::<Point2<f64>>();
        s430_dpoint3 [34] = s430::sizer_step::<Point3<f64>>();
        s430_ivec2 [10] = s430::sizer_step::<Vector2<i32>>();
        s430_ivec3 [18] = s430::sizer_step::<Vector3<i32>>();
        s430_ivec4 [18] = s430::sizer_step::<Vector4<i32>>();
        s430_ipoint2 [10] = s430::sizer_step::<Point2<i32>>();
        s430_ipoint3 [18] = s430::sizer_step::<Point3<i32>>();
        s430_uvec2 [10] = s430::sizer_step::<Vector2<u32>>();
        s430_uvec3 [18] = s430::sizer_step::<Vector3<u32>>();
        s430_uvec4 [18] = s430::sizer_step::<Vector4<u32>>();
        s430_upoint2 [10] = s430::sizer_step::<Point2<u32>>();
        s430_upoint3 [18] = s430::sizer_step::<Point3<u32>>();
        s430_bvec2 [10] = s430::sizer_step::<Vector2<bool>>();
        s430_bvec3 [18] = s430::sizer_step::<Vector3<bool>>();
        s430_bvec4 [18] = s430::sizer_step::<Vector4<bool>>();
        s430_bpoint2 [10] = s430::sizer_step::<Point2<bool>>();
        s430_bpoint3 [18] = s430::sizer_step::<Point3<bool>>();
        s430_mat2 [10] = s430::sizer_step::<ColumnMatrix2<f32>>();
        s430_mat3 [18] = s430::sizer_step::<ColumnMatrix3<f32>>();
        s430_mat4 [18] = s430::sizer_step::<ColumnMatrix4<f32>>();
        s430_dmat2 [18] = s430::sizer_step::<ColumnMatrix2<f64>>();
        s430_dmat3 [34] = s430::sizer_step::<ColumnMatrix3<f64>>();
        s430_dmat4 [34] = s430::sizer_step::<ColumnMatrix4<f64>>();
        s430_one [6] = s430::sizer_step::<One>();
        s430_onevec3 [18] = s430::sizer_step::<OneVec3>();
        s430_onevec2 [10] = s430::sizer_step::<OneVec2>();
        s430_onedouble [10] = s430::sizer_step::<OneDouble>();
        s430_onedvec3 [34] = s430::sizer_step::<OneDVec3>();
        s430_onemat2 [10] = s430::sizer_step::<OneMat2>();
        s430_onebool [6] = s430::sizer_step::<OneBool>();
        s430_pair [6] = s430::sizer_step::<Pair>();
        s430_swap [10] = s430::sizer_step::<Swap>();
        s430_scalars [10] = s430::sizer_step::<Scalars>();
        s430_scalars2 [10] = s430::sizer_step::<Scalars2>();
        s430_vecs [18] = s430::sizer_step::<Vecs>();
        s430_vecs2 [18] = s430::sizer_step::<Vecs2>();
        s430_points [34] = s430::sizer_step::<Points>();
        s430_intvecs [18] = s430::sizer_step::<IntVecs>();
        s430_dvecs [34] = s430::sizer_step::<DVecs>();
        s430_mats [18] = s430::sizer_step::<Mats>();
        s430_mat4s [18] = s430::sizer_step::<Mat4s>();
        s430_dmats [34] = s430::sizer_step::<DMats>();
        s430_dmat4s [34] = s430::sizer_step::<DMat4s>();
        s430_bools [18] = s430::sizer_step::<Bools>();
        s430_light [18] = s430::sizer_step::<Light>();
        s430_main [18] = s430::sizer_step::<Main>();
        s430_nested [18] = s430::sizer_step::<Nested>();
        s430_nestedd [34] = s430::sizer_step::<NestedD>();
        s430_deep [34] = s430::sizer_step::<Deep>();
        s430_twelve [6] = s430::sizer_step::<Twelve>();
        s430_long [34] = s430::sizer_step::<Long>();
        s430_padly [18] = s430::sizer_step::<Padly>();
        s430_seq_a [18] = s430::sizer_seq::<f32, Vector3<f32>, Light>();
        s430_seq_b [18] = s430::sizer_seq::<Blob<3>, Vector2<f32>, f64>();
        s430_seq_c [34] = s430::sizer_seq::<u32, Vector3<f64>, OneVec2>();
    }
    c14 {
        f32__image [3] = s140::image::<DynamicUniform<f32>>();
        f32__roundtrip [3] = s140::roundtrip::<DynamicUniform<f32>>();
        f32__sizer [260] = s140::sizer_add::<DynamicUniform<f32>>();
        f32__readback [3] = s140::readback::<DynamicUniform<f32>, 4>();
        f64__image [3] = s140::image::<DynamicUniform<f64>>();
        f64__roundtrip [3] = s140::roundtrip::<DynamicUniform<f64>>();
        f64__sizer [260] = s140::sizer_add::<DynamicUniform<f64>>();
        f64__readback [4] = s140::readback::<DynamicUniform<f64>, 8>();
        vec3_image [5] = s140::image::<DynamicUniform<Vector3<f32>>>();
        vec3_roundtrip [5] = s140::roundtrip::<DynamicUniform<Vector3<f32>>>();
        vec3_sizer [260] = s140::sizer_add::<DynamicUniform<Vector3<f32>>>();
        vec3_readback [5] = s140::readback::<DynamicUniform<Vector3<f32>>, 12>();
        bool__image [3] = s140::image::<DynamicUniform<bool>>();
        bool__roundtrip [3] = s140::roundtrip::<DynamicUniform<bool>>();
        bool__sizer [260] = s140::sizer_add::<DynamicUniform<bool>>();
        bool__readback [3] = s140::readback::<DynamicUniform<bool>, 4>();
        mat3_image [11] = s140::image::<DynamicUniform<ColumnMatrix3<f32>>>();
        mat3_roundtrip [11] = s140::roundtrip::<DynamicUniform<ColumnMatrix3<f32>>>();
        mat3_sizer [260] = s140::sizer_add::<DynamicUniform<ColumnMatrix3<f32>>>();
        mat3_readback [14] = s140::readback::<DynamicUniform<ColumnMatrix3<f32>>, 48>();
        dmat4_image [18] = s140::image::<DynamicUniform<ColumnMatrix4<f64>>>();
        dmat4_roundtrip [18] = s140::roundtrip::<DynamicUniform<ColumnMatrix4<f64>>>();
        dmat4_sizer [260] = s140::sizer_add::<DynamicUniform<ColumnMatrix4<f64>>>();
        dmat4_readback [34] = s140::readback::<DynamicUniform<ColumnMatrix4<f64>>, 128>();
        light_image [5] = s140::image::<DynamicUniform<Light>>();
        light_roundtrip [5] = s140::roundtrip::<DynamicUniform<Light>>();
        light_sizer [260] = s140::sizer_add::<DynamicUniform<Light>>();
        light_readback [10] = s140::readback::<DynamicUniform<Light>, 32>();
        onedvec3_image [5] = s140::image::<DynamicUniform<OneDVec3>>();
        onedvec3_roundtrip [5] = s140::roundtrip::<DynamicUniform<OneDVec3>>();
        onedvec3_sizer [260] = s140::sizer_add::<DynamicUniform<OneDVec3>>();
        onedvec3_readback [10] = s140::readback::<DynamicUniform<OneDVec3>, 32>();
        deep_image [6] = s140::image::<DynamicUniform<Deep>>();
        deep_roundtrip [6] = s140::roundtrip::<DynamicUniform<Deep>>();
        deep_sizer [260] = s140::sizer_add::<DynamicUniform<Deep>>();
        deep_readback [90] = s140::readback::<DynamicUniform<Deep>, 352>();
        bools_image [6] = s140::image::<DynamicUniform<Bools>>();
        bools_roundtrip [6] = s140::roundtrip::<DynamicUniform<Bools>>();
        bools_sizer [260] = s140::sizer_add::<DynamicUniform<Bools>>();
        bools_readback [22] = s140::readback::<DynamicUniform<Bools>, 80>();
        f32__near [34] = s140::write_near::<DynamicUniform<f32>, 32>();
        f32__at1 [260] = s140::write_at::<DynamicUniform<f32>, 1>();
        f32__at4 [260] = s140::write_at::<DynamicUniform<f32>, 4>();
        f32__at100 [260] = s140::write_at::<DynamicUniform<f32>, 100>();
        f32__at252 [260] = s140::write_at::<DynamicUniform<f32>, 252>();
        f32__at256 [260] = s140::write_at::<DynamicUniform<f32>, 256>();
        f32__at260 [260] = s140::write_at::<DynamicUniform<f32>, 260>();
        f32__far [260] = s140::write_step::<DynamicUniform<f32>>();
        vec3_near [34] = s140::write_near::<DynamicUniform<Vector3<f32>>, 32>();
        vec3_at1 [260] = s140::write_at::<DynamicUniform<Vector3<f32>>, 1>();
        vec3_at4 [260] = s140::write_at::<DynamicUniform<Vector3<f32>>, 4>();
        vec3_at100 [260] = s140::write_at::<DynamicUniform<Vector3<f32>>, 100>();
        vec3_at252 [260] = s140::write_at::<DynamicUniform<Vector3<f32>>, 252>();
        vec3_at256 [260] = s140::write_at::<DynamicUniform<Vector3<f32>>, 256>();
        vec3_at260 [260] = s140::write_at::<DynamicUniform<Vector3<f32>>, 260>();
        vec3_far [260] = s140::write_step::<DynamicUniform<Vector3<f32>>>();
        light_near [34] = s140::write_near::<DynamicUniform<Light>, 32>();
        light_at1 [260] = s140::write_at::<DynamicUniform<Light>, 1>();
        light_at4 [260] = s140::write_at::<DynamicUniform<Light>, 4>();
        light_at100 [260] = s140::write_at::<DynamicUniform<Light>, 100>();
        light_at252 [260] = s140::write_at::<DynamicUniform<Light>, 252>();
        light_at256 [260] = s140::write_at::<DynamicUniform<Light>, 256>();
        light_at260 [260] = s140::write_at::<DynamicUniform<Light>, 260>();
        light_far [260] = s140::write_step::<DynamicUniform<Light>>();
        wide512 [6] = dynamic_align::<Wide<512>, 512>();
        wide128 [6] = dynamic_align::<Wide<128>, 256>();
        wide256 [6] = dynamic_align::<Wide<256>, 256>();
        wide32 [6] = dynamic_align::<Vector3<f64>, 256>();
        slice [260] = dynamic_pair::<Light>();
    }
    c15 {
        hand_0_1_1 [13] = glsl::hand::<0, 1, 1>();
        hand_1_1_1 [13] = glsl::hand::<1, 1, 1>();
        hand_1_4_8 [13] = glsl::hand::<1, 4, 8>();
        hand_1_8_3 [13] = glsl::hand::<1, 8, 3>();
        hand_2_3_2 [13] = glsl::hand::<2, 3, 2>();
        hand_3_1_5 [13] = glsl::hand::<3, 1, 5>();
        hand_3_8_8 [13] = glsl::hand::<3, 8, 8>();
        hand_4_2_1 [13] = glsl::hand::<4, 2, 1>();
        hand_4_7_6 [13] = glsl::hand::<4, 7, 6>();
        hand_6_5_8 [13] = glsl::hand::<6, 5, 8>();
        hand_6_1_1 [13] = glsl::hand::<6, 1, 1>();
        text_g0 [13] = glsl::text::<glsl::G0>();
        list_g0 [13] = glsl::list::<glsl::G0>();
        text_g1 [13] = glsl::text::<glsl::G1>();
        list_g1 [13] = glsl::list::<glsl::G1>();
        text_gl_3x_ [13] = glsl::text::<glsl::Gl_3x_>();
        list_gl_3x_ [13] = glsl::list::<glsl::Gl_3x_>();
        text_raw_type [13] = glsl::text::<glsl::r#type>();
        list_raw_type [13] = glsl::list::<glsl::r#type>();
        text_snake [13] = glsl::text::<glsl::snake>();
        list_snake [13] = glsl::list::<glsl::snake>();
        text_g9 [13] = glsl::text::<glsl::G9>();
        list_g9 [13] = glsl::list::<glsl::G9>();
        text_real [48] = glsl::text::<glsl::Real>();
        list_real [48] = glsl::list::<glsl::Real>();
    }
    c16 {
        f32_ [10] = both::named::<f32>();
        f64_ [10] = both::named::<f64>();
        i32_ [10] = both::named::<i32>();
        u32_ [10] = both::named::<u32>();
        vec2 [10] = both::named::<Vector2<f32>>();
        vec3 [10] = both::named::<Vector3<f32>>();
        vec4 [10] = both::named::<Vector4<f32>>();
        point2 [10] = both::named::<Point2<f32>>();
        point3 [10] = both::named::<Point3<f32>>();
        dvec2 [10] = both::named::<Vector2<f64>>();
        dvec3 [10] = both::named::<Vector3<f64>>();
        dvec4 [10] = both::named::<Vector4<f64>>();
        dpoint2 [10] = both::named::<Point2<f64>>();
        dpoint3 [10] = both::named::<Point3<f64>>();
        ivec2 [10] = both::named::<Vector2<i32>>();
        ivec3 [10] = both::named::<Vector3<i32>>();
        ivec4 [10] = both::named::<Vector4<i32>>();
        ipoint2 [10] = both::named::<Point2<i32>>();
        ipoint3 [10] = both::named::<Point3<i32>>();
        uvec2 [10] = both::named::<Vector2<u32>>();
        uvec3 [10] = both::named::<Vector3<u32>>();
        uvec4 [10] = both::named::<Vector4<u32>>();
        upoint2 [10] = both::named::<Point2<u32>>();
        upoint3 [10] = both::named::<Point3<u32>>();
        bvec2 [10] = both::named::<Vector2<bool>>();
        bvec3 [10] = both::named::<Vector3<bool>>();
        bvec4 [10] = both::named::<Vector4<bool>>();
        bpoint2 [10] = both::named::<Point2<bool>>();
        bpoint3 [10] = both::named::<Point3<bool>>();
        mat2 [10] = both::named::<ColumnMatrix2<f32>>();
        mat3 [11] = both::named::<ColumnMatrix3<f32>>();
        mat4 [18] = both::named::<ColumnMatrix4<f32>>();
        dmat2 [10] = both::named::<ColumnMatrix2<f64>>();
        dmat3 [11] = both::named::<ColumnMatrix3<f64>>();
        dmat4 [18] = both::named::<ColumnMatrix4<f64>>();
        s140_own_vec2 [10] = s140::named::<crevice::std140::Vec2>();
        s430_own_vec2 [10] = s430::named::<crevice::std430::Vec2>();
        s140_own_vec3 [10] = s140::named::<crevice::std140::Vec3>();
        s430_own_vec3 [10] = s430::named::<crevice::std430::Vec3>();
        s140_own_vec4 [10] = s140::named::<crevice::std140::Vec4>();
        s430_own_vec4 [10] = s430::named::<crevice::std430::Vec4>();
        s140_own_dvec2 [10] = s140::named::<crevice::std140::DVec2>();
        s430_own_dvec2 [10] = s430::named::<crevice::std430::DVec2>();
        s140_own_dvec3 [10] = s140::named::<crevice::std140::DVec3>();
        s430_own_dvec3 [10] = s430::named::<crevice::std430::DVec3>();
        s140_own_dvec4 [10] = s140::named::<crevice::std140::DVec4>();
        s430_own_dvec4 [10] = s430::named::<crevice::std430::DVec4>();
        s140_own_ivec2 [10] = s140::named::<crevice::std140::IVec2>();
        s430_own_ivec2 [10] = s430::named::<crevice::std430::IVec2>();
        s140_own_ivec3 [10] = s140::named::<crevice::std140::IVec3>();
        s430_own_ivec3 [10] = s430::named::<crevice::std430::IVec3>();
        s140_own_ivec4 [10] = s140::named::<crevice::std140::IVec4>();
        s430_own_ivec4 [10] = s430::named::<crevice::std430::IVec4>();
        s140_own_uvec2 [10] = s140::named::<crevice::std140::UVec2>();
        s430_own_uvec2 [10] = s430::named::<crevice::std430::UVec2>();
        s140_own_uvec3 [10] = s140::named::<crevice::std140::UVec3>();
        s430_own_uvec3 [10] = s430::named::<crevice::std430::UVec3>();
        s140_own_uvec4 [10] = s140::named::<crevice::std140::UVec4>();
        s430_own_uvec4 [10] = s430::named::<crevice::std430::UVec4>();
        s140_own_bvec2 [10] = s140::named::<crevice::std140::BVec2>();
        s430_own_bvec2 [10] = s430::named::<crevice::std430::BVec2>();
        s140_own_bvec3 [10] = s140::named::<crevice::std140::BVec3>();
        s430_own_bvec3 [10] = s430::named::<crevice::std430::BVec3>();
        s140_own_bvec4 [10] = s140::named::<crevice::std140::BVec4>();
        s430_own_bvec4 [10] = s430::named::<crevice::std430::BVec4>();
        s140_own_mat2 [10] = s140::named::<crevice::std140::Mat2>();
        s430_own_mat2 [10] = s430::named::<crevice::std430::Mat2>();
        s140_own_mat3 [11] = s140::named::<crevice::std140::Mat3>();
        s430_own_mat3 [11] = s430::named::<crevice::std430::Mat3>();
        s140_own_mat4 [18] = s140::named::<crevice::std140::Mat4>();
        s430_own_mat4 [18] = s430::named::<crevice::std430::Mat4>();
        s140_own_dmat2 [10] = s140::named::<crevice::std140::DMat2>();
        s430_own_dmat2 [10] = s430::named::<crevice::std430::DMat2>();
        s140_own_dmat3 [11] = s140::named::<crevice::std140::DMat3>();
        s430_own_dmat3 [11] = s430::named::<crevice::std430::DMat3>();
        s140_own_dmat4 [18] = s140::named::<crevice::std140::DMat4>();
        s430_own_dmat4 [18] = s430::named::<crevice::std430::DMat4>();
        s140_one [10] = s140::declared::<One>();
        s430_one [10] = s430::declared::<One>();
        s140_onevec3 [10] = s140::declared::<OneVec3>();
        s430_onevec3 [10] = s430::declared::<OneVec3>();
        s140_onevec2 [10] = s140::declared::<OneVec2>();
        s430_onevec2 [10] = s430::declared::<OneVec2>();
        s140_onedouble [10] = s140::declared::<OneDouble>();
        s430_onedouble [10] = s430::declared::<OneDouble>();
        s140_onedvec3 [10] = s140::declared::<OneDVec3>();
        s430_onedvec3 [10] = s430::declared::<OneDVec3>();
        s140_onemat2 [10] = s140::declared::<OneMat2>();
        s430_onemat2 [10] = s430::declared::<OneMat2>();
        s140_pair [10] = s140::declared::<Pair>();
        s430_pair [10] = s430::declared::<Pair>();
        s140_swap [10] = s140::declared::<Swap>();
        s430_swap [10] = s430::declared::<Swap>();
        s140_vecs [10] = s140::declared::<Vecs>();
        s430_vecs [10] = s430::declared::<Vecs>();
        s140_vecs2 [10] = s140::declared::<Vecs2>();
        s430_vecs2 [10] = s430::declared::<Vecs2>();
        s140_points [10] = s140::declared::<Points>();
        s430_points [10] = s430::declared::<Points>();
        s140_intvecs [10] = s140::declared::<IntVecs>();
        s430_intvecs [10] = s430::declared::<IntVecs>();
        s140_dvecs [10] = s140::declared::<DVecs>();
        s430_dvecs [10] = s430::declared::<DVecs>();
        s140_mats [11] = s140::declared::<Mats>();
        s430_mats [11] = s430::declared::<Mats>();
        s140_mat4s [18] = s140::declared::<Mat4s>();
        s430_mat4s [18] = s430::declared::<Mat4s>();
        s140_dmats [11] = s140::declared::<DMats>();
        s430_dmats [11] = s430::declared::<DMats>();
        s140_light [10] = s140::declared::<Light>();
        s430_light [10] = s430::declared::<Light>();
        s140_main [11] = s140::declared::<Main>();
        s430_main [11] = s430::declared::<Main>();
        s140_twelve [14] = s140::declared::<Twelve>();
        s430_twelve [14] = s430::declared::<Twelve>();
        s140_padly [10] = s140::declared::<Padly>();
        s430_padly [10] = s430::declared::<Padly>();
    }
    #[cfg(feature = "mathlibs")]
    c16m {
        cgmath_vec2 [10] = both::named::<cgmath::Vector2<f32>>();
        cgmath_vec3 [10] = both::named::<cgmath::Vector3<f32>>();
        cgmath_vec4 [10] = both::named::<cgmath::Vector4<f32>>();
        cgmath_point2 [10] = both::named::<cgmath::Point2<f32>>();
        cgmath_point3 [10] = both::named::<cgmath::Point3<f32>>();
        cgmath_dvec2 [10] = both::named::<cgmath::Vector2<f64>>();
        cgmath_dvec3 [10] = both::named::<cgmath::Vector3<f64>>();
        cgmath_dvec4 [10] = both::named::<cgmath::Vector4<f64>>();
        cgmath_dpoint2 [10] = both::named::<cgmath::Point2<f64>>();
        cgmath_dpoint3 [10] = both::named::<cgmath::Point3<f64>>();
        cgmath_ivec2 [10] = both::named::<cgmath::Vector2<i32>>();
        cgmath_ivec3 [10] = both::named::<cgmath::Vector3<i32>>();
        cgmath_ivec4 [10] = both::named::<cgmath::Vector4<i32>>();
        cgmath_ipoint2 [10] = both::named::<cgmath::Point2<i32>>();
        cgmath_ipoint3 [10] = both::named::<cgmath::Point3<i32>>();
        cgmath_uvec2 [10] = both::named::<cgmath::Vector2<u32>>();
        cgmath_uvec3 [10] = both::named::<cgmath::Vector3<u32>>();
        cgmath_uvec4 [10] = both::named::<cgmath::Vector4<u32>>();
        cgmath_upoint2 [10] = both::named::<cgmath::Point2<u32>>();
        cgmath_upoint3 [10] = both::named::<cgmath::Point3<u32>>();
        cgmath_bvec2 [10] = both::named::<cgmath::Vector2<bool>>();
        cgmath_bvec3 [10] = both::named::<cgmath::Vector3<bool>>();
        cgmath_bvec4 [10] = both::named::<cgmath::Vector4<bool>>();
        cgmath_bpoint2 [10] = both::named::<cgmath::Point2<bool>>();
        cgmath_bpoint3 [10] = both::named::<cgmath::Point3<bool>>();
        cgmath_mat2 [10] = both::named::<cgmath::Matrix2<f32>>();
        cgmath_mat3 [11] = both::named::<cgmath::Matrix3<f32>>();
        cgmath_mat4 [18] = both::named::<cgmath::Matrix4<f32>>();
        cgmath_dmat2 [10] = both::named::<cgmath::Matrix2<f64>>();
        cgmath_dmat3 [11] = both::named::<cgmath::Matrix3<f64>>();
        cgmath_dmat4 [18] = both::named::<cgmath::Matrix4<f64>>();
        nalgebra_vec2 [10] = both::named::<nalgebra::Vector2<f32>>();
        nalgebra_vec3 [10] = both::named::<nalgebra::Vector3<f32>>();
        nalgebra_vec4 [10] = both::named::<nalgebra::Vector4<f32>>();
        nalgebra_point2 [10] = both::named::<nalgebra::Point2<f32>>();
        nalgebra_point3 [10] = both::named::<nalgebra::Point3<f32>>();
        nalgebra_dvec2 [10] = both::named::<nalgebra::Vector2<f64>>();
        nalgebra_dvec3 [10] = both::named::<nalgebra::Vector3<f64>>();
        nalgebra_dvec4 [10] = both::named::<nalgebra::Vector4<f64>>();
        nalgebra_dpoint2 [10] = both::named::<nalgebra::Point2<f64>>();
        nalgebra_dpoint3 [10] = both::named::<nalgebra::Point3<f64>>();
        nalgebra_ivec2 [10] = both::named::<nalgebra::Vector2<i32>>();
        nalgebra_ivec3 [10] = both::named::<nalgebra::Vector3<i32>>();
        nalgebra_ivec4 [10] = both::named::<nalgebra::Vector4<i32>>();
        nalgebra_ipoint2 [10] = both::named::<nalgebra::Point2<i32>>();
        nalgebra_ipoint3 [10] = both::named::<nalgebra::Point3<i32>>();
        nalgebra_uvec2 [10] = both::named::<nalgebra::Vector2<u32>>();
        nalgebra_uvec3 [10] = both::named::<nalgebra::Vector3<u32>>();
        nalgebra_uvec4 [10] = both::named::<nalgebra::Vector4<u32>>();
        nalgebra_upoint2 [10] = both::named::<nalgebra::Point2<u32>>();
        nalgebra_upoint3 [10] = both::named::<nalgebra::Point3<u32>>();
        nalgebra_bvec2 [10] = both::named::<nalgebra::Vector2<bool>>();
        nalgebra_bvec3 [10] = both::named::<nalgebra::Vector3<bool>>();
        nalgebra_bvec4 [10] = both::named::<nalgebra::Vector4<bool>>();
        nalgebra_bpoint2 [10] = both::named::<nalgebra::Point2<bool>>();
        nalgebra_bpoint3 [10] = both::named::<nalgebra::Point3<bool>>();
        nalgebra_mat2 [10] = both::named::<nalgebra::Matrix2<f32>>();
        nalgebra_mat3 [11] = both::named::<nalgebra::Matrix3<f32>>();
        nalgebra_mat4 [18] = both::named::<nalgebra::Matrix4<f32>>();
        nalgebra_dmat2 [10] = both::named::<nalgebra::Matrix2<f64>>();
        nalgebra_dmat3 [11] = both::named::<nalgebra::Matrix3<f64>>();
        nalgebra_dmat4 [18] = both::named::<nalgebra::Matrix4<f64>>();
        glam_vec2 [10] = both::named::<glam::Vec2>();
        glam_vec3 [10] = both::named::<glam::Vec3>();
        glam_vec4 [10] = both::named::<glam::Vec4>();
        glam_dvec2 [10] = both::named::<glam::DVec2>();
        glam_dvec3 [10] = both::named::<glam::DVec3>();
        glam_dvec4 [10] = both::named::<glam::DVec4>();
        glam_ivec2 [10] = both::named::<glam::IVec2>();
        glam_ivec3 [10] = both::named::<glam::IVec3>();
        glam_ivec4 [10] = both::named::<glam::IVec4>();
        glam_uvec2 [10] = both::named::<glam::UVec2>();
        glam_uvec3 [10] = both::named::<glam::UVec3>();
        glam_uvec4 [10] = both::named::<glam::UVec4>();
        glam_mat2 [10] = both::named::<glam::Mat2>();
        glam_mat3 [11] = both::named::<glam::Mat3>();
        glam_mat4 [18] = both::named::<glam::Mat4>();
        glam_dmat2 [10] = both::named::<glam::DMat2>();
        glam_dmat3 [11] = both::named::<glam::DMat3>();
        glam_dmat4 [18] = both::named::<glam::DMat4>();
    }
    c17 {
        s140_f32_ [18] = s140::array::<f32, 3>();
        s140_f32__packed [18] = s140::packed::<f32, 3>();
        s140_f64_ [18] = s140::array::<f64, 3>();
        s140_f64__packed [18] = s140::packed::<f64, 3>();
        s140_i32_ [18] = s140::array::<i32, 3>();
        s140_i32__packed [18] = s140::packed::<i32, 3>();
        s140_u32_ [18] = s140::array::<u32, 3>();
        s140_u32__packed [18] = s140::packed::<u32, 3>();
        s140_bool_ [18] = s140::array::<bool, 3>();
        s140_bool__packed [18] = s140::packed::<bool, 3>();
        s140_vec2 [18] = s140::array::<Vector2<f32>, 3>();
        s140_vec2_packed [18] = s140::packed::<Vector2<f32>, 3>();
        s140_vec3 [18] = s140::array::<Vector3<f32>, 2>();
        s140_vec4 [18] = s140::array::<Vector4<f32>, 2>();
        s140_point2 [18] = s140::array::<Point2<f32>, 3>();
        s140_point2_packed [18] = s140::packed::<Point2<f32>, 3>();
        s140_point3 [18] = s140::array::<Point3<f32>, 2>();
        s140_dvec2 [18] = s140::array::<Vector2<f64>, 2>();
        s140_dvec3 [34] = s140::array::<Vector3<f64>, 2>();
        s140_dvec4 [34] = s140::array::<Vector4<f64>, 2>();
        s140_dpoint2 [18] = s140::array::<Point2<f64>, 2>();
        s140_dpoint3 [34] = s140::array::<Point3<f64>, 2>();
        s140_ivec2 [18] = s140::array::<Vector2<i32>, 3>();
        s140_ivec2_packed [18] = s140::packed::<Vector2<i32>, 3>();
        s140_ivec3 [18] = s140::array::<Vector3<i32>, 2>();
        s140_ivec4 [18] = s140::array::<Vector4<i32>, 2>();
        s140_ipoint2 [18] = s140::array::<Point2<i32>, 3>();
        s140_ipoint2_packed [18] = s140::packed::<Point2<i32>, 3>();
        s140_ipoint3 [18] = s140::array::<Point3<i32>, 2>();
        s140_uvec2 [18] = s140::array::<Vector2<u32>, 3>();
        s140_uvec2_packed [18] = s140::packed::<Vector2<u32>, 3>();
        s140_uvec3 [18] = s140::array::<Vector3<u32>, 2>();
        s140_uvec4 [18] = s140::array::<Vector4<u32>, 2>();
        s140_upoint2 [18] = s140::array::<Point2<u32>, 3>();
        s140_upoint2_packed [18] = s140::packed::<Point2<u32>, 3>();
        s140_upoint3 [18] = s140::array::<Point3<u32>, 2>();
        s140_bvec2 [18] = s140::array::<Vector2<bool>, 3>();
        s140_bvec2_packed [18] = s140::packed::<Vector2<bool>, 3>();
        s140_bvec3 [18] = s140::array::<Vector3<bool>, 2>();
        s140_bvec4 [18] = s140::array::<Vector4<bool>, 2>();
        s140_bpoint2 [18] = s140::array::<Point2<bool>, 3>();
        s140_bpoint2_packed [18] = s140::packed::<Point2<bool>, 3>();
        s140_bpoint3 [18] = s140::array::<Point3<bool>, 2>();
        s140_mat2 [18] = s140::array::<ColumnMatrix2<f32>, 2>();
        s140_mat3 [18] = s140::array::<ColumnMatrix3<f32>, 2>();
        s140_mat4 [18] = s140::array::<ColumnMatrix4<f32>, 2>();
        s140_dmat2 [18] = s140::array::<ColumnMatrix2<f64>, 2>();
        s140_dmat3 [34] = s140::array::<ColumnMatrix3<f64>, 2>();
        s140_dmat4 [34] = s140::array::<ColumnMatrix4<f64>, 2>();
        s140_one [18] = s140::array::<One, 2>();
        s140_onevec3 [18] = s140::array::<OneVec3, 2>();
        s140_onevec2 [18] = s140::array::<OneVec2, 2>();
        s140_onedouble [18] = s140::array::<OneDouble, 2>();
        s140_onedvec3 [34] = s140::array::<OneDVec3, 2>();
        s140_onemat2 [18] = s140::array::<OneMat2, 2>();
        s140_onebool [18] = s140::array::<OneBool, 2>();
        s140_pair [18] = s140::array::<Pair, 2>();
        s140_swap [18] = s140::array::<Swap, 2>();
        s140_scalars [18] = s140::array::<Scalars, 2>();
        s140_scalars2 [18] = s140::array::<Scalars2, 2>();
        s140_vecs [18] = s140::array::<Vecs, 2>();
        s140_vecs2 [18] = s140::array::<Vecs2, 2>();
        s140_points [34] = s140::array::<Points, 2>();
        s140_intvecs [18] = s140::array::<IntVecs, 2>();
        s140_dvecs [34] = s140::array::<DVecs, 2>();
        s140_mats [18] = s140::array::<Mats, 2>();
        s140_mat4s [18] = s140::array::<Mat4s, 2>();
        s140_dmats [34] = s140::array::<DMats, 2>();
        s140_dmat4s [34] = s140::array::<DMat4s, 2>();
        s140_bools [18] = s140::array::<Bools, 2>();
        s140_light [18] = s140::array::<Light, 2>();
        s140_main [18] = s140::array::<Main, 2>();
        s140_nested [18] = s140::array::<Nested, 2>();
        s140_nestedd [34] = s140::array::<NestedD, 2>();
        s140_deep [34] = s140::array::<Deep, 2>();
        s140_twelve [18] = s140::array::<Twelve, 2>();
        s140_long [34] = s140::array::<Long, 2>();
        s140_padly [18] = s140::array::<Padly, 2>();
        s430_f32_ [6] = s430::array::<f32, 3>();
        s430_f64_ [10] = s430::array::<f64, 3>();
        s430_i32_ [6] = s430::array::<i32, 3>();
        s430_u32_ [6] = s430::array::<u32, 3>();
        s430_bool_ [6] = s430::array::<bool, 3>();
        s430_vec2 [10] = s430::array::<Vector2<f32>, 3>();
        s430_vec3 [18] = s430::array::<Vector3<f32>, 2>();
        s430_vec4 [18] = s430::array::<Vector4<f32>, 2>();
        s430_point2 [10] = s430::array::<Point2<f32>, 3>();
        s430_point3 [18] = s430::array::<Point3<f32>, 2>();
        s430_dvec2 [18] = s430::array::<Vector2<f64>, 2>();
        s430_dvec3 [34] = s430::array::<Vector3<f64>, 2>();
        s430_dvec4 [34] = s430::array::<Vector4<f64>, 2>();
        s430_dpoint2 [18] = s430::array::<Point2<f64>, 2>();
        s430_dpoint3 [34] = s430::array::<Point3<f64>, 2>();
        s430_ivec2 [10] = s430::array::<Vector2<i32>, 3>();
        s430_ivec3 [18] = s430::array::<Vector3<i32>, 2>();
        s430_ivec4 [18] = s430::array::<Vector4<i32>, 2>();
        s430_ipoint2 [10] = s430::array::<Point2<i32>, 3>();
        s430_ipoint3 [18] = s430::array::<Point3<i32>, 2>();
        s430_uvec2 [10] = s430::array::<Vector2<u32>, 3>();
        s430_uvec3 [18] = s430::array::<Vector3<u32>, 2>();
        s430_uvec4 [18] = s430::array::<Vector4<u32>, 2>();
        s430_upoint2 [10] = s430::array::<Point2<u32>, 3>();
        s430_upoint3 [18] = s430::array::<Point3<u32>, 2>();
        s430_bvec2 [10] = s430::array::<Vector2<bool>, 3>();
        s430_bvec3 [18] = s430::array::<Vector3<bool>, 2>();
        s430_bvec4 [18] = s430::array::<Vector4<bool>, 2>();
        s430_bpoint2 [10] = s430::array::<Point2<bool>, 3>();
        s430_bpoint3 [18] = s430::array::<Point3<bool>, 2>();
        s430_mat2 [10] = s430::array::<ColumnMatrix2<f32>, 3>();
        s430_mat3 [18] = s430::array::<ColumnMatrix3<f32>, 2>();
        s430_mat4 [18] = s430::array::<ColumnMatrix4<f32>, 2>();
        s430_dmat2 [18] = s430::array::<ColumnMatrix2<f64>, 2>();
        s430_dmat3 [34] = s430::array::<ColumnMatrix3<f64>, 2>();
        s430_dmat4 [34] = s430::array::<ColumnMatrix4<f64>, 2>();
        s430_one [6] = s430::array::<One, 3>();
        s430_onevec3 [18] = s430::array::<OneVec3, 2>();
        s430_onevec2 [10] = s430::array::<OneVec2, 3>();
        s430_onedouble [10] = s430::array::<OneDouble, 3>();
        s430_onedvec3 [34] = s430::array::<OneDVec3, 2>();
        s430_onemat2 [10] = s430::array::<OneMat2, 3>();
        s430_onebool [6] = s430::array::<OneBool, 3>();
        s430_pair [6] = s430::array::<Pair, 3>();
        s430_swap [10] = s430::array::<Swap, 3>();
        s430_scalars [10] = s430::array::<Scalars, 3>();
        s430_scalars2 [10] = s430::array::<Scalars2, 3>();
        s430_vecs [18] = s430::array::<Vecs, 2>();
        s430_vecs2 [18] = s430::array::<Vecs2, 2>();
        s430_points [34] = s430::array::<Points, 2>();
        s430_intvecs [18] = s430::array::<IntVecs, 2>();
        s430_dvecs [34] = s430::array::<DVecs, 2>();
        s430_mats [18] = s430::array::<Mats, 2>();
        s430_mat4s [18] = s430::array::<Mat4s, 2>();
        s430_dmats [34] = s430::array::<DMats, 2>();
        s430_dmat4s [34] = s430::array::<DMat4s, 2>();
        s430_bools [18] = s430::array::<Bools, 2>();
        s430_light [18] = s430::array::<Light, 2>();
        s430_main [18] = s430::array::<Main, 2>();
        s430_nested [18] = s430::array::<Nested, 2>();
        s430_nestedd [34] = s430::array::<NestedD, 2>();
        s430_deep [34] = s430::array::<Deep, 2>();
        s430_twelve [6] = s430::array::<Twelve, 3>();
        s430_long [34] = s430::array::<Long, 2>();
        s430_padly [18] = s430::array::<Padly, 2>();
    }
}
