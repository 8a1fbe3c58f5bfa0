//! Narrow input exclusions for recorded defects (known-findings.json); each has a probe elsewhere.
#![allow(unused_variables)]
use vortex::compute::Operator;
use vortex::Array;
use vortex_dtype::DType;

use crate::model::V;

pub fn avoid_encoding(e: &str, dt: &DType, vals: &[V]) -> bool {
    e == "view" && vals.iter().any(has_f32_snan)
}

fn is_f32_snan(b: u32) -> bool {
    f32::from_bits(b).is_nan() && b & 0x0040_0000 == 0
}
/// C11-f32-snan: single values (constants, fill values) that are signalling f32 NaNs come back quiet.
fn has_f32_snan(v: &V) -> bool {
    match v {
        V::F32(b) => is_f32_snan(*b),
        V::Struct(f) => f.iter().any(has_f32_snan),
        _ => false,
    }
}
/// Replaces the values of C11-f32-snan.
pub fn quiet(v: &mut V) {
    match v {
        V::F32(b) if is_f32_snan(*b) => *b |= 0x0040_0000,
        V::Struct(f) => f.iter_mut().for_each(quiet),
        _ => {}
    }
}
pub fn refusal_ok(e: &str, dt: &DType, vals: &[V], msg: &str) -> bool {
    false
}
pub fn avoid_slice(a: &Array, dt: &DType, s: usize, t: usize) -> bool {
    false
}
pub fn avoid_take(a: &Array, dt: &DType, idx: &[usize], ia: &Array) -> bool {
    false
}
pub fn avoid_filter(a: &Array, dt: &DType, m: &[bool], ma: &Array) -> bool {
    false
}
pub fn select_refusal_ok(op: &str, a: &Array, dt: &DType, msg: &str) -> bool {
    false
}
pub fn avoid_compare(l: &Array, r: &Array, op: Operator, lv: &[V], rv: &[V]) -> bool {
    false
}
pub fn compare_refusal_ok(dt: &DType, msg: &str) -> bool {
    false
}
pub fn avoid_search(a: &Array, dt: &DType, vals: &[V], x: &V) -> bool {
    false
}
pub fn avoid_search_u64(a: &Array, dt: &DType, vals: &[V], x: u64) -> bool {
    false
}
pub fn search_refusal_ok(a: &Array, dt: &DType, msg: &str) -> bool {
    false
}
pub fn avoid_cast(a: &Array, dt: &DType, tdt: &DType, vals: &[V]) -> bool {
    false
}
pub fn cast_refusal_ok(a: &Array, dt: &DType, tdt: &DType, msg: &str) -> bool {
    not_implemented(msg)
}
pub fn fill_refusal_ok(a: &Array, dt: &DType, msg: &str) -> bool {
    not_implemented(msg)
}
pub fn avoid_sub(a: &Array, dt: &DType, vals: &[V], s: &V) -> bool {
    false
}
pub fn sub_refusal_ok(a: &Array, dt: &DType, msg: &str) -> bool {
    not_implemented(msg)
}

/// An operation that an encoding doesn't offer is refused, which is no wrong answer.
fn not_implemented(msg: &str) -> bool {
    msg.contains("not implemented for")
}

/// True when the recorded finding still occurs.
pub fn probe(id: &str) -> bool {
    match id {
        "C11-f32-snan" => {
            use vortex::compute::unary::scalar_at;
            use vortex::IntoArray;
            let v = f32::from_bits(0x7f800001);
            let a = vortex::array::ConstantArray::new(v, 3).into_array();
            let b = crate::ipc::roundtrip_one(&a).ok().flatten();
            let got = b.and_then(|b| scalar_at(&b, 0).ok()).and_then(|s| f32::try_from(&s).ok());
            got.map(f32::to_bits) != Some(0x7f800001)
        }
        "C17-f32-snan" => {
            let v = f32::from_bits(0x7f800001);
            let s = vortex_scalar::Scalar::from(v);
            let b = flexbuffers::to_vec(&s).unwrap();
            let t: Option<vortex_scalar::Scalar> = flexbuffers::from_slice(&b).ok();
            t.and_then(|t| f32::try_from(&t).ok()).map(f32::to_bits) != Some(0x7f800001)
        }
        "C13-null-rows" => crate::props_serde::null_rows_probe(),
        _ => {
            eprintln!("unknown probe {id}");
            std::process::exit(0);
        }
    }
}
