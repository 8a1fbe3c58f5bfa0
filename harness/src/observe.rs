//! Reading an array by every public route, and comparing each with the model.
use arrow_array::cast::AsArray;
use arrow_array::types::*;
use arrow_array::{Array as ArrowArray, ArrayRef};
use arrow_schema::{DataType, TimeUnit as ATU};
use half::f16;
use vortex::accessor::ArrayAccessor;
use vortex::array::{
    BoolArray, ExtensionArray, PrimitiveArray, StructArray, VarBinArray, VarBinViewArray,
};
use vortex::compute::unary::scalar_at;
use vortex::validity::LogicalValidity;
use vortex::{Array, ArrayDType, Canonical, IntoArray, IntoCanonical};
use vortex_dtype::{DType, PType};

use crate::model::*;
use crate::run::Fail;

/// Validity of an array as a vector of "is valid", through logical_validity.
pub fn logical_valid(a: &Array) -> Result<Vec<bool>, String> {
    let lv = a.with_dyn(|x| x.logical_validity());
    lv_to_vec(&lv, a.len())
}

fn lv_to_vec(lv: &LogicalValidity, n: usize) -> Result<Vec<bool>, String> {
    if lv.len() != n {
        return Err(format!("logical validity length {} of array length {n}", lv.len()));
    }
    Ok(match lv {
        LogicalValidity::AllValid(_) => vec![true; n],
        LogicalValidity::AllInvalid(_) => vec![false; n],
        LogicalValidity::Array(a) => {
            if a.dtype().is_nullable() || !a.dtype().is_boolean() {
                return Err(format!("validity array of type {}", a.dtype()));
            }
            let Canonical::Bool(b) = a.clone().into_canonical().map_err(|e| format!("validity canonical: {e}"))? else {
                return Err("validity not bool".into());
            };
            b.boolean_buffer().iter().collect()
        }
    })
}

fn canon_valid(v: vortex::validity::Validity, n: usize) -> Result<Vec<bool>, String> {
    lv_to_vec(&v.to_logical(n), n)
}

/// Values by decoding to the canonical form.
pub fn decode(a: &Array) -> Result<Vec<V>, String> {
    let n = a.len();
    let dt = a.dtype().clone();
    let c = a
        .clone()
        .into_canonical()
        .map_err(|e| format!("into_canonical error: {}", errs(&e)))?;
    read_canonical(c, &dt, n)
}

pub fn errs(e: &vortex_error::VortexError) -> String {
    let s = format!("{e}");
    s.lines().next().unwrap_or("").to_string()
}

pub fn read_canonical(c: Canonical, dt: &DType, n: usize) -> Result<Vec<V>, String> {
    let arr: Array = match &c {
        Canonical::Null(a) => a.clone().into_array(),
        Canonical::Bool(a) => a.clone().into_array(),
        Canonical::Primitive(a) => a.clone().into_array(),
        Canonical::Struct(a) => a.clone().into_array(),
        Canonical::VarBinView(a) => a.clone().into_array(),
        Canonical::Extension(a) => a.clone().into_array(),
        #[allow(unreachable_patterns)]
        _ => return Err("unknown canonical".into()),
    };
    if arr.dtype() != dt {
        return Err(format!("canonical type {} for array of type {dt}", arr.dtype()));
    }
    if arr.len() != n {
        return Err(format!("canonical length {} for array of length {n}", arr.len()));
    }
    let null_if = |valid: Vec<bool>, v: Vec<V>| -> Vec<V> {
        v.into_iter()
            .zip(valid)
            .map(|(v, ok)| if ok { v } else { V::Null })
            .collect()
    };
    Ok(match c {
        Canonical::Null(_) => vec![V::Null; n],
        Canonical::Bool(b) => read_bool(&b, null_if)?,
        Canonical::Primitive(p) => null_if(canon_valid(p.validity(), n)?, read_prim(&p)?),
        Canonical::VarBinView(v) => {
            let valid = canon_valid(v.validity(), n)?;
            let mut out = Vec::with_capacity(n);
            for (i, ok) in valid.iter().enumerate() {
                out.push(if *ok {
                    V::Bytes(v.bytes_at(i).map_err(|e| format!("bytes_at: {}", errs(&e)))?)
                } else {
                    V::Null
                });
            }
            out
        }
        Canonical::Struct(s) => {
            let valid = canon_valid(s.validity(), n)?;
            let DType::Struct(st, _) = dt else {
                return Err("struct".into());
            };
            let mut cols = vec![];
            for (i, f) in s.children().enumerate() {
                if f.dtype() != &st.dtypes()[i] {
                    return Err(format!("struct field type {} declared {}", f.dtype(), st.dtypes()[i]));
                }
                if f.len() != n {
                    return Err(format!("struct field length {} declared {n}", f.len()));
                }
                cols.push(decode(&f)?);
            }
            if cols.len() != st.dtypes().len() {
                return Err("struct field count".into());
            }
            (0..n)
                .map(|i| {
                    if valid[i] {
                        V::Struct(cols.iter().map(|c| c[i].clone()).collect())
                    } else {
                        V::Null
                    }
                })
                .collect()
        }
        Canonical::Extension(e) => decode(&e.storage())?,
        #[allow(unreachable_patterns)]
        _ => return Err("unknown canonical".into()),
    })
}

fn read_bool(b: &BoolArray, null_if: impl Fn(Vec<bool>, Vec<V>) -> Vec<V>) -> Result<Vec<V>, String> {
    let n = b.len();
    let bb = b.boolean_buffer();
    if bb.len() != n {
        return Err(format!("bool buffer length {} array {n}", bb.len()));
    }
    let valid = canon_valid(b.validity(), n)?;
    Ok(null_if(valid, bb.iter().map(V::Bool).collect()))
}

pub fn read_prim(p: &PrimitiveArray) -> Result<Vec<V>, String> {
    let n = p.len();
    macro_rules! ints {
        ($t:ty) => {
            p.maybe_null_slice::<$t>().iter().map(|x| V::Int(*x as i128)).collect::<Vec<_>>()
        };
    }
    let v = match p.ptype() {
        PType::U8 => ints!(u8),
        PType::U16 => ints!(u16),
        PType::U32 => ints!(u32),
        PType::U64 => ints!(u64),
        PType::I8 => ints!(i8),
        PType::I16 => ints!(i16),
        PType::I32 => ints!(i32),
        PType::I64 => ints!(i64),
        PType::F16 => p.maybe_null_slice::<f16>().iter().map(|x| V::F16(x.to_bits())).collect(),
        PType::F32 => p.maybe_null_slice::<f32>().iter().map(|x| V::F32(x.to_bits())).collect(),
        PType::F64 => p.maybe_null_slice::<f64>().iter().map(|x| V::F64(x.to_bits())).collect(),
    };
    if v.len() != n {
        return Err(format!("primitive slice length {} array {n}", v.len()));
    }
    Ok(v)
}

/// Test-side reader of Arrow arrays.
pub fn read_arrow(a: &ArrayRef, dt: &DType) -> Result<Vec<V>, String> {
    let n = a.len();
    macro_rules! ints {
        ($t:ty) => {{
            let p = a.as_primitive_opt::<$t>().ok_or("arrow downcast")?;
            (0..n)
                .map(|i| if p.is_null(i) { V::Null } else { V::Int(p.value(i) as i128) })
                .collect::<Vec<_>>()
        }};
    }
    macro_rules! strs {
        ($p:expr) => {{
            let p = $p;
            (0..n)
                .map(|i| {
                    if p.is_null(i) {
                        V::Null
                    } else {
                        V::Bytes(AsRef::<[u8]>::as_ref(p.value(i)).to_vec())
                    }
                })
                .collect::<Vec<_>>()
        }};
    }
    Ok(match a.data_type() {
        DataType::Null => vec![V::Null; n],
        DataType::Boolean => {
            let b = a.as_boolean();
            (0..n)
                .map(|i| if b.is_null(i) { V::Null } else { V::Bool(b.value(i)) })
                .collect()
        }
        DataType::Int8 => ints!(Int8Type),
        DataType::Int16 => ints!(Int16Type),
        DataType::Int32 => ints!(Int32Type),
        DataType::Int64 => ints!(Int64Type),
        DataType::UInt8 => ints!(UInt8Type),
        DataType::UInt16 => ints!(UInt16Type),
        DataType::UInt32 => ints!(UInt32Type),
        DataType::UInt64 => ints!(UInt64Type),
        DataType::Float16 => {
            let p = a.as_primitive::<Float16Type>();
            (0..n).map(|i| if p.is_null(i) { V::Null } else { V::F16(p.value(i).to_bits()) }).collect()
        }
        DataType::Float32 => {
            let p = a.as_primitive::<Float32Type>();
            (0..n).map(|i| if p.is_null(i) { V::Null } else { V::F32(p.value(i).to_bits()) }).collect()
        }
        DataType::Float64 => {
            let p = a.as_primitive::<Float64Type>();
            (0..n).map(|i| if p.is_null(i) { V::Null } else { V::F64(p.value(i).to_bits()) }).collect()
        }
        DataType::Utf8 => strs!(a.as_string::<i32>()),
        DataType::LargeUtf8 => strs!(a.as_string::<i64>()),
        DataType::Utf8View => strs!(a.as_string_view()),
        DataType::Binary => strs!(a.as_binary::<i32>()),
        DataType::LargeBinary => strs!(a.as_binary::<i64>()),
        DataType::BinaryView => strs!(a.as_binary_view()),
        DataType::Date32 => ints!(Date32Type),
        DataType::Date64 => ints!(Date64Type),
        DataType::Time32(ATU::Second) => ints!(Time32SecondType),
        DataType::Time32(_) => ints!(Time32MillisecondType),
        DataType::Time64(ATU::Microsecond) => ints!(Time64MicrosecondType),
        DataType::Time64(_) => ints!(Time64NanosecondType),
        DataType::Timestamp(ATU::Second, _) => ints!(TimestampSecondType),
        DataType::Timestamp(ATU::Millisecond, _) => ints!(TimestampMillisecondType),
        DataType::Timestamp(ATU::Microsecond, _) => ints!(TimestampMicrosecondType),
        DataType::Timestamp(ATU::Nanosecond, _) => ints!(TimestampNanosecondType),
        DataType::Struct(_) => {
            let s = a.as_struct();
            let sub: Vec<DType> = match dt {
                DType::Struct(st, _) => st.dtypes().to_vec(),
                _ => return Err(format!("arrow struct for {dt}")),
            };
            if sub.len() != s.num_columns() {
                return Err("arrow struct arity".into());
            }
            let mut cols = vec![];
            for (i, d) in sub.iter().enumerate() {
                cols.push(read_arrow(s.column(i), d)?);
            }
            (0..n)
                .map(|i| {
                    if s.is_null(i) {
                        V::Null
                    } else {
                        V::Struct(cols.iter().map(|c| c[i].clone()).collect())
                    }
                })
                .collect()
        }
        o => return Err(format!("unexpected arrow type {o}")),
    })
}

pub fn diff(what: &str, got: &[V], want: &[V]) -> Result<(), Fail> {
    if got.len() != want.len() {
        return Err(Fail::new(
            format!("{what}:len"),
            format!("{what}: got {} values, expected {}", got.len(), want.len()),
        ));
    }
    for i in 0..want.len() {
        if got[i] != want[i] {
            let class = if got[i].is_null() {
                "null-for-value"
            } else if want[i].is_null() {
                "value-for-null"
            } else {
                "value"
            };
            let nd = (0..want.len()).filter(|&j| got[j] != want[j]).count();
            return Err(Fail::new(
                format!("{what}:{class}"),
                format!(
                    "{what}: row {i} of {}: got {:?}, expected {:?} ({nd} rows differ)",
                    want.len(),
                    got[i],
                    want[i]
                ),
            ));
        }
    }
    Ok(())
}

pub fn check_shape(a: &Array, dt: &DType, n: usize) -> Result<(), Fail> {
    if a.len() != n {
        return Err(Fail::new("len", format!("array length {}, expected {n}", a.len())));
    }
    if a.dtype() != dt {
        return Err(Fail::new("dtype", format!("array type {}, expected {dt}", a.dtype())));
    }
    Ok(())
}

pub fn check_decode(a: &Array, dt: &DType, vals: &[V]) -> Result<(), Fail> {
    check_shape(a, dt, vals.len())?;
    let d = decode(a).map_err(|e| Fail::new(format!("decode:{}", gist(&e)), e))?;
    diff("decode", &d, vals)
}

pub fn check_scalar_at(a: &Array, dt: &DType, vals: &[V], idx: &[usize]) -> Result<(), Fail> {
    for &i in idx {
        let s = scalar_at(a, i).map_err(|e| Fail::new(format!("scalar_at-error:{}", gist(&errs(&e))), format!("scalar_at({i}): {}", errs(&e))))?;
        if !s.dtype().eq_ignore_nullability(dt) {
            return Err(Fail::new("scalar_at:dtype", format!("scalar_at({i}) has type {}, array {dt}", s.dtype())));
        }
        let v = if s.is_null() {
            V::Null
        } else {
            scalar_to_v(&s).map_err(|e| Fail::new(format!("scalar_at:{}", gist(&e)), format!("scalar_at({i}): {e}")))?
        };
        if v != vals[i] {
            return Err(Fail::new(
                if v.is_null() { "scalar_at:null-for-value" } else if vals[i].is_null() { "scalar_at:value-for-null" } else { "scalar_at:value" },
                format!("scalar_at({i}) = {v:?}, expected {:?}", vals[i]),
            ));
        }
    }
    Ok(())
}

pub fn check_validity(a: &Array, vals: &[V], idx: &[usize]) -> Result<(), Fail> {
    let lv = logical_valid(a).map_err(|e| Fail::new(format!("logical_validity:{}", gist(&e)), e))?;
    for (i, ok) in lv.iter().enumerate() {
        if *ok == vals[i].is_null() {
            return Err(Fail::new("logical_validity", format!("logical validity of row {i} is {ok}, value {:?}", vals[i])));
        }
    }
    for &i in idx {
        let ok = a.with_dyn(|x| x.is_valid(i));
        if ok == vals[i].is_null() {
            return Err(Fail::new("is_valid", format!("is_valid({i}) = {ok}, value {:?}", vals[i])));
        }
    }
    Ok(())
}

/// Iterators over string arrays and primitive array iterators.
pub fn check_iter(a: &Array, vals: &[V]) -> Result<(), Fail> {
    if let Ok(v) = VarBinArray::try_from(a.clone()) {
        let got: Vec<V> = v
            .with_iterator(|it| it.map(|o| o.map_or(V::Null, |b| V::Bytes(b.to_vec()))).collect())
            .map_err(|e| Fail::new("iter-error", errs(&e)))?;
        diff("iter", &got, vals)?;
    }
    if let Ok(v) = VarBinViewArray::try_from(a.clone()) {
        let got: Vec<V> = v
            .with_iterator(|it| it.map(|o| o.map_or(V::Null, |b| V::Bytes(b.to_vec()))).collect())
            .map_err(|e| Fail::new("iter-error", errs(&e)))?;
        diff("iter", &got, vals)?;
    }
    prim_iter(a, vals)
}

/// The batched accessor iterators of primitive arrays, where the encoding offers them.
fn prim_iter(a: &Array, vals: &[V]) -> Result<(), Fail> {
    let DType::Primitive(p, _) = a.dtype().clone() else {
        return Ok(());
    };
    macro_rules! it {
        ($m:ident, $wrap:expr) => {
            a.with_dyn(|x| {
                x.as_primitive_array().and_then(|pa| pa.$m()).map(|iter| {
                    let mut out: Vec<V> = vec![];
                    for batch in iter {
                        let d = batch.data();
                        for i in 0..batch.len() {
                            out.push(if batch.is_valid(i) { $wrap(d[i]) } else { V::Null });
                        }
                    }
                    out
                })
            })
        };
    }
    let got = match p {
        PType::U8 => it!(u8_iter, |x: u8| V::Int(x as i128)),
        PType::U16 => it!(u16_iter, |x: u16| V::Int(x as i128)),
        PType::U32 => it!(u32_iter, |x: u32| V::Int(x as i128)),
        PType::U64 => it!(u64_iter, |x: u64| V::Int(x as i128)),
        PType::I8 => it!(i8_iter, |x: i8| V::Int(x as i128)),
        PType::I16 => it!(i16_iter, |x: i16| V::Int(x as i128)),
        PType::I32 => it!(i32_iter, |x: i32| V::Int(x as i128)),
        PType::I64 => it!(i64_iter, |x: i64| V::Int(x as i128)),
        PType::F32 => it!(f32_iter, |x: f32| V::F32(x.to_bits())),
        PType::F64 => it!(f64_iter, |x: f64| V::F64(x.to_bits())),
        PType::F16 => it!(f16_iter, |x: f16| V::F16(x.to_bits())),
    };
    match got {
        Some(g) => diff("prim-iter", &g, vals),
        None => Ok(()),
    }
}

/// Out-of-bounds element access has to be refused.
pub fn check_oob(a: &Array) -> Result<(), Fail> {
    for i in [a.len(), a.len() + 1, a.len() + 1025] {
        if let Ok(s) = scalar_at(a, i) {
            return Err(Fail::new("oob", format!("scalar_at({i}) of length {} gave {s:?}", a.len())));
        }
    }
    Ok(())
}

/// All indices when short, else a spread of boundary and random ones.
pub fn probe_idx(r: &mut crate::gen::R, n: usize, max: usize) -> Vec<usize> {
    use rand::Rng;
    if n <= max {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = vec![0, 1, n - 1, n - 2, n / 2];
    for b in [63usize, 64, 127, 128, 1023, 1024, 1025, 2047, 2048, 4095, 4096] {
        if b < n {
            v.push(b);
        }
    }
    while v.len() < max {
        v.push(r.gen_range(0..n));
    }
    v
}

/// Every route of reading.
pub fn check_all(r: &mut crate::gen::R, a: &Array, dt: &DType, vals: &[V]) -> Result<(), Fail> {
    check_shape(a, dt, vals.len())?;
    check_decode(a, dt, vals)?;
    let idx = probe_idx(r, vals.len(), 40);
    check_scalar_at(a, dt, vals, &idx)?;
    check_validity(a, vals, &idx)?;
    check_iter(a, vals)
}

/// Drop digits and nested types so that messages with lengths, offsets, indices, schemas group together.
pub fn gist(s: &str) -> String {
    let s = s.lines().next().unwrap_or("");
    let mut out = String::new();
    let mut in_num = false;
    let mut depth = 0;
    for c in s.chars() {
        match c {
            '{' | '[' => {
                depth += 1;
                if depth == 1 {
                    out.push(c);
                }
                continue;
            }
            '}' | ']' if depth > 0 => depth -= 1,
            _ => {}
        }
        if depth > 0 {
            continue;
        }
        if c.is_ascii_digit() {
            if !in_num {
                out.push('#');
            }
            in_num = true;
        } else {
            in_num = false;
            out.push(c);
        }
        if out.len() > 150 {
            break;
        }
    }
    out
}

#[allow(dead_code)]
fn _t(_: ExtensionArray, _: StructArray) {}
