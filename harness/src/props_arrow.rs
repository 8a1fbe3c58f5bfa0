//! C09: conversion to and from Arrow.
use std::sync::Arc;

use arrow_array::builder::{BinaryViewBuilder, StringViewBuilder};
use arrow_array::cast::AsArray;
use arrow_array::types::*;
use arrow_array::{
    Array as ArrowArray, ArrayRef, BinaryArray, BooleanArray, Datum, LargeBinaryArray, LargeStringArray, NullArray,
    PrimitiveArray, RecordBatch, RecordBatchOptions, StringArray, StructArray as ArrowStruct,
};
use arrow_buffer::{BooleanBuffer, Buffer, MutableBuffer, NullBuffer, OffsetBuffer, ScalarBuffer};
use arrow_schema::{DataType, Field, Fields, Schema, TimeUnit as ATU};
use rand::seq::SliceRandom;
use rand::Rng;
use vortex::arrow::{infer_data_type, infer_schema, FromArrowArray, FromArrowType};
use vortex::compute::{slice, take};
use vortex::{Array, IntoArray, IntoArrayVariant, IntoCanonical};
use vortex_datetime_dtype::{TemporalMetadata, TimeUnit};
use vortex_dtype::{DType, Nullability, PType, StructDType};

use crate::gen::{self, TyOpts, R};
use crate::model::*;
use crate::observe::*;
use crate::phys;
use crate::props_array::{describe, subject, Res};
use crate::run::{Ctx, Fail};

fn fail<T>(c: &str, d: impl std::fmt::Display) -> Result<T, Fail> {
    let d = d.to_string();
    Err(Fail::new(format!("{c} {}", gist(&d)), d))
}
fn unit(u: TimeUnit) -> ATU {
    match u {
        TimeUnit::Ns => ATU::Nanosecond,
        TimeUnit::Us => ATU::Microsecond,
        TimeUnit::Ms => ATU::Millisecond,
        TimeUnit::S => ATU::Second,
        TimeUnit::D => unreachable!(),
    }
}

/// The Arrow types a vortex type stands for, one at random; `preferred` is the one vortex converts to.
fn arrow_type(r: &mut R, dt: &DType, preferred: bool) -> DataType {
    match dt {
        DType::Null => DataType::Null,
        DType::Bool(_) => DataType::Boolean,
        DType::Primitive(p, _) => match p {
            PType::U8 => DataType::UInt8,
            PType::U16 => DataType::UInt16,
            PType::U32 => DataType::UInt32,
            PType::U64 => DataType::UInt64,
            PType::I8 => DataType::Int8,
            PType::I16 => DataType::Int16,
            PType::I32 => DataType::Int32,
            PType::I64 => DataType::Int64,
            PType::F16 => DataType::Float16,
            PType::F32 => DataType::Float32,
            PType::F64 => DataType::Float64,
        },
        DType::Utf8(_) if preferred => DataType::Utf8View,
        DType::Utf8(_) => [DataType::Utf8, DataType::LargeUtf8, DataType::Utf8View].choose(r).unwrap().clone(),
        DType::Binary(_) if preferred => DataType::BinaryView,
        DType::Binary(_) => [DataType::Binary, DataType::LargeBinary, DataType::BinaryView].choose(r).unwrap().clone(),
        DType::Struct(st, _) => DataType::Struct(fields_of(r, st, preferred)),
        DType::Extension(e, _) => match TemporalMetadata::try_from(e).unwrap() {
            TemporalMetadata::Date(TimeUnit::D) => DataType::Date32,
            TemporalMetadata::Date(_) => DataType::Date64,
            TemporalMetadata::Time(u @ (TimeUnit::S | TimeUnit::Ms)) => DataType::Time32(unit(u)),
            TemporalMetadata::Time(u) => DataType::Time64(unit(u)),
            TemporalMetadata::Timestamp(u, tz) => DataType::Timestamp(unit(u), tz.map(|t| t.into())),
        },
        DType::List(..) => unreachable!(),
    }
}
fn fields_of(r: &mut R, st: &StructDType, preferred: bool) -> Fields {
    st.names()
        .iter()
        .zip(st.dtypes().iter())
        .map(|(n, d)| Field::new(n.to_string(), arrow_type(r, d, preferred), d.is_nullable()))
        .collect()
}

/// Null buffer with its own bit offset; absent or present when there is nothing null.
fn null_buffer(r: &mut R, vals: &[V]) -> Option<NullBuffer> {
    let valid: Vec<bool> = vals.iter().map(|v| !v.is_null()).collect();
    if valid.iter().all(|b| *b) && r.gen_bool(0.6) {
        return None;
    }
    Some(NullBuffer::new(bits(r, &valid)))
}
fn bits(r: &mut R, b: &[bool]) -> BooleanBuffer {
    let pre = if r.gen() { r.gen_range(0..13) } else { 0 };
    let post = if r.gen() { r.gen_range(0..13) } else { 0 };
    let mut all: Vec<bool> = (0..pre).map(|_| r.gen()).collect();
    all.extend_from_slice(b);
    all.extend((0..post).map(|_| r.gen::<bool>()));
    BooleanBuffer::from(all).slice(pre, b.len())
}

/// An Arrow array of these values: at an offset, with other values under the nulls and around.
/// `bare`: no null buffer unless something may be null (Arrow insists, in a struct without nulls).
fn build_arrow(r: &mut R, at: &DataType, dt: &DType, vals: &[V], bare: bool) -> ArrayRef {
    let n = vals.len();
    let pre = if r.gen() { r.gen_range(0..9) } else { 0 };
    let post = if r.gen() { r.gen_range(0..9) } else { 0 };
    let nn = nonnull(dt);
    // garbage around and under nulls
    let g = if matches!(dt, DType::Null) { vec![V::Null; pre + n + post] } else { gen::gen_vals(r, &nn, pre + n + post) };
    let whole: Vec<V> = (0..pre + n + post)
        .map(|i| if i >= pre && i < pre + n { vals[i - pre].clone() } else if dt.is_nullable() && r.gen() { V::Null } else { g[i].clone() })
        .collect();
    let filled: Vec<V> = whole.iter().zip(&g).map(|(v, g)| if v.is_null() { g.clone() } else { v.clone() }).collect();
    let nulls = if bare && !dt.is_nullable() { None } else { null_buffer(r, &whole) };
    macro_rules! prim {
        ($t:ty, $n:ty) => {{
            let v: Vec<$n> = filled.iter().map(|v| match v { V::Int(i) => *i as $n, o => panic!("{o:?}") }).collect();
            Arc::new(PrimitiveArray::<$t>::new(ScalarBuffer::from(v), nulls).with_data_type(at.clone())) as ArrayRef
        }};
    }
    macro_rules! bytes {
        ($t:ty, $o:ty) => {{
            // values may start anywhere in the buffer
            let mut buf = MutableBuffer::new(0);
            let lead = if r.gen_bool(0.3) { r.gen_range(1..20) } else { 0 };
            buf.extend_from_slice(&vec![b'~'; lead]);
            let mut offs: Vec<$o> = vec![lead as $o];
            for v in &filled {
                let V::Bytes(b) = v else { panic!() };
                buf.extend_from_slice(b);
                offs.push(buf.len() as $o);
            }
            if r.gen_bool(0.3) {
                buf.extend_from_slice(b"tail");
            }
            Arc::new(<$t>::new(OffsetBuffer::new(ScalarBuffer::from(offs)), Buffer::from(buf), nulls)) as ArrayRef
        }};
    }
    macro_rules! views {
        ($b:ty, $f:expr) => {{
            let mut b = <$b>::new();
            if r.gen() {
                b = b.with_fixed_block_size(r.gen_range(1..64));
            }
            for (i, v) in filled.iter().enumerate() {
                let V::Bytes(x) = v else { panic!() };
                if whole[i].is_null() && r.gen() {
                    b.append_null();
                } else {
                    b.append_value($f(x));
                }
            }
            let a = b.finish();
            let (views, bufs, _) = a.into_parts();
            (views, bufs)
        }};
    }
    let a: ArrayRef = match at {
        DataType::Null => Arc::new(NullArray::new(pre + n + post)),
        DataType::Boolean => {
            let b: Vec<bool> = filled.iter().map(|v| matches!(v, V::Bool(true))).collect();
            Arc::new(BooleanArray::new(bits(r, &b), nulls))
        }
        DataType::Int8 => prim!(Int8Type, i8),
        DataType::Int16 => prim!(Int16Type, i16),
        DataType::Int32 => prim!(Int32Type, i32),
        DataType::Int64 => prim!(Int64Type, i64),
        DataType::UInt8 => prim!(UInt8Type, u8),
        DataType::UInt16 => prim!(UInt16Type, u16),
        DataType::UInt32 => prim!(UInt32Type, u32),
        DataType::UInt64 => prim!(UInt64Type, u64),
        DataType::Date32 => prim!(Date32Type, i32),
        DataType::Date64 => prim!(Date64Type, i64),
        DataType::Time32(ATU::Second) => prim!(Time32SecondType, i32),
        DataType::Time32(_) => prim!(Time32MillisecondType, i32),
        DataType::Time64(ATU::Microsecond) => prim!(Time64MicrosecondType, i64),
        DataType::Time64(_) => prim!(Time64NanosecondType, i64),
        DataType::Timestamp(ATU::Second, _) => prim!(TimestampSecondType, i64),
        DataType::Timestamp(ATU::Millisecond, _) => prim!(TimestampMillisecondType, i64),
        DataType::Timestamp(ATU::Microsecond, _) => prim!(TimestampMicrosecondType, i64),
        DataType::Timestamp(ATU::Nanosecond, _) => prim!(TimestampNanosecondType, i64),
        DataType::Float16 => {
            let v: Vec<half::f16> = filled.iter().map(|v| match v { V::F16(b) => half::f16::from_bits(*b), _ => panic!() }).collect();
            Arc::new(PrimitiveArray::<Float16Type>::new(ScalarBuffer::from(v), nulls))
        }
        DataType::Float32 => {
            let v: Vec<f32> = filled.iter().map(|v| match v { V::F32(b) => f32::from_bits(*b), _ => panic!() }).collect();
            Arc::new(PrimitiveArray::<Float32Type>::new(ScalarBuffer::from(v), nulls))
        }
        DataType::Float64 => {
            let v: Vec<f64> = filled.iter().map(|v| match v { V::F64(b) => f64::from_bits(*b), _ => panic!() }).collect();
            Arc::new(PrimitiveArray::<Float64Type>::new(ScalarBuffer::from(v), nulls))
        }
        DataType::Utf8 => bytes!(StringArray, i32),
        DataType::LargeUtf8 => bytes!(LargeStringArray, i64),
        DataType::Binary => bytes!(BinaryArray, i32),
        DataType::LargeBinary => bytes!(LargeBinaryArray, i64),
        DataType::Utf8View => {
            let (v, b) = views!(StringViewBuilder, |x: &Vec<u8>| String::from_utf8(x.clone()).unwrap());
            Arc::new(arrow_array::StringViewArray::new(v, b, nulls))
        }
        DataType::BinaryView => {
            let (v, b) = views!(BinaryViewBuilder, |x: &Vec<u8>| x.clone());
            Arc::new(arrow_array::BinaryViewArray::new(v, b, nulls))
        }
        DataType::Struct(fs) => {
            let DType::Struct(st, _) = dt else { panic!() };
            let cols: Vec<ArrayRef> = (0..fs.len())
                .map(|k| {
                    // a field of a missing row may itself be missing, whatever its type says
                    let mask = nulls.is_some() && r.gen_bool(0.3);
                    let c: Vec<V> = filled
                        .iter()
                        .zip(&whole)
                        .map(|(v, w)| match v {
                            _ if mask && w.is_null() => V::Null,
                            V::Struct(f) => f[k].clone(),
                            _ => panic!(),
                        })
                        .collect();
                    build_arrow(r, fs[k].data_type(), &st.dtypes()[k], &c, nulls.is_none())
                })
                .collect();
            if fs.is_empty() {
                Arc::new(ArrowStruct::new_empty_fields(pre + n + post, nulls))
            } else {
                Arc::new(ArrowStruct::new(fs.clone(), cols, nulls))
            }
        }
        o => panic!("{o}"),
    };
    a.slice(pre, n)
}

/// what the Arrow side must look like: type, length, values, internally valid
fn check_arrow(r: &mut R, a: &ArrayRef, dt: &DType, vals: &[V]) -> Res {
    let want = arrow_type(r, dt, true);
    if a.data_type() != &want {
        return fail("arrow type", format!("{} for {dt}, expected {want}", a.data_type()));
    }
    if a.len() != vals.len() {
        return fail("arrow length", format!("{} rows, expected {}", a.len(), vals.len()));
    }
    valid(a)?;
    let got = read_arrow(a, dt).or_else(|e| fail("arrow read", e))?;
    diff("arrow", &got, vals)?;
    if a.logical_nulls().map_or(0, |x| x.null_count()) != vals.iter().filter(|v| v.is_null()).count() {
        return fail("arrow null count", format!("{:?}", a.null_count()));
    }
    Ok(())
}

fn valid(a: &ArrayRef) -> Res {
    match a.data_type() {
        // arrow checks these as if values and nulls shared one offset
        DataType::Boolean => Ok(()),
        DataType::Struct(_) => a.as_struct().columns().iter().try_for_each(valid),
        _ => a.to_data().validate_full().or_else(|e| fail("arrow invalid", e)),
    }
}

pub fn c09(r: &mut R, ctx: &mut Ctx) -> Res {
    match r.gen_range(0..10) {
        0..=3 => from_arrow(r, ctx).map_err(|f| f.at("from_arrow")),
        4 | 5 => batch(r, ctx).map_err(|f| f.at("batch")),
        6 | 7 => to_arrow(r, ctx).map_err(|f| f.at("to_arrow")),
        8 => scalar(r, ctx).map_err(|f| f.at("scalar")),
        _ => schema(r, ctx).map_err(|f| f.at("schema")),
    }
}

fn from_arrow(r: &mut R, ctx: &mut Ctx) -> Res {
    let mut dt = gen::gen_dtype(r, TyOpts::ALL, 0);
    let n = gen::gen_len(r, ctx.max_len);
    let vals = gen::gen_vals(r, &dt, n);
    let at = arrow_type(r, &dt, false);
    let arrow = build_arrow(r, &at, &dt, &vals, false);
    ctx.trivial = n == 0;
    ctx.label(dtclass(&dt));
    ctx.key(format!("from:{}:{}", at_class(&at), if arrow.nulls().is_none() { "none" } else if arrow.null_count() == 0 { "full" } else { "some" }));
    ctx.step(format!("{at} {} nulls {:?} offset {}", show(&vals), arrow.nulls().map(|x| x.null_count()), arrow.offset()));
    // a field may be declared nullable without having nulls
    if !dt.is_nullable() && r.gen_bool(0.2) {
        dt = dt.as_nullable();
    }
    let a = Array::from_arrow(arrow.clone(), dt.is_nullable());
    let said = DType::from_arrow(&Field::new("x", at.clone(), dt.is_nullable()));
    if said != dt {
        return fail("field type", format!("{at} is {said}, expected {dt}"));
    }
    ctx.obs += 1;
    check_all(r, &a, &dt, &vals)?;
    let mut cur = a;
    let mut cv = vals;
    // onwards: selections, compression, then back
    for _ in 0..r.gen_range(0..3) {
        match r.gen_range(0..3) {
            0 => {
                let s = r.gen_range(0..=cv.len());
                let e = r.gen_range(s..=cv.len());
                cur = slice(&cur, s, e).or_else(|e| fail("slice", errs(&e)))?;
                cv = cv[s..e].to_vec();
                ctx.step(format!("slice {s}..{e}"));
            }
            1 if !cv.is_empty() => {
                let idx: Vec<u64> = (0..r.gen_range(0..20)).map(|_| r.gen_range(0..cv.len() as u64)).collect();
                let ia = vortex::array::PrimitiveArray::from(idx.clone()).into_array();
                cur = take(&cur, &ia).or_else(|e| fail("take", errs(&e)))?;
                cv = idx.iter().map(|i| cv[*i as usize].clone()).collect();
                ctx.step(format!("take {idx:?}"));
            }
            2 => {
                let c = phys::random_compressor(r);
                cur = c.compress(&cur, None).or_else(|e| fail("compress", errs(&e)))?.into_array();
                ctx.step(format!("compress to {}", phys::enc_tree(&cur)));
            }
            _ => {}
        }
    }
    let back = cur.into_canonical().and_then(|c| c.into_arrow()).or_else(|e| fail("back", errs(&e)))?;
    ctx.obs += 1;
    check_arrow(r, &back, &dt, &cv).map_err(|f| f.at("back"))
}

fn at_class(t: &DataType) -> String {
    match t {
        DataType::Struct(f) => format!("struct{}", f.len()),
        DataType::Timestamp(u, tz) => format!("ts{u:?}{}", if tz.is_some() { "+tz" } else { "" }),
        o => format!("{o}"),
    }
}

fn to_arrow(r: &mut R, ctx: &mut Ctx) -> Res {
    let (dt, vals, a) = subject(r, ctx, TyOpts::ALL)?;
    ctx.key(format!("to:{}/{}", phys::enc_id(&a), dtclass(&dt)));
    let t = infer_data_type(&dt).or_else(|e| fail("infer", errs(&e)))?;
    let arrow = a.clone().into_canonical().and_then(|c| c.into_arrow()).or_else(|e| fail("into_arrow", errs(&e)))?;
    ctx.obs += 1;
    if arrow.data_type() != &t {
        return fail("inferred type", format!("{t} inferred for {dt}, {} produced", arrow.data_type()));
    }
    check_arrow(r, &arrow, &dt, &vals)?;
    // and home again
    let home = Array::from_arrow(arrow, dt.is_nullable());
    ctx.obs += 1;
    check_decode(&home, &dt, &vals).map_err(|f| f.at("home"))
}

fn batch(r: &mut R, ctx: &mut Ctx) -> Res {
    let DType::Struct(st, _) = gen::gen_struct_dtype(r, TyOpts::ALL, 0, Nullability::NonNullable) else { unreachable!() };
    let dt = DType::Struct(st.clone(), Nullability::NonNullable);
    let n = gen::gen_len(r, ctx.max_len);
    let vals = gen::gen_vals(r, &dt, n);
    let fields = fields_of(r, &st, false);
    let schema = Arc::new(Schema::new(fields.clone()));
    let cols: Vec<ArrayRef> = (0..fields.len())
        .map(|k| {
            let c: Vec<V> = vals.iter().map(|v| match v { V::Struct(f) => f[k].clone(), _ => panic!() }).collect();
            build_arrow(r, fields[k].data_type(), &st.dtypes()[k], &c, false)
        })
        .collect();
    ctx.trivial = n == 0;
    ctx.label(format!("{} columns", fields.len().min(1)));
    ctx.step(format!("{schema:?} {}", show(&vals)));
    let b = RecordBatch::try_new_with_options(schema.clone(), cols, &RecordBatchOptions::new().with_row_count(Some(n)));
    let b = b.map_err(|e| Fail::new("harness", e.to_string()))?;
    let said = DType::from_arrow(schema.clone());
    if said != dt {
        return fail("schema type", format!("{schema:?} is {said}, expected {dt}"));
    }
    let a = Array::try_from(b.clone()).or_else(|e| fail("refused", errs(&e)))?;
    ctx.obs += 1;
    check_decode(&a, &dt, &vals)?;
    let a = if r.gen() { a } else { phys::random_compressor(r).compress(&a, None).or_else(|e| fail("compress", errs(&e)))?.into_array() };
    describe(ctx, "table", &dt, &vals, &a);
    let back = if r.gen() {
        RecordBatch::try_from(a)
    } else {
        a.into_struct().and_then(RecordBatch::try_from)
    };
    let back = back.or_else(|e| fail("back refused", errs(&e)))?;
    let want = infer_schema(&dt).or_else(|e| fail("infer_schema", errs(&e)))?;
    if back.schema().as_ref() != &want {
        return fail("back schema", format!("{:?}, inferred {want:?}", back.schema()));
    }
    if back.num_rows() != n {
        return fail("back rows", format!("{} rows, expected {n}", back.num_rows()));
    }
    for k in 0..fields.len() {
        let c: Vec<V> = vals.iter().map(|v| match v { V::Struct(f) => f[k].clone(), _ => panic!() }).collect();
        check_arrow(r, back.column(k), &st.dtypes()[k], &c).map_err(|f| f.at("back"))?;
        ctx.obs += 1;
    }
    // a table with missing rows has no record batch
    let ndt = DType::Struct(st.clone(), Nullability::Nullable);
    let nvals = gen::gen_vals(r, &ndt, n);
    if nvals.iter().any(|v| v.is_null()) {
        let a = gen::build(r, &ndt, &nvals);
        ctx.obs += 1;
        if let Ok(b) = RecordBatch::try_from(a) {
            return fail("null rows", format!("{} rows from a struct with nulls", b.num_rows()));
        }
        ctx.refused += 1;
    }
    Ok(())
}

fn scalar(r: &mut R, ctx: &mut Ctx) -> Res {
    let (s, dt, v) = crate::props_scalar::any_scalar(r);
    ctx.label(dtclass(&dt));
    ctx.step(format!("{dt} {v:?}"));
    ctx.key(format!("scalar:{}:{}", dtclass(&dt), v.is_null()));
    let got = Arc::<dyn Datum>::try_from(&s);
    ctx.obs += 1;
    let plain = !matches!(&dt, DType::Struct(..) | DType::List(..)) && (!matches!(&dt, DType::Extension(..)) || !matches!(storage_dtype(&dt), DType::Null));
    let d = match got {
        Err(_) if !plain => {
            ctx.refused += 1;
            return Ok(());
        }
        Err(e) => return fail("refused", errs(&e)),
        Ok(d) => d,
    };
    if !plain {
        return fail("unexpected", format!("{dt} as {}", d.get().0.data_type()));
    }
    let (a, is_scalar) = d.get();
    if !is_scalar {
        return fail("not a scalar", format!("{dt} {v:?}"));
    }
    let a: ArrayRef = a.slice(0, a.len());
    check_arrow(r, &a, &dt, &[v])
}

fn schema(r: &mut R, ctx: &mut Ctx) -> Res {
    let DType::Struct(st, _) = gen::gen_struct_dtype(r, TyOpts::ALL, 0, Nullability::NonNullable) else { unreachable!() };
    let dt = DType::Struct(st.clone(), Nullability::NonNullable);
    ctx.step(format!("{dt}"));
    ctx.label("schema");
    let s = infer_schema(&dt).or_else(|e| fail("infer_schema", errs(&e)))?;
    ctx.obs += 1;
    let want = Schema::new(fields_of(r, &st, true));
    if s != want {
        return fail("inferred", format!("{s:?}, expected {want:?}"));
    }
    let back = DType::from_arrow(Arc::new(s));
    if back != dt {
        return fail("back", format!("{back}, expected {dt}"));
    }
    let other = Schema::new(fields_of(r, &st, false));
    let back = DType::from_arrow(Arc::new(other.clone()));
    if back != dt {
        return fail("from", format!("{other:?} is {back}, expected {dt}"));
    }
    // loose buffers
    let n = gen::gen_len(r, 200.min(ctx.max_len));
    let b: Vec<bool> = (0..n).map(|_| r.gen()).collect();
    let a = Array::from(NullBuffer::new(bits(r, &b)));
    check_decode(&a, &DType::Bool(Nullability::NonNullable), &b.iter().map(|x| V::Bool(*x)).collect::<Vec<_>>())?;
    let i: Vec<i32> = (0..n).map(|_| r.gen()).collect();
    let k = r.gen_range(0..=n);
    let a = Array::from(ScalarBuffer::from(i.clone()).slice(k, n - k));
    check_decode(&a, &DType::Primitive(PType::I32, Nullability::NonNullable), &i[k..].iter().map(|x| V::Int(*x as i128)).collect::<Vec<_>>())?;
    let o = OffsetBuffer::<i64>::from_lengths((0..n).map(|_| r.gen_range(0..5)));
    let want: Vec<V> = o.iter().map(|x| V::Int(*x as i128)).collect();
    let a = Array::from(o);
    check_decode(&a, &DType::Primitive(PType::I64, Nullability::NonNullable), &want)?;
    ctx.obs += 3;
    Ok(())
}

