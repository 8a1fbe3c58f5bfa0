//! C10: arrays built from parts. Each case writes consistent parts by hand (so that the values they
//! stand for are known without asking the code), usually spoils one aspect, and calls the constructor.
use std::panic::{catch_unwind, AssertUnwindSafe};

use arrow_buffer::BooleanBuffer;
use croaring::Bitmap;
use rand::seq::SliceRandom;
use rand::Rng;
use vortex::array::{
    BoolArray, ChunkedArray, ConstantArray, ExtensionArray, PrimitiveArray, SparseArray, StructArray, TemporalArray,
    VarBinArray, VarBinViewArray,
};
use vortex::compute::unary::scalar_at;
use vortex::validity::Validity;
use vortex::{Array, ArrayDType, IntoArray};
use vortex_alp::{ALPArray, ALPRDArray, Exponents};
use vortex_buffer::Buffer;
use vortex_bytebool::ByteBoolArray;
use vortex_datetime_dtype::TimeUnit;
use vortex_datetime_parts::DateTimePartsArray;
use vortex_dict::DictArray;
use vortex_dtype::{DType, FieldNames, Nullability, PType};
use vortex_error::VortexResult;
use vortex_fastlanes::{bitpack_encode, bitpack_encode_unchecked, delta_compress, BitPackedArray, DeltaArray, FoRArray};
use vortex_fsst::FSSTArray;
use vortex_roaring::{RoaringBoolArray, RoaringIntArray};
use vortex_runend::RunEndArray;
use vortex_runend_bool::RunEndBoolArray;
use vortex_scalar::{PValue, Scalar, ScalarValue};
use vortex_zigzag::ZigZagArray;

use crate::gen::{self, TyOpts, R};
use crate::model::*;
use crate::observe::*;
use crate::phys;
use crate::props_array::{select_step, Res};
use crate::run::{panic_fail, take_panic, Ctx, Fail};

enum Want {
    /// consistent: built, and read back as these values
    Good(DType, Vec<V>),
    /// contradictory: not built
    Refuse,
    /// some rows refer to something that is not there (None): refused when built or when read
    Rows(DType, Vec<Option<V>>),
}
use Want::*;

type Make = Box<dyn FnOnce() -> VortexResult<Array>>;
/// what was done, the expectation, the constructor call, whether the constructor returns a result
type Plan = (String, Want, Make, bool);

fn plan(what: impl Into<String>, want: Want, f: impl FnOnce() -> VortexResult<Array> + 'static) -> Plan {
    (what.into(), want, Box::new(f), true)
}
fn infallible(what: impl Into<String>, want: Want, f: impl FnOnce() -> Array + 'static) -> Plan {
    (what.into(), want, Box::new(move || Ok(f())), false)
}

const NN: Nullability = Nullability::NonNullable;
const N: Nullability = Nullability::Nullable;
const UINTS: [PType; 4] = [PType::U8, PType::U16, PType::U32, PType::U64];
const SINTS: [PType; 4] = [PType::I8, PType::I16, PType::I32, PType::I64];

fn prim(p: PType, v: &[V], validity: Validity) -> Array {
    gen::build_prim(p, v, v, validity).into_array()
}

/// A non-nullable array of integers in a random physical form.
fn ints(r: &mut R, p: PType, v: &[i128]) -> Array {
    let vals: Vec<V> = v.iter().map(|&i| V::Int(i)).collect();
    let a = prim(p, &vals, Validity::NonNullable);
    if r.gen_bool(0.5) {
        return a;
    }
    phys::encode_any(r, &DType::Primitive(p, NN), &vals, a.clone(), 1).unwrap_or(a)
}

fn smallest(r: &mut R, max: i128) -> PType {
    let c: Vec<PType> = UINTS.iter().copied().filter(|p| int_range(*p).1 >= max).collect();
    *c.choose(r).unwrap()
}

fn other_len(r: &mut R, n: usize) -> usize {
    loop {
        let m = match r.gen_range(0..6) {
            0 => n + 1,
            1 => n.saturating_sub(1),
            2 => n + 8,
            3 => 0,
            4 => n * 2 + 1,
            _ => n + 1024,
        };
        if m != n {
            return m;
        }
    }
}

/// A validity that cannot belong to an array of `n` rows.
fn bad_validity(r: &mut R, n: usize) -> (String, Validity) {
    match r.gen_range(0..4) {
        0 | 1 => {
            let m = other_len(r, n);
            (format!("validity of {m} rows"), Validity::Array(gen::bool_nonnull(r, &vec![true; m])))
        }
        2 => ("validity of type u8".into(), Validity::Array(PrimitiveArray::from(vec![1u8; n]).into_array())),
        _ => (
            "nullable validity".into(),
            Validity::Array(BoolArray::from_iter((0..n).map(|i| (i % 2 == 0).then_some(true))).into_array()),
        ),
    }
}

/// values, nulls, and a validity that agrees (a non-nullable one half the time)
fn validity_for(r: &mut R, n: usize) -> (Nullability, Vec<bool>, Validity) {
    if r.gen_bool(0.4) {
        return (NN, vec![false; n], Validity::NonNullable);
    }
    let nulls = gen::gen_nulls(r, n);
    let v = gen::gen_validity(r, &DType::Bool(N), &nulls);
    (N, nulls, v)
}

fn with_nulls(vals: &[V], nulls: &[bool]) -> Vec<V> {
    vals.iter().zip(nulls).map(|(v, n)| if *n { V::Null } else { v.clone() }).collect()
}

fn flat(r: &mut R, dt: &DType, n: usize) -> Vec<V> {
    gen::gen_flat(r, &nonnull(dt), n)
}

fn any_prim(r: &mut R) -> PType {
    *[
        PType::U8, PType::U16, PType::U32, PType::U64, PType::I8, PType::I16, PType::I32, PType::I64, PType::F16, PType::F32,
        PType::F64,
    ]
    .choose(r)
    .unwrap()
}

// ------------------------------------------------------------------ constructors

fn p_primitive(r: &mut R, n: usize) -> Plan {
    let p = any_prim(r);
    let (nb, nulls, validity) = validity_for(r, n);
    let vals = flat(r, &DType::Primitive(p, NN), n);
    let buf = gen::build_prim(p, &vals, &vals, Validity::NonNullable).into_buffer();
    let w = p.byte_width();
    match r.gen_range(0..4) {
        0 => infallible("primitive", Good(DType::Primitive(p, nb), with_nulls(&vals, &nulls)), move || {
            PrimitiveArray::new(buf, p, validity).into_array()
        }),
        1 => {
            let (s, v) = bad_validity(r, n);
            infallible(format!("primitive with {s}"), Refuse, move || PrimitiveArray::new(buf, p, v).into_array())
        }
        2 if w > 1 => {
            let extra = r.gen_range(1..w);
            let mut b = buf.as_slice().to_vec();
            b.extend(vec![7u8; extra]);
            let b = Buffer::from(arrow_buffer::Buffer::from(b.as_slice()));
            infallible(format!("primitive with {extra} left-over bytes"), Refuse, move || {
                PrimitiveArray::new(b, p, Validity::NonNullable).into_array()
            })
        }
        3 if w > 1 && n > 0 => {
            let mut b = vec![0u8; 1];
            b.extend_from_slice(buf.as_slice());
            let b = Buffer::from(arrow_buffer::Buffer::from(b.as_slice()).slice(1));
            infallible("primitive misaligned", Refuse, move || {
                PrimitiveArray::new(b, p, Validity::NonNullable).into_array()
            })
        }
        _ => infallible("primitive", Good(DType::Primitive(p, nb), with_nulls(&vals, &nulls)), move || {
            PrimitiveArray::new(buf, p, validity).into_array()
        }),
    }
}

fn p_bool(r: &mut R, n: usize) -> Plan {
    let bits: Vec<bool> = (0..n).map(|_| r.gen()).collect();
    let (nb, nulls, validity) = validity_for(r, n);
    let bb: BooleanBuffer = gen::boolean_buffer(r, &bits);
    if r.gen_bool(0.5) {
        let (s, v) = bad_validity(r, n);
        return plan(format!("bool with {s}"), Refuse, move || Ok(BoolArray::try_new(bb, v)?.into_array()));
    }
    let vals: Vec<V> = bits.iter().map(|b| V::Bool(*b)).collect();
    plan("bool", Good(DType::Bool(nb), with_nulls(&vals, &nulls)), move || Ok(BoolArray::try_new(bb, validity)?.into_array()))
}

fn p_bytebool(r: &mut R, n: usize) -> Plan {
    let bits: Vec<bool> = (0..n).map(|_| r.gen()).collect();
    let (nb, nulls, validity) = validity_for(r, n);
    let mut bytes: Vec<u8> = bits.iter().map(|b| *b as u8).collect();
    let vals: Vec<V> = bits.iter().map(|b| V::Bool(*b)).collect();
    match r.gen_range(0..3) {
        0 => {
            let (s, v) = bad_validity(r, n);
            plan(format!("bytebool with {s}"), Refuse, move || Ok(ByteBoolArray::try_new(bytes.into(), v)?.into_array()))
        }
        1 if n > 0 => {
            let k = r.gen_range(0..n);
            bytes[k] = r.gen_range(2..=255);
            let mut rows: Vec<Option<V>> = with_nulls(&vals, &nulls).into_iter().map(Some).collect();
            if !nulls[k] {
                rows[k] = None;
            }
            plan(format!("bytebool with byte {} at {k}", bytes[k]), Rows(DType::Bool(nb), rows), move || {
                Ok(ByteBoolArray::try_new(bytes.into(), validity)?.into_array())
            })
        }
        _ => plan("bytebool", Good(DType::Bool(nb), with_nulls(&vals, &nulls)), move || {
            Ok(ByteBoolArray::try_new(bytes.into(), validity)?.into_array())
        }),
    }
}

fn p_varbin(r: &mut R, n: usize) -> Plan {
    let utf8: bool = r.gen();
    let dt = move |n| if utf8 { DType::Utf8(n) } else { DType::Binary(n) };
    let (nb, nulls, validity) = validity_for(r, n);
    let vals = flat(r, &dt(NN), n);
    let lead = if r.gen_bool(0.3) { r.gen_range(0..20) } else { 0usize };
    let tail = if r.gen_bool(0.3) { r.gen_range(0..20) } else { 0usize };
    let mut data = vec![b'x'; lead];
    let mut offs: Vec<i128> = vec![lead as i128];
    for v in &vals {
        let V::Bytes(b) = v else { unreachable!() };
        data.extend_from_slice(b);
        offs.push(data.len() as i128);
    }
    data.extend(vec![b'y'; tail]);
    let total = data.len() as i128;
    let pts: Vec<PType> = UINTS.iter().chain(&SINTS).copied().filter(|p| int_range(*p).1 >= total).collect();
    let op = *pts.choose(r).unwrap();
    let bytes_of = |d: Vec<u8>| PrimitiveArray::from(d).into_array();
    let want = with_nulls(&vals, &nulls);
    let dtype = dt(nb);
    // rows that read outside the bytes or backwards
    let rows = |offs: &[i128], data: &[u8]| -> Vec<Option<V>> {
        (0..n)
            .map(|i| {
                if nulls[i] {
                    return Some(V::Null);
                }
                let (s, e) = (offs[i], offs[i + 1]);
                if s < 0 || e < s || e > data.len() as i128 {
                    return None;
                }
                let b = &data[s as usize..e as usize];
                if utf8 && std::str::from_utf8(b).is_err() {
                    return None;
                }
                Some(V::Bytes(b.to_vec()))
            })
            .collect()
    };
    match r.gen_range(0..11) {
        0 => {
            let (s, v) = bad_validity(r, n);
            let o = ints(r, op, &offs);
            plan(format!("varbin with {s}"), Refuse, move || Ok(VarBinArray::try_new(o, bytes_of(data), dt(N), v)?.into_array()))
        }
        1 => {
            let o = ints(r, op, &[]);
            plan("varbin without offsets", Refuse, move || Ok(VarBinArray::try_new(o, bytes_of(data), dtype, Validity::NonNullable)?.into_array()))
        }
        2 => {
            let ov: Vec<V> = offs.iter().map(|i| V::Int(*i)).collect();
            let o = prim(op, &ov, Validity::AllValid);
            plan("varbin with nullable offsets", Refuse, move || Ok(VarBinArray::try_new(o, bytes_of(data), dtype, validity)?.into_array()))
        }
        3 => {
            let o = PrimitiveArray::from(offs.iter().map(|i| *i as f64).collect::<Vec<_>>()).into_array();
            plan("varbin with float offsets", Refuse, move || Ok(VarBinArray::try_new(o, bytes_of(data), dtype, validity)?.into_array()))
        }
        4 => {
            let o = ints(r, op, &offs);
            let b = if r.gen() {
                PrimitiveArray::from(data.iter().map(|b| *b as i8).collect::<Vec<_>>()).into_array()
            } else {
                PrimitiveArray::from_vec(data, Validity::AllValid).into_array()
            };
            plan(format!("varbin with bytes of type {}", b.dtype()), Refuse, move || Ok(VarBinArray::try_new(o, b, dtype, validity)?.into_array()))
        }
        5 => {
            let o = ints(r, op, &offs);
            let d = [DType::Bool(nb), DType::Primitive(PType::U8, nb), DType::Null].choose(r).unwrap().clone();
            plan(format!("varbin of type {d}"), Refuse, move || Ok(VarBinArray::try_new(o, bytes_of(data), d, validity)?.into_array()))
        }
        6 => {
            let o = ints(r, op, &offs);
            let d = dt(if nb == N { NN } else { N });
            plan("varbin with the other nullability", Refuse, move || Ok(VarBinArray::try_new(o, bytes_of(data), d, validity)?.into_array()))
        }
        // the last offset lies beyond the bytes
        7 if n > 0 && int_range(op).1 > total => {
            let k = offs.len() - 1;
            offs[k] = (total + *[1i128, 2, 100, 100_000].choose(r).unwrap()).min(int_range(op).1);
            let o = ints(r, op, &offs);
            plan("varbin whose last offset is beyond the bytes", Refuse, move || {
                Ok(VarBinArray::try_new(o, bytes_of(data), dtype, validity)?.into_array())
            })
        }
        8 if n > 0 => {
            let k = r.gen_range(0..offs.len());
            let (lo, hi) = int_range(op);
            offs[k] = *[total + 1, total + 100, 0, total, -1, lo, hi].choose(r).unwrap();
            offs[k] = offs[k].clamp(lo, hi);
            let w = rows(&offs, &data);
            let o = ints(r, op, &offs);
            plan(format!("varbin with offset {} at {k} of {}", offs[k], offs.len()), Rows(dtype, w), move || {
                Ok(VarBinArray::try_new(o, bytes_of(data), dt(nb), validity)?.into_array())
            })
        }
        9 if utf8 && !data.is_empty() => {
            let k = r.gen_range(0..data.len());
            data[k] = *[0xffu8, 0xc0, 0x80].choose(r).unwrap();
            let w = rows(&offs, &data);
            let o = ints(r, op, &offs);
            plan("varbin with bytes that are no text", Rows(dtype, w), move || {
                Ok(VarBinArray::try_new(o, bytes_of(data), dt(nb), validity)?.into_array())
            })
        }
        _ => {
            let o = ints(r, op, &offs);
            plan("varbin", Good(dtype.clone(), want), move || Ok(VarBinArray::try_new(o, bytes_of(data), dtype, validity)?.into_array()))
        }
    }
}

fn p_varbinview(r: &mut R, n: usize) -> Plan {
    let utf8: bool = r.gen();
    let dt = move |n| if utf8 { DType::Utf8(n) } else { DType::Binary(n) };
    let (nb, nulls, validity) = validity_for(r, n);
    let vals = flat(r, &dt(NN), n);
    let nbuf = r.gen_range(1..4usize);
    let mut bufs: Vec<Vec<u8>> = (0..nbuf).map(|_| vec![b'z'; r.gen_range(0..5)]).collect();
    let mut views: Vec<u8> = vec![];
    let mut longs: Vec<usize> = vec![];
    for (i, v) in vals.iter().enumerate() {
        let V::Bytes(b) = v else { unreachable!() };
        let mut w = [0u8; 16];
        w[0..4].copy_from_slice(&(b.len() as u32).to_le_bytes());
        if b.len() <= 12 {
            w[4..4 + b.len()].copy_from_slice(b);
        } else {
            let k = r.gen_range(0..nbuf);
            w[4..8].copy_from_slice(&b[..4]);
            w[8..12].copy_from_slice(&(k as u32).to_le_bytes());
            w[12..16].copy_from_slice(&(bufs[k].len() as u32).to_le_bytes());
            bufs[k].extend_from_slice(b);
            longs.push(i);
        }
        views.extend_from_slice(&w);
    }
    let arr = |d: Vec<u8>| PrimitiveArray::from(d).into_array();
    let want = with_nulls(&vals, &nulls);
    let dtype = dt(nb);
    let mut rows: Vec<Option<V>> = want.iter().cloned().map(Some).collect();
    let go = move |views: Vec<u8>, bufs: Vec<Vec<u8>>, d: DType, v: Validity| -> VortexResult<Array> {
        // views are read as 16-byte structures
        let vb = Buffer::from(arrow_buffer::Buffer::from(views.as_slice()));
        Ok(VarBinViewArray::try_new(
            PrimitiveArray::new(vb, PType::U8, Validity::NonNullable).into_array(),
            bufs.into_iter().map(arr).collect(),
            d,
            v,
        )?
        .into_array())
    };
    match r.gen_range(0..10) {
        0 => {
            let (s, v) = bad_validity(r, n);
            plan(format!("varbinview with {s}"), Refuse, move || go(views, bufs, dt(N), v))
        }
        1 => {
            let k = r.gen_range(1..16);
            views.extend(vec![0u8; k]);
            plan(format!("varbinview with {k} left-over view bytes"), Refuse, move || go(views, bufs, dtype, validity))
        }
        2 => {
            let d = [DType::Bool(nb), DType::Primitive(PType::U8, nb), DType::Null].choose(r).unwrap().clone();
            plan(format!("varbinview of type {d}"), Refuse, move || go(views, bufs, d, validity))
        }
        3 => {
            let d = dt(if nb == N { NN } else { N });
            plan("varbinview with the other nullability", Refuse, move || go(views, bufs, d, validity))
        }
        4 => {
            let wrong_views = r.gen_bool(0.5);
            let v8 = PrimitiveArray::from(views.iter().map(|b| *b as i8).collect::<Vec<_>>()).into_array();
            let b8: Vec<Array> = bufs.iter().map(|b| PrimitiveArray::from(b.iter().map(|x| *x as i8).collect::<Vec<_>>()).into_array()).collect();
            plan("varbinview with views or buffers of type i8", Refuse, move || {
                Ok(if wrong_views {
                    VarBinViewArray::try_new(v8, bufs.into_iter().map(arr).collect(), dtype, validity)?.into_array()
                } else {
                    VarBinViewArray::try_new(arr(views), b8, dtype, validity)?.into_array()
                })
            })
        }
        5 | 6 if !longs.is_empty() => {
            let i = *longs.choose(r).unwrap();
            let at = 16 * i;
            let what = r.gen_range(0..3);
            let blen = |k: usize| bufs[k].len() as u32;
            let k = u32::from_le_bytes(views[at + 8..at + 12].try_into().unwrap()) as usize;
            let l = u32::from_le_bytes(views[at..at + 4].try_into().unwrap());
            match what {
                0 => views[at + 8..at + 12].copy_from_slice(&(nbuf as u32 + *[0u32, 1, 1000, 1 << 30].choose(r).unwrap()).to_le_bytes()),
                1 => views[at + 12..at + 16].copy_from_slice(&(blen(k) - l + *[1u32, 5, 1000, 1 << 30].choose(r).unwrap()).to_le_bytes()),
                _ => views[at..at + 4].copy_from_slice(&(blen(k) + *[1u32, 5, 1000, 1 << 30].choose(r).unwrap()).to_le_bytes()),
            }
            if !nulls[i] {
                rows[i] = None;
            } else {
                // what a null row holds is nobody's business, but it may also be refused
                rows[i] = Some(V::Null);
            }
            plan(format!("varbinview whose view {i} points outside ({what})"), Rows(dtype, rows), move || go(views, bufs, dt(nb), validity))
        }
        7 if utf8 && n > 0 => {
            let i = r.gen_range(0..n);
            let V::Bytes(b) = &vals[i] else { unreachable!() };
            if b.is_empty() {
                return plan("varbinview", Good(dtype.clone(), want), move || go(views, bufs, dtype, validity));
            }
            if b.len() <= 12 {
                views[16 * i + 4] = 0xff;
            } else {
                let at = 16 * i;
                let k = u32::from_le_bytes(views[at + 8..at + 12].try_into().unwrap()) as usize;
                let o = u32::from_le_bytes(views[at + 12..at + 16].try_into().unwrap()) as usize;
                bufs[k][o] = 0xff;
                views[at + 4] = 0xff;
            }
            if !nulls[i] {
                rows[i] = None;
            }
            plan("varbinview with bytes that are no text", Rows(dtype, rows), move || go(views, bufs, dt(nb), validity))
        }
        _ => plan("varbinview", Good(dtype.clone(), want), move || go(views, bufs, dtype, validity)),
    }
}

fn p_struct(r: &mut R, n: usize) -> Plan {
    let k = r.gen_range(0..4usize);
    let mut fields = vec![];
    let mut cols = vec![];
    let mut names: Vec<String> = vec![];
    for i in 0..k {
        let dt = gen::gen_dtype(r, TyOpts::FLAT, 1);
        let vals = gen::gen_vals(r, &dt, n);
        let a = gen::build(r, &dt, &vals);
        fields.push(phys::encode_any(r, &dt, &vals, a.clone(), 1).unwrap_or(a));
        cols.push((dt, vals));
        names.push(format!("f{i}"));
    }
    let (nb, nulls, validity) = validity_for(r, n);
    let mk = |names: &[String]| FieldNames::from(names.iter().map(|s| s.as_str().into()).collect::<Vec<_>>());
    match r.gen_range(0..4) {
        0 => {
            if r.gen() || k == 0 {
                names.push("extra".into());
            } else {
                names.pop();
            }
            let nm = mk(&names);
            plan(format!("struct of {k} fields with {} names", names.len()), Refuse, move || {
                Ok(StructArray::try_new(nm, fields, n, validity)?.into_array())
            })
        }
        1 if k > 0 => {
            let i = r.gen_range(0..k);
            let m = other_len(r, n);
            let vals = gen::gen_vals(r, &cols[i].0, m);
            fields[i] = gen::build(r, &cols[i].0, &vals);
            let nm = mk(&names);
            plan(format!("struct of {n} rows with field {i} of {m}"), Refuse, move || {
                Ok(StructArray::try_new(nm, fields, n, validity)?.into_array())
            })
        }
        2 => {
            let (s, v) = bad_validity(r, n);
            let nm = mk(&names);
            plan(format!("struct with {s}"), Refuse, move || Ok(StructArray::try_new(nm, fields, n, v)?.into_array()))
        }
        _ => {
            let nm = mk(&names);
            let dt = DType::Struct(
                vortex_dtype::StructDType::new(nm.clone(), cols.iter().map(|c| c.0.clone()).collect()),
                nb,
            );
            let vals = (0..n)
                .map(|i| if nulls[i] { V::Null } else { V::Struct(cols.iter().map(|c| c.1[i].clone()).collect()) })
                .collect();
            plan("struct", Good(dt, vals), move || Ok(StructArray::try_new(nm, fields, n, validity)?.into_array()))
        }
    }
}

fn p_chunked(r: &mut R, n: usize) -> Plan {
    let dt = gen::gen_dtype(r, TyOpts::ALL, 1);
    let vals = gen::gen_vals(r, &dt, n);
    let cs = phys::cuts(r, n, 4);
    let mut chunks = vec![];
    for (s, t) in phys::ranges(&cs, n) {
        let c = gen::build(r, &dt, &vals[s..t]);
        chunks.push(phys::encode_any(r, &dt, &vals[s..t], c.clone(), 1).unwrap_or(c));
    }
    if r.gen_bool(0.5) {
        let other = loop {
            let o = if r.gen_bool(0.4) && dt != DType::Null {
                dt.with_nullability(if dt.is_nullable() { NN } else { N })
            } else {
                gen::gen_dtype(r, TyOpts::ALL, 1)
            };
            if o != dt {
                break o;
            }
        };
        let m = r.gen_range(0..5);
        let v = gen::gen_vals(r, &other, m);
        let c = gen::build(r, &other, &v);
        let at = r.gen_range(0..=chunks.len());
        chunks.insert(at, c);
        return plan(format!("chunks of {dt} with one of {other}"), Refuse, move || {
            Ok(ChunkedArray::try_new(chunks, dt)?.into_array())
        });
    }
    plan("chunked", Good(dt.clone(), vals), move || Ok(ChunkedArray::try_new(chunks, dt)?.into_array()))
}

fn p_sparse(r: &mut R, n: usize) -> Plan {
    let dt = match r.gen_range(0..4) {
        0 => {
            let x = gen::nullability(r);
            DType::Bool(x)
        }
        _ => {
            let (p, x) = (any_prim(r), gen::nullability(r));
            DType::Primitive(p, x)
        }
    };
    let fill = if dt.is_nullable() && r.gen_bool(0.6) { V::Null } else { flat(r, &dt, 1).remove(0) };
    let mut idx: Vec<usize> = (0..n).filter(|_| r.gen_bool(0.3)).collect();
    let pv = gen::gen_vals(r, &dt, idx.len());
    let model = |idx: &[usize], n: usize| -> Vec<V> {
        let mut v = vec![fill.clone(); n];
        for (i, x) in idx.iter().zip(&pv) {
            v[*i] = x.clone();
        }
        v
    };
    let fv = v_to_sv(&fill, &dt);
    let iarr = |idx: &[usize]| PrimitiveArray::from(idx.iter().map(|i| *i as u64).collect::<Vec<_>>()).into_array();
    let values = gen::build(r, &dt, &pv);
    let values = phys::encode_any(r, &dt, &pv, values.clone(), 1).unwrap_or(values);
    match r.gen_range(0..8) {
        0 => {
            let i = match r.gen_range(0..3) {
                0 => PrimitiveArray::from(idx.iter().map(|i| *i as u32).collect::<Vec<_>>()).into_array(),
                1 => PrimitiveArray::from(idx.iter().map(|i| *i as i64).collect::<Vec<_>>()).into_array(),
                _ => PrimitiveArray::from_vec(idx.iter().map(|i| *i as u64).collect::<Vec<_>>(), Validity::AllValid).into_array(),
            };
            plan(format!("sparse with indices of type {}", i.dtype()), Refuse, move || Ok(SparseArray::try_new(i, values, n, fv)?.into_array()))
        }
        1 => {
            let m = other_len(r, idx.len());
            let i: Vec<usize> = (0..m).collect();
            let i = iarr(&i);
            let n = n.max(m + 1);
            plan("sparse with another number of values than indices", Refuse, move || Ok(SparseArray::try_new(i, values, n, fv)?.into_array()))
        }
        2 => {
            let bad = match &dt {
                DType::Bool(_) => ScalarValue::Primitive(PValue::I32(1)),
                _ => ScalarValue::Bool(true),
            };
            let i = iarr(&idx);
            plan(format!("sparse of {dt} filled with {bad:?}"), Refuse, move || Ok(SparseArray::try_new(i, values, n, bad)?.into_array()))
        }
        3 if !dt.is_nullable() => {
            let i = iarr(&idx);
            plan(format!("sparse of {dt} filled with null"), Refuse, move || Ok(SparseArray::try_new(i, values, n, ScalarValue::Null)?.into_array()))
        }
        4 if !idx.is_empty() => {
            let m = r.gen_range(0..=*idx.last().unwrap());
            let i = iarr(&idx);
            plan("sparse shorter than its last index", Refuse, move || Ok(SparseArray::try_new(i, values, m, fv)?.into_array()))
        }
        // an index outside that is not the last
        5 if idx.len() > 1 => {
            let k = r.gen_range(0..idx.len() - 1);
            idx[k] = n + r.gen_range(0..100);
            let i = iarr(&idx);
            let rows = vec![None; n];
            plan("sparse with an index beyond its length", Rows(dt, rows), move || Ok(SparseArray::try_new(i, values, n, fv)?.into_array()))
        }
        6 if idx.len() > 1 && n > 2 => {
            if r.gen() {
                idx.reverse();
            } else {
                let k = r.gen_range(1..idx.len());
                idx[k] = idx[k - 1];
            }
            let i = iarr(&idx);
            let rows = vec![None; n];
            plan("sparse with unsorted or repeated indices", Rows(dt, rows), move || Ok(SparseArray::try_new(i, values, n, fv)?.into_array()))
        }
        _ => {
            let i = iarr(&idx);
            let i = if r.gen() {
                i
            } else {
                let iv: Vec<V> = idx.iter().map(|i| V::Int(*i as i128)).collect();
                phys::encode_any(r, &DType::Primitive(PType::U64, NN), &iv, i.clone(), 1).unwrap_or(i)
            };
            plan("sparse", Good(dt.clone(), model(&idx, n)), move || Ok(SparseArray::try_new(i, values, n, fv)?.into_array()))
        }
    }
}

fn p_constant(r: &mut R, n: usize) -> Plan {
    let dt = gen::gen_dtype(r, TyOpts::ALL, 1);
    let v = gen::gen_vals(r, &dt, 1).remove(0);
    if r.gen_bool(0.5) {
        let s = v_to_scalar(&v, &dt);
        return infallible("constant", Good(dt, vec![v; n]), move || ConstantArray::new(s, n).into_array());
    }
    // a value that no scalar of the type has
    let bad = match &dt {
        DType::Bool(_) | DType::Utf8(_) | DType::Binary(_) => ScalarValue::Primitive(PValue::U64(3)),
        DType::Primitive(..) => ScalarValue::Bool(true),
        _ => return infallible("constant", Good(dt.clone(), vec![v.clone(); n]), move || ConstantArray::new(v_to_scalar(&v, &dt), n).into_array()),
    };
    // (a null of a non-nullable type stands for the fields of a null struct, so it is not refused)
    let (w, s) = (format!("constant of {dt} with {bad:?}"), bad);
    let rows = vec![None; n];
    infallible(w, Rows(dt.clone(), rows), move || ConstantArray::new(Scalar::new(dt, s), n).into_array())
}

fn p_dict(r: &mut R, n: usize) -> Plan {
    // dictionaries are typed as primitives, strings and bytes only
    let dt = loop {
        let d = gen::gen_dtype(r, TyOpts::FLAT, 1);
        if matches!(d, DType::Primitive(..) | DType::Utf8(_) | DType::Binary(_)) {
            break d;
        }
    };
    let k = r.gen_range(1..40usize);
    let vals = gen::gen_vals(r, &dt, k);
    let values = gen::build(r, &dt, &vals);
    let values = phys::encode_any(r, &dt, &vals, values.clone(), 1).unwrap_or(values);
    let mut codes: Vec<i128> = (0..n).map(|_| r.gen_range(0..k) as i128).collect();
    let cp = smallest(r, k as i128 + 100);
    match r.gen_range(0..4) {
        0 => {
            let sp = *SINTS[1..].choose(r).unwrap();
            let cv: Vec<V> = codes.iter().map(|i| V::Int(*i)).collect();
            let c = if r.gen() { prim(sp, &cv, Validity::NonNullable) } else { prim(cp, &cv, Validity::AllValid) };
            plan(format!("dict with codes of type {}", c.dtype()), Refuse, move || Ok(DictArray::try_new(c, values)?.into_array()))
        }
        1 if n > 0 => {
            let i = r.gen_range(0..n);
            codes[i] = k as i128 + *[0i128, 1, 50].choose(r).unwrap();
            let rows = codes.iter().map(|c| vals.get(*c as usize).cloned()).collect();
            let c = ints(r, cp, &codes);
            plan("dict with a code beyond its values", Rows(dt, rows), move || Ok(DictArray::try_new(c, values)?.into_array()))
        }
        _ => {
            let want = codes.iter().map(|c| vals[*c as usize].clone()).collect();
            let c = ints(r, cp, &codes);
            plan("dict", Good(dt, want), move || Ok(DictArray::try_new(c, values)?.into_array()))
        }
    }
}

fn gen_ends(r: &mut R, n: usize) -> Vec<i128> {
    let mut ends = vec![];
    let mut at = 0;
    while at < n {
        at = (at + *[1usize, 1, 2, 3, 10, 100, 1000].choose(r).unwrap()).min(n);
        ends.push(at as i128);
    }
    ends
}

fn spoil_ends(r: &mut R, ends: &mut Vec<i128>) -> &'static str {
    let m = ends.len();
    if r.gen() {
        let k = r.gen_range(1..m);
        ends[k] = ends[k - 1];
        "repeated ends"
    } else {
        let k = r.gen_range(1..m);
        ends.swap(k - 1, k);
        "unsorted ends"
    }
}

fn p_runend(r: &mut R, n: usize) -> Plan {
    let p = any_prim(r);
    let mut ends = gen_ends(r, n);
    let m = ends.len();
    let vals = flat(r, &DType::Primitive(p, NN), m);
    let (nb, nulls, validity) = validity_for(r, n);
    let vv = if nb == N { Validity::AllValid } else { Validity::NonNullable };
    let values = prim(p, &vals, vv.clone());
    let dt = DType::Primitive(p, nb);
    let values = if r.gen() { values } else { phys::encode_any(r, &dt, &vals, values.clone(), 1).unwrap_or(values) };
    let ep = smallest(r, n as i128 + 1);
    let mut out = vec![];
    let mut at = 0;
    for (e, v) in ends.iter().zip(&vals) {
        while at < *e as usize {
            out.push(v.clone());
            at += 1;
        }
    }
    let want = with_nulls(&out, &nulls);
    match r.gen_range(0..9) {
        0 => {
            let (s, v) = bad_validity(r, n);
            let values = prim(p, &vals, Validity::AllValid);
            let e = ints(r, ep, &ends);
            plan(format!("runend with {s}"), Refuse, move || Ok(RunEndArray::try_new(e, values, v)?.into_array()))
        }
        1 => {
            let ev: Vec<V> = ends.iter().map(|i| V::Int(*i)).collect();
            let e = match r.gen_range(0..3) {
                0 => prim(ep, &ev, Validity::AllValid),
                1 => prim(PType::I64, &ev, Validity::NonNullable),
                _ => PrimitiveArray::from(ends.iter().map(|i| *i as f64).collect::<Vec<_>>()).into_array(),
            };
            plan(format!("runend with ends of type {}", e.dtype()), Refuse, move || Ok(RunEndArray::try_new(e, values, validity)?.into_array()))
        }
        2 if m > 1 => {
            let what = spoil_ends(r, &mut ends);
            let e = ints(r, ep, &ends);
            let last = *ends.last().unwrap() as usize;
            let v = if nb == N { Validity::AllValid } else { Validity::NonNullable };
            plan(format!("runend with {what} ({last})"), Refuse, move || Ok(RunEndArray::try_new(e, values, v)?.into_array()))
        }
        3 => {
            let k = other_len(r, m);
            let v2 = flat(r, &DType::Primitive(p, NN), k);
            let values = prim(p, &v2, vv);
            let e = ints(r, ep, &ends);
            plan(format!("runend of {m} ends and {k} values"), Refuse, move || Ok(RunEndArray::try_new(e, values, validity)?.into_array()))
        }
        4 => {
            let e = ints(r, ep, &ends);
            let v = if nb == N { Validity::NonNullable } else { Validity::AllValid };
            plan("runend with the other nullability", Refuse, move || Ok(RunEndArray::try_new(e, values, v)?.into_array()))
        }
        5 if m > 0 => {
            // a run that ends where it begins
            ends[0] = 0;
            let e = ints(r, ep, &ends);
            let _ = (dt, want);
            plan("runend with an end of zero", Refuse, move || {
                Ok(RunEndArray::try_new(e, values, validity)?.into_array())
            })
        }
        _ => {
            let e = ints(r, ep, &ends);
            plan("runend", Good(dt, want), move || Ok(RunEndArray::try_new(e, values, validity)?.into_array()))
        }
    }
}

fn p_runendbool(r: &mut R, n: usize) -> Plan {
    let n = n.max(1);
    let mut ends = gen_ends(r, n);
    let m = ends.len();
    let start: bool = r.gen();
    let (nb, nulls, validity) = validity_for(r, n);
    let ep = smallest(r, n as i128 + 1);
    let mut out = vec![];
    let (mut at, mut b) = (0, start);
    for e in &ends {
        while at < *e as usize {
            out.push(V::Bool(b));
            at += 1;
        }
        b = !b;
    }
    let want = with_nulls(&out, &nulls);
    match r.gen_range(0..6) {
        0 => {
            let (s, v) = bad_validity(r, n);
            let e = ints(r, ep, &ends);
            plan(format!("runendbool with {s}"), Refuse, move || Ok(RunEndBoolArray::try_new(e, start, v)?.into_array()))
        }
        1 => {
            let ev: Vec<V> = ends.iter().map(|i| V::Int(*i)).collect();
            let e = match r.gen_range(0..3) {
                0 => prim(ep, &ev, Validity::AllValid),
                1 => prim(PType::I64, &ev, Validity::NonNullable),
                _ => PrimitiveArray::from(ends.iter().map(|i| *i as f64).collect::<Vec<_>>()).into_array(),
            };
            plan(format!("runendbool with ends of type {}", e.dtype()), Refuse, move || Ok(RunEndBoolArray::try_new(e, start, validity)?.into_array()))
        }
        2 if m > 1 => {
            let what = spoil_ends(r, &mut ends);
            let e = ints(r, ep, &ends);
            plan(format!("runendbool with {what}"), Refuse, move || Ok(RunEndBoolArray::try_new(e, start, Validity::NonNullable)?.into_array()))
        }
        3 => {
            let e = ints(r, ep, &[]);
            plan("runendbool without ends", Refuse, move || Ok(RunEndBoolArray::try_new(e, start, Validity::NonNullable)?.into_array()))
        }
        _ => {
            let e = ints(r, ep, &ends);
            plan("runendbool", Good(DType::Bool(nb), want), move || Ok(RunEndBoolArray::try_new(e, start, validity)?.into_array()))
        }
    }
}

fn p_zigzag(r: &mut R, n: usize) -> Plan {
    let p = *SINTS.choose(r).unwrap();
    let up = p.to_unsigned();
    let (nb, nulls, validity) = validity_for(r, n);
    let vals = flat(r, &DType::Primitive(p, NN), n);
    let bits = p.bit_width() as u32;
    let enc: Vec<V> = vals
        .iter()
        .map(|v| {
            let V::Int(i) = v else { unreachable!() };
            V::Int(((i << 1) ^ (i >> 127)) & ((1i128 << bits) - 1))
        })
        .collect();
    if r.gen_bool(0.3) {
        let a = if r.gen() { prim(p, &vals, validity) } else { PrimitiveArray::from(vec![1.5f64; n]).into_array() };
        return plan(format!("zigzag over {}", a.dtype()), Refuse, move || Ok(ZigZagArray::try_new(a)?.into_array()));
    }
    let masked = with_nulls(&enc, &nulls);
    let e = gen::build_prim(up, &masked, &enc, validity).into_array();
    let e = if r.gen() { e } else { phys::encode_any(r, &DType::Primitive(up, nb), &masked, e.clone(), 1).unwrap_or(e) };
    plan("zigzag", Good(DType::Primitive(p, nb), with_nulls(&vals, &nulls)), move || Ok(ZigZagArray::try_new(e)?.into_array()))
}

fn p_bitpacked(r: &mut R, n: usize) -> Plan {
    let p = *UINTS.choose(r).unwrap();
    let bits = p.bit_width() as u8;
    let w = if r.gen_bool(0.8) { r.gen_range(1..bits) } else { *[0, bits].choose(r).unwrap() };
    let (nb, nulls, validity) = validity_for(r, n);
    let all = flat(r, &DType::Primitive(p, NN), n);
    let cap = 1i128 << w;
    // the packed part holds the low bits, patches the values that do not fit
    let low: Vec<V> = all.iter().map(|v| if let V::Int(i) = v { V::Int(i % cap) } else { unreachable!() }).collect();
    let src = gen::build_prim(p, &low, &low, Validity::NonNullable);
    // SAFETY: the values have been cut down to this many bits
    let packed = match w {
        _ if w == 0 || n == 0 => Ok(Buffer::from(Vec::<u8>::new())),
        _ if w == bits || r.gen() => unsafe { bitpack_encode_unchecked(src, w) }.map(|x| x.packed().clone()),
        _ => bitpack_encode(src, w).map(|x| x.packed().clone()),
    };
    let buf = match packed {
        Ok(b) => b,
        Err(e) => return plan("bitpack", Good(DType::Null, vec![]), move || Err(e)),
    };
    let idx: Vec<usize> = (0..n).filter(|&i| all[i] != low[i] && !nulls[i]).collect();
    let sparse = |idx: &[usize], vals: &[V], p: PType, len: usize, nb: Nullability| {
        SparseArray::try_new(
            PrimitiveArray::from(idx.iter().map(|i| *i as u64).collect::<Vec<_>>()).into_array(),
            prim(p, vals, if nb == N { Validity::AllValid } else { Validity::NonNullable }),
            len,
            if nb == N { ScalarValue::Null } else { v_to_sv(&V::Int(0), &DType::Primitive(p, NN)) },
        )
        .map(|s| s.into_array())
    };
    let pvals: Vec<V> = idx.iter().map(|&i| all[i].clone()).collect();
    let patches = (!idx.is_empty()).then(|| sparse(&idx, &pvals, p, n, N).unwrap());
    let want = with_nulls(&all, &nulls);
    let go = move |buf: Buffer, p: PType, v: Validity, pa: Option<Array>, w: u8, n: usize| -> VortexResult<Array> {
        Ok(BitPackedArray::try_new(buf, p, v, pa, w, n)?.into_array())
    };
    match r.gen_range(0..11) {
        0 => {
            let (s, v) = bad_validity(r, n);
            plan(format!("bitpacked with {s}"), Refuse, move || go(buf, p, v, patches, w, n))
        }
        1 => {
            let q = *[PType::I8, PType::I32, PType::I64, PType::F32, PType::F64].choose(r).unwrap();
            plan(format!("bitpacked as {q}"), Refuse, move || go(buf, q, validity, None, w, n))
        }
        2 if n > 0 => {
            // wider than the type, with as many bytes as that would take
            let w2 = bits + r.gen_range(1..=(64u8.saturating_sub(bits)).max(1));
            let b = Buffer::from(vec![0u8; n.div_ceil(1024) * 128 * w2 as usize]);
            plan(format!("bitpacked {p} at width {w2}"), Refuse, move || go(b, p, validity, None, w2, n))
        }
        3 => {
            let mut b = buf.as_slice().to_vec();
            if r.gen() || b.is_empty() {
                b.extend(vec![0u8; *[1usize, 128, 128 * w.max(1) as usize].choose(r).unwrap()]);
            } else {
                b.truncate(b.len() - *[1usize, 128].choose(r).unwrap());
            }
            plan("bitpacked with another number of bytes", Refuse, move || go(b.into(), p, validity, patches, w, n))
        }
        4 if n > 0 => {
            let m = n + if r.gen() { 1 } else { r.gen_range(1..100) };
            let pa = sparse(&[n - 1], &[V::Int(0)], p, m, N).unwrap();
            plan("bitpacked with patches of another length", Refuse, move || go(buf, p, validity, Some(pa), w, n))
        }
        5 if n > 0 => {
            let q = *[PType::U8, PType::U16, PType::U32, PType::U64, PType::I32, PType::F64].iter().filter(|q| **q != p).collect::<Vec<_>>().choose(r).unwrap();
            let pa = sparse(&[n - 1], &[gen::default_v(&DType::Primitive(*q, NN))], *q, n, N).unwrap();
            plan(format!("bitpacked {p} with patches of {q}"), Refuse, move || go(buf, p, validity, Some(pa), w, n))
        }
        6 if n > 0 => {
            let pa = sparse(&[n - 1], &[V::Int(0)], p, n, NN).unwrap();
            plan("bitpacked with patches that are not nullable", Refuse, move || go(buf, p, validity, Some(pa), w, n))
        }
        7 => {
            let pa = prim(p, &all, Validity::AllValid);
            plan("bitpacked with dense patches", Refuse, move || go(buf, p, validity, Some(pa), w, n))
        }
        8 => {
            let pa = sparse(&[], &[], p, n, N).unwrap();
            plan("bitpacked with empty patches", Refuse, move || go(buf, p, validity, Some(pa), w, n))
        }
        _ => plan("bitpacked", Good(DType::Primitive(p, nb), want), move || go(buf, p, validity, patches, w, n)),
    }
}

fn p_for(r: &mut R, n: usize) -> Plan {
    let p = *UINTS.iter().chain(&SINTS).collect::<Vec<_>>().choose(r).unwrap();
    let p = *p;
    let bits = p.bit_width() as u8;
    let up = p.to_unsigned();
    let shift = r.gen_range(0..bits);
    let (nb, nulls, validity) = validity_for(r, n);
    let reference = {
        let V::Int(i) = flat(r, &DType::Primitive(p, NN), 1).remove(0) else { unreachable!() };
        i
    };
    let (_, hi) = int_range(p);
    let room = (hi - reference) >> shift;
    let enc: Vec<i128> = (0..n).map(|_| if room <= 0 { 0 } else { r.gen_range(0..=room.min(1 << 40)) }).collect();
    let vals: Vec<V> = enc.iter().map(|e| V::Int(reference + (e << shift))).collect();
    let ev: Vec<V> = with_nulls(&enc.iter().map(|e| V::Int(*e)).collect::<Vec<_>>(), &nulls);
    let garb: Vec<V> = enc.iter().map(|e| V::Int(*e)).collect();
    let child = gen::build_prim(up, &ev, &garb, validity.clone()).into_array();
    let scalar = |v: i128, p: PType, nb: Nullability| v_to_scalar(&V::Int(v), &DType::Primitive(p, nb));
    let rnb = gen::nullability(r);
    match r.gen_range(0..7) {
        0 => {
            let s = Scalar::null(DType::Primitive(p, N));
            plan("for with a null reference", Refuse, move || Ok(FoRArray::try_new(child, s, shift)?.into_array()))
        }
        1 => {
            let q = *[PType::U8, PType::I8, PType::U16, PType::I16, PType::U32, PType::I32, PType::U64, PType::I64]
                .iter()
                .filter(|q| q.to_unsigned() != up)
                .collect::<Vec<_>>()
                .choose(r)
                .unwrap();
            let s = scalar(1, *q, rnb);
            plan(format!("for over {up} with a reference of {q}"), Refuse, move || Ok(FoRArray::try_new(child, s, shift % 8)?.into_array()))
        }
        2 => {
            let s = match r.gen_range(0..3) {
                0 => Scalar::primitive(1.5f64, rnb),
                1 => Scalar::utf8("a".to_string(), rnb),
                _ => Scalar::bool(true, rnb),
            };
            plan(format!("for with a reference of {}", s.dtype()), Refuse, move || Ok(FoRArray::try_new(child, s, shift)?.into_array()))
        }
        3 => {
            let sh = bits.saturating_add(r.gen_range(0..50));
            let s = scalar(reference, p, rnb);
            plan(format!("for of {p} shifted by {sh}"), Refuse, move || Ok(FoRArray::try_new(child, s, sh)?.into_array()))
        }
        4 => {
            let c = if p.is_signed_int() {
                // the child of a signed array is unsigned
                prim(p, &vec![V::Int(1); n], validity)
            } else {
                match r.gen_range(0..3) {
                    0 => {
                        // floats with a float reference
                        let c = PrimitiveArray::from_vec(vec![1.5f64; n], validity).into_array();
                        let s = Scalar::primitive(0.5f64, rnb);
                        return plan("for of floats", Refuse, move || Ok(FoRArray::try_new(c, s, shift)?.into_array()));
                    }
                    1 => PrimitiveArray::from_vec(vec![1.5f64; n], validity).into_array(),
                    _ => BoolArray::from_vec(vec![true; n], validity).into_array(),
                }
            };
            let s = scalar(reference, p, rnb);
            plan(format!("for of {p} over {}", c.dtype()), Refuse, move || Ok(FoRArray::try_new(c, s, shift)?.into_array()))
        }
        _ => {
            let s = scalar(reference, p, rnb);
            let child = if r.gen() { child } else { phys::encode_any(r, &DType::Primitive(up, nb), &ev, child.clone(), 1).unwrap_or(child) };
            plan("for", Good(DType::Primitive(p, nb), with_nulls(&vals, &nulls)), move || Ok(FoRArray::try_new(child, s, shift)?.into_array()))
        }
    }
}

fn p_delta(r: &mut R, n: usize) -> Plan {
    let p = *UINTS.choose(r).unwrap();
    let vals = flat(r, &DType::Primitive(p, NN), n);
    let src = gen::build_prim(p, &vals, &vals, Validity::NonNullable);
    let (b, d) = match delta_compress(&src) {
        Ok(x) => x,
        Err(_) => return p_zigzag(r, n),
    };
    let lo = r.gen_range(0..=n.min(1023));
    let len = r.gen_range(0..=n - lo);
    let (nb, nulls, validity) = validity_for(r, len);
    // the parts of a nullable array are nullable, without nulls
    let (b, d) = if nb == N {
        let all = |a: vortex::array::PrimitiveArray| PrimitiveArray::new(a.into_buffer(), p, Validity::AllValid).into_array();
        (all(b), all(d))
    } else {
        (b.into_array(), d.into_array())
    };
    let dt = DType::Primitive(p, nb);
    let want = with_nulls(&vals[lo..lo + len], &nulls);
    let phys_len = d.len();
    let go = move |b: Array, d: Array, v: Validity, o: usize, l: usize| -> VortexResult<Array> { Ok(DeltaArray::try_new(b, d, v, o, l)?.into_array()) };
    let recast = |a: &Array, q: PType, v: Validity| {
        let n = a.len();
        prim(q, &vec![gen::default_v(&DType::Primitive(q, NN)); n], v)
    };
    match r.gen_range(0..9) {
        0 => {
            let (s, v) = bad_validity(r, len);
            plan(format!("delta with {s}"), Refuse, move || go(b, d, v, lo, len))
        }
        1 => {
            let o = if r.gen() { 1024 } else { r.gen_range(1024..3000) };
            plan(format!("delta at offset {o}"), Refuse, move || go(b, d, validity, o, 0))
        }
        2 => {
            let l = phys_len - lo + if r.gen() { 1 } else { r.gen_range(1..2000) };
            plan("delta longer than its deltas", Refuse, move || go(b, d, Validity::NonNullable, lo, l))
        }
        3 => {
            let q = *UINTS.iter().filter(|q| **q != p).collect::<Vec<_>>().choose(r).unwrap();
            let b2 = recast(&b, *q, Validity::NonNullable);
            plan(format!("delta of {p} with bases of {q}"), Refuse, move || go(b2, d, validity, lo, len))
        }
        4 => {
            let q = *[PType::F32, PType::F64, PType::F16].choose(r).unwrap();
            let (b2, d2) = (recast(&b, q, Validity::NonNullable), recast(&d, q, Validity::NonNullable));
            plan(format!("delta of {q}"), Refuse, move || go(b2, d2, Validity::NonNullable, lo, len))
        }
        5 => {
            let m = other_len(r, b.len());
            let b2 = prim(p, &vec![V::Int(0); m], Validity::NonNullable);
            plan(format!("delta of {phys_len} deltas with {m} bases for {}", b.len()), Refuse, move || go(b2, d, validity, lo, len))
        }
        6 => {
            let (b2, d2) = (recast(&b, p, Validity::AllInvalid), recast(&d, p, Validity::AllInvalid));
            plan("delta over nullable deltas", Refuse, move || go(b2, d2, Validity::NonNullable, lo, len))
        }
        _ => plan("delta", Good(dt, want), move || go(b, d, validity, lo, len)),
    }
}

fn p_alp(r: &mut R, n: usize) -> Plan {
    let wide = r.gen_bool(0.6);
    let (ip, fp) = if wide { (PType::I64, PType::F64) } else { (PType::I32, PType::F32) };
    let (nb, nulls, validity) = validity_for(r, n);
    let top = if wide { 23u8 } else { 10 };
    let e = *[0, top, top - 1, r.gen_range(0..=top), r.gen_range(0..=top)].choose(r).unwrap();
    let f = if r.gen_bool(0.9) { r.gen_range(0..=e) } else { r.gen_range(0..=top) };
    let enc: Vec<i128> = (0..n).map(|_| r.gen_range(-10_000i128..10_000)).collect();
    // what the format says a decoded value is: encoded * 10^f * 10^-e in the float type
    let vals: Vec<V> = enc
        .iter()
        .map(|i| {
            if wide {
                V::F64((*i as f64 * F10_64[f as usize] * IF10_64[e as usize]).to_bits())
            } else {
                V::F32((*i as f32 * F10_32[f as usize] * IF10_32[e as usize]).to_bits())
            }
        })
        .collect();
    let ev: Vec<V> = with_nulls(&enc.iter().map(|i| V::Int(*i)).collect::<Vec<_>>(), &nulls);
    let garb: Vec<V> = enc.iter().map(|i| V::Int(*i)).collect();
    let child = gen::build_prim(ip, &ev, &garb, validity.clone()).into_array();
    let idx: Vec<usize> = (0..n).filter(|&i| !nulls[i] && r.gen_bool(0.05)).collect();
    let pv = flat(r, &DType::Primitive(fp, NN), idx.len());
    let sparse = |idx: &[usize], vals: &[V], p: PType, len: usize, nb: Nullability| {
        SparseArray::try_new(
            PrimitiveArray::from(idx.iter().map(|i| *i as u64).collect::<Vec<_>>()).into_array(),
            prim(p, vals, if nb == N { Validity::AllValid } else { Validity::NonNullable }),
            len,
            if nb == N { ScalarValue::Null } else { v_to_sv(&gen::default_v(&DType::Primitive(p, NN)), &DType::Primitive(p, NN)) },
        )
        .unwrap()
        .into_array()
    };
    let patches = (!idx.is_empty()).then(|| sparse(&idx, &pv, fp, n, N));
    let mut want = with_nulls(&vals, &nulls);
    for (i, v) in idx.iter().zip(&pv) {
        want[*i] = v.clone();
    }
    let ex = Exponents { e, f };
    match r.gen_range(0..8) {
        0 => {
            let q = *[PType::U32, PType::U64, PType::I16, PType::F64, PType::I8].choose(r).unwrap();
            let c = prim(q, &vec![gen::default_v(&DType::Primitive(q, NN)); n], validity);
            plan(format!("alp over {q}"), Refuse, move || Ok(ALPArray::try_new(c, ex, None)?.into_array()))
        }
        1 => {
            let max = if wide { 23u8 } else { 10 };
            let big = max + 1 + if r.gen() { 0 } else { r.gen_range(0..200) };
            let ex = match r.gen_range(0..3) {
                0 => Exponents { e: big, f },
                1 => Exponents { e, f: big },
                _ => Exponents { e: big, f: big },
            };
            plan(format!("alp of {fp} with exponents {ex:?}"), Refuse, move || Ok(ALPArray::try_new(child, ex, patches)?.into_array()))
        }
        2 if n > 0 => {
            let m = n + if r.gen() { 1 } else { r.gen_range(1..100) };
            let pa = sparse(&[0], &[gen::default_v(&DType::Primitive(fp, NN))], fp, m, N);
            plan("alp with patches of another length", Refuse, move || Ok(ALPArray::try_new(child, ex, Some(pa))?.into_array()))
        }
        3 if n > 0 => {
            let q = if wide { PType::F32 } else { PType::F64 };
            let pa = sparse(&[0], &[gen::default_v(&DType::Primitive(q, NN))], q, n, N);
            plan(format!("alp of {fp} with patches of {q}"), Refuse, move || Ok(ALPArray::try_new(child, ex, Some(pa))?.into_array()))
        }
        4 if n > 0 => {
            let pa = sparse(&[0], &[gen::default_v(&DType::Primitive(fp, NN))], fp, n, NN);
            plan("alp with patches that are not nullable", Refuse, move || Ok(ALPArray::try_new(child, ex, Some(pa))?.into_array()))
        }
        5 => {
            let pa = prim(fp, &vals, Validity::AllInvalid);
            plan("alp with dense patches", Rows(DType::Primitive(fp, nb), with_nulls(&vals, &nulls).into_iter().map(Some).collect()), move || Ok(ALPArray::try_new(child, ex, Some(pa))?.into_array()))
        }
        _ => {
            let child = if r.gen() { child } else { phys::encode_any(r, &DType::Primitive(ip, nb), &ev, child.clone(), 1).unwrap_or(child) };
            plan("alp", Good(DType::Primitive(fp, nb), want), move || Ok(ALPArray::try_new(child, ex, patches)?.into_array()))
        }
    }
}

const F10_64: [f64; 24] = [1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22, 1e23];
const IF10_64: [f64; 24] = [1e-0, 1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-11, 1e-12, 1e-13, 1e-14, 1e-15, 1e-16, 1e-17, 1e-18, 1e-19, 1e-20, 1e-21, 1e-22, 1e-23];
const F10_32: [f32; 11] = [1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10];
const IF10_32: [f32; 11] = [1e-0, 1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10];

fn p_alprd(r: &mut R, n: usize) -> Plan {
    let wide = r.gen_bool(0.6);
    let (fp, rp, bits) = if wide { (PType::F64, PType::U64, 64u8) } else { (PType::F32, PType::U32, 32) };
    let (nb, nulls, validity) = validity_for(r, n);
    // the left part has at most 16 bits
    let rbw = r.gen_range(bits - 16..bits);
    let dl = r.gen_range(1..=8usize);
    let lmax = 1u64 << (bits - rbw);
    let dict: Vec<u16> = (0..dl).map(|_| r.gen_range(0..lmax) as u16).collect();
    let mut codes: Vec<i128> = (0..n).map(|_| r.gen_range(0..dl) as i128).collect();
    let right: Vec<i128> = (0..n).map(|_| (r.gen::<u64>() & ((1u64 << rbw) - 1)) as i128).collect();
    let exi: Vec<usize> = (0..n).filter(|&i| !nulls[i] && r.gen_bool(0.05)).collect();
    let exv: Vec<i128> = exi.iter().map(|_| r.gen_range(0..lmax) as i128).collect();
    let mut left: Vec<u64> = codes.iter().map(|c| dict[*c as usize] as u64).collect();
    for (i, v) in exi.iter().zip(&exv) {
        left[*i] = *v as u64;
    }
    let vals: Vec<V> = (0..n)
        .map(|i| {
            let b = (left[i] << rbw) | right[i] as u64;
            if wide {
                V::F64(b)
            } else {
                V::F32(b as u32)
            }
        })
        .collect();
    let lp = PType::U16;
    let mut lv: Vec<V> = codes.iter().map(|i| V::Int(*i)).collect();
    let left_arr = |lv: &[V], v: Validity| gen::build_prim(lp, lv, lv, v).into_array();
    let la = left_arr(&lv, validity.clone());
    let ra = ints(r, rp, &right);
    let sparse = |idx: &[usize], vals: &[i128], p: PType, len: usize| {
        SparseArray::try_new(
            PrimitiveArray::from(idx.iter().map(|i| *i as u64).collect::<Vec<_>>()).into_array(),
            prim(p, &vals.iter().map(|v| V::Int(*v)).collect::<Vec<_>>(), Validity::AllValid),
            len,
            ScalarValue::Null,
        )
        .unwrap()
        .into_array()
    };
    let ex = (!exi.is_empty()).then(|| sparse(&exi, &exv, lp, n));
    let dt = DType::Primitive(fp, nb);
    let want = with_nulls(&vals, &nulls);
    let go = move |dt: DType, l: Array, d: Vec<u16>, ra: Array, w: u8, ex: Option<Array>| -> VortexResult<Array> {
        Ok(ALPRDArray::try_new(dt, l, d, ra, w, ex)?.into_array())
    };
    match r.gen_range(0..15) {
        0 => {
            let d = [DType::Primitive(PType::I32, nb), DType::Utf8(nb), DType::Primitive(PType::F16, nb), DType::Primitive(PType::U64, nb)].choose(r).unwrap().clone();
            plan(format!("alprd of {d}"), Refuse, move || go(d, la, dict, ra, rbw, ex))
        }
        1 => {
            let m = other_len(r, n);
            let ra = ints(r, rp, &vec![0; m]);
            plan("alprd with right parts of another length", Refuse, move || go(dt, la, dict, ra, rbw, ex))
        }
        2 => {
            let d = DType::Primitive(fp, if nb == N { NN } else { N });
            plan("alprd of the other nullability", Refuse, move || go(d, la, dict, ra, rbw, ex))
        }
        3 => {
            let q = *[PType::U8, PType::U16, PType::U32, PType::U64, PType::I64, PType::F64].iter().filter(|q| **q != rp).collect::<Vec<_>>().choose(r).unwrap();
            let ra = prim(*q, &vec![gen::default_v(&DType::Primitive(*q, NN)); n], Validity::NonNullable);
            plan(format!("alprd of {fp} with right parts of {q}"), Refuse, move || go(dt, la, dict, ra, rbw, ex))
        }
        4 => {
            let ra = prim(rp, &vec![V::Int(0); n], Validity::AllValid);
            plan("alprd with nullable right parts", Refuse, move || go(dt, la, dict, ra, rbw, ex))
        }
        5 => {
            let la = prim(PType::I16, &vec![V::Int(0); n], validity);
            plan("alprd with signed left parts", Refuse, move || go(dt, la, dict, ra, rbw, ex))
        }
        6 => {
            let d: Vec<u16> = vec![1; r.gen_range(9..300)];
            plan(format!("alprd with a dictionary of {}", d.len()), Refuse, move || go(dt, la, d, ra, rbw, ex))
        }
        7 => {
            let w = bits + r.gen_range(0..100);
            plan(format!("alprd of {fp} with {w} right bits"), Refuse, move || go(dt, la, dict, ra, w, ex))
        }
        8 if n > 0 => {
            let ex = if r.gen() {
                sparse(&[0], &[1], lp, n + if r.gen() { 1 } else { r.gen_range(1..50) })
            } else {
                let q = *[PType::U8, PType::U32, PType::I16].choose(r).unwrap();
                sparse(&[0], &[1], q, n)
            };
            plan(format!("alprd with exceptions of {} {}", ex.len(), ex.dtype()), Refuse, move || go(dt, la, dict, ra, rbw, Some(ex)))
        }
        9 => {
            let ex = prim(lp, &vec![V::Int(1); n], Validity::AllInvalid);
            plan("alprd with dense exceptions", Refuse, move || go(dt, la, dict, ra, rbw, Some(ex)))
        }
        10 | 11 if n > 0 && dl < 8 => {
            let i = r.gen_range(0..n);
            codes[i] = dl as i128 + r.gen_range(0..9);
            lv[i] = V::Int(codes[i]);
            let la = left_arr(&lv, validity);
            let mut rows: Vec<Option<V>> = want.into_iter().map(Some).collect();
            if !nulls[i] && !exi.contains(&i) {
                rows[i] = None;
            }
            plan("alprd with a code beyond its dictionary", Rows(dt.clone(), rows), move || go(dt, la, dict, ra, rbw, ex))
        }
        _ => {
            // without the exceptions a code of an exception row is as good as any
            plan("alprd", Good(dt.clone(), want), move || go(dt, la, dict, ra, rbw, ex))
        }
    }
}

fn p_fsst(r: &mut R, n: usize) -> Plan {
    let utf8 = r.gen_bool(0.5);
    let dt = move |n| if utf8 { DType::Utf8(n) } else { DType::Binary(n) };
    let k = r.gen_range(0..20usize);
    let mut syms: Vec<u64> = vec![];
    let mut lens: Vec<u8> = vec![];
    for _ in 0..k {
        let l = r.gen_range(1..=8u8);
        let mut b = [0u8; 8];
        for x in b.iter_mut().take(l as usize) {
            *x = r.gen_range(b'a'..=b'z');
        }
        syms.push(u64::from_le_bytes(b));
        lens.push(l);
    }
    let (nb, nulls, validity) = validity_for(r, n);
    let mut codes: Vec<Vec<u8>> = vec![];
    let mut vals: Vec<V> = vec![];
    for i in 0..n {
        let (mut c, mut out) = (vec![], vec![]);
        if !nulls[i] {
            for _ in 0..r.gen_range(0..6) {
                if k > 0 && r.gen_bool(0.7) {
                    let s = r.gen_range(0..k);
                    c.push(s as u8);
                    out.extend_from_slice(&syms[s].to_le_bytes()[..lens[s] as usize]);
                } else {
                    let b = r.gen_range(b' '..b'z');
                    c.extend([255, b]);
                    out.push(b);
                }
            }
        }
        codes.push(c);
        vals.push(V::Bytes(out));
    }
    let mut ulens: Vec<i128> = vals.iter().map(|v| if let V::Bytes(b) = v { b.len() as i128 } else { 0 }).collect();
    let up = *[PType::U8, PType::I32, PType::U64, PType::U16, PType::I64].choose(r).unwrap();
    let mk_codes = |codes: &[Vec<u8>], v: Validity, nb: Nullability| {
        let mut offs = vec![0i32];
        let mut data = vec![];
        for c in codes {
            data.extend_from_slice(c);
            offs.push(data.len() as i32);
        }
        VarBinArray::try_new(PrimitiveArray::from(offs).into_array(), PrimitiveArray::from(data).into_array(), DType::Binary(nb), v)
            .unwrap()
            .into_array()
    };
    let c = mk_codes(&codes, validity.clone(), nb);
    let want = with_nulls(&vals, &nulls);
    let u = ints(r, up, &ulens);
    let sa = |s: &[u64]| PrimitiveArray::from(s.to_vec()).into_array();
    let la = |s: &[u8]| PrimitiveArray::from(s.to_vec()).into_array();
    let go = move |dt: DType, s: Array, l: Array, c: Array, u: Array| -> VortexResult<Array> { Ok(FSSTArray::try_new(dt, s, l, c, u)?.into_array()) };
    let d = dt(nb);
    match r.gen_range(0..14) {
        0 => {
            let d = [DType::Bool(nb), DType::Primitive(PType::U64, nb), DType::Null].choose(r).unwrap().clone();
            let (s, l) = (sa(&syms), la(&lens));
            plan(format!("fsst of {d}"), Refuse, move || go(d, s, l, c, u))
        }
        1 => {
            let d = dt(if nb == N { NN } else { N });
            let (s, l) = (sa(&syms), la(&lens));
            plan("fsst of the other nullability", Refuse, move || go(d, s, l, c, u))
        }
        2 => {
            let s = PrimitiveArray::from(syms.iter().map(|x| *x as i64).collect::<Vec<_>>()).into_array();
            let l = la(&lens);
            plan("fsst with symbols of i64", Refuse, move || go(d, s, l, c, u))
        }
        3 => {
            let (s, l) = (sa(&syms), PrimitiveArray::from(lens.iter().map(|x| *x as u16).collect::<Vec<_>>()).into_array());
            plan("fsst with symbol lengths of u16", Refuse, move || go(d, s, l, c, u))
        }
        4 => {
            let m = other_len(r, k).min(200);
            let m = if m == k { k + 1 } else { m };
            let (s, l) = (sa(&syms), la(&vec![1; m]));
            plan(format!("fsst with {k} symbols and {m} lengths"), Refuse, move || go(d, s, l, c, u))
        }
        5 => {
            let m = r.gen_range(256..400);
            let (s, l) = (sa(&vec![97; m]), la(&vec![1; m]));
            plan(format!("fsst with {m} symbols"), Refuse, move || go(d, s, l, c, u))
        }
        6 => {
            let m = other_len(r, n);
            let u = ints(r, up, &vec![1; m]);
            let (s, l) = (sa(&syms), la(&lens));
            plan("fsst with another number of lengths", Refuse, move || go(d, s, l, c, u))
        }
        7 => {
            let uv: Vec<V> = ulens.iter().map(|i| V::Int(*i)).collect();
            let u = if r.gen() { prim(up, &uv, Validity::AllValid) } else { PrimitiveArray::from(vec![1.0f32; n]).into_array() };
            let (s, l) = (sa(&syms), la(&lens));
            plan(format!("fsst with lengths of {}", u.dtype()), Refuse, move || go(d, s, l, c, u))
        }
        8 => {
            let tv = vec![V::Bytes(b"a".to_vec()); n];
            let (s, l) = (sa(&syms), la(&lens));
            if r.gen() {
                // bytes, but not laid out one after another
                let c = if r.gen() {
                    let cv: Vec<V> = codes.iter().map(|c| V::Bytes(c.clone())).collect();
                    let o: Vec<Option<Vec<u8>>> = with_nulls(&cv, &nulls).into_iter().map(|v| if let V::Bytes(b) = v { Some(b) } else { None }).collect();
                    VarBinViewArray::from_iter(o, DType::Binary(nb)).into_array()
                } else {
                    ConstantArray::new(v_to_scalar(&V::Bytes(vec![255, b'a']), &DType::Binary(nb)), n).into_array()
                };
                return plan(format!("fsst with {} codes", c.encoding().id()), Refuse, move || go(d, s, l, c, u));
            }
            let c = gen::build(r, &DType::Utf8(nb), &tv);
            plan("fsst with text for codes", Refuse, move || go(d, s, l, c, u))
        }
        9 if k > 0 => {
            let i = r.gen_range(0..k);
            lens[i] = *[0u8, 9, 10, 100, 255].choose(r).unwrap();
            let (s, l) = (sa(&syms), la(&lens));
            plan(format!("fsst with a symbol of {} bytes", lens[i]), Refuse, move || go(d, s, l, c, u))
        }
        10 | 11 if n > 0 && k < 200 => {
            let i = r.gen_range(0..n);
            if r.gen() {
                codes[i].push(r.gen_range(k as u8..255));
            } else {
                codes[i].push(255);
            }
            let c = mk_codes(&codes, validity, nb);
            let mut rows: Vec<Option<V>> = want.into_iter().map(Some).collect();
            if !nulls[i] {
                rows[i] = None;
            }
            let (s, l) = (sa(&syms), la(&lens));
            plan("fsst with a code beyond its symbols or a loose escape", Rows(d.clone(), rows), move || go(d, s, l, c, u))
        }
        12 if n > 0 => {
            let i = r.gen_range(0..n);
            ulens[i] += *[1i128, 5, 100].choose(r).unwrap();
            let u = ints(r, PType::U32, &ulens);
            let (s, l) = (sa(&syms), la(&lens));
            plan("fsst with a wrong uncompressed length", Refuse, move || go(d, s, l, c, u))
        }
        _ => {
            let (s, l) = (sa(&syms), la(&lens));
            plan("fsst", Good(d.clone(), want), move || go(d, s, l, c, u))
        }
    }
}

fn p_dtparts(r: &mut R, n: usize) -> Plan {
    let ext = loop {
        let e = gen::gen_ts_ext(r);
        if ext_storage_ptype(&e) == Some(PType::I64) {
            break e;
        }
    };
    let unit = match vortex_datetime_dtype::TemporalMetadata::try_from(&ext).map(|m| m.time_unit()) {
        Ok(u) => u,
        Err(_) => return p_bool(r, n),
    };
    let div: i128 = match unit {
        TimeUnit::Ns => 1_000_000_000,
        TimeUnit::Us => 1_000_000,
        TimeUnit::Ms => 1000,
        _ => 1,
    };
    let (nb, nulls, validity) = validity_for(r, n);
    let days: Vec<i128> = (0..n).map(|_| r.gen_range(-20_000i128..40_000)).collect();
    let secs: Vec<i128> = (0..n).map(|_| r.gen_range(0..86400)).collect();
    let subs: Vec<i128> = (0..n).map(|_| r.gen_range(0..div)).collect();
    let vals: Vec<V> = (0..n).map(|i| V::Int((days[i] * 86400 + secs[i]) * div + subs[i])).collect();
    let dp = *[PType::I32, PType::I64].choose(r).unwrap();
    let dv: Vec<V> = days.iter().map(|i| V::Int(*i)).collect();
    let d = prim(dp, &dv, validity.clone());
    let (sp, up) = (*[PType::U32, PType::I32, PType::I64, PType::U64].choose(r).unwrap(), *[PType::U32, PType::I32, PType::I64, PType::U64].choose(r).unwrap());
    let s = ints(r, sp, &secs);
    let u = ints(r, up, &subs);
    let dt = DType::Extension(ext.clone(), nb);
    let go = move |dt: DType, d: Array, s: Array, u: Array| -> VortexResult<Array> { Ok(DateTimePartsArray::try_new(dt, d, s, u)?.into_array()) };
    match r.gen_range(0..7) {
        0 => {
            let d2 = [DType::Primitive(PType::I64, nb), DType::Utf8(nb), DType::Bool(nb)].choose(r).unwrap().clone();
            plan(format!("dtparts of {d2}"), Refuse, move || go(d2, d, s, u))
        }
        1 => {
            use vortex_datetime_dtype::TemporalMetadata as TM;
            let e = match r.gen_range(0..3) {
                0 => vortex_dtype::ExtDType::new(vortex_datetime_dtype::DATE_ID.clone(), Some(TM::Date(TimeUnit::D).into())),
                1 => vortex_dtype::ExtDType::new(vortex_datetime_dtype::TIME_ID.clone(), Some(TM::Time(TimeUnit::Us).into())),
                _ => vortex_dtype::ExtDType::new("test.other".into(), None),
            };
            let d2 = DType::Extension(e, nb);
            plan(format!("dtparts of {d2}"), Refuse, move || go(d2, d, s, u))
        }
        2 => {
            let d2 = DType::Extension(ext, if nb == N { NN } else { N });
            plan("dtparts of the other nullability", Refuse, move || go(d2, d, s, u))
        }
        3 => {
            let m = other_len(r, n);
            let bad = ints(r, sp, &vec![0; m]);
            let which = r.gen_range(0..2);
            plan(format!("dtparts with {m} of {n} parts {which}"), Refuse, move || if which == 0 { go(dt, d, bad, u) } else { go(dt, d, s, bad) })
        }
        4 => {
            let bad = match r.gen_range(0..3) {
                0 => prim(sp, &vec![V::Int(0); n], Validity::AllValid),
                1 => PrimitiveArray::from(vec![0.0f64; n]).into_array(),
                _ => BoolArray::from_vec(vec![true; n], Validity::NonNullable).into_array(),
            };
            let which = r.gen_range(0..2);
            plan(format!("dtparts with part {which} of {}", bad.dtype()), Refuse, move || if which == 0 { go(dt, d, bad, u) } else { go(dt, d, s, bad) })
        }
        _ => plan("dtparts", Good(dt.clone(), with_nulls(&vals, &nulls)), move || go(dt, d, s, u)),
    }
}

fn p_roaring(r: &mut R, n: usize) -> Plan {
    let pos: Vec<u32> = (0..n as u32).filter(|_| r.gen_bool(0.4)).collect();
    let bm = Bitmap::from_iter(pos.iter().copied());
    if r.gen() {
        if r.gen_bool(0.5) {
            let mut bm = bm;
            let at = n as u32 + *[0u32, 1, 100, 70_000].choose(r).unwrap();
            bm.add(at);
            return plan(format!("roaring bool of {n} rows with a bit at {at}"), Refuse, move || Ok(RoaringBoolArray::try_new(bm, n)?.into_array()));
        }
        let mut v = vec![V::Bool(false); n];
        for p in &pos {
            v[*p as usize] = V::Bool(true);
        }
        return plan("roaring bool", Good(DType::Bool(NN), v), move || Ok(RoaringBoolArray::try_new(bm, n)?.into_array()));
    }
    match r.gen_range(0..4) {
        0 => {
            let q = *[PType::I8, PType::I32, PType::I64, PType::F32, PType::F64].choose(r).unwrap();
            plan(format!("roaring int of {q}"), Refuse, move || Ok(RoaringIntArray::try_new(bm, q)?.into_array()))
        }
        1 => {
            let (q, over) = *[(PType::U8, 256u32), (PType::U16, 65536)].choose(r).unwrap();
            let mut bm = bm;
            bm.add(over + r.gen_range(0..100));
            plan(format!("roaring int of {q} with a larger value"), Refuse, move || Ok(RoaringIntArray::try_new(bm, q)?.into_array()))
        }
        _ => {
            let p = smallest(r, n as i128);
            let v = pos.iter().map(|i| V::Int(*i as i128)).collect();
            plan("roaring int", Good(DType::Primitive(p, NN), v), move || Ok(RoaringIntArray::try_new(bm, p)?.into_array()))
        }
    }
}

fn p_temporal(r: &mut R, n: usize) -> Plan {
    let units = [TimeUnit::S, TimeUnit::Ms, TimeUnit::Us, TimeUnit::Ns, TimeUnit::D];
    let u = *units.choose(r).unwrap();
    let kind = r.gen_range(0..3);
    let p = any_prim(r);
    let (nb, nulls, validity) = validity_for(r, n);
    let vals = flat(r, &DType::Primitive(p, NN), n);
    let a = prim(p, &vals, validity);
    let need = match (kind, u) {
        (0, TimeUnit::D) => Some(PType::I32),
        (0, TimeUnit::Ms) => Some(PType::I64),
        (0, _) => None,
        (1, TimeUnit::S | TimeUnit::Ms) => Some(PType::I32),
        (1, TimeUnit::Us | TimeUnit::Ns) => Some(PType::I64),
        (1, _) => None,
        (_, TimeUnit::D) => None,
        _ => Some(PType::I64),
    };
    let (a, ok) = match need {
        Some(q) if r.gen() => {
            let vals = flat(r, &DType::Primitive(q, NN), n);
            let _ = &vals;
            (prim(q, &with_nulls(&vals, &vec![false; n]), if nb == N { gen::gen_validity(r, &DType::Bool(N), &nulls) } else { Validity::NonNullable }), Some((q, vals)))
        }
        Some(q) if q == p => (a, Some((p, vals))),
        _ => (a, None),
    };
    let tz = (kind == 2 && r.gen()).then(|| "UTC".to_string());
    use vortex_datetime_dtype::TemporalMetadata as TM;
    let what = format!("{} in {u:?} over {}", ["date", "time", "timestamp"][kind], a.dtype());
    let want = match ok {
        Some((_, vals)) => {
            let (id, m) = match kind {
                0 => (vortex_datetime_dtype::DATE_ID.clone(), TM::Date(u)),
                1 => (vortex_datetime_dtype::TIME_ID.clone(), TM::Time(u)),
                _ => (vortex_datetime_dtype::TIMESTAMP_ID.clone(), TM::Timestamp(u, tz.clone())),
            };
            Good(DType::Extension(vortex_dtype::ExtDType::new(id, Some(m.into())), nb), with_nulls(&vals, &nulls))
        }
        None => Refuse,
    };
    infallible(what, want, move || match kind {
        0 => TemporalArray::new_date(a, u).into(),
        1 => TemporalArray::new_time(a, u).into(),
        _ => TemporalArray::new_timestamp(a, u, tz).into(),
    })
}

fn p_ext(r: &mut R, n: usize) -> Plan {
    let p = any_prim(r);
    let nb = gen::nullability(r);
    let dt = DType::Primitive(p, nb);
    let vals = gen::gen_vals(r, &dt, n);
    let a = gen::build(r, &dt, &vals);
    // an extension the model has no storage type for is compared through its storage
    infallible("extension", Good(dt, vals), move || {
        let x = ExtensionArray::new(vortex_dtype::ExtDType::new("test.ext".into(), None), a);
        x.storage()
    })
}

pub fn c10(r: &mut R, ctx: &mut Ctx) -> Res {
    let n = gen::gen_len(r, ctx.max_len.min(3000));
    let ps: [(&str, fn(&mut R, usize) -> Plan); 22] = [
        ("primitive", p_primitive),
        ("bool", p_bool),
        ("bytebool", p_bytebool),
        ("varbin", p_varbin),
        ("varbin", p_varbin),
        ("varbinview", p_varbinview),
        ("varbinview", p_varbinview),
        ("struct", p_struct),
        ("chunked", p_chunked),
        ("sparse", p_sparse),
        ("constant", p_constant),
        ("dict", p_dict),
        ("runend", p_runend),
        ("runendbool", p_runendbool),
        ("zigzag", p_zigzag),
        ("bitpacked", p_bitpacked),
        ("for", p_for),
        ("delta", p_delta),
        ("alp", p_alp),
        ("alprd", p_alprd),
        ("fsst", p_fsst),
        ("dtparts", p_dtparts),
    ];
    let k = r.gen_range(0..ps.len() + 3);
    let (name, f) = match k.checked_sub(ps.len()) {
        None => ps[k],
        Some(0) if crate::phys::ROARING => ("roaring", p_roaring as fn(&mut R, usize) -> Plan),
        Some(1) => ("temporal", p_temporal as fn(&mut R, usize) -> Plan),
        _ => ("extension", p_ext as fn(&mut R, usize) -> Plan),
    };
    ctx.label(name);
    let (what, want, make, fallible) = f(r, n);
    ctx.step(format!("{what} (n {n})"));
    ctx.key(format!("parts:{}", gist(&what)));
    ctx.trivial = n == 0 && !matches!(want, Refuse);
    ctx.label(format!("{name}|{}", gist(&what)));
    let res = match catch_unwind(AssertUnwindSafe(make)) {
        Ok(x) => x,
        Err(_) if !fallible && !matches!(want, Good(..)) => {
            take_panic();
            ctx.key("refused by panic");
            return Ok(());
        }
        Err(_) => return Err(panic_fail()),
    };
    match (want, res) {
        (Refuse, Err(_)) | (Rows(..), Err(_)) => {
            ctx.key("refused");
            Ok(())
        }
        (Refuse, Ok(a)) => {
            let d = format!("built a {} of {} {}", phys::enc_id(&a), a.len(), a.dtype());
            Err(Fail::new("accepted", d))
        }
        (Good(..), Err(e)) => Err(Fail::new(format!("refused:{}", gist(&errs(&e))), errs(&e))),
        (Good(dt, vals), Ok(a)) => {
            ctx.step(format!("values {} as {}", show(&vals), phys::enc_tree(&a)));
            check_all(r, &a, &dt, &vals)?;
            check_oob(&a)?;
            ctx.obs += vals.len() as u64;
            if r.gen_bool(0.5) {
                if let Some((v2, a2)) = select_step(r, ctx, &dt, &vals, &a)? {
                    check_all(r, &a2, &dt, &v2)?;
                }
            }
            Ok(())
        }
        (Rows(dt, rows), Ok(a)) => {
            ctx.key("built, read with care");
            rows_ok(r, &a, &dt, &rows)
        }
    }
}

/// Rows that point nowhere have to fail; the others give their value or fail too.
fn rows_ok(r: &mut R, a: &Array, dt: &DType, rows: &[Option<V>]) -> Res {
    if a.len() != rows.len() || a.dtype() != dt {
        return Err(Fail::new("shape", format!("{} {} for {} {dt}", a.len(), a.dtype(), rows.len())));
    }
    let mut idx = probe_idx(r, rows.len(), 40);
    idx.extend(rows.iter().enumerate().filter(|(_, v)| v.is_none()).map(|(i, _)| i).take(5));
    for i in idx {
        let got = match catch_unwind(AssertUnwindSafe(|| scalar_at(a, i))) {
            Ok(Ok(s)) => scalar_to_v(&s),
            Ok(Err(_)) => continue,
            Err(_) => {
                take_panic();
                continue;
            }
        };
        match (&rows[i], got) {
            // a scalar that is no value of its type
            (None, Err(_)) => {}
            (_, Err(e)) => return Err(Fail::new("scalar", e)),
            (None, Ok(v)) => return Err(Fail::new("invented", format!("row {i} points nowhere and reads {v:?}"))),
            (Some(w), Ok(v)) if *w != v => return Err(Fail::new("value", format!("row {i} reads {v:?}, holds {w:?}"))),
            _ => {}
        }
    }
    match catch_unwind(AssertUnwindSafe(|| decode(a))) {
        Ok(Ok(d)) => {
            for (i, v) in d.iter().enumerate() {
                match &rows[i] {
                    None => return Err(Fail::new("invented-decode", format!("row {i} points nowhere and decodes to {v:?}"))),
                    Some(w) if w != v => return Err(Fail::new("decode-value", format!("row {i} decodes to {v:?}, holds {w:?}"))),
                    _ => {}
                }
            }
        }
        Ok(Err(_)) => {}
        Err(_) => {
            take_panic();
        }
    }
    Ok(())
}
