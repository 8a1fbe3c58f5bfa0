//! C17 scalars, C18 types and schemas.
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

use flatbuffers::FlatBufferBuilder;
use half::f16;
use prost::Message;
use rand::seq::SliceRandom;
use rand::Rng;
use vortex::array::StructArray;
use vortex::variants::StructArrayTrait;
use vortex::{ArrayDType, IntoArray, IntoArrayVariant};
use vortex_buffer::{Buffer, BufferString};
use vortex_datetime_dtype::{TemporalMetadata, TimeUnit, DATE_ID, TIMESTAMP_ID, TIME_ID};
use vortex_dtype::field::{Field, FieldPath};
use vortex_dtype::{DType, ExtDType, ExtMetadata, FieldNames, Nullability, PType, StructDType};
use vortex_error::VortexError;
use vortex_flatbuffers::{FlatBufferToBytes, WriteFlatBuffer};
use vortex_scalar::{
    BinaryScalar, BoolScalar, ExtScalar, ListScalar, PValue, PrimitiveScalar, Scalar, ScalarValue, StructScalar,
    Utf8Scalar,
};
use vortex_schema::projection::Projection;
use vortex_schema::Schema;

use crate::gen::{self, TyOpts, R};
use crate::known;
use crate::model::*;
use crate::observe::{errs, gist};
use crate::props_array::{cast_v, Res};
use crate::run::{Ctx, Fail};

// ------------------------------------------------------------------ scalars of every type
fn plain_ext(r: &mut R) -> ExtDType {
    ExtDType::new(
        (*["my.ext", "x", ""].choose(r).unwrap()).into(),
        match r.gen_range(0..3) {
            0 => None,
            1 => Some(ExtMetadata::new(Arc::from(vec![]))),
            _ => Some(ExtMetadata::new(Arc::from((0..r.gen_range(1..9)).map(|_| r.gen()).collect::<Vec<u8>>()))),
        },
    )
}

/// `lists` also allows list and unknown extension types.
fn gen_sdtype(r: &mut R, depth: usize) -> DType {
    let n = gen::nullability(r);
    match r.gen_range(0..20) {
        0 | 1 if depth < 3 => DType::List(Arc::new(gen_sdtype(r, depth + 1)), n),
        2 => DType::Extension(plain_ext(r), n),
        3 | 4 if depth < 3 => {
            let k = r.gen_range(0..4);
            let names: Vec<Arc<str>> = (0..k).map(|i| Arc::from(any_name(r, i).as_str())).collect();
            DType::Struct(StructDType::new(names.into(), (0..k).map(|_| gen_sdtype(r, depth + 1)).collect()), n)
        }
        _ => loop {
            let d = gen::gen_dtype(r, TyOpts::ALL, 0);
            if !matches!(d, DType::Struct(..)) {
                break d;
            }
        },
    }
}

fn any_name(r: &mut R, i: usize) -> String {
    match r.gen_range(0..10) {
        0 => String::new(),
        1 => "dup".into(),
        2 => "with.dot [0] $".into(),
        3 => "\u{0}\u{1F600}\n".into(),
        4 => "x".repeat(300),
        _ => gen::field_name(r, i),
    }
}

/// Values of any scalar type; lists are V::Struct.
fn gen_value(r: &mut R, dt: &DType) -> V {
    if dt.is_nullable() && (matches!(dt, DType::Null) || r.gen_bool(0.15)) {
        return V::Null;
    }
    match dt {
        DType::List(e, _) => {
            let k = *[0usize, 1, 2, 5].choose(r).unwrap();
            V::Struct((0..k).map(|_| gen_value(r, e)).collect())
        }
        DType::Struct(s, _) => V::Struct(s.dtypes().iter().map(|d| gen_value(r, d)).collect()),
        DType::Extension(e, _) if ext_storage_ptype(e).is_none() => match r.gen_range(0..3) {
            0 => V::Bool(r.gen()),
            _ => V::Bytes(gen_bytes(r)),
        },
        DType::Utf8(_) => V::Bytes(match r.gen_range(0..6) {
            0 => vec![],
            1 => "ünïcode \u{1F600}".repeat(r.gen_range(1..4)).into_bytes(),
            2 => "\u{0}".into(),
            3 => "a".repeat(*[10usize, 11, 12, 13, 300].choose(r).unwrap()).into_bytes(),
            _ => ["abc", "abd", "ab", "zz", "ÿ"].choose(r).unwrap().as_bytes().to_vec(),
        }),
        DType::Binary(_) => V::Bytes(gen_bytes(r)),
        d => {
            let nn = nonnull(d);
            if r.gen_bool(0.3) {
                // powers of two and their neighbours, both signs
                if let DType::Primitive(p, _) = storage_dtype(&nn) {
                    if p.is_int() {
                        let (lo, hi) = int_range(p);
                        let x = (1i128 << r.gen_range(0..65)) + r.gen_range(-1..=1);
                        let x = if r.gen() { x } else { -x };
                        return V::Int(x.clamp(lo, hi));
                    }
                    let x = edge_float(r);
                    return match p {
                        PType::F16 => V::F16(f16::from_f64(x).to_bits()),
                        PType::F32 => V::F32((x as f32).to_bits()),
                        _ => V::F64(x.to_bits()),
                    };
                }
            }
            gen::gen_vals(r, &nn, 3).pop().unwrap()
        }
    }
}

fn gen_bytes(r: &mut R) -> Vec<u8> {
    let k = *[0usize, 1, 2, 10, 11, 40].choose(r).unwrap();
    (0..k).map(|_| *[0u8, 1, 0x41, 0x80, 0xff].choose(r).unwrap()).collect()
}

fn edge_float(r: &mut R) -> f64 {
    let x = match r.gen_range(0..8) {
        0 => (2f64).powi(r.gen_range(0..66)),
        1 => (2f64).powi(r.gen_range(0..66)) - 0.5,
        2 => (2f64).powi(r.gen_range(0..66)) - 1.0,
        3 => r.gen_range(-300..300) as f64 + *[0.0, 0.5, 0.999].choose(r).unwrap(),
        4 => *[f64::NAN, f64::INFINITY, 0.0, f64::MIN_POSITIVE, f64::MAX, f32::MAX as f64, 65504.0, 65520.0].choose(r).unwrap(),
        5 => (2f64).powi(r.gen_range(-1080..1024)),
        _ => r.gen_range(-1e6..1e6),
    };
    if r.gen_bool(0.4) {
        -x
    } else {
        x
    }
}

fn to_sv(v: &V, dt: &DType) -> ScalarValue {
    match (v, dt) {
        (V::Null, _) => ScalarValue::Null,
        (V::Struct(vs), DType::List(e, _)) => ScalarValue::List(vs.iter().map(|v| to_sv(v, e)).collect::<Vec<_>>().into()),
        (V::Struct(vs), DType::Struct(s, _)) => {
            ScalarValue::List(vs.iter().zip(s.dtypes().iter()).map(|(v, d)| to_sv(v, d)).collect::<Vec<_>>().into())
        }
        (V::Bool(b), _) => ScalarValue::Bool(*b),
        (V::Bytes(b), DType::Extension(..)) => ScalarValue::Buffer(Buffer::from(b.clone())),
        _ => v_to_sv(v, dt),
    }
}

fn from_sv(sv: &ScalarValue, dt: &DType) -> Result<V, String> {
    match (sv, dt) {
        (ScalarValue::List(vs), DType::List(e, _)) => {
            Ok(V::Struct(vs.iter().map(|v| from_sv(v, e)).collect::<Result<_, _>>()?))
        }
        (ScalarValue::List(vs), DType::Struct(s, _)) => {
            if vs.len() != s.dtypes().len() {
                return Err("struct arity".into());
            }
            Ok(V::Struct(vs.iter().zip(s.dtypes().iter()).map(|(v, d)| from_sv(v, d)).collect::<Result<_, _>>()?))
        }
        (ScalarValue::Bool(b), DType::Extension(..)) => Ok(V::Bool(*b)),
        (ScalarValue::Buffer(b), DType::Extension(..)) => Ok(V::Bytes(b.as_slice().to_vec())),
        _ => sv_to_v(sv, dt),
    }
}

fn read(s: &Scalar) -> Result<V, String> {
    from_sv(s.value(), s.dtype())
}

/// Nulls last, lists lexicographic.
fn order(a: &V, b: &V) -> Ordering {
    match (a, b) {
        (V::Null, V::Null) => Ordering::Equal,
        (V::Null, _) => Ordering::Greater,
        (_, V::Null) => Ordering::Less,
        (V::Struct(a), V::Struct(b)) => {
            for (x, y) in a.iter().zip(b) {
                let o = order(x, y);
                if o != Ordering::Equal {
                    return o;
                }
            }
            a.len().cmp(&b.len())
        }
        // values of unknown extensions have no order between kinds
        (V::Bool(_), V::Bytes(_)) => Ordering::Less,
        (V::Bytes(_), V::Bool(_)) => Ordering::Greater,
        _ => vcmp(a, b),
    }
}

fn same(what: &str, s: &Scalar, dt: &DType, v: &V) -> Res {
    if s.dtype() != dt {
        return Err(Fail::new(format!("{what} type"), format!("{} instead of {dt}", s.dtype())));
    }
    match read(s) {
        Err(e) => Err(Fail::new(format!("{what} value"), format!("{e}: {s:?}, expected {v:?} of {dt}"))),
        Ok(g) if &g != v => Err(Fail::new(format!("{what} value"), format!("{g:?} instead of {v:?} of {dt}"))),
        Ok(_) => Ok(()),
    }
}

fn fails(what: &str, e: &dyn std::fmt::Display) -> Fail {
    let e = e.to_string();
    Fail::new(format!("{what} error {}", gist(&e)), e)
}

pub fn any_scalar(r: &mut R) -> (Scalar, DType, V) {
    let dt = gen_sdtype(r, 0);
    let v = gen_value(r, &dt);
    (Scalar::new(dt.clone(), to_sv(&v, &dt)), dt, v)
}

// ------------------------------------------------------------------ C17
pub fn c17(r: &mut R, ctx: &mut Ctx) -> Res {
    let dt = gen_sdtype(r, 0);
    let mut v = gen_value(r, &dt);
    ctx.label(dtclass(&dt));
    ctx.key(format!("type:{}", dtclass(&dt)));
    ctx.step(format!("{dt} {v:?}"));
    let s = Scalar::new(dt.clone(), to_sv(&v, &dt));
    same("new", &s, &dt, &v)?;
    if s.is_null() != v.is_null() || s.is_valid() == v.is_null() {
        return Err(Fail::new("is_null", format!("{s:?}")));
    }
    if !s.value().is_instance_of(&dt) {
        return Err(Fail::new("not an instance of its type", format!("{s:?}")));
    }
    if let (DType::Struct(..), vortex_scalar::ScalarValue::List(f)) = (&dt, s.value()) {
        let mut more = f.to_vec();
        if more.is_empty() || r.gen_bool(0.5) {
            more.push(vortex_scalar::ScalarValue::Bool(true));
        } else {
            more.pop();
        }
        if vortex_scalar::ScalarValue::List(more.into()).is_instance_of(&dt) {
            return Err(Fail::new("instance of a struct of another size", format!("{s:?}")));
        }
    }
    if vortex_scalar::ScalarValue::Null.is_instance_of(&dt) != dt.is_nullable() {
        return Err(Fail::new("null instance", format!("{dt}")));
    }
    if s != s.clone() || s.partial_cmp(&s) != Some(Ordering::Equal) {
        return Err(Fail::new("not equal to itself", format!("{s:?}")));
    }
    if v.is_null() {
        let n = Scalar::null(dt.clone());
        if n != s {
            return Err(Fail::new("null", format!("{s:?}")));
        }
    }
    let _ = format!("{s} {} {s:?}", s.value());
    ctx.obs += 4;
    accessors(r, ctx, &s, &dt, &v).map_err(|f| f.at("read"))?;
    compare(r, ctx, &s, &dt, &v).map_err(|f| f.at("compare"))?;
    for _ in 0..3 {
        cast(r, ctx, &s, &dt, &v).map_err(|f| f.at("cast"))?;
    }
    known::quiet(&mut v);
    let s = Scalar::new(dt.clone(), to_sv(&v, &dt));
    encode(ctx, &s, &dt, &v).map_err(|f| f.at("serialize"))
}

fn accessors(r: &mut R, ctx: &mut Ctx, s: &Scalar, dt: &DType, v: &V) -> Res {
    macro_rules! prim {
        ($($t:ty, $p:expr, $conv:expr;)*) => {$(
            let got = <$t>::try_from(s).map(|x| $conv(x));
            let want = match dt { DType::Primitive(p, _) if *p == $p && !v.is_null() => Some(v.clone()), _ => None };
            if got.as_ref().ok() != want.as_ref() {
                return Err(Fail::new(format!("as {}", stringify!($t)), format!("{dt} {v:?} read as {got:?}")));
            }
            ctx.obs += 1;
        )*};
    }
    prim! {
        u8, PType::U8, |x| V::Int(x as i128);
        u16, PType::U16, |x| V::Int(x as i128);
        u32, PType::U32, |x| V::Int(x as i128);
        u64, PType::U64, |x| V::Int(x as i128);
        i8, PType::I8, |x| V::Int(x as i128);
        i16, PType::I16, |x| V::Int(x as i128);
        i32, PType::I32, |x| V::Int(x as i128);
        i64, PType::I64, |x| V::Int(x as i128);
        f16, PType::F16, |x: f16| V::F16(x.to_bits());
        f32, PType::F32, |x: f32| V::F32(x.to_bits());
        f64, PType::F64, |x: f64| V::F64(x.to_bits());
    }
    let want = match (dt, v) {
        (DType::Primitive(p, _), V::Int(i)) if p.is_int() => u64::try_from(*i).ok(),
        _ => None,
    };
    if let (Some(w), Ok(g)) = (want, usize::try_from(s)) {
        if w as usize != g {
            return Err(Fail::new("as usize", format!("{v:?} read as {g}")));
        }
    }
    let is = |b: bool, what: &str, got: bool| {
        if b != got {
            Err(Fail::new(format!("as {what}"), format!("{dt} {v:?}: accepted {got}")))
        } else {
            Ok(())
        }
    };
    is(matches!(dt, DType::Bool(_)) && !v.is_null(), "bool", bool::try_from(s).is_ok())?;
    is(matches!(dt, DType::Utf8(_)) && !v.is_null(), "String", String::try_from(s).is_ok())?;
    is(matches!(dt, DType::Utf8(_)) && !v.is_null(), "BufferString", BufferString::try_from(s).is_ok())?;
    is(matches!(dt, DType::Binary(_)) && !v.is_null(), "Buffer", Buffer::try_from(s).is_ok())?;
    is(matches!(dt, DType::Bool(_)), "BoolScalar", BoolScalar::try_from(s).is_ok())?;
    is(matches!(dt, DType::Utf8(_)), "Utf8Scalar", Utf8Scalar::try_from(s).is_ok())?;
    is(matches!(dt, DType::Binary(_)), "BinaryScalar", BinaryScalar::try_from(s).is_ok())?;
    is(matches!(dt, DType::Primitive(..)), "PrimitiveScalar", PrimitiveScalar::try_from(s).is_ok())?;
    is(matches!(dt, DType::Extension(..)), "ExtScalar", ExtScalar::try_from(s).is_ok())?;
    is(matches!(dt, DType::Struct(..)), "StructScalar", StructScalar::try_from(s).is_ok())?;
    is(matches!(dt, DType::List(..)), "ListScalar", ListScalar::try_from(s).is_ok())?;
    match (dt, v) {
        (DType::Bool(_), V::Bool(b)) if bool::try_from(s).ok() != Some(*b) => return Err(Fail::new("bool", format!("{v:?}"))),
        (DType::Utf8(_), V::Bytes(b)) => {
            if String::try_from(s).map(String::into_bytes).ok().as_ref() != Some(b)
                || BufferString::try_from(s).map(|x| x.as_str().as_bytes().to_vec()).ok().as_ref() != Some(b)
            {
                return Err(Fail::new("string", format!("{v:?}")));
            }
        }
        (DType::Binary(_), V::Bytes(b)) if Buffer::try_from(s).map(|x| x.as_slice().to_vec()).ok().as_ref() != Some(b) => {
            return Err(Fail::new("bytes", format!("{v:?}")))
        }
        (DType::Primitive(p, n), _) => {
            // the same bits under another type of the same width, and back
            let same_width: Vec<PType> =
                [PType::U8, PType::U16, PType::U32, PType::U64, PType::I8, PType::I16, PType::I32, PType::I64, PType::F16, PType::F32, PType::F64]
                    .into_iter()
                    .filter(|q| q.byte_width() == p.byte_width())
                    .collect();
            let q = *same_width.choose(r).unwrap();
            let x = s.reinterpret_cast(q);
            if x.dtype() != &DType::Primitive(q, *n) || x.is_null() != v.is_null() {
                return Err(Fail::new("reinterpret", format!("{x:?} from {s:?}")));
            }
            same("reinterpret", &x.reinterpret_cast(*p), dt, v)?;
            if let (V::Int(i), Ok(V::Int(j))) = (v, read(&x)) {
                let m = (1i128 << (8 * p.byte_width())) - 1;
                if i & m != j & m {
                    return Err(Fail::new("reinterpret", format!("{i} became {j}")));
                }
            }
        }
        (DType::Struct(st, n), _) => {
            let x = StructScalar::try_from(s).map_err(|e| fails("struct", &e))?;
            let fs = match v {
                V::Struct(f) => Some(f),
                _ => None,
            };
            let k = st.names().len();
            for i in 0..=k {
                match (x.field_by_idx(i), fs.and_then(|f| f.get(i))) {
                    (None, None) => {}
                    (Some(g), Some(w)) => same("field", &g, &st.dtypes()[i], w)?,
                    (g, w) => return Err(Fail::new("field", format!("{i}: {g:?} instead of {w:?}"))),
                }
            }
            for nm in st.names().iter().map(|n| n.to_string()).chain(["absent".to_string()]) {
                let at = st.names().iter().position(|m| **m == *nm);
                match (x.field(&nm), at.and_then(|i| fs.map(|f| (i, &f[i])))) {
                    (None, None) => {}
                    (Some(g), Some((i, w))) => same("field by name", &g, &st.dtypes()[i], w)?,
                    (g, w) => return Err(Fail::new("field by name", format!("{nm}: {g:?} instead of {w:?}"))),
                }
            }
            let (fields, at) = gen_fields(r, st);
            let got = x.project(&fields);
            match (got, at) {
                (Ok(g), Some(at)) => {
                    let pd = DType::Struct(proj_struct(st, &at), *n);
                    let w = fs.map_or(V::Null, |f| V::Struct(at.iter().map(|&i| f[i].clone()).collect()));
                    same("project", &g, &pd, &w)?;
                }
                (Err(_), None) => {}
                (g, w) => return Err(Fail::new("project", format!("{fields:?} of {dt}: {g:?}, expected {w:?}"))),
            }
        }
        (DType::List(e, _), _) => {
            let x = ListScalar::try_from(s).map_err(|e| fails("list", &e))?;
            let empty = vec![];
            let vs = match v {
                V::Struct(f) => f,
                _ => &empty,
            };
            if x.len() != vs.len() || x.is_empty() != vs.is_empty() || x.element_dtype() != **e {
                return Err(Fail::new("list", format!("{v:?}")));
            }
            for (i, w) in vs.iter().enumerate() {
                same("element", &x.element(i).ok_or_else(|| Fail::new("element", format!("{i}")))?, e, w)?;
            }
            if x.element(vs.len()).is_some() || x.elements().count() != vs.len() {
                return Err(Fail::new("elements", format!("{v:?}")));
            }
        }
        _ => {}
    }
    ctx.obs += 12;
    Ok(())
}

fn compare(r: &mut R, ctx: &mut Ctx, s: &Scalar, dt: &DType, v: &V) -> Res {
    let mut others = vec![(s.clone(), v.clone())];
    for _ in 0..3 {
        let w = if r.gen_bool(0.2) { v.clone() } else { gen_value(r, dt) };
        others.push((Scalar::new(dt.clone(), to_sv(&w, dt)), w));
    }
    if let (DType::Struct(..), V::Struct(f)) = (dt, v) {
        // one field apart
        if let (Some(i), DType::Struct(st, _)) = ((0..f.len()).collect::<Vec<_>>().choose(r), dt) {
            let mut g = f.clone();
            g[*i] = gen_value(r, &st.dtypes()[*i]);
            let w = V::Struct(g);
            others.push((Scalar::new(dt.clone(), to_sv(&w, dt)), w));
        }
    }
    let mixed_ext = |a: &V, b: &V| matches!((a, b), (V::Bool(_), V::Bytes(_)) | (V::Bytes(_), V::Bool(_)));
    for (a, va) in &others {
        for (b, vb) in &others {
            let want = order(va, vb);
            let got = a.partial_cmp(b);
            if (got == Some(Ordering::Equal)) != (a == b) || (a == b) != (va == vb) {
                return Err(Fail::new("equality", format!("{va:?} == {vb:?} gives {} and order {got:?}", a == b)));
            }
            if !mixed_ext(va, vb) && got != Some(want) {
                return Err(Fail::new("order", format!("{va:?} to {vb:?}: {got:?} instead of {want:?}")));
            }
            ctx.obs += 2;
        }
    }
    // nullability is no part of the order, but of the type
    let other = dt.with_nullability(if dt.is_nullable() { Nullability::NonNullable } else { Nullability::Nullable });
    if !v.is_null() && &other != dt {
        let b = Scalar::new(other, to_sv(v, dt));
        if s.partial_cmp(&b) != Some(Ordering::Equal) || s == &b {
            return Err(Fail::new("nullability", format!("{s:?} and {b:?}")));
        }
    }
    let dt2 = gen_sdtype(r, 0);
    let v2 = gen_value(r, &dt2);
    let b = Scalar::new(dt2.clone(), to_sv(&v2, &dt2));
    if !dt.eq_ignore_nullability(&dt2) && (s.partial_cmp(&b).is_some() || s == &b) {
        return Err(Fail::new("types", format!("{s:?} compares with {b:?}")));
    }
    Ok(())
}

fn relax(r: &mut R, dt: &DType) -> DType {
    match dt {
        DType::Struct(s, _) => {
            let ds = s.dtypes().iter().map(|d| target(r, d)).collect();
            DType::Struct(StructDType::new(s.names().clone(), ds), gen::nullability(r))
        }
        DType::List(e, _) => DType::List(Arc::new(target(r, e)), gen::nullability(r)),
        d => d.with_nullability(gen::nullability(r)),
    }
}

fn target(r: &mut R, dt: &DType) -> DType {
    match r.gen_range(0..10) {
        0..=2 => relax(r, dt),
        3..=6 => match dt {
            DType::Primitive(..) => {
                let p = *[PType::U8, PType::U16, PType::U32, PType::U64, PType::I8, PType::I16, PType::I32, PType::I64, PType::F16, PType::F32, PType::F64]
                    .choose(r)
                    .unwrap();
                DType::Primitive(p, gen::nullability(r))
            }
            _ => relax(r, dt),
        },
        7 => DType::Extension(gen::gen_ext(r), gen::nullability(r)),
        _ => gen_sdtype(r, 1),
    }
}

enum Cast {
    /// exactly this
    Is(Vec<V>),
    /// this or an error
    May(Vec<V>),
    Refuse,
}

fn cast_model(v: &V, from: &DType, to: &DType) -> Cast {
    if v.is_null() {
        // a null of another type, or refused
        return if !to.is_nullable() {
            Cast::Refuse
        } else if from.eq_ignore_nullability(to) {
            Cast::Is(vec![V::Null])
        } else {
            Cast::May(vec![V::Null])
        };
    }
    if from.eq_ignore_nullability(to) {
        return Cast::Is(vec![v.clone()]);
    }
    match (from, to) {
        (DType::Primitive(p, _), DType::Primitive(q, _)) => {
            let f = match v {
                V::F16(b) => Some(f16::from_bits(*b).to_f64()),
                V::F32(b) => Some(f32::from_bits(*b) as f64),
                V::F64(b) => Some(f64::from_bits(*b)),
                _ => None,
            };
            if q.is_int() {
                return match (f, cast_v(v, *p, *q)) {
                    (Some(x), _) => {
                        // the fraction is dropped; a number without one keeps its value
                        let (lo, hi) = crate::model::int_range(*q);
                        let t = x.trunc();
                        if !t.is_finite() || t < lo as f64 || t >= hi as f64 + 1.0 {
                            Cast::Refuse
                        } else if t == x {
                            Cast::Is(vec![V::Int(t as i128)])
                        } else {
                            Cast::May(vec![V::Int(t as i128)])
                        }
                    }
                    (None, Some(x)) => Cast::Is(vec![x]),
                    (None, None) => Cast::Refuse,
                };
            }
            let (x64, x32) = match (f, v) {
                (Some(x), _) => (x, x as f32),
                (None, V::Int(i)) => (*i as f64, *i as f32),
                _ => return Cast::Refuse,
            };
            let out = match q {
                PType::F64 => vec![V::F64(x64.to_bits())],
                PType::F32 => vec![V::F32(x32.to_bits())],
                _ => vec![V::F16(f16::from_f32(x32).to_bits()), V::F16(f16::from_f64(x64).to_bits())],
            };
            let inf = |v: &V| match v {
                V::F16(b) => f16::from_bits(*b).is_infinite(),
                V::F32(b) => f32::from_bits(*b).is_infinite(),
                V::F64(b) => f64::from_bits(*b).is_infinite(),
                _ => false,
            };
            if x64.is_finite() && out.iter().any(inf) {
                Cast::May(out)
            } else {
                Cast::Is(out)
            }
        }
        (DType::Struct(a, _), DType::Struct(b, _)) => {
            let V::Struct(fs) = v else { return Cast::Refuse };
            if a.dtypes().len() != b.dtypes().len() {
                return Cast::Refuse;
            }
            // field by field; checked by the caller
            let mut all = vec![];
            let mut may = false;
            for ((f, x), y) in fs.iter().zip(a.dtypes().iter()).zip(b.dtypes().iter()) {
                match cast_model(f, x, y) {
                    Cast::Is(v) => all.push(v),
                    Cast::May(v) => {
                        may = true;
                        all.push(v)
                    }
                    Cast::Refuse => return Cast::Refuse,
                }
            }
            // at most two alternatives each
            let first = V::Struct(all.iter().map(|v| v[0].clone()).collect());
            let last = V::Struct(all.iter().map(|v| v[v.len() - 1].clone()).collect());
            if may {
                Cast::May(vec![first, last])
            } else {
                Cast::Is(vec![first, last])
            }
        }
        (DType::List(x, _), DType::List(y, _)) => {
            let V::Struct(vs) = v else { return Cast::Refuse };
            let mut first = vec![];
            let mut last = vec![];
            let mut may = false;
            for f in vs.iter() {
                match cast_model(f, x, y) {
                    Cast::Refuse => return Cast::Refuse,
                    c => {
                        may |= matches!(c, Cast::May(_));
                        let (Cast::Is(v) | Cast::May(v)) = c else { unreachable!() };
                        first.push(v[0].clone());
                        last.push(v[v.len() - 1].clone());
                    }
                }
            }
            let out = vec![V::Struct(first), V::Struct(last)];
            if may {
                Cast::May(out)
            } else {
                Cast::Is(out)
            }
        }
        // refused, or the same value under the other type
        _ => Cast::May(vec![v.clone()]),
    }
}

fn nan_eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::F16(x), V::F16(y)) if f16::from_bits(*x).is_nan() => f16::from_bits(*y).is_nan(),
        (V::F32(x), V::F32(y)) if f32::from_bits(*x).is_nan() => f32::from_bits(*y).is_nan(),
        (V::F64(x), V::F64(y)) if f64::from_bits(*x).is_nan() => f64::from_bits(*y).is_nan(),
        (V::Struct(x), V::Struct(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| nan_eq(a, b)),
        _ => a == b,
    }
}

fn cast(r: &mut R, ctx: &mut Ctx, s: &Scalar, dt: &DType, v: &V) -> Res {
    let to = target(r, dt);
    ctx.key(format!("cast:{}>{}", dtclass(dt), dtclass(&to)));
    // through the scalar, or through the view of its type
    let got = if r.gen_bool(0.7) {
        s.cast(&to)
    } else {
        ctx.key(format!("view-cast:{}", dtclass(dt)));
        match dt {
            DType::Bool(_) => BoolScalar::try_from(s).and_then(|x| x.cast(&to)),
            DType::Primitive(..) => PrimitiveScalar::try_from(s).and_then(|x| x.cast(&to)),
            DType::Utf8(_) => Utf8Scalar::try_from(s).and_then(|x| x.cast(&to)),
            DType::Binary(_) => BinaryScalar::try_from(s).and_then(|x| x.cast(&to)),
            DType::Struct(..) => StructScalar::try_from(s).and_then(|x| x.cast(&to)),
            DType::List(..) => ListScalar::try_from(s).and_then(|x| x.cast(&to)),
            DType::Extension(..) => ExtScalar::try_from(s).and_then(|x| x.cast(&to)),
            _ => s.cast(&to),
        }
    };
    ctx.obs += 1;
    let (want, must) = match cast_model(v, dt, &to) {
        Cast::Is(w) => (w, true),
        Cast::May(w) => (w, false),
        Cast::Refuse => (vec![], false),
    };
    match got {
        Err(e) if must => Err(Fail::new(format!("refused {}", gist(&errs(&e))), format!("{v:?} of {dt} as {to}: {e}"))),
        Err(_) => {
            ctx.refused += 1;
            Ok(())
        }
        Ok(g) => {
            if g.dtype() != &to {
                return Err(Fail::new("type", format!("{} instead of {to}", g.dtype())));
            }
            match read(&g) {
                Ok(x) if want.iter().any(|w| nan_eq(&x, w)) => Ok(()),
                x => Err(Fail::new("value", format!("{v:?} of {dt} as {to}: {x:?} ({:?}), expected {want:?}", g.value()))),
            }
        }
    }
}

fn json_safe(v: &V, dt: &DType) -> bool {
    match (v, dt) {
        (V::F16(_), _) => true,
        (V::F32(b), _) => f32::from_bits(*b).is_finite(),
        (V::F64(b), _) => f64::from_bits(*b).is_finite(),
        (V::Bytes(_), DType::Utf8(_)) => true,
        (V::Bytes(_), _) => false,
        (V::Struct(vs), DType::List(e, _)) => vs.iter().all(|v| json_safe(v, e)),
        (V::Struct(vs), DType::Struct(s, _)) => vs.iter().zip(s.dtypes().iter()).all(|(v, d)| json_safe(v, d)),
        _ => true,
    }
}

fn encode(ctx: &mut Ctx, s: &Scalar, dt: &DType, v: &V) -> Res {
    let check = |form: &str, g: Result<Scalar, String>| -> Res {
        let g = g.map_err(|e| fails(form, &e))?;
        same(form, &g, dt, v)?;
        if &g != s {
            return Err(Fail::new(format!("{form} unequal"), format!("{g:?} instead of {s:?}")));
        }
        Ok(())
    };
    let mut fbb = FlatBufferBuilder::new();
    let root = s.write_flatbuffer(&mut fbb);
    fbb.finish_minimal(root);
    check(
        "flatbuffers",
        flatbuffers::root::<vortex_flatbuffers::scalar::Scalar>(fbb.finished_data())
            .map_err(|e| e.to_string())
            .and_then(|f| Scalar::try_from(f).map_err(|e| e.to_string())),
    )?;
    let mut fbb = FlatBufferBuilder::new();
    let root = s.value().write_flatbuffer(&mut fbb);
    fbb.finish_minimal(root);
    check(
        "flatbuffers value",
        flatbuffers::root::<vortex_flatbuffers::scalar::ScalarValue>(fbb.finished_data())
            .map_err(|e| e.to_string())
            .and_then(|f| ScalarValue::try_from(f).map_err(|e| e.to_string()))
            .map(|x| Scalar::new(dt.clone(), x)),
    )?;
    let bytes = vortex_proto::scalar::Scalar::from(s).encode_to_vec();
    check(
        "proto",
        vortex_proto::scalar::Scalar::decode(bytes.as_slice())
            .map_err(|e| e.to_string())
            .and_then(|p| Scalar::try_from(&p).map_err(|e| e.to_string())),
    )?;
    let bytes = flexbuffers::to_vec(s).map_err(|e| fails("flexbuffers", &e))?;
    check("flexbuffers", flexbuffers::from_slice::<Scalar>(&bytes).map_err(|e| e.to_string()))?;
    if json_safe(v, dt) {
        let text = serde_json::to_string(s).map_err(|e| fails("json", &e))?;
        check("json", serde_json::from_str::<Scalar>(&text).map_err(|e| e.to_string()))?;
        ctx.obs += 1;
    }
    ctx.obs += 4;
    Ok(())
}

// ------------------------------------------------------------------ C18
fn gen_fields(r: &mut R, st: &StructDType) -> (Vec<Field>, Option<Vec<usize>>) {
    let k = st.names().len();
    let mut fields = vec![];
    let mut at = Some(vec![]);
    let hostile = r.gen_bool(0.25);
    for _ in 0..r.gen_range(0..5) {
        let (f, i) = match r.gen_range(0..10) {
            0 if hostile => (Field::Index(k + *[0usize, 0, 1, 1000].choose(r).unwrap()), None),
            1 if hostile => (Field::Name("absent".into()), None),
            _ if k == 0 => continue,
            2..=5 => {
                let i = r.gen_range(0..k);
                let n = st.names()[i].to_string();
                let first = st.names().iter().position(|m| **m == *n);
                (Field::Name(n), first)
            }
            _ => {
                let i = r.gen_range(0..k);
                (Field::Index(i), Some(i))
            }
        };
        fields.push(f);
        at = at.and_then(|mut a: Vec<usize>| {
            a.push(i?);
            Some(a)
        });
    }
    (fields, at)
}

fn proj_struct(st: &StructDType, at: &[usize]) -> StructDType {
    StructDType::new(
        at.iter().map(|&i| st.names()[i].clone()).collect::<Vec<_>>().into(),
        at.iter().map(|&i| st.dtypes()[i].clone()).collect(),
    )
}

fn hash(d: &DType) -> u64 {
    let mut h = DefaultHasher::new();
    d.hash(&mut h);
    h.finish()
}

/// Built apart from the original, sharing nothing.
fn rebuild(d: &DType) -> DType {
    match d {
        DType::Struct(s, n) => DType::Struct(
            StructDType::new(
                s.names().iter().map(|x| Arc::from(x.to_string().as_str())).collect::<Vec<Arc<str>>>().into(),
                s.dtypes().iter().map(rebuild).collect(),
            ),
            *n,
        ),
        DType::List(e, n) => DType::List(Arc::new(rebuild(e)), *n),
        DType::Extension(e, n) => DType::Extension(
            ExtDType::new(
                e.id().as_ref().into(),
                e.metadata().map(|m| ExtMetadata::new(Arc::from(m.as_ref().to_vec()))),
            ),
            *n,
        ),
        o => o.clone(),
    }
}

/// A type differing from `d` in exactly one place.
fn mutate(r: &mut R, d: &DType) -> DType {
    match d {
        DType::Struct(s, n) if !s.names().is_empty() && r.gen_bool(0.8) => {
            let i = r.gen_range(0..s.names().len());
            let mut names = s.names().to_vec();
            let mut dts = s.dtypes().to_vec();
            match r.gen_range(0..3) {
                0 => names[i] = Arc::from(format!("{}~", names[i])),
                1 => dts[i] = mutate(r, &dts[i]),
                _ => {
                    names.remove(i);
                    dts.remove(i);
                }
            }
            DType::Struct(StructDType::new(names.into(), dts), *n)
        }
        DType::List(e, n) if r.gen_bool(0.7) => DType::List(Arc::new(mutate(r, e)), *n),
        DType::Extension(e, n) if r.gen_bool(0.7) => {
            let mut m = e.metadata().map_or(vec![], |m| m.as_ref().to_vec());
            m.push(1);
            DType::Extension(ExtDType::new(e.id().clone(), Some(ExtMetadata::new(m.into()))), *n)
        }
        DType::Null => DType::Bool(Nullability::Nullable),
        o => o.with_nullability(if o.is_nullable() { Nullability::NonNullable } else { Nullability::Nullable }),
    }
}

pub fn c18(r: &mut R, ctx: &mut Ctx) -> Res {
    let dt = match r.gen_range(0..3) {
        0 => gen_sdtype(r, 0),
        _ => {
            let k = r.gen_range(0..6);
            let names: Vec<Arc<str>> = (0..k).map(|i| Arc::from(any_name(r, i).as_str())).collect();
            DType::Struct(
                StructDType::new(FieldNames::from(names), (0..k).map(|_| gen_sdtype(r, 1)).collect()),
                gen::nullability(r),
            )
        }
    };
    ctx.label(dtclass(&dt));
    ctx.key(format!("type:{}", dtclass(&dt)));
    ctx.step(format!("{dt:?}"));
    let _ = format!("{dt}");
    // identity
    let twin = rebuild(&dt);
    if twin != dt || hash(&twin) != hash(&dt) || !dt.eq_ignore_nullability(&twin) {
        return Err(Fail::new("equal types differ", format!("{dt:?}")));
    }
    let other = mutate(r, &dt);
    if other == dt {
        return Err(Fail::new("different types equal", format!("{dt:?} and {other:?}")));
    }
    let flip = dt.with_nullability(if dt.is_nullable() { Nullability::NonNullable } else { Nullability::Nullable });
    if !dt.eq_ignore_nullability(&flip) || dt.as_nullable() != flip.as_nullable() || dt.as_nonnullable() != flip.as_nonnullable() {
        return Err(Fail::new("nullability", format!("{dt:?}")));
    }
    if dt != DType::Null && (dt.as_nonnullable().is_nullable() || !dt.as_nullable().is_nullable()) {
        return Err(Fail::new("nullability", format!("{dt:?}")));
    }
    // serialized forms
    for d in [&dt, &other] {
        let check = |form: &str, g: Result<DType, String>| -> Res {
            match g {
                Ok(g) if &g == d => Ok(()),
                Ok(g) => Err(Fail::new(form, format!("{g:?} instead of {d:?}"))),
                Err(e) => Err(fails(form, &e)),
            }
        };
        let bytes = d.with_flatbuffer_bytes(|b| b.to_vec());
        check(
            "flatbuffers",
            flatbuffers::root::<vortex_flatbuffers::dtype::DType>(&bytes)
                .map_err(|e| e.to_string())
                .and_then(|f| DType::try_from(f).map_err(|e| e.to_string())),
        )?;
        let bytes = vortex_proto::dtype::DType::from(d).encode_to_vec();
        check(
            "proto",
            vortex_proto::dtype::DType::decode(bytes.as_slice())
                .map_err(|e| e.to_string())
                .and_then(|p| DType::try_from(&p).map_err(|e| e.to_string())),
        )?;
        let text = serde_json::to_string(d).map_err(|e| fails("json", &e))?;
        check("json", serde_json::from_str::<DType>(&text).map_err(|e| e.to_string()))?;
        let bytes = flexbuffers::to_vec(d).map_err(|e| fails("flexbuffers", &e))?;
        check("flexbuffers", flexbuffers::from_slice::<DType>(&bytes).map_err(|e| e.to_string()))?;
        ctx.obs += 4;
    }
    temporal(r, ctx)?;
    if let DType::Struct(st, n) = &dt {
        for _ in 0..3 {
            projections(r, ctx, &dt, st, *n)?;
        }
    } else {
        if Schema::new(dt.clone()).project(Projection::Flat(vec![Field::Index(0)])).is_ok() {
            return Err(Fail::new("schema of no struct", format!("{dt}")));
        }
        if Schema::new(dt.clone()).field_type(&Field::Index(0)).is_ok() {
            return Err(Fail::new("schema of no struct", format!("{dt}")));
        }
    }
    Ok(())
}

fn projections(r: &mut R, ctx: &mut Ctx, dt: &DType, st: &StructDType, n: Nullability) -> Res {
    let k = st.names().len();
    let (fields, at) = gen_fields(r, st);
    ctx.key(format!("project:{}/{}", fields.len().min(3), at.is_some()));
    ctx.step(format!("{fields:?}"));
    let want = at.as_ref().map(|a| proj_struct(st, a));
    let agree = |what: &str, got: Result<DType, VortexError>| -> Res {
        match (&got, &want) {
            (Ok(g), Some(w)) if g == &DType::Struct(w.clone(), n) => Ok(()),
            (Err(_), None) => Ok(()),
            _ => Err(Fail::new(format!("{what} projection"), format!("{fields:?} of {dt}: {got:?}, expected {want:?}"))),
        }
    };
    agree("struct type", st.project(&fields).map(|s| DType::Struct(s, n)))?;
    agree("schema", Schema::new(dt.clone()).project(Projection::Flat(fields.clone())).map(DType::from))?;
    agree("schema", Schema::new(dt.clone()).project(Projection::from(fields.clone())).map(DType::from))?;
    // without reading the whole type
    let bytes = dt.with_flatbuffer_bytes(|b| b.to_vec());
    let fb = flatbuffers::root::<vortex_flatbuffers::dtype::DType>(&bytes).map_err(|e| fails("flatbuffers", &e))?;
    agree("flatbuffer", vortex_dtype::flatbuffers::deserialize_and_project(fb, &fields))?;
    let fbs = fb.type__as_struct_().ok_or_else(|| Fail::new("flatbuffer", "no struct"))?;
    for f in &fields {
        let i = match f {
            Field::Index(i) => (*i < k).then_some(*i),
            Field::Name(m) => st.names().iter().position(|x| **x == **m),
        };
        let got = vortex_dtype::flatbuffers::resolve_field(fbs, f).ok();
        if got != i {
            return Err(Fail::new("resolve_field", format!("{f} of {dt}: {got:?} instead of {i:?}")));
        }
        match (st.field_info(f), i) {
            (Ok(g), Some(i)) if g.index == i && g.name == st.names()[i] && g.dtype == &st.dtypes()[i] => {}
            (Err(_), None) => {}
            (g, i) => return Err(Fail::new("field_info", format!("{f} of {dt}: {:?} instead of {i:?}", g.map(|g| g.index)))),
        }
        match (Schema::new(dt.clone()).field_type(f), i) {
            (Ok(g), Some(i)) if g == st.dtypes()[i] => {}
            (Err(_), None) => {}
            (g, i) => return Err(Fail::new("field_type", format!("{f} of {dt}: {g:?} instead of {i:?}"))),
        }
        if let Field::Name(m) = f {
            if st.find_name(m) != i {
                return Err(Fail::new("find_name", format!("{m:?} of {dt}")));
            }
        }
        // fields on their own
        let text = serde_json::to_string(f).map_err(|e| fails("field json", &e))?;
        if serde_json::from_str::<Field>(&text).ok().as_ref() != Some(f) {
            return Err(Fail::new("field json", text));
        }
    }
    let path = FieldPath::from(fields.clone());
    let pb = vortex_proto::dtype::FieldPath {
        path: fields
            .iter()
            .map(|f| vortex_proto::dtype::Field {
                field_type: Some(match f {
                    Field::Name(n) => vortex_proto::dtype::field::FieldType::Name(n.clone()),
                    Field::Index(i) => vortex_proto::dtype::field::FieldType::Index(*i as u64),
                }),
            })
            .collect(),
    };
    if FieldPath::try_from(&pb).ok().as_ref() != Some(&path) || path.path() != fields.as_slice() {
        return Err(Fail::new("field path", format!("{fields:?}")));
    }
    ctx.obs += 6 + fields.len() as u64 * 5;
    // an array of the type
    if st.dtypes().iter().all(|d| arrayable(d)) && r.gen_bool(0.5) {
        let rows = r.gen_range(0..4);
        let cols: Vec<_> = st.dtypes().iter().map(|d| (d.clone(), gen::gen_vals(r, d, rows))).collect();
        let arrs = cols.iter().map(|(d, v)| gen::build(r, d, v)).collect();
        let a = StructArray::try_new(st.names().clone(), arrs, rows, vortex::validity::Validity::NonNullable)
            .map_err(|e| fails("struct array", &e))?;
        match (a.project(&fields), &at) {
            (Ok(p), Some(at)) => {
                let w = DType::Struct(proj_struct(st, at), Nullability::NonNullable);
                if p.dtype() != &w || p.len() != rows {
                    return Err(Fail::new("array projection", format!("{} of {} rows, expected {w} of {rows}", p.dtype(), p.len())));
                }
                for (j, &i) in at.iter().enumerate() {
                    let f = p.field(j).ok_or_else(|| Fail::new("array projection", format!("no field {j}")))?;
                    crate::observe::check_decode(&f, &cols[i].0, &cols[i].1)?;
                }
            }
            (Err(_), None) => {}
            (g, w) => return Err(Fail::new("array projection", format!("{fields:?} of {dt}: {:?}, expected {w:?}", g.map(|g| g.dtype().clone())))),
        }
        for (i, nm) in st.names().iter().enumerate() {
            let first = st.names().iter().position(|m| m == nm).unwrap_or(i);
            let f = a.field_by_name(nm).ok_or_else(|| Fail::new("array field", format!("no field {nm:?}")))?;
            crate::observe::check_decode(&f, &cols[first].0, &cols[first].1)?;
        }
        if a.field(k).is_some() || a.field_by_name("absent").is_some() {
            return Err(Fail::new("array field", "a field that is not there"));
        }
        let whole = a.into_array().into_struct().map_err(|e| fails("struct array", &e))?;
        if whole.names() != st.names() {
            return Err(Fail::new("array names", format!("{:?}", whole.names())));
        }
    }
    Ok(())
}

fn arrayable(d: &DType) -> bool {
    match d {
        DType::List(..) => false,
        DType::Extension(e, _) => ext_storage_ptype(e).is_some(),
        DType::Struct(s, _) => s.dtypes().iter().all(arrayable),
        _ => true,
    }
}

/// The metadata of dates, times and timestamps, whole and damaged.
fn temporal(r: &mut R, ctx: &mut Ctx) -> Res {
    let u = *[TimeUnit::Ns, TimeUnit::Us, TimeUnit::Ms, TimeUnit::S, TimeUnit::D].choose(r).unwrap();
    let m = match r.gen_range(0..4) {
        0 => TemporalMetadata::Date(u),
        1 => TemporalMetadata::Time(u),
        _ => TemporalMetadata::Timestamp(
            u,
            match r.gen_range(0..5) {
                0 => None,
                1 => Some("UTC".into()),
                2 => Some("+05:30".into()),
                3 => Some("z".repeat(*[1usize, 255, 256, 65535].choose(r).unwrap())),
                _ => Some("Ünïcode/Zone".into()),
            },
        ),
    };
    let id = match &m {
        TemporalMetadata::Date(_) => DATE_ID.clone(),
        TemporalMetadata::Time(_) => TIME_ID.clone(),
        TemporalMetadata::Timestamp(..) => TIMESTAMP_ID.clone(),
    };
    let meta: ExtMetadata = m.clone().into();
    let back = TemporalMetadata::try_from(&ExtDType::new(id.clone(), Some(meta.clone())));
    if back.as_ref().ok() != Some(&m) {
        return Err(Fail::new("temporal metadata", format!("{m:?} read as {back:?}")));
    }
    if m.time_unit() != u {
        return Err(Fail::new("time unit", format!("{m:?}")));
    }
    // damaged: an error or some reading, never an abort
    let mut b = meta.as_ref().to_vec();
    match r.gen_range(0..3) {
        0 => b.truncate(r.gen_range(0..=b.len())),
        1 => {
            let i = r.gen_range(0..b.len());
            b[i] = r.gen();
        }
        _ => b.extend_from_slice(&[r.gen(), r.gen()]),
    }
    let bad = ExtDType::new(id, Some(ExtMetadata::new(b.clone().into())));
    let got = TemporalMetadata::try_from(&bad);
    if b.is_empty() && got.is_ok() {
        return Err(Fail::new("temporal metadata", "empty accepted"));
    }
    let _ = format!("{}", DType::Extension(bad, Nullability::Nullable));
    ctx.obs += 3;
    let _ = PValue::from(0u8);
    Ok(())
}
