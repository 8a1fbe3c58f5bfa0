//! The plain-value model every oracle compares against.
use std::cmp::Ordering;

use half::f16;
use vortex_datetime_dtype::{TemporalMetadata, TimeUnit};
use vortex_dtype::{DType, ExtDType, Nullability, PType};
use vortex_scalar::{PValue, PrimitiveScalar, Scalar, ScalarValue};

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum V {
    Null,
    Bool(bool),
    Int(i128),
    /// bit patterns
    F16(u16),
    F32(u32),
    F64(u64),
    Bytes(Vec<u8>),
    Struct(Vec<V>),
}

impl V {
    pub fn is_null(&self) -> bool {
        matches!(self, V::Null)
    }
}

impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            V::Null => write!(f, "null"),
            V::Bool(b) => write!(f, "{b}"),
            V::Int(i) => write!(f, "{i}"),
            V::F16(b) => write!(f, "{}h#{b:x}", f16::from_bits(*b)),
            V::F32(b) => write!(f, "{}f#{b:x}", f32::from_bits(*b)),
            V::F64(b) => write!(f, "{}d#{b:x}", f64::from_bits(*b)),
            V::Bytes(b) => {
                if b.len() > 40 {
                    write!(f, "\"{}..\"[{}]", String::from_utf8_lossy(&b[..24]), b.len())
                } else {
                    write!(f, "{:?}", String::from_utf8_lossy(b))
                }
            }
            V::Struct(vs) => write!(f, "{vs:?}"),
        }
    }
}

pub fn show(vs: &[V]) -> String {
    if vs.len() <= 24 {
        format!("{vs:?}")
    } else {
        format!("{:?}..(len {})", &vs[..24], vs.len())
    }
}

/// Storage dtype: extensions are looked through.
pub fn storage_dtype(dt: &DType) -> DType {
    match dt {
        DType::Extension(e, n) => ext_storage_ptype(e)
            .map(|p| DType::Primitive(p, *n))
            .unwrap_or(DType::Null),
        o => o.clone(),
    }
}

pub fn ext_storage_ptype(e: &ExtDType) -> Option<PType> {
    let m = TemporalMetadata::try_from(e).ok()?;
    Some(match m {
        TemporalMetadata::Timestamp(..) => PType::I64,
        TemporalMetadata::Date(TimeUnit::D) => PType::I32,
        TemporalMetadata::Date(_) => PType::I64,
        TemporalMetadata::Time(TimeUnit::S | TimeUnit::Ms) => PType::I32,
        TemporalMetadata::Time(_) => PType::I64,
    })
}

pub fn int_range(p: PType) -> (i128, i128) {
    match p {
        PType::U8 => (0, u8::MAX as i128),
        PType::U16 => (0, u16::MAX as i128),
        PType::U32 => (0, u32::MAX as i128),
        PType::U64 => (0, u64::MAX as i128),
        PType::I8 => (i8::MIN as i128, i8::MAX as i128),
        PType::I16 => (i16::MIN as i128, i16::MAX as i128),
        PType::I32 => (i32::MIN as i128, i32::MAX as i128),
        PType::I64 => (i64::MIN as i128, i64::MAX as i128),
        _ => unreachable!(),
    }
}

fn pv_to_v(pv: &PValue, want: PType) -> Result<V, String> {
    Ok(match want {
        PType::F16 => match pv {
            PValue::F16(x) => V::F16(x.to_bits()),
            _ => return Err(format!("scalar holds {pv:?}, type f16")),
        },
        PType::F32 => match pv {
            PValue::F32(x) => V::F32(x.to_bits()),
            _ => return Err(format!("scalar holds {pv:?}, type f32")),
        },
        PType::F64 => match pv {
            PValue::F64(x) => V::F64(x.to_bits()),
            _ => return Err(format!("scalar holds {pv:?}, type f64")),
        },
        p => {
            let i = match pv {
                PValue::U8(x) => *x as i128,
                PValue::U16(x) => *x as i128,
                PValue::U32(x) => *x as i128,
                PValue::U64(x) => *x as i128,
                PValue::I8(x) => *x as i128,
                PValue::I16(x) => *x as i128,
                PValue::I32(x) => *x as i128,
                PValue::I64(x) => *x as i128,
                _ => return Err(format!("scalar holds {pv:?}, type {p}")),
            };
            let (lo, hi) = int_range(p);
            if i < lo || i > hi {
                return Err(format!("scalar holds {pv:?}, outside its type {p}"));
            }
            V::Int(i)
        }
    })
}

/// A Vortex scalar read as a model value.
pub fn scalar_to_v(s: &Scalar) -> Result<V, String> {
    sv_to_v(s.value(), s.dtype())
}

pub fn sv_to_v(sv: &ScalarValue, dt: &DType) -> Result<V, String> {
    if matches!(sv, ScalarValue::Null) {
        if !dt.is_nullable() {
            return Err(format!("null scalar of non-nullable type {dt}"));
        }
        return Ok(V::Null);
    }
    Ok(match dt {
        DType::Null => return Err(format!("non-null scalar {sv:?} of type null")),
        DType::Bool(_) => V::Bool(
            sv.as_bool()
                .map_err(|e| format!("{e}"))?
                .ok_or("no bool".to_string())?,
        ),
        DType::Primitive(p, _) => {
            // through the public accessor, as a user reads it (f16 and narrower ints are reinterpreted there)
            let s = Scalar::new(dt.clone(), sv.clone());
            let ps = PrimitiveScalar::try_from(&s).map_err(|e| format!("{e}"))?;
            macro_rules! rd {
                ($t:ty) => {
                    ps.typed_value::<$t>().map(PValue::from)
                };
            }
            let pv = match p {
                PType::U8 => rd!(u8),
                PType::U16 => rd!(u16),
                PType::U32 => rd!(u32),
                PType::U64 => rd!(u64),
                PType::I8 => rd!(i8),
                PType::I16 => rd!(i16),
                PType::I32 => rd!(i32),
                PType::I64 => rd!(i64),
                PType::F16 => rd!(f16),
                PType::F32 => rd!(f32),
                PType::F64 => rd!(f64),
            };
            pv_to_v(&pv.ok_or("no value".to_string())?, *p)?
        }
        DType::Utf8(_) => V::Bytes(
            match sv {
                ScalarValue::BufferString(b) => b.as_str().as_bytes().to_vec(),
                ScalarValue::Buffer(b) => {
                    let v = b.as_slice().to_vec();
                    if std::str::from_utf8(&v).is_err() {
                        return Err("utf8 scalar with invalid bytes".into());
                    }
                    v
                }
                o => return Err(format!("utf8 scalar holds {o:?}")),
            },
        ),
        DType::Binary(_) => V::Bytes(match sv {
            ScalarValue::Buffer(b) => b.as_slice().to_vec(),
            ScalarValue::BufferString(b) => b.as_str().as_bytes().to_vec(),
            o => return Err(format!("binary scalar holds {o:?}")),
        }),
        DType::Struct(st, _) => {
            let l = sv
                .as_list()
                .map_err(|e| format!("{e}"))?
                .ok_or("no list".to_string())?;
            if l.len() != st.dtypes().len() {
                return Err("struct scalar arity".into());
            }
            V::Struct(
                l.iter()
                    .zip(st.dtypes().iter())
                    .map(|(v, d)| sv_to_v(v, d))
                    .collect::<Result<_, _>>()?,
            )
        }
        DType::List(..) => return Err("list".into()),
        DType::Extension(e, n) => {
            let p = ext_storage_ptype(e).ok_or("unknown extension")?;
            return sv_to_v(sv, &DType::Primitive(p, *n));
        }
    })
}

pub fn v_to_sv(v: &V, dt: &DType) -> ScalarValue {
    let dt = &storage_dtype(dt);
    match (v, dt) {
        (V::Null, _) => ScalarValue::Null,
        (V::Bool(b), _) => ScalarValue::Bool(*b),
        (V::Int(i), DType::Primitive(p, _)) => ScalarValue::Primitive(match p {
            PType::U8 => PValue::U8(*i as u8),
            PType::U16 => PValue::U16(*i as u16),
            PType::U32 => PValue::U32(*i as u32),
            PType::U64 => PValue::U64(*i as u64),
            PType::I8 => PValue::I8(*i as i8),
            PType::I16 => PValue::I16(*i as i16),
            PType::I32 => PValue::I32(*i as i32),
            PType::I64 => PValue::I64(*i as i64),
            _ => unreachable!("int for {p}"),
        }),
        (V::F16(b), _) => ScalarValue::Primitive(PValue::F16(f16::from_bits(*b))),
        (V::F32(b), _) => ScalarValue::Primitive(PValue::F32(f32::from_bits(*b))),
        (V::F64(b), _) => ScalarValue::Primitive(PValue::F64(f64::from_bits(*b))),
        (V::Bytes(b), DType::Utf8(_)) => {
            ScalarValue::from(String::from_utf8(b.clone()).expect("model utf8"))
        }
        (V::Bytes(b), _) => ScalarValue::Buffer(vortex_buffer::Buffer::from(b.clone())),
        (V::Struct(vs), DType::Struct(st, _)) => ScalarValue::List(
            vs.iter()
                .zip(st.dtypes().iter())
                .map(|(v, d)| v_to_sv(v, d))
                .collect::<Vec<_>>()
                .into(),
        ),
        _ => unreachable!("{v:?} {dt}"),
    }
}

pub fn v_to_scalar(v: &V, dt: &DType) -> Scalar {
    Scalar::new(dt.clone(), v_to_sv(v, dt))
}

/// Order of two non-null values: integers by value, floats in IEEE total order, bytes lexicographic.
pub fn vcmp(a: &V, b: &V) -> Ordering {
    match (a, b) {
        (V::Bool(a), V::Bool(b)) => a.cmp(b),
        (V::Int(a), V::Int(b)) => a.cmp(b),
        (V::F16(a), V::F16(b)) => f16::from_bits(*a).total_cmp(&f16::from_bits(*b)),
        (V::F32(a), V::F32(b)) => f32::from_bits(*a).total_cmp(&f32::from_bits(*b)),
        (V::F64(a), V::F64(b)) => f64::from_bits(*a).total_cmp(&f64::from_bits(*b)),
        (V::Bytes(a), V::Bytes(b)) => a.cmp(b),
        (V::Null, V::Null) => Ordering::Equal,
        _ => unreachable!("vcmp {a:?} {b:?}"),
    }
}

pub fn nonnull(dt: &DType) -> DType {
    dt.with_nullability(Nullability::NonNullable)
}

/// dtype class used in coverage keys and failure signatures
pub fn dtclass(dt: &DType) -> String {
    let n = if dt.is_nullable() { "?" } else { "" };
    match dt {
        DType::Null => "null".into(),
        DType::Bool(_) => format!("bool{n}"),
        DType::Primitive(p, _) => format!("{p}{n}"),
        DType::Utf8(_) => format!("utf8{n}"),
        DType::Binary(_) => format!("bin{n}"),
        DType::Struct(..) => format!("struct{n}"),
        DType::List(..) => "list".into(),
        DType::Extension(e, _) => format!("{}{n}", e.id()),
    }
}
