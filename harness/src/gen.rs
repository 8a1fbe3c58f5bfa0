//! Random logical types, values and canonical arrays.
use std::sync::Arc;

use arrow_buffer::BooleanBuffer;
use half::f16;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use vortex::array::{
    BoolArray, ExtensionArray, NullArray, PrimitiveArray, StructArray, VarBinArray,
    VarBinViewArray,
};
use vortex::validity::Validity;
use vortex::{Array, IntoArray, IntoArrayVariant};
use vortex_datetime_dtype::{TemporalMetadata, TimeUnit, DATE_ID, TIMESTAMP_ID, TIME_ID};
use vortex_dtype::{DType, ExtDType, FieldNames, Nullability, PType, StructDType};

use crate::model::*;

pub type R = StdRng;

pub const INTS: [PType; 8] = [
    PType::U8,
    PType::U16,
    PType::U32,
    PType::U64,
    PType::I8,
    PType::I16,
    PType::I32,
    PType::I64,
];

pub fn nullability(r: &mut R) -> Nullability {
    r.gen_bool(0.5).into()
}

pub fn gen_ext(r: &mut R) -> ExtDType {
    let m = match r.gen_range(0..10) {
        0 | 1 => TemporalMetadata::Date(*[TimeUnit::D, TimeUnit::Ms].choose(r).unwrap()),
        2 | 3 => TemporalMetadata::Time(
            *[TimeUnit::S, TimeUnit::Ms, TimeUnit::Us, TimeUnit::Ns]
                .choose(r)
                .unwrap(),
        ),
        _ => TemporalMetadata::Timestamp(
            *[TimeUnit::S, TimeUnit::Ms, TimeUnit::Us, TimeUnit::Ns]
                .choose(r)
                .unwrap(),
            match r.gen_range(0..4) {
                0 => Some("UTC".to_string()),
                1 => Some("America/New_York".to_string()),
                _ => None,
            },
        ),
    };
    let id = match &m {
        TemporalMetadata::Date(_) => DATE_ID.clone(),
        TemporalMetadata::Time(_) => TIME_ID.clone(),
        TemporalMetadata::Timestamp(..) => TIMESTAMP_ID.clone(),
    };
    ExtDType::new(id, Some(m.into()))
}

pub fn gen_ts_ext(r: &mut R) -> ExtDType {
    loop {
        let e = gen_ext(r);
        if e.id() == &*TIMESTAMP_ID {
            return e;
        }
    }
}

#[derive(Clone, Copy)]
pub struct TyOpts {
    pub null: bool,
    pub f16: bool,
    pub ext: bool,
    pub strct: bool,
    pub bin: bool,
}
impl TyOpts {
    pub const ALL: TyOpts = TyOpts {
        null: true,
        f16: true,
        ext: true,
        strct: true,
        bin: true,
    };
    pub const FLAT: TyOpts = TyOpts {
        strct: false,
        null: false,
        ..TyOpts::ALL
    };
}

pub fn gen_dtype(r: &mut R, o: TyOpts, depth: usize) -> DType {
    let n = nullability(r);
    loop {
        return match r.gen_range(0..100) {
            0..=36 => DType::Primitive(*INTS.choose(r).unwrap(), n),
            37..=50 => DType::Primitive(
                *[PType::F32, PType::F64, PType::F64].choose(r).unwrap(),
                n,
            ),
            51..=52 if o.f16 => DType::Primitive(PType::F16, n),
            53..=62 => DType::Bool(n),
            63..=74 => DType::Utf8(n),
            75..=79 if o.bin => DType::Binary(n),
            80..=82 if o.null => DType::Null,
            83..=90 if o.ext => DType::Extension(gen_ext(r), n),
            91..=99 if o.strct && depth < 2 => gen_struct_dtype(r, o, depth, n),
            _ => continue,
        };
    }
}

pub fn gen_struct_dtype(r: &mut R, o: TyOpts, depth: usize, n: Nullability) -> DType {
    let nf = if depth == 0 && r.gen_ratio(1, 60) {
        *[9usize, 17, 33, 65].choose(r).unwrap()
    } else {
        *[0usize, 1, 1, 2, 2, 3, 4].choose(r).unwrap()
    };
    let names: Vec<Arc<str>> = (0..nf).map(|i| Arc::from(field_name(r, i).as_str())).collect();
    let dts = (0..nf).map(|_| gen_dtype(r, o, depth + 1)).collect();
    DType::Struct(StructDType::new(FieldNames::from(names), dts), n)
}

pub fn field_name(r: &mut R, i: usize) -> String {
    match r.gen_range(0..8) {
        0 => format!("f {i}"),
        1 => format!("Ünï{i}"),
        _ => format!("{}{i}", (b'a' + (i as u8 % 26)) as char),
    }
}

/// A position in `lo..=hi`, often at or next to the edge of a block or lane.
pub fn pos(r: &mut R, lo: usize, hi: usize) -> usize {
    if hi > lo + 1 && r.gen_bool(0.4) {
        let unit = *[8usize, 64, 128, 1024, 1024].choose(r).unwrap();
        let at = (r.gen_range(lo..=hi) / unit * unit + r.gen_range(0..3)).saturating_sub(1);
        if (lo..=hi).contains(&at) {
            return at;
        }
    }
    r.gen_range(lo..=hi)
}

/// Arrays longer than this are made only now and then.
pub const LONG: usize = 10_000;

/// Like `gen_len`, `cap` being the most for all but the few long ones.
pub fn gen_len_cap(r: &mut R, max: usize, cap: usize) -> usize {
    match gen_long(r, max) {
        Some(n) => n,
        None => gen_len(r, max.min(cap)),
    }
}

/// Now and then a length that does not fit 16 bits.
fn gen_long(r: &mut R, max: usize) -> Option<usize> {
    (max > 70_000 && r.gen_ratio(1, 500)).then(|| *[65_535usize, 65_536, 65_537, 66_000, 70_001].choose(r).unwrap())
}

/// Lengths concentrate on block and lane boundaries.
pub fn gen_len(r: &mut R, max: usize) -> usize {
    if let Some(n) = gen_long(r, max) {
        return n;
    }
    let max = max.min(LONG);
    let l = match r.gen_range(0..100) {
        0..=3 => 0,
        4..=8 => 1,
        9..=50 => r.gen_range(2..40),
        51..=62 => *[7, 8, 9, 31, 32, 33, 63, 64, 65].choose(r).unwrap(),
        63..=70 => r.gen_range(100..300),
        71..=84 => *[
            127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 1026, 1536, 2047, 2048, 2049,
            2050, 3072, 4095, 4096, 4097,
        ]
        .choose(r)
        .unwrap(),
        85..=96 => r.gen_range(300..2600),
        _ => r.gen_range(2600..9000),
    };
    l.min(max)
}

pub fn gen_nulls(r: &mut R, len: usize) -> Vec<bool> {
    // true = null
    let k = r.gen_range(0..12);
    match k {
        0 | 1 => vec![false; len],
        2 => vec![true; len],
        3 => (0..len).map(|i| i == 0).collect(),
        4 => (0..len).map(|i| i + 1 == len).collect(),
        5 => (0..len).map(|i| i % 2 == 0).collect(),
        6 => {
            let mut v = Vec::with_capacity(len);
            let mut b = r.gen_bool(0.5);
            while v.len() < len {
                let n = r.gen_range(1..20.max(len / 5 + 2)).min(len - v.len());
                v.extend(std::iter::repeat(b).take(n));
                b = !b;
            }
            v
        }
        7 => {
            // head or tail block
            let c = pos(r, 0, len);
            let head = r.gen_bool(0.5);
            (0..len).map(|i| (i < c) == head).collect()
        }
        _ => {
            let p = *[0.02, 0.1, 0.3, 0.5, 0.9, 0.98].choose(r).unwrap();
            (0..len).map(|_| r.gen_bool(p)).collect()
        }
    }
}

fn gen_int_pool(r: &mut R, p: PType, n: usize) -> Vec<V> {
    let (lo, hi) = int_range(p);
    let span = hi - lo;
    let any = |r: &mut R| lo + (r.gen::<u64>() as i128) % (span + 1);
    let clamp = |x: i128| x.clamp(lo, hi);
    let k = r.gen_range(0..12);
    let f: Vec<i128> = match k {
        0 => (0..n).map(|_| any(r)).collect(),
        1 => {
            let b = any(r);
            let w = 1i128 << r.gen_range(0..20);
            (0..n).map(|_| clamp(b + r.gen_range(0..=w))).collect()
        }
        2 => {
            let w = 1i128 << r.gen_range(0..12);
            (0..n).map(|_| clamp(lo + r.gen_range(0..=w))).collect()
        }
        3 => {
            let w = 1i128 << r.gen_range(0..12);
            (0..n).map(|_| clamp(hi - r.gen_range(0..=w))).collect()
        }
        4 => (0..n)
            .map(|_| *[lo, hi, 0, clamp(-1), 1, lo + 1, hi - 1].choose(r).unwrap())
            .collect(),
        5 => {
            let s = 1i128 << r.gen_range(1..8);
            let b = any(r);
            (0..n).map(|_| clamp(b + s * r.gen_range(0..200))).collect()
        }
        6 => {
            // small with big outliers
            let w = 1i128 << r.gen_range(0..8);
            let po = *[0.002, 0.01, 0.05].choose(r).unwrap();
            (0..n)
                .map(|_| {
                    if r.gen_bool(po) {
                        any(r)
                    } else {
                        clamp(r.gen_range(0..=w))
                    }
                })
                .collect()
        }
        7 => {
            let w = 1i128 << r.gen_range(0..10);
            (0..n).map(|_| clamp(r.gen_range(-w..=w))).collect()
        }
        8 => {
            let d = r.gen_range(1..7);
            let pool: Vec<i128> = (0..d).map(|_| any(r)).collect();
            (0..n).map(|_| *pool.choose(r).unwrap()).collect()
        }
        9 => {
            let b = clamp(any(r) / 2);
            let s = r.gen_range(1..5);
            (0..n)
                .map(|i| {
                    let x = b + s * i as i128;
                    if x > hi {
                        hi
                    } else {
                        x
                    }
                })
                .collect()
        }
        10 => {
            let bits = r.gen_range(1..=((span + 1).ilog2()));
            let m = (1i128 << bits) - 1;
            (0..n).map(|_| clamp(r.gen::<u64>() as i128 & m)).collect()
        }
        _ => (0..n).map(|_| clamp(r.gen_range(0..100))).collect(),
    };
    f.into_iter().map(V::Int).collect()
}

const F64_SPECIAL: [u64; 16] = [
    0,
    0x8000_0000_0000_0000,
    0x7ff8_0000_0000_0000,
    0xfff8_0000_0000_0000,
    0x7ff8_0000_dead_beef,
    0x7ff0_0000_0000_0001,
    0x7ff0_0000_0000_0000,
    0xfff0_0000_0000_0000,
    1,
    0x8000_0000_0000_0001,
    0x7fef_ffff_ffff_ffff,
    0xffef_ffff_ffff_ffff,
    0x0010_0000_0000_0000,
    0x3ff0_0000_0000_0000,
    0x43e0_0000_0000_0000,
    0xc3e0_0000_0000_0000,
];
const F32_SPECIAL: [u32; 14] = [
    0,
    0x8000_0000,
    0x7fc0_0000,
    0xffc0_0000,
    0x7fc0_beef,
    0x7f80_0001,
    0x7f80_0000,
    0xff80_0000,
    1,
    0x8000_0001,
    0x7f7f_ffff,
    0xff7f_ffff,
    0x3f80_0000,
    0x4f00_0000,
];
const F16_SPECIAL: [u16; 10] = [
    0, 0x8000, 0x7e00, 0xfe00, 0x7c00, 0xfc00, 1, 0x7bff, 0x3c00, 0x7e13,
];

fn gen_float_pool(r: &mut R, p: PType, n: usize) -> Vec<V> {
    let mk = |x: f64| match p {
        PType::F16 => V::F16(f16::from_f64(x).to_bits()),
        PType::F32 => V::F32((x as f32).to_bits()),
        _ => V::F64(x.to_bits()),
    };
    let special = |r: &mut R| match p {
        PType::F16 => V::F16(*F16_SPECIAL.choose(r).unwrap()),
        PType::F32 => V::F32(*F32_SPECIAL.choose(r).unwrap()),
        _ => V::F64(*F64_SPECIAL.choose(r).unwrap()),
    };
    let bits = |r: &mut R| match p {
        PType::F16 => V::F16(r.gen()),
        PType::F32 => V::F32(r.gen()),
        _ => V::F64(r.gen()),
    };
    let k = r.gen_range(0..9);
    match k {
        0 => (0..n).map(|_| bits(r)).collect(),
        1 | 2 => {
            let d = 10f64.powi(r.gen_range(0..6));
            let w = 10i64.pow(r.gen_range(1..7));
            let ps = *[0.0, 0.01, 0.1].choose(r).unwrap();
            (0..n)
                .map(|_| {
                    if r.gen_bool(ps) {
                        special(r)
                    } else {
                        mk(r.gen_range(-w..=w) as f64 / d)
                    }
                })
                .collect()
        }
        3 => (0..n).map(|_| special(r)).collect(),
        4 => {
            let b = r.gen_range(-1000.0..1000.0);
            (0..n).map(|_| mk(b + r.gen::<f64>())).collect()
        }
        5 => {
            let pool: Vec<V> = (0..r.gen_range(1..6))
                .map(|_| if r.gen_bool(0.3) { special(r) } else { mk(r.gen_range(-50..50) as f64 / 4.0) })
                .collect();
            (0..n).map(|_| pool.choose(r).unwrap().clone()).collect()
        }
        6 => (0..n).map(|i| mk(i as f64 * 0.25 - 10.0)).collect(),
        7 => {
            let ps = *[0.005, 0.05].choose(r).unwrap();
            (0..n)
                .map(|_| if r.gen_bool(ps) { bits(r) } else { mk(r.gen_range(0..1000) as f64 / 100.0) })
                .collect()
        }
        _ => (0..n).map(|_| mk(r.gen_range(-1e6..1e6))).collect(),
    }
}

fn gen_str(r: &mut R) -> Vec<u8> {
    let words = [
        "", "a", "ab", "the", "vortex", "hello world!", "exactly12byt", "exactly13byte", "ünïcödé", "日本語テキスト",
        "https://example.com/", "/path/to/some/resource", "🦀", "\u{0}", "null",
    ];
    let mut s = String::new();
    match r.gen_range(0..10) {
        0 => {}
        1..=5 => s.push_str(words.choose(r).unwrap()),
        6..=7 => {
            for _ in 0..r.gen_range(1..4) {
                s.push_str(words.choose(r).unwrap());
            }
        }
        8 => {
            let n = r.gen_range(0..30);
            for _ in 0..n {
                s.push(r.gen_range(b' '..=b'~') as char);
            }
        }
        _ => {
            let n = r.gen_range(1..12);
            for _ in 0..n {
                s.push_str(words.choose(r).unwrap());
                s.push((b'a' + r.gen_range(0..26)) as char);
            }
        }
    }
    s.into_bytes()
}

fn gen_bytes(r: &mut R) -> Vec<u8> {
    let n = *[0usize, 1, 2, 4, 8, 12, 13, 20, 40].choose(r).unwrap();
    let hi = *[2u8, 128, 255].choose(r).unwrap();
    (0..n).map(|_| r.gen_range(0..=hi)).collect()
}

fn gen_bytes_pool(r: &mut R, utf8: bool, n: usize) -> Vec<V> {
    let mut v = gen_short_pool(r, utf8, n);
    if n > 0 && r.gen_bool(0.06) {
        // few long ones, no more bytes in all than the array could repeat without harm
        for _ in 0..r.gen_range(1..=3) {
            let k = *[255usize, 256, 257, 511, 1000, 4095, 4096, 16_384, 65_535, 65_536, 70_000].choose(r).unwrap();
            let k = k.min(1_000_000 / n);
            let one = if utf8 { gen_str(r) } else { gen_bytes(r) };
            let mut b: Vec<u8> = one;
            let filler = r.gen_range(b'a'..=b'z');
            let noisy = r.gen_bool(0.3);
            while b.len() < k {
                b.push(if noisy { r.gen_range(b' '..=b'~') } else { filler });
            }
            let at = r.gen_range(0..n);
            v[at] = V::Bytes(b);
        }
    }
    v
}

fn gen_short_pool(r: &mut R, utf8: bool, n: usize) -> Vec<V> {
    let one = |r: &mut R| if utf8 { gen_str(r) } else { gen_bytes(r) };
    match r.gen_range(0..6) {
        0 => {
            let pool: Vec<Vec<u8>> = (0..r.gen_range(1..8)).map(|_| one(r)).collect();
            (0..n).map(|_| V::Bytes(pool.choose(r).unwrap().clone())).collect()
        }
        1 => {
            let mut pre = one(r);
            pre.extend(one(r));
            (0..n)
                .map(|_| {
                    let mut b = pre.clone();
                    b.extend(one(r));
                    V::Bytes(b)
                })
                .collect()
        }
        2 => (0..n).map(|i| V::Bytes(format!("key-{i:06}").into_bytes())).collect(),
        3 => (0..n).map(|_| V::Bytes(if r.gen_bool(0.7) { vec![] } else { one(r) })).collect(),
        _ => (0..n).map(|_| V::Bytes(one(r))).collect(),
    }
}

/// Reorders/duplicates a pool into shapes encodings care about.
fn shape(r: &mut R, pool: Vec<V>, sortable: bool) -> Vec<V> {
    let n = pool.len();
    if n == 0 {
        return pool;
    }
    match r.gen_range(0..12) {
        0 => vec![pool[0].clone(); n],
        1 if sortable => {
            let mut p = pool;
            p.sort_by(vcmp);
            p
        }
        2 if sortable => {
            let mut p = pool;
            p.sort_by(|a, b| vcmp(b, a));
            p
        }
        3 | 4 => {
            let mut v = Vec::with_capacity(n);
            let mean = r.gen_range(2..40);
            while v.len() < n {
                let x = pool[v.len()].clone();
                let k = r.gen_range(1..=mean).min(n - v.len());
                v.extend(std::iter::repeat(x).take(k));
            }
            v
        }
        5 => {
            // mostly one value
            let c = pool[0].clone();
            let p = *[0.01, 0.05, 0.2].choose(r).unwrap();
            pool.into_iter()
                .map(|x| if r.gen_bool(p) { x } else { c.clone() })
                .collect()
        }
        _ => pool,
    }
}

/// Non-null values of a flat type.
pub fn gen_flat(r: &mut R, dt: &DType, n: usize) -> Vec<V> {
    match &storage_dtype(dt) {
        DType::Null => vec![V::Null; n],
        DType::Bool(_) => {
            let p = *[0.0, 0.03, 0.5, 0.5, 0.9, 1.0].choose(r).unwrap();
            let v: Vec<V> = (0..n).map(|_| V::Bool(r.gen_bool(p))).collect();
            shape(r, v, true)
        }
        DType::Primitive(p, _) if p.is_int() => {
            let v = if matches!(dt, DType::Extension(..)) && r.gen_bool(0.7) {
                gen_temporal_pool(r, dt, n)
            } else {
                gen_int_pool(r, *p, n)
            };
            shape(r, v, true)
        }
        DType::Primitive(p, _) => {
            let v = gen_float_pool(r, *p, n);
            shape(r, v, true)
        }
        DType::Utf8(_) => {
            let v = gen_bytes_pool(r, true, n);
            shape(r, v, true)
        }
        DType::Binary(_) => {
            let v = gen_bytes_pool(r, false, n);
            shape(r, v, true)
        }
        o => unreachable!("{o}"),
    }
}

pub fn gen_temporal_pool(r: &mut R, dt: &DType, n: usize) -> Vec<V> {
    let DType::Extension(e, _) = dt else { unreachable!() };
    let m = TemporalMetadata::try_from(e).unwrap();
    let unit = match m.time_unit() {
        TimeUnit::Ns => 1_000_000_000i128,
        TimeUnit::Us => 1_000_000,
        TimeUnit::Ms => 1000,
        TimeUnit::S => 1,
        TimeUnit::D => 1,
    };
    let k = r.gen_range(0..5);
    let (lo, hi) = int_range(ext_storage_ptype(e).unwrap());
    (0..n)
        .map(|i| {
            let secs: i128 = match k {
                0 => r.gen_range(1_600_000_000..1_700_000_000),
                1 => r.gen_range(-2_000_000_000..2_000_000_000),
                2 => 1_650_000_000 + i as i128,
                3 => r.gen_range(-90_000..90_000),
                _ => 86_400 * r.gen_range(-300..20_000),
            };
            let x = if matches!(m, TemporalMetadata::Date(TimeUnit::D)) {
                secs / 86_400
            } else if matches!(m, TemporalMetadata::Time(_)) {
                secs.rem_euclid(86_400) * unit
            } else {
                let sub = if k == 1 && unit > 1 { r.gen_range(0..unit) } else { 0 };
                secs * unit + sub
            };
            V::Int(x.clamp(lo, hi))
        })
        .collect()
}

pub fn gen_vals(r: &mut R, dt: &DType, n: usize) -> Vec<V> {
    let mut v = match dt {
        DType::Struct(st, _) => {
            let cols: Vec<Vec<V>> = st.dtypes().iter().map(|d| gen_vals(r, d, n)).collect();
            (0..n)
                .map(|i| V::Struct(cols.iter().map(|c| c[i].clone()).collect()))
                .collect()
        }
        _ => gen_flat(r, dt, n),
    };
    if dt.is_nullable() {
        for (x, isn) in v.iter_mut().zip(gen_nulls(r, n)) {
            if isn {
                *x = V::Null;
            }
        }
    }
    v
}

/// A validity for `nulls` (true = null), in a randomly chosen representation.
pub fn gen_validity(r: &mut R, dt: &DType, nulls: &[bool]) -> Validity {
    if !dt.is_nullable() {
        return Validity::NonNullable;
    }
    if nulls.iter().all(|b| !b) && r.gen_bool(0.6) {
        return Validity::AllValid;
    }
    if nulls.iter().all(|b| *b) && r.gen_bool(0.6) {
        return Validity::AllInvalid;
    }
    let valid: Vec<bool> = nulls.iter().map(|b| !b).collect();
    Validity::Array(bool_nonnull(r, &valid))
}

pub fn boolean_buffer(r: &mut R, b: &[bool]) -> BooleanBuffer {
    // sometimes a buffer with a bit offset
    if r.gen_bool(0.3) {
        let off = r.gen_range(1..12);
        let mut v: Vec<bool> = (0..off).map(|_| r.gen()).collect();
        v.extend_from_slice(b);
        v.extend((0..r.gen_range(0..9)).map(|_| r.gen::<bool>()));
        BooleanBuffer::from(v).slice(off, b.len())
    } else {
        BooleanBuffer::from(b.to_vec())
    }
}

pub fn bool_nonnull(r: &mut R, b: &[bool]) -> Array {
    BoolArray::try_new(boolean_buffer(r, b), Validity::NonNullable)
        .unwrap()
        .into_array()
}

macro_rules! prim {
    ($t:ty, $p:ident, $vals:expr, $garb:expr, $validity:expr, $ext:expr) => {{
        let v: Vec<$t> = $vals
            .iter()
            .zip($garb.iter())
            .map(|(v, g)| $ext(if v.is_null() { g } else { v }) as $t)
            .collect();
        PrimitiveArray::from_vec(v, $validity)
    }};
}

fn as_int(v: &V) -> i128 {
    match v {
        V::Int(i) => *i,
        _ => unreachable!("{v:?}"),
    }
}

pub fn build_prim(p: PType, vals: &[V], garb: &[V], validity: Validity) -> PrimitiveArray {
    match p {
        PType::U8 => prim!(u8, U8, vals, garb, validity, as_int),
        PType::U16 => prim!(u16, U16, vals, garb, validity, as_int),
        PType::U32 => prim!(u32, U32, vals, garb, validity, as_int),
        PType::U64 => prim!(u64, U64, vals, garb, validity, as_int),
        PType::I8 => prim!(i8, I8, vals, garb, validity, as_int),
        PType::I16 => prim!(i16, I16, vals, garb, validity, as_int),
        PType::I32 => prim!(i32, I32, vals, garb, validity, as_int),
        PType::I64 => prim!(i64, I64, vals, garb, validity, as_int),
        PType::F16 => PrimitiveArray::from_vec(
            vals.iter()
                .zip(garb)
                .map(|(v, g)| match if v.is_null() { g } else { v } {
                    V::F16(b) => f16::from_bits(*b),
                    o => unreachable!("{o:?}"),
                })
                .collect::<Vec<f16>>(),
            validity,
        ),
        PType::F32 => PrimitiveArray::from_vec(
            vals.iter()
                .zip(garb)
                .map(|(v, g)| match if v.is_null() { g } else { v } {
                    V::F32(b) => f32::from_bits(*b),
                    o => unreachable!("{o:?}"),
                })
                .collect::<Vec<f32>>(),
            validity,
        ),
        PType::F64 => PrimitiveArray::from_vec(
            vals.iter()
                .zip(garb)
                .map(|(v, g)| match if v.is_null() { g } else { v } {
                    V::F64(b) => f64::from_bits(*b),
                    o => unreachable!("{o:?}"),
                })
                .collect::<Vec<f64>>(),
            validity,
        ),
    }
}

/// Zero-ish default used under nulls when no garbage is wanted.
pub fn default_v(dt: &DType) -> V {
    match &storage_dtype(dt) {
        DType::Null => V::Null,
        DType::Bool(_) => V::Bool(false),
        DType::Primitive(PType::F16, _) => V::F16(0),
        DType::Primitive(PType::F32, _) => V::F32(0),
        DType::Primitive(PType::F64, _) => V::F64(0),
        DType::Primitive(..) => V::Int(0),
        DType::Utf8(_) | DType::Binary(_) => V::Bytes(vec![]),
        DType::Struct(st, _) => V::Struct(
            st.dtypes()
                .iter()
                .map(|d| if d.is_nullable() { V::Null } else { default_v(d) })
                .collect(),
        ),
        o => unreachable!("{o}"),
    }
}

/// A canonical-ish array holding exactly `vals`; null slots carry garbage.
pub fn build(r: &mut R, dt: &DType, vals: &[V]) -> Array {
    let nulls: Vec<bool> = vals.iter().map(V::is_null).collect();
    let n = vals.len();
    if let DType::Null = dt {
        return NullArray::new(n).into_array();
    }
    let validity = gen_validity(r, dt, &nulls);
    let garb: Vec<V> = if matches!(dt, DType::Struct(..)) || r.gen_bool(0.4) {
        vec![default_v(dt); n]
    } else {
        gen_flat(r, &nonnull(dt), n)
    };
    match dt {
        DType::Bool(_) => {
            let b: Vec<bool> = vals
                .iter()
                .zip(&garb)
                .map(|(v, g)| matches!(if v.is_null() { g } else { v }, V::Bool(true)))
                .collect();
            BoolArray::try_new(boolean_buffer(r, &b), validity).unwrap().into_array()
        }
        DType::Primitive(p, _) => build_prim(*p, vals, &garb, validity).into_array(),
        DType::Utf8(_) | DType::Binary(_) => build_bytes(r, dt, vals, &garb, validity),
        DType::Struct(st, _) => {
            let fields: Vec<Array> = st
                .dtypes()
                .iter()
                .enumerate()
                .map(|(i, d)| {
                    let col: Vec<V> = vals
                        .iter()
                        .map(|v| match v {
                            V::Struct(f) => f[i].clone(),
                            _ => {
                                if d.is_nullable() && r.gen_bool(0.5) {
                                    V::Null
                                } else {
                                    default_v(d)
                                }
                            }
                        })
                        .collect();
                    build(r, d, &col)
                })
                .collect();
            StructArray::try_new(st.names().clone(), fields, n, validity)
                .unwrap()
                .into_array()
        }
        DType::Extension(e, nn) => {
            let p = ext_storage_ptype(e).unwrap();
            let _ = nn;
            ExtensionArray::new(e.clone(), build_prim(p, vals, &garb, validity).into_array()).into_array()
        }
        o => unreachable!("{o}"),
    }
}

fn build_bytes(r: &mut R, dt: &DType, vals: &[V], garb: &[V], validity: Validity) -> Array {
    let get = |i: usize| -> &[u8] {
        match if vals[i].is_null() { &garb[i] } else { &vals[i] } {
            V::Bytes(b) => b,
            _ => unreachable!(),
        }
    };
    if r.gen_bool(0.5) {
        // offsets + bytes, with a random offset width, sometimes not starting at zero
        let mut bytes: Vec<u8> = Vec::new();
        if r.gen_bool(0.3) {
            bytes.extend_from_slice(b"pad");
        }
        let mut offs = vec![bytes.len() as u64];
        for i in 0..vals.len() {
            bytes.extend_from_slice(get(i));
            offs.push(bytes.len() as u64);
        }
        if r.gen_bool(0.3) {
            bytes.extend_from_slice(b"tail");
        }
        let max = *offs.last().unwrap();
        let mut kinds = vec![PType::U64, PType::I64];
        if max < u32::MAX as u64 / 2 {
            kinds.push(PType::U32);
            kinds.push(PType::I32);
            kinds.push(PType::I32);
        }
        if max < 30000 {
            kinds.push(PType::U16);
            kinds.push(PType::I16);
        }
        if max < 120 {
            kinds.push(PType::U8);
            kinds.push(PType::I8);
        }
        let k = *kinds.choose(r).unwrap();
        let ov: Vec<V> = offs.iter().map(|o| V::Int(*o as i128)).collect();
        let offsets = build_prim(k, &ov, &ov, Validity::NonNullable).into_array();
        VarBinArray::try_new(offsets, PrimitiveArray::from(bytes).into_array(), dt.clone(), validity)
            .unwrap()
            .into_array()
    } else {
        // views over 1..3 buffers
        let nb = r.gen_range(1..4);
        let mut bufs: Vec<Vec<u8>> = vec![Vec::new(); nb];
        let mut views: Vec<u8> = Vec::with_capacity(vals.len() * 16);
        for i in 0..vals.len() {
            let b = get(i);
            let mut w = [0u8; 16];
            w[..4].copy_from_slice(&(b.len() as u32).to_le_bytes());
            if b.len() <= 12 {
                w[4..4 + b.len()].copy_from_slice(b);
            } else {
                let bi = r.gen_range(0..nb);
                w[4..8].copy_from_slice(&b[..4]);
                w[8..12].copy_from_slice(&(bi as u32).to_le_bytes());
                w[12..16].copy_from_slice(&(bufs[bi].len() as u32).to_le_bytes());
                bufs[bi].extend_from_slice(b);
            }
            views.extend_from_slice(&w);
        }
        let words: Vec<i128> = views.chunks(16).map(|c| i128::from_le_bytes(c.try_into().unwrap())).collect();
        let views = vortex_buffer::Buffer::from(arrow_buffer::Buffer::from_vec(words));
        VarBinViewArray::try_new(
            PrimitiveArray::new(views, PType::U8, Validity::NonNullable).into_array(),
            bufs.into_iter().map(|b| PrimitiveArray::from(b).into_array()).collect(),
            dt.clone(),
            validity,
        )
        .unwrap()
        .into_array()
    }
}

#[allow(dead_code)]
pub fn prim_of(a: &Array) -> PrimitiveArray {
    a.clone().into_primitive().unwrap()
}
