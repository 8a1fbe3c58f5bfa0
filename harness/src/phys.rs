//! Physical forms: every encoder, nested; chunking, slicing, views.
use std::collections::HashSet;

use rand::seq::SliceRandom;
use rand::Rng;
use vortex::array::{
    BoolArray, ChunkedArray, ConstantArray, ExtensionArray, PrimitiveArray, SparseArray,
    StructArray, TemporalArray, VarBinArray, VarBinViewArray,
};
use vortex::compute::slice;
use vortex::validity::{ArrayValidity, Validity};
use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant, IntoCanonical};
use vortex_alp::{alp_encode, ALPArray};
use vortex_bytebool::ByteBoolArray;
use vortex_datetime_parts::{split_temporal, DateTimePartsArray};
use vortex_dict::{dict_encode_primitive, dict_encode_varbin, dict_encode_varbinview, DictArray};
use vortex_dtype::{DType, Nullability, PType};
use vortex_error::VortexResult;
use vortex_fastlanes::{
    bitpack_encode, delta_compress, find_best_bit_width, for_compress, BitPackedArray, DeltaArray,
    FoRArray,
};
use vortex_fsst::{fsst_compress, fsst_train_compressor};
use vortex_roaring::{RoaringBoolArray, RoaringIntArray};
use vortex_runend::compress::runend_encode;
use vortex_runend::RunEndArray;
use vortex_runend_bool::compress::runend_bool_encode;
use vortex_runend_bool::RunEndBoolArray;
use vortex_sampling_compressor::compressors::alp::ALPCompressor;
use vortex_sampling_compressor::compressors::alp_rd::ALPRDCompressor;
use vortex_sampling_compressor::compressors::bitpacked::{
    BITPACK_NO_PATCHES, BITPACK_WITH_PATCHES,
};
use vortex_sampling_compressor::compressors::date_time_parts::DateTimePartsCompressor;
use vortex_sampling_compressor::compressors::delta::DeltaCompressor;
use vortex_sampling_compressor::compressors::dict::DictCompressor;
use vortex_sampling_compressor::compressors::fsst::FSSTCompressor;
use vortex_sampling_compressor::compressors::r#for::FoRCompressor;
use vortex_sampling_compressor::compressors::roaring_bool::RoaringBoolCompressor;
use vortex_sampling_compressor::compressors::roaring_int::RoaringIntCompressor;
use vortex_sampling_compressor::compressors::runend::DEFAULT_RUN_END_COMPRESSOR;
use vortex_sampling_compressor::compressors::sparse::SparseCompressor;
use vortex_sampling_compressor::compressors::zigzag::ZigZagCompressor;
use vortex_sampling_compressor::compressors::CompressorRef;
use vortex_sampling_compressor::SamplingCompressor;
use vortex_zigzag::{zigzag_encode, ZigZagArray};

use crate::gen::{self, R};
use crate::model::*;
use crate::observe::errs;

/// The interpreter cannot run the C code behind roaring bitmaps.
pub const ROARING: bool = !cfg!(miri);

pub fn all_compressors() -> Vec<CompressorRef<'static>> {
    let mut v: Vec<CompressorRef<'static>> = vec![
        &ALPCompressor,
        &BITPACK_WITH_PATCHES,
        &DateTimePartsCompressor,
        &DEFAULT_RUN_END_COMPRESSOR,
        &DictCompressor,
        &FoRCompressor,
        &FSSTCompressor,
        &SparseCompressor,
        &ZigZagCompressor,
        &DeltaCompressor,
        &RoaringBoolCompressor,
        &RoaringIntCompressor,
        &ALPRDCompressor,
        &BITPACK_NO_PATCHES,
    ];
    v.retain(|c| ROARING || !c.id().contains("roaring"));
    v
}

pub fn random_compressor(r: &mut R) -> SamplingCompressor<'static> {
    match r.gen_range(0..5) {
        0 if ROARING => SamplingCompressor::default(),
        1 if ROARING => SamplingCompressor::new(HashSet::from(
            *vortex_sampling_compressor::FASTEST_COMPRESSORS,
        )),
        2 => SamplingCompressor::new(all_compressors().into_iter().collect()),
        _ => {
            let mut set = HashSet::new();
            for c in all_compressors() {
                if r.gen_bool(0.5) {
                    set.insert(c);
                }
            }
            SamplingCompressor::new(set)
        }
    }
}

/// The encodings of a tree in preorder, for coverage keys and descriptions.
pub fn enc_tree(a: &Array) -> String {
    let id = a.encoding().id().to_string();
    let id = id
        .strip_prefix("vortex.")
        .or_else(|| id.strip_prefix("fastlanes."))
        .unwrap_or(&id)
        .to_string();
    let id = id.split(|c: char| c == '(' || c == ' ').next().unwrap_or("").to_string();
    let view = if matches!(a, Array::View(_)) { "@" } else { "" };
    let mut ch: Vec<String> = a.children().iter().map(enc_tree).collect();
    if ch.len() > 5 {
        ch.truncate(5);
        ch.push("..".into());
    }
    if ch.is_empty() {
        format!("{view}{id}")
    } else {
        format!("{view}{id}({})", ch.join(","))
    }
}

pub fn enc_id(a: &Array) -> String {
    let t = enc_tree(a);
    t.trim_start_matches('@').split('(').next().unwrap_or("").to_string()
}

pub type EncRes = VortexResult<Option<Array>>;

/// Encoders by name. Each takes any array it might apply to; None: not applicable.
pub const ENCODERS: &[&str] = &[
    "chunked", "slice", "constant", "sparse", "dict", "runend", "bitpacked", "for", "delta", "zigzag", "alp",
    "alprd", "fsst", "roaring_bool", "roaring_int", "runend_bool", "bytebool", "dtparts", "sample", "varbin",
    "view", "reparts",
];

pub fn is_temporal_time(dt: &DType) -> bool {
    match dt {
        DType::Extension(e, _) => e.id().as_ref() == "vortex.timestamp",
        _ => false,
    }
}

/// Could encoder `e` apply to this logical type?
pub fn applicable(e: &str, dt: &DType) -> bool {
    let int = dt.is_int();
    let uint = dt.is_unsigned_int();
    let sint = dt.is_signed_int();
    let flt = matches!(dt, DType::Primitive(PType::F32 | PType::F64, _));
    let bytes = matches!(dt, DType::Utf8(_) | DType::Binary(_));
    let b = dt.is_boolean();
    match e {
        "chunked" | "slice" | "constant" | "sample" | "view" => true,
        "sparse" => matches!(dt, DType::Primitive(..)) || b,
        "dict" => matches!(dt, DType::Primitive(..)) || bytes,
        "runend" => matches!(dt, DType::Primitive(..)),
        "bitpacked" => uint,
        "for" => int,
        "delta" => uint,
        "zigzag" => sint,
        "alp" | "alprd" => flt,
        "fsst" => matches!(dt, DType::Utf8(_) | DType::Binary(_)),
        "roaring_bool" => ROARING && b && !dt.is_nullable(),
        "roaring_int" => ROARING && uint && !dt.is_nullable(),
        "runend_bool" => b,
        "bytebool" => b,
        "dtparts" => is_temporal_time(dt),
        "varbin" => bytes,
        "reparts" => matches!(dt, DType::Struct(..) | DType::Extension(..)) || bytes,
        _ => unreachable!("{e}"),
    }
}

/// Split points for chunking, including empty chunks at times.
pub fn cuts(r: &mut R, n: usize, kmax: usize) -> Vec<usize> {
    let k = r.gen_range(0..=kmax);
    let mut c: Vec<usize> = (0..k).map(|_| gen::pos(r, 0, n)).collect();
    if r.gen_bool(0.7) {
        c.sort_unstable();
        c.dedup();
        c.retain(|x| *x != 0 && *x != n);
    }
    c.sort_unstable();
    c
}

pub fn ranges(cuts: &[usize], n: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut s = 0;
    for &c in cuts {
        v.push((s, c));
        s = c;
    }
    v.push((s, n));
    v
}

/// Marks an error of an operation that is not an encoder's own refusal.
fn not_enc(e: vortex_error::VortexError) -> vortex_error::VortexError {
    vortex_error::vortex_err!("NOT-ENCODER {}", errs(&e))
}

/// Apply one encoder. `vals` are the values `a` holds. `deep`: recursion budget for children.
pub fn encode(r: &mut R, e: &str, dt: &DType, vals: &[V], a: &Array, deep: usize) -> EncRes {
    let n = vals.len();
    Ok(Some(match e {
        "chunked" => {
            if n == 0 && r.gen_bool(0.5) {
                return Ok(Some(ChunkedArray::try_new(vec![], dt.clone())?.into_array()));
            }
            // now and then more chunks than any small number counts
            let many = n <= 3000 && deep > 0 && r.gen_ratio(1, 150);
            let cs = if many { cuts(r, n, 300) } else { cuts(r, n, 4) };
            let mut chunks = vec![];
            for (s, t) in ranges(&cs, n) {
                let c = gen::build(r, dt, &vals[s..t]);
                chunks.push(encode_any(r, dt, &vals[s..t], c, deep.saturating_sub(1))?);
            }
            ChunkedArray::try_new(chunks, dt.clone())?.into_array()
        }
        "slice" => {
            // an encoded longer array, sliced back to `vals`
            let pre = *[0usize, 1, 3, 8, 64, 1000, 1022, 1023, 1024, 1030, 2047].choose(r).unwrap();
            let post = *[0usize, 1, 5, 8, 100, 1023, 1024].choose(r).unwrap();
            let pad = |r: &mut R, k: usize| -> Vec<V> {
                (0..k)
                    .map(|_| {
                        if n > 0 && r.gen_bool(0.8) {
                            vals[r.gen_range(0..n)].clone()
                        } else if dt.is_nullable() && r.gen_bool(0.5) {
                            V::Null
                        } else {
                            default_nn(dt)
                        }
                    })
                    .collect()
            };
            let mut all = pad(r, pre);
            all.extend_from_slice(vals);
            all.extend(pad(r, post));
            let base = gen::build(r, dt, &all);
            let enc = encode_any(r, dt, &all, base, deep.saturating_sub(1))?;
            slice(&enc, pre, pre + n).map_err(not_enc)?
        }
        "constant" => {
            if n == 0 || vals.iter().any(|v| *v != vals[0]) {
                return Ok(None);
            }
            ConstantArray::new(v_to_scalar(&vals[0], dt), n).into_array()
        }
        "sparse" => {
            // fill: null (nullable types) or the most frequent value
            let fill = if dt.is_nullable() {
                V::Null
            } else {
                match vals.first() {
                    Some(v) => v.clone(),
                    None => return Ok(None),
                }
            };
            let idx: Vec<usize> = (0..n).filter(|&i| vals[i] != fill).collect();
            let iv: Vec<u64> = idx.iter().map(|&i| i as u64).collect();
            let pv: Vec<V> = idx.iter().map(|&i| vals[i].clone()).collect();
            let values = gen::build(r, dt, &pv);
            let values = maybe(r, dt, &pv, values, deep)?;
            SparseArray::try_new(PrimitiveArray::from(iv).into_array(), values, n, v_to_sv(&fill, dt))?.into_array()
        }
        "dict" => {
            let (codes, values) = match dt {
                DType::Primitive(..) => {
                    let (c, v) = dict_encode_primitive(&a.clone().into_primitive()?);
                    (c, v.into_array())
                }
                _ => {
                    if let Ok(vb) = VarBinArray::try_from(a.clone()) {
                        let (c, v) = dict_encode_varbin(&vb);
                        (c, v.into_array())
                    } else {
                        let (c, v) = dict_encode_varbinview(&a.clone().into_varbinview()?);
                        (c, v.into_array())
                    }
                }
            };
            let codes = enc_child(r, codes.into_array(), deep)?;
            let values = enc_child(r, values, deep)?;
            DictArray::try_new(codes, values)?.into_array()
        }
        "runend" => {
            let p = a.clone().into_primitive()?;
            if r.gen_bool(0.4) {
                RunEndArray::encode(p.into_array())?.into_array()
            } else {
                let (ends, values) = runend_encode(&p);
                let ends = enc_child(r, ends.into_array(), deep)?;
                let values = enc_child(r, values.into_array(), deep)?;
                let validity = enc_validity(r, p.validity(), deep)?;
                RunEndArray::try_new(ends, values, validity)?.into_array()
            }
        }
        "bitpacked" => {
            let p = a.clone().into_primitive()?;
            // documented restriction of the encoder: negative values are not supported
            if vals.iter().any(|v| matches!(v, V::Int(i) if *i < 0)) {
                return Ok(None);
            }
            let bits = p.ptype().bit_width() as u8;
            let w = if r.gen_bool(0.5) {
                find_best_bit_width(&p)?
            } else {
                r.gen_range(0..bits)
            };
            if w >= bits {
                return Ok(None);
            }
            if r.gen_bool(0.3) {
                BitPackedArray::encode(&p.into_array(), w)?.into_array()
            } else {
                bitpack_encode(p, w)?.into_array()
            }
        }
        "for" => {
            let p = a.clone().into_primitive()?;
            let f = for_compress(&p)?;
            match FoRArray::try_from(f.clone()) {
                Ok(fa) if r.gen_bool(0.6) => {
                    let child = enc_child(r, fa.encoded(), deep)?;
                    FoRArray::try_new(child, fa.owned_reference_scalar(), fa.shift())?.into_array()
                }
                _ => f,
            }
        }
        "delta" => {
            let p = a.clone().into_primitive()?;
            if r.gen_bool(0.5) {
                DeltaArray::try_from_primitive_array(&p)?.into_array()
            } else {
                let (b, d) = delta_compress(&p)?;
                DeltaArray::try_from_delta_compress_parts(
                    enc_child(r, b.into_array(), deep)?,
                    enc_child(r, d.into_array(), deep)?,
                    enc_validity(r, p.validity(), deep)?,
                )?
                .into_array()
            }
        }
        "zigzag" => {
            let p = a.clone().into_primitive()?;
            let z = zigzag_encode(p)?;
            if r.gen_bool(0.5) {
                ZigZagArray::try_new(enc_child(r, z.encoded(), deep)?)?.into_array()
            } else {
                z.into_array()
            }
        }
        "alp" => {
            let p = a.clone().into_primitive()?;
            let z = alp_encode(&p)?;
            if r.gen_bool(0.5) {
                ALPArray::try_new(enc_child(r, z.encoded(), deep)?, z.exponents(), z.patches())?.into_array()
            } else {
                z.into_array()
            }
        }
        "alprd" => {
            let p = a.clone().into_primitive()?;
            if n == 0 {
                return Ok(None);
            }
            match p.ptype() {
                PType::F32 => vortex_alp::RDEncoder::new(p.maybe_null_slice::<f32>()).encode(&p).into_array(),
                _ => vortex_alp::RDEncoder::new(p.maybe_null_slice::<f64>()).encode(&p).into_array(),
            }
        }
        "fsst" => {
            let src = if VarBinArray::try_from(a.clone()).is_ok() {
                a.clone()
            } else {
                a.clone().into_varbinview()?.into_array()
            };
            let c = fsst_train_compressor(&src)?;
            fsst_compress(&src, &c)?.into_array()
        }
        "roaring_bool" => RoaringBoolArray::encode(a.clone().into_bool()?.into_array())?,
        "roaring_int" => {
            let strict = vals.windows(2).all(|w| vcmp(&w[0], &w[1]).is_lt());
            if !strict || vals.iter().any(|v| matches!(v, V::Int(i) if *i > u32::MAX as i128)) {
                return Ok(None);
            }
            RoaringIntArray::encode(a.clone().into_primitive()?.into_array())?
        }
        "runend_bool" => {
            let b: BoolArray = a.clone().into_bool()?;
            let (ends, start) = runend_bool_encode(&b);
            if n == 0 {
                return Ok(None);
            }
            let ends = enc_child(r, ends.into_array(), deep)?;
            RunEndBoolArray::try_new(ends, start, b.validity())?.into_array()
        }
        "bytebool" => {
            let b: BoolArray = a.clone().into_bool()?;
            let v: Vec<bool> = b.boolean_buffer().iter().collect();
            ByteBoolArray::try_from_vec(v, b.validity())?.into_array()
        }
        "dtparts" => {
            let t = TemporalArray::try_from(a.clone().into_extension()?.into_array())?;
            let parts = split_temporal(t)?;
            DateTimePartsArray::try_new(
                dt.clone(),
                enc_child(r, parts.days, deep)?,
                enc_child(r, parts.seconds, deep)?,
                enc_child(r, parts.subseconds, deep)?,
            )?
            .into_array()
        }
        "sample" => random_compressor(r).compress(a, None)?.into_array(),
        "varbin" => {
            // the other of the two canonical string layouts
            if VarBinArray::try_from(a.clone()).is_ok() {
                a.clone().into_varbinview()?.into_array()
            } else {
                let vv: VarBinViewArray = a.clone().into_varbinview()?;
                let mut b = vortex::array::builder::VarBinBuilder::<i32>::with_capacity(n);
                for i in 0..n {
                    if vv.is_valid(i) {
                        b.push_value(vv.bytes_at(i)?);
                    } else {
                        b.push_null();
                    }
                }
                b.finish(dt.clone()).into_array()
            }
        }
        "view" => match crate::ipc::roundtrip_one(a).map_err(not_enc)? {
            Some(v) => v,
            None => return Ok(None),
        },
        "reparts" => match dt {
            DType::Struct(st, _) => {
                let s = a.clone().into_struct()?;
                let ch: Vec<Array> = s.children().collect();
                let mut fields = vec![];
                for (i, c) in ch.into_iter().enumerate() {
                    let _ = &st.dtypes()[i];
                    fields.push(enc_child(r, c, deep)?);
                }
                StructArray::try_new(s.names_cloned(), fields, n, enc_validity(r, s.validity(), deep)?)?.into_array()
            }
            DType::Extension(e, _) => {
                let x = a.clone().into_extension()?;
                ExtensionArray::new(e.clone(), enc_child(r, x.storage(), deep)?).into_array()
            }
            _ => match VarBinArray::try_from(a.clone()) {
                Ok(vb) => VarBinArray::try_new(
                    enc_child(r, vb.offsets(), deep)?,
                    vb.bytes(),
                    dt.clone(),
                    enc_validity(r, vb.validity(), deep)?,
                )?
                .into_array(),
                Err(_) => return Ok(None),
            },
        },
        _ => unreachable!("{e}"),
    }))
}

pub fn default_nn(dt: &DType) -> V {
    match dt {
        DType::Null => V::Null,
        _ => gen::default_v(&nonnull(dt)),
    }
}

trait NamesCloned {
    fn names_cloned(&self) -> vortex_dtype::FieldNames;
}
impl NamesCloned for StructArray {
    fn names_cloned(&self) -> vortex_dtype::FieldNames {
        match self.dtype() {
            DType::Struct(st, _) => st.names().clone(),
            _ => unreachable!(),
        }
    }
}

/// Encode a child whose values we read off its canonical form (test-side reader, see observe.rs).
fn enc_child(r: &mut R, c: Array, deep: usize) -> VortexResult<Array> {
    if deep == 0 || r.gen_bool(0.4) {
        return Ok(c);
    }
    let dt = c.dtype().clone();
    match crate::observe::decode(&c) {
        Ok(vals) => encode_any(r, &dt, &vals, c, deep - 1),
        Err(_) => Ok(c),
    }
}

fn enc_validity(r: &mut R, v: Validity, deep: usize) -> VortexResult<Validity> {
    Ok(match v {
        Validity::Array(a) => Validity::Array(enc_child(r, a, deep)?),
        o => o,
    })
}

fn maybe(r: &mut R, dt: &DType, vals: &[V], a: Array, deep: usize) -> VortexResult<Array> {
    if deep == 0 || r.gen_bool(0.5) {
        Ok(a)
    } else {
        encode_any(r, dt, vals, a, deep - 1)
    }
}

/// A random physical form of `a`.
pub fn encode_any(r: &mut R, dt: &DType, vals: &[V], a: Array, deep: usize) -> VortexResult<Array> {
    let x = encode_form(r, dt, vals, a, deep)?;
    // reading past the end of any buffer is then reading past the end of an allocation
    Ok(if crate::props_mem::TIGHT.load(std::sync::atomic::Ordering::Relaxed) { crate::props_mem::fresh(&x) } else { x })
}

fn encode_form(r: &mut R, dt: &DType, vals: &[V], a: Array, deep: usize) -> VortexResult<Array> {
    if deep == 0 {
        return Ok(a);
    }
    if r.gen_bool(0.12) && !crate::known::avoid_encoding("view", dt, vals) {
        // the same array as a view over its serialized form
        let x = if deep > 1 { encode_any(r, dt, vals, a, deep - 1)? } else { a };
        return Ok(crate::ipc::roundtrip_one(&x)
            .map_err(|e| vortex_error::vortex_err!("NOT-ENCODER stream round trip: {e}"))?
            .unwrap_or(x));
    }
    for _ in 0..4 {
        let e = *ENCODERS.choose(r).unwrap();
        if !applicable(e, dt) || crate::known::avoid_encoding(e, dt, vals) {
            continue;
        }
        match encode(r, e, dt, vals, &a, deep) {
            Ok(Some(x)) => return Ok(x),
            Ok(None) => {}
            // the encoder refused this input
            Err(err) if !errs(&err).contains("NOT-ENCODER") => {}
            Err(err) => return Err(err),
        }
    }
    Ok(a)
}

#[allow(dead_code)]
fn unused(_: Nullability, _: &dyn IntoCanonicalDyn) {}
#[allow(dead_code)]
trait IntoCanonicalDyn {}
#[allow(dead_code)]
fn unused2<T: IntoCanonical>(_: T) {}
