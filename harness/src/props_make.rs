//! C26: arrays made from plain values by the constructors, builders, conversions and adapters hold
//! exactly those values.
use std::panic::{catch_unwind, AssertUnwindSafe};

use futures::TryStreamExt;
use half::f16;
use rand::seq::SliceRandom;
use rand::Rng;
use vortex::array::builder::VarBinBuilder;
use vortex::array::{
    BoolArray, ChunkedArray, ConstantArray, NullArray, PrimitiveArray, StructArray, VarBinArray, VarBinViewArray,
};
use vortex::iter::{ArrayIterator, ArrayIteratorAdapter, ArrayIteratorExt};
use vortex::stream::{ArrayStream, ArrayStreamAdapter, ArrayStreamExt};
use vortex::validity::{ArrayValidity, LogicalValidity, Validity};
use vortex::{Array, ArrayDType, IntoArray};
use vortex_bytebool::ByteBoolArray;
use vortex_dtype::{DType, NativePType, Nullability, PType};
use vortex_error::VortexResult;
use vortex_scalar::Scalar;

use crate::gen::{self, TyOpts, R};
use crate::model::*;
use crate::observe::*;
use crate::phys::{cuts, encode_any, enc_tree, ranges};
use crate::props_array::Res;
use crate::run::{take_panic, Ctx, Fail};

const NN: Nullability = Nullability::NonNullable;
const NU: Nullability = Nullability::Nullable;

fn err(what: &str, e: &vortex_error::VortexError) -> Fail {
    Fail::new(format!("{what} error {}", gist(&errs(e))), errs(e))
}

fn ensure(ok: bool, what: &str, detail: impl FnOnce() -> String) -> Res {
    if ok {
        Ok(())
    } else {
        Err(Fail::new(what, detail()))
    }
}

/// A length as the evidence counts it.
fn size(n: usize) -> &'static str {
    match n {
        0 => "0",
        1 => "1",
        2..=63 => "<64",
        64..=1023 => "<1024",
        1024..=65_535 => "<65536",
        _ => "65536+",
    }
}

fn holds(r: &mut R, ctx: &mut Ctx, what: &str, a: &Array, dt: &DType, vals: &[V]) -> Res {
    ctx.step(format!("{what} made {} {}", a.dtype(), enc_tree(a)));
    ctx.label(format!("{what} {}", dtclass(dt)));
    ctx.key(format!("made:{what} {} {}", dtclass(dt), size(vals.len())));
    check_shape(a, dt, vals.len()).map_err(|e| e.at(what))?;
    ctx.obs += vals.len() as u64 + 1;
    check_all(r, a, dt, vals).map_err(|e| e.at(what))
}

pub fn c26(r: &mut R, ctx: &mut Ctx) -> Res {
    match r.gen_range(0..100) {
        0..=34 => texts(r, ctx),
        35..=44 => bools(r, ctx),
        45..=59 => primitives(r, ctx),
        60..=66 => constants(r, ctx),
        67..=91 => chunks(r, ctx),
        92..=95 => fields(r, ctx),
        _ => validities(r, ctx),
    }
}

// ------------------------------------------------------------------ texts

fn texts(r: &mut R, ctx: &mut Ctx) -> Res {
    let nl = gen::nullability(r);
    let utf8 = r.gen_bool(0.5);
    let dt = if utf8 { DType::Utf8(nl) } else { DType::Binary(nl) };
    let n = gen::gen_len(r, ctx.max_len);
    let mut vals = gen::gen_vals(r, &dt, n);
    if n > 0 && r.gen_bool(0.15) {
        // long values, so that views refer to several buffers
        for _ in 0..r.gen_range(1..6) {
            let i = r.gen_range(0..n);
            let l = *[12usize, 13, 100, 4000, 8192, 20_000].choose(r).unwrap();
            vals[i] = V::Bytes((0..l).map(|_| r.gen_range(b'a'..=b'z')).collect());
        }
    }
    ctx.trivial = n == 0;
    ctx.step(format!("values {dt} {}", show(&vals)));
    let opt: Vec<Option<Vec<u8>>> = vals
        .iter()
        .map(|v| match v {
            V::Bytes(b) => Some(b.clone()),
            _ => None,
        })
        .collect();
    let st: Vec<Option<String>> = if utf8 {
        opt.iter().map(|o| o.clone().map(|b| String::from_utf8(b).expect("model utf8"))).collect()
    } else {
        vec![]
    };
    let nulls = vals.iter().any(V::is_null);
    let (ndt, fdt) = (dt.with_nullability(NU), dt.with_nullability(NN));
    let view = r.gen_bool(0.5);
    // constructors of a fixed nullability; a null where none is possible must be refused
    let mut made: Vec<(&str, Array, &DType)> = vec![];
    if view {
        let a = match r.gen_range(0..3) {
            0 => VarBinViewArray::from_iter(opt.iter().map(|o| o.as_deref()), dt.clone()),
            1 => VarBinViewArray::from_iter(opt.clone(), dt.clone()),
            _ => VarBinViewArray::from_iter(opt.iter().map(|o| o.as_ref()), dt.clone()),
        };
        made.push(("view from_iter", a.into_array(), &dt));
        if utf8 {
            let a = match r.gen_range(0..3) {
                0 => VarBinViewArray::from_iter_nullable_str(st.iter().map(|o| o.as_deref())),
                1 => VarBinViewArray::from_iter_nullable_str(st.clone()),
                _ => VarBinViewArray::from_iter_nullable_str(st.iter().filter(|_| true).map(|o| o.as_ref())),
            };
            made.push(("view from_iter_nullable_str", a.into_array(), &ndt));
            made.push(("view collect str", st.iter().map(|o| o.as_deref()).collect::<VarBinViewArray>().into_array(), &ndt));
            made.push(("view collect string", st.iter().cloned().collect::<VarBinViewArray>().into_array(), &ndt));
            if !nulls {
                made.push(("view from_iter_str", VarBinViewArray::from_iter_str(st.iter().flatten()).into_array(), &fdt));
            }
        } else {
            made.push(("view from_iter_nullable_bin", VarBinViewArray::from_iter_nullable_bin(opt.clone()).into_array(), &ndt));
            made.push(("view collect slices", opt.iter().map(|o| o.as_deref()).collect::<VarBinViewArray>().into_array(), &ndt));
            made.push(("view collect vecs", opt.iter().cloned().collect::<VarBinViewArray>().into_array(), &ndt));
            if !nulls {
                made.push(("view from_iter_bin", VarBinViewArray::from_iter_bin(opt.iter().flatten()).into_array(), &fdt));
            }
        }
        for (what, a, _) in &made {
            views(r, what, &VarBinViewArray::try_from(a.clone()).map_err(|e| err(what, &e))?, &vals)?;
        }
    } else {
        made.push(("varbin from_iter", VarBinArray::from_iter(opt.clone(), dt.clone()).into_array(), &dt));
        if !nulls {
            let flat: Vec<Vec<u8>> = opt.iter().flatten().cloned().collect();
            made.push(("varbin from_vec", VarBinArray::from_vec(flat.clone(), dt.clone()).into_array(), &dt));
            made.push(("varbin from_iter_nonnull", VarBinArray::from_iter_nonnull(flat.iter(), dt.clone()).into_array(), &dt));
            if utf8 {
                let s: Vec<&str> = st.iter().flatten().map(|s| s.as_str()).collect();
                made.push(("varbin from strs", VarBinArray::from(s.clone()).into_array(), &fdt));
                let s: Vec<String> = st.iter().flatten().cloned().collect();
                made.push(("varbin from strings", VarBinArray::from(s).into_array(), &fdt));
            } else {
                let s: Vec<&[u8]> = flat.iter().map(|b| b.as_slice()).collect();
                made.push(("varbin from slices", VarBinArray::from(s).into_array(), &fdt));
                made.push(("varbin from vecs", VarBinArray::from(flat).into_array(), &fdt));
            }
        }
        if utf8 {
            made.push(("varbin collect strs", st.iter().map(|o| o.as_deref()).collect::<VarBinArray>().into_array(), &ndt));
            made.push(("varbin collect strings", st.iter().cloned().collect::<VarBinArray>().into_array(), &ndt));
        } else {
            made.push(("varbin collect slices", opt.iter().map(|o| o.as_deref()).collect::<VarBinArray>().into_array(), &ndt));
            made.push(("varbin collect vecs", opt.iter().cloned().collect::<VarBinArray>().into_array(), &ndt));
        }
        let total: usize = opt.iter().flatten().map(|b| b.len()).sum();
        let a = match r.gen_range(0..8) {
            0 if total <= 127 => pushed::<i8>(r, &opt, &dt),
            1 if total <= 255 => pushed::<u8>(r, &opt, &dt),
            2 if total <= 32767 => pushed::<i16>(r, &opt, &dt),
            3 if total <= 65535 => pushed::<u16>(r, &opt, &dt),
            4 => pushed::<i32>(r, &opt, &dt),
            5 => pushed::<u64>(r, &opt, &dt),
            6 => pushed::<i64>(r, &opt, &dt),
            _ => pushed::<u32>(r, &opt, &dt),
        };
        made.push(("varbin builder", a, &dt));
        for (what, a, _) in &made {
            let vb = VarBinArray::try_from(a.clone()).map_err(|e| err(what, &e))?;
            bytes_of(r, what, &vb, &vals)?;
        }
    }
    if r.gen_bool(0.08) {
        refused_null(r, ctx, utf8, &opt)?;
    }
    if r.gen_bool(0.06) {
        bad_text(r, &opt)?;
    }
    if r.gen_bool(0.04) && !view {
        overflow(r, utf8)?;
    }
    made.shuffle(r);
    for (what, a, dt) in made.iter().take(2) {
        holds(r, ctx, what, a, dt, &vals)?;
    }
    for (what, a, dt) in made.iter().skip(2) {
        check_shape(a, dt, vals.len()).map_err(|e| e.at(what))?;
        check_decode(a, dt, &vals).map_err(|e| e.at(what))?;
    }
    Ok(())
}

/// The builder, given values one by one, as options or as runs of values with their ends.
fn pushed<O: NativePType + num_traits::AsPrimitive<usize>>(r: &mut R, opt: &[Option<Vec<u8>>], dt: &DType) -> Array
where
    usize: num_traits::AsPrimitive<O>,
{
    let mut b = match r.gen_range(0..3) {
        0 => VarBinBuilder::<O>::new(),
        1 => VarBinBuilder::<O>::with_capacity(opt.len()),
        _ => VarBinBuilder::<O>::default(),
    };
    let mut i = 0;
    while i < opt.len() {
        match &opt[i] {
            None => b.push_null(),
            Some(v) => match r.gen_range(0..4) {
                0 => b.push_value(v),
                1 => b.push(Some(v)),
                _ => {
                    let max = r.gen_range(0..=20);
                    let run: Vec<&Vec<u8>> = opt[i..].iter().map_while(|o| o.as_ref()).take(max).collect();
                    let mut flat = vec![];
                    let mut ends = vec![];
                    for v in &run {
                        flat.extend_from_slice(v);
                        ends.push(<usize as num_traits::AsPrimitive<O>>::as_(flat.len()));
                    }
                    b.push_values(&flat, ends.into_iter(), run.len());
                    i += run.len();
                    continue;
                }
            },
        }
        i += 1;
    }
    b.finish(dt.clone()).into_array()
}

/// Offsets that do not fit their type are refused, never wrapped.
fn overflow(r: &mut R, utf8: bool) -> Res {
    let runs = r.gen_bool(0.5);
    let dt = if utf8 { DType::Utf8(NN) } else { DType::Binary(NN) };
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut b = VarBinBuilder::<u8>::new();
        b.push_value(vec![b'x'; 200]);
        if runs {
            b.push_values(&[b'y'; 100], [50u8, 100].into_iter(), 2);
        } else {
            b.push_value(vec![b'y'; 100]);
        }
        b.finish(dt)
    }));
    take_panic();
    ensure(res.is_err(), "offsets beyond their type are not refused", || format!("runs {runs}: {:?}", res.is_ok()))
}

/// Bytes that are not text are refused for utf8.
fn bad_text(r: &mut R, opt: &[Option<Vec<u8>>]) -> Res {
    let mut o: Vec<Option<Vec<u8>>> = opt.iter().map(|o| o.clone().filter(|b| std::str::from_utf8(b).is_ok())).collect();
    let mut bad = vec![b'a'; r.gen_range(0..20)];
    let at = r.gen_range(0..=bad.len());
    let seq: &[u8] = [&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"\xc0\x80", b"\xf5\x80\x80\x80"].choose(r).unwrap();
    bad.splice(at..at, seq.iter().copied());
    let at = r.gen_range(0..=o.len());
    o.insert(at, Some(bad));
    let kind = r.gen_range(0..3);
    let dt = DType::Utf8(NU);
    let res = catch_unwind(AssertUnwindSafe(|| match kind {
        0 => VarBinViewArray::from_iter(o.clone(), dt).into_array(),
        1 => VarBinArray::from_iter(o.clone(), dt).into_array(),
        _ => {
            let mut b = VarBinBuilder::<u32>::new();
            for v in &o {
                b.push(v.as_deref());
            }
            b.finish(dt).into_array()
        }
    }));
    take_panic();
    ensure(res.is_err(), "bytes that are not text accepted as text", || format!("{kind}: {:?}", o[at]))
}

/// Views and bytes of single rows.
fn views(r: &mut R, what: &str, a: &VarBinViewArray, vals: &[V]) -> Res {
    let all: Vec<_> = a.binary_views().map_err(|e| err(what, &e))?.collect();
    ensure(all.len() == vals.len(), "binary_views length", || format!("{what}: {} views of {} rows", all.len(), vals.len()))?;
    let bufs: Vec<PrimitiveArray> = a
        .buffers()
        .map(|b| PrimitiveArray::try_from(b).map_err(|e| err(what, &e)))
        .collect::<Result<_, _>>()?;
    ensure(bufs.len() == a.buffer_count(), "buffer count", || format!("{what}: {} buffers, {}", bufs.len(), a.buffer_count()))?;
    for i in probe_idx(r, vals.len(), 24) {
        let V::Bytes(w) = &vals[i] else { continue };
        let v = a.view_at(i).map_err(|e| err(what, &e))?;
        ensure(v.as_u128() == all[i].as_u128(), "view_at and binary_views differ", || format!("{what}: row {i}: {v:?} {:?}", all[i]))?;
        ensure(v.len() as usize == w.len(), "view length", || format!("{what}: row {i}: {} for {} bytes", v.len(), w.len()))?;
        ensure(v.is_empty() == w.is_empty(), "view emptiness", || format!("{what}: row {i}: is_empty {} for {} bytes", v.is_empty(), w.len()))?;
        ensure(v.is_inlined() == (w.len() <= 12), "view inlining", || format!("{what}: row {i}: {} bytes", w.len()))?;
        let got: Vec<u8> = if v.is_inlined() {
            v.as_inlined().value().to_vec()
        } else {
            let x = v.as_view();
            ensure(x.prefix()[..] == w[..4], "view prefix", || format!("{what}: row {i}: {:?} for {w:?}", x.prefix()))?;
            let o = x.offset() as usize;
            bufs[x.buffer_index() as usize].maybe_null_slice::<u8>()[o..o + w.len()].to_vec()
        };
        ensure(got == *w, "view bytes", || format!("{what}: row {i}: {got:?} instead of {w:?}"))?;
        let got = a.bytes_at(i).map_err(|e| err(what, &e))?;
        ensure(got == *w, "bytes_at", || format!("{what}: row {i}: {got:?} instead of {w:?}"))?;
    }
    Ok(())
}

fn bytes_of(r: &mut R, what: &str, a: &VarBinArray, vals: &[V]) -> Res {
    for i in probe_idx(r, vals.len(), 16) {
        if let V::Bytes(w) = &vals[i] {
            let got = a.bytes_at(i).map_err(|e| err(what, &e))?;
            ensure(got.as_slice() == &w[..], "bytes_at", || format!("{what}: row {i}: {:?} instead of {w:?}", got.as_slice()))?;
        }
    }
    let total: usize = vals.iter().map(|v| if let V::Bytes(b) = v { b.len() } else { 0 }).sum();
    let s = a.sliced_bytes().map_err(|e| err(what, &e))?;
    ensure(s.len() == total, "sliced_bytes length", || format!("{what}: {} instead of {total}", s.len()))
}

/// A null for a type without nulls is refused by panicking or by an array that is not built.
fn refused_null(r: &mut R, ctx: &mut Ctx, utf8: bool, opt: &[Option<Vec<u8>>]) -> Res {
    let mut o = opt.to_vec();
    o.insert(r.gen_range(0..=opt.len()), None);
    let dt = if utf8 { DType::Utf8(NN) } else { DType::Binary(NN) };
    let view = r.gen_bool(0.5);
    ctx.step(format!("a null among values of {dt}, view {view}"));
    ctx.label(format!("null for {dt} view {view}"));
    let res = catch_unwind(AssertUnwindSafe(|| {
        if view {
            VarBinViewArray::from_iter(o.clone(), dt.clone()).into_array()
        } else {
            VarBinArray::from_iter(o.clone(), dt.clone()).into_array()
        }
    }));
    take_panic();
    match res {
        Err(_) => Ok(()),
        Ok(a) => Err(Fail::new("null accepted for a type without nulls", format!("{} {:?}", a.dtype(), decode(&a).map(|v| show(&v))))),
    }
}

// ------------------------------------------------------------------ booleans

fn bools(r: &mut R, ctx: &mut Ctx) -> Res {
    let n = gen::gen_len(r, ctx.max_len);
    let nl = gen::nullability(r);
    let vals = gen::gen_vals(r, &DType::Bool(nl), n);
    let opt: Vec<Option<bool>> = vals.iter().map(|v| if let V::Bool(b) = v { Some(*b) } else { None }).collect();
    let flat: Vec<bool> = opt.iter().map(|o| o.unwrap_or_default()).collect();
    let nulls = vals.iter().any(V::is_null);
    ctx.trivial = n == 0;
    ctx.step(format!("values {}", show(&vals)));
    let (ndt, fdt) = (DType::Bool(NU), DType::Bool(NN));
    match r.gen_range(0..6) {
        0 => holds(r, ctx, "bool collect", &opt.iter().copied().collect::<BoolArray>().into_array(), &ndt, &vals),
        1 => holds(r, ctx, "bytebool from options", &ByteBoolArray::from(opt).into_array(), &ndt, &vals),
        2 if !nulls => {
            let a = ByteBoolArray::from(flat.clone());
            ensure(a.maybe_null_slice() == &flat[..], "bytebool slice", || format!("{:?} {flat:?}", a.maybe_null_slice()))?;
            holds(r, ctx, "bytebool from bools", &a.into_array(), &ndt, &vals)
        }
        3 if !nulls => holds(r, ctx, "bool from bools", &BoolArray::from(flat).into_array(), &fdt, &vals),
        4 if !nulls => {
            let b = gen::boolean_buffer(r, &flat);
            holds(r, ctx, "bool from buffer", &BoolArray::from(b).into_array(), &fdt, &vals)
        }
        _ => {
            let valid: Vec<bool> = opt.iter().map(|o| o.is_some()).collect();
            let v = match r.gen_range(0..3) {
                0 => Validity::from(valid),
                1 => Validity::from(gen::boolean_buffer(r, &valid)),
                _ => Validity::from_iter(opt.iter()),
            };
            let a = if r.gen_bool(0.5) {
                BoolArray::from_vec(flat, v).into_array()
            } else {
                ByteBoolArray::try_from_vec(flat, v).map_err(|e| err("bytebool", &e))?.into_array()
            };
            holds(r, ctx, "bools and validity", &a, &ndt, &vals)
        }
    }
}

// ------------------------------------------------------------------ primitives

trait Num: NativePType + arrow_buffer::ArrowNativeType {
    fn of(v: &V) -> Self;
    fn to(self) -> V;
}
macro_rules! int_num { ($($t:ty),*) => { $(impl Num for $t {
    fn of(v: &V) -> Self { if let V::Int(i) = v { *i as $t } else { 0 } }
    fn to(self) -> V { V::Int(self as i128) }
})* } }
int_num!(u8, u16, u32, u64, i8, i16, i32, i64);
impl Num for f16 {
    fn of(v: &V) -> Self { if let V::F16(b) = v { f16::from_bits(*b) } else { f16::from_bits(0) } }
    fn to(self) -> V { V::F16(self.to_bits()) }
}
impl Num for f32 {
    fn of(v: &V) -> Self { if let V::F32(b) = v { f32::from_bits(*b) } else { 0.0 } }
    fn to(self) -> V { V::F32(self.to_bits()) }
}
impl Num for f64 {
    fn of(v: &V) -> Self { if let V::F64(b) = v { f64::from_bits(*b) } else { 0.0 } }
    fn to(self) -> V { V::F64(self.to_bits()) }
}

macro_rules! by_ptype {
    ($p:expr, $f:ident ( $($a:expr),* )) => {
        match $p {
            PType::U8 => $f::<u8>($($a),*), PType::U16 => $f::<u16>($($a),*), PType::U32 => $f::<u32>($($a),*), PType::U64 => $f::<u64>($($a),*),
            PType::I8 => $f::<i8>($($a),*), PType::I16 => $f::<i16>($($a),*), PType::I32 => $f::<i32>($($a),*), PType::I64 => $f::<i64>($($a),*),
            PType::F16 => $f::<f16>($($a),*), PType::F32 => $f::<f32>($($a),*), PType::F64 => $f::<f64>($($a),*),
        }
    };
}

fn gen_ptype(r: &mut R) -> PType {
    *[PType::U8, PType::U16, PType::U32, PType::U64, PType::I8, PType::I16, PType::I32, PType::I64, PType::F16, PType::F32, PType::F64]
        .choose(r)
        .unwrap()
}

fn primitives(r: &mut R, ctx: &mut Ctx) -> Res {
    let p = gen_ptype(r);
    by_ptype!(p, primitive(r, ctx))
}

fn primitive<T: Num>(r: &mut R, ctx: &mut Ctx) -> Res {
    let n = gen::gen_len(r, ctx.max_len);
    let nl = gen::nullability(r);
    let dt = DType::Primitive(T::PTYPE, nl);
    let (ndt, fdt) = (dt.with_nullability(NU), dt.with_nullability(NN));
    let vals = gen::gen_vals(r, &dt, n);
    let nulls = vals.iter().any(V::is_null);
    let flat: Vec<T> = vals.iter().map(T::of).collect();
    let opt: Vec<Option<T>> = vals.iter().map(|v| (!v.is_null()).then(|| T::of(v))).collect();
    ctx.trivial = n == 0;
    ctx.step(format!("values {dt} {}", show(&vals)));
    match r.gen_range(0..9) {
        0 if !nulls => holds(r, ctx, "primitive from vec", &PrimitiveArray::from(flat).into_array(), &fdt, &vals),
        1 if !nulls => holds(r, ctx, "vec into array", &flat.into_array(), &fdt, &vals),
        0..=2 => holds(r, ctx, "primitive from options", &PrimitiveArray::from_nullable_vec(opt).into_array(), &ndt, &vals),
        3 | 4 => {
            // plain values read back
            let a = gen::prim_of(&gen::build(r, &dt, &vals));
            let what = "plain values of an array";
            let s: Vec<T> = a.maybe_null_slice::<T>().to_vec();
            let (back, buf) = if r.gen_bool(0.5) {
                // the buffer is shared
                let keep = a.clone();
                let b: Vec<T> = a.clone().into_maybe_null_slice();
                drop(keep);
                (b, a.buffer().clone())
            } else {
                let buf = vortex_buffer::Buffer::from(a.buffer().as_slice().to_vec());
                let a2 = PrimitiveArray::new(buf.clone(), T::PTYPE, a.validity());
                (a2.into_maybe_null_slice(), buf)
            };
            ensure(buf.len() == n * std::mem::size_of::<T>(), what, || format!("{} bytes", buf.len()))?;
            for i in 0..n {
                let (x, y) = (s[i].to(), back[i].to());
                ensure(x == y, what, || format!("row {i}: {x:?} {y:?}"))?;
                ensure(vals[i].is_null() || x == vals[i], what, || format!("row {i}: {x:?} instead of {:?}", vals[i]))?;
            }
            ctx.key(format!("plain:{what} {dt} {}", size(n)));
            ctx.label(format!("{what} {}", dtclass(&dt)));
            holds(r, ctx, what, &a.into_array(), &dt, &vals)
        }
        5 => {
            let a = gen::prim_of(&gen::build(r, &dt, &vals));
            let k = r.gen_range(0..=n);
            let mut at: Vec<u32> = if n == 0 { vec![] } else { (0..k).map(|_| r.gen_range(0..n as u32)).collect() };
            if r.gen_bool(0.7) {
                at.sort_unstable();
                at.dedup();
            }
            let pv = gen::gen_vals(r, &fdt, at.len());
            let mut want = vals.clone();
            for (i, v) in at.iter().zip(&pv) {
                if !want[*i as usize].is_null() {
                    want[*i as usize] = v.clone();
                }
            }
            ctx.step(format!("patch {at:?} {}", show(&pv)));
            let pt: Vec<T> = pv.iter().map(T::of).collect();
            let b = a.clone().patch(&at, &pt).map_err(|e| err("patch", &e))?;
            holds(r, ctx, "patch", &b.into_array(), &dt, &want)?;
            holds(r, ctx, "array before patch", &a.into_array(), &dt, &vals)
        }
        6 => {
            let to = gen_ptype(r);
            let a = gen::prim_of(&gen::build(r, &dt, &vals));
            let same = to.byte_width() == T::PTYPE.byte_width();
            let res = catch_unwind(AssertUnwindSafe(|| a.reinterpret_cast(to)));
            take_panic();
            ensure(res.is_ok() == same, "reinterpret_cast refusal", || format!("{} as {to}", T::PTYPE))?;
            if let Ok(b) = res {
                let want: Vec<V> = vals.iter().map(|v| if v.is_null() { V::Null } else { rebit(bits(v), to) }).collect();
                holds(r, ctx, "reinterpret_cast", &b.into_array(), &DType::Primitive(to, nl), &want)?;
            }
            Ok(())
        }
        7 => {
            let a = gen::prim_of(&gen::build(r, &dt, &vals));
            let to = gen_ptype(r);
            for i in probe_idx(r, n, 12) {
                if !vals[i].is_null() {
                    by_ptype!(to, cast_one(&a, i, &vals[i]))?;
                }
            }
            ctx.label(format!("get_as_cast {}", dtclass(&dt)));
            ctx.key(format!("get_as_cast:{dt} {to} {}", size(n)));
            Ok(())
        }
        _ => {
            let b: Vec<u8> = gen::gen_vals(r, &DType::Primitive(PType::U8, NN), n).iter().map(u8::of).collect();
            let w: Vec<V> = b.iter().map(|b| V::Int(*b as i128)).collect();
            let a = PrimitiveArray::from_bytes(bytes::Bytes::from(b), if r.gen_bool(0.5) { Validity::NonNullable } else { Validity::AllValid });
            let dt = DType::Primitive(PType::U8, a.dtype().nullability());
            holds(r, ctx, "primitive from bytes", &a.into_array(), &dt, &w)
        }
    }
}

/// An integer that the target type can hold keeps its value.
fn cast_one<T: Num>(a: &PrimitiveArray, i: usize, v: &V) -> Res {
    let V::Int(x) = v else { return Ok(()) };
    let want = match T::PTYPE {
        PType::F16 if x.abs() <= 2048 => V::F16(f16::from_f32(*x as f32).to_bits()),
        PType::F32 if x.abs() <= 1 << 24 => V::F32((*x as f32).to_bits()),
        PType::F64 if x.abs() <= 1 << 53 => V::F64((*x as f64).to_bits()),
        p if p.is_int() && (int_range(p).0..=int_range(p).1).contains(x) => V::Int(*x),
        p if p.is_int() => {
            let res = catch_unwind(AssertUnwindSafe(|| a.get_as_cast::<T>(i).to()));
            take_panic();
            return ensure(res.is_err(), "get_as_cast out of range", || format!("{v:?} as {p}: {res:?}"));
        }
        _ => return Ok(()),
    };
    let got = a.get_as_cast::<T>(i).to();
    ensure(got == want, "get_as_cast", || format!("row {i} {v:?} as {}: {got:?}", T::PTYPE))
}

fn bits(v: &V) -> u64 {
    match v {
        V::Int(i) => *i as u64,
        V::F16(b) => *b as u64,
        V::F32(b) => *b as u64,
        V::F64(b) => *b,
        o => unreachable!("{o:?}"),
    }
}

fn rebit(b: u64, p: PType) -> V {
    match p {
        PType::U8 => V::Int(b as u8 as i128),
        PType::U16 => V::Int(b as u16 as i128),
        PType::U32 => V::Int(b as u32 as i128),
        PType::U64 => V::Int(b as i128),
        PType::I8 => V::Int(b as i8 as i128),
        PType::I16 => V::Int(b as i16 as i128),
        PType::I32 => V::Int(b as i32 as i128),
        PType::I64 => V::Int(b as i64 as i128),
        PType::F16 => V::F16(b as u16),
        PType::F32 => V::F32(b as u32),
        PType::F64 => V::F64(b),
    }
}

// ------------------------------------------------------------------ constants

fn constants(r: &mut R, ctx: &mut Ctx) -> Res {
    let n = gen::gen_len(r, ctx.max_len);
    ctx.trivial = n == 0;
    let what = "constant";
    if r.gen_bool(0.1) {
        return holds(r, ctx, "nulls", &NullArray::new(n).into_array(), &DType::Null, &vec![V::Null; n]);
    }
    if r.gen_bool(0.3) {
        let p = gen_ptype(r);
        return by_ptype!(p, constant_num(r, ctx, n));
    }
    let (a, dt, v): (ConstantArray, DType, V) = match r.gen_range(0..6) {
        0 => {
            let b = r.gen_bool(0.5);
            (ConstantArray::new(b, n), DType::Bool(NN), V::Bool(b))
        }
        1 | 2 => {
            let v = gen::gen_vals(r, &DType::Utf8(NN), 1)[0].clone();
            let V::Bytes(b) = &v else { unreachable!() };
            let s = String::from_utf8(b.clone()).expect("model utf8");
            if r.gen_bool(0.5) {
                (ConstantArray::new(s.as_str(), n), DType::Utf8(NN), v)
            } else {
                let nl = gen::nullability(r);
                (ConstantArray::new(Scalar::utf8(s, nl), n), DType::Utf8(nl), v)
            }
        }
        3 => {
            let nl = gen::nullability(r);
            let v = gen::gen_vals(r, &DType::Binary(NN), 1)[0].clone();
            let V::Bytes(b) = &v else { unreachable!() };
            (ConstantArray::new(Scalar::binary(vortex_buffer::Buffer::from(b.clone()), nl), n), DType::Binary(nl), v)
        }
        4 => {
            let dt = gen::gen_dtype(r, TyOpts::ALL, 0).with_nullability(NU);
            (ConstantArray::new(Scalar::null(dt.clone()), n), dt, V::Null)
        }
        _ => {
            let dt = gen::gen_dtype(r, TyOpts::ALL, 0);
            let v = gen::gen_vals(r, &dt, 1)[0].clone();
            (ConstantArray::new(v_to_scalar(&v, &dt), n), dt, v)
        }
    };
    ctx.step(format!("{n} times {v:?} as {dt}"));
    let s = a.owned_scalar();
    ensure(*s.dtype() == dt, "owned_scalar type", || format!("{} instead of {dt}", s.dtype()))?;
    let g = scalar_to_v(&s).map_err(|e| Fail::new(what, e))?;
    ensure(g == v, "owned_scalar", || format!("{g:?} instead of {v:?}"))?;
    holds(r, ctx, what, &a.into_array(), &dt, &vec![v; n])
}

fn constant_num<T: Num>(r: &mut R, ctx: &mut Ctx, n: usize) -> Res
where
    Scalar: From<T> + From<Option<T>>,
{
    let dt = DType::Primitive(T::PTYPE, NN);
    let v = gen::gen_vals(r, &dt, 1)[0].clone();
    ctx.step(format!("{n} times {v:?} as {dt}"));
    match r.gen_range(0..4) {
        0 => holds(r, ctx, "constant some", &ConstantArray::new(Some(T::of(&v)), n).into_array(), &dt.with_nullability(NU), &vec![v; n]),
        1 => holds(r, ctx, "constant none", &ConstantArray::new(None::<T>, n).into_array(), &dt.with_nullability(NU), &vec![V::Null; n]),
        _ => holds(r, ctx, "constant number", &ConstantArray::new(T::of(&v), n).into_array(), &dt, &vec![v; n]),
    }
}

// ------------------------------------------------------------------ chunks

fn chunks(r: &mut R, ctx: &mut Ctx) -> Res {
    let dt = gen::gen_dtype(r, TyOpts::ALL, 1);
    let n = gen::gen_len(r, ctx.max_len);
    let vals = gen::gen_vals(r, &dt, n);
    let cut = cuts(r, n, 8);
    let mut parts = vec![];
    for (s, e) in ranges(&cut, n) {
        let a = gen::build(r, &dt, &vals[s..e]);
        let a = if r.gen_bool(0.4) { encode_any(r, &dt, &vals[s..e], a, 1).map_err(|e| err("encode", &e))? } else { a };
        parts.push(a);
    }
    let lens: Vec<usize> = parts.iter().map(|p| p.len()).collect();
    ctx.trivial = n == 0;
    ctx.step(format!("chunks {lens:?} of {dt} {}: {}", show(&vals), parts.iter().map(enc_tree).collect::<Vec<_>>().join(" | ")));
    ctx.key(format!("chunks:{} {} {}", dtclass(&dt), lens.len().min(9), size(n)));
    let made = |x: VortexResult<ChunkedArray>, what: &str| x.map_err(|e| err(what, &e));
    match r.gen_range(0..8) {
        0 if !parts.is_empty() => {
            let a: ChunkedArray = parts.iter().cloned().collect();
            pieces(&a, &lens)?;
            holds(r, ctx, "collected chunks", &a.into_array(), &dt, &vals)
        }
        1 => {
            let it = ArrayIteratorAdapter::new(dt.clone(), parts.iter().cloned().map(Ok));
            ensure(*it.dtype() == dt, "iterator type", || format!("{}", it.dtype()))?;
            let a = made(it.try_into_chunked(), "try_into_chunked")?;
            pieces(&a, &lens)?;
            holds(r, ctx, "chunks of an iterator", &a.into_array(), &dt, &vals)
        }
        2 => {
            let it = ArrayIteratorAdapter::new(dt.clone(), parts.iter().cloned().map(Ok));
            let st = it.into_stream();
            ensure(*st.dtype() == dt, "stream type", || format!("{}", st.dtype()))?;
            let a = made(futures::executor::block_on(st.collect_chunked()), "collect_chunked")?;
            pieces(&a, &lens)?;
            holds(r, ctx, "chunks of a stream", &a.into_array(), &dt, &vals)
        }
        3 => {
            // an error in the middle is reported, not dropped
            let k = r.gen_range(0..=parts.len());
            let mut items: Vec<VortexResult<Array>> = parts.iter().cloned().map(Ok).collect();
            items.insert(k, Err(vortex_error::vortex_err!("chunk {k} is lost")));
            let it = ArrayIteratorAdapter::new(dt.clone(), items.into_iter());
            let res = if r.gen_bool(0.5) {
                it.try_into_chunked()
            } else {
                futures::executor::block_on(ArrayStreamAdapter::new(dt.clone(), futures::stream::iter(it)).collect_chunked())
            };
            ctx.label("lost chunk");
            match res {
                Err(e) => ensure(errs(&e).contains("is lost"), "error of a chunk", || errs(&e)),
                Ok(a) => Err(Fail::new("error of a chunk is dropped", format!("{} rows", a.len()))),
            }
        }
        4 => {
            let a = made(ChunkedArray::try_new(parts, dt.clone()), "chunked")?;
            let b = if r.gen_bool(0.5) {
                made(a.array_iterator().try_into_chunked(), "array_iterator")?
            } else {
                made(futures::executor::block_on(a.array_stream().collect_chunked()), "array_stream")?
            };
            pieces(&b, &lens)?;
            holds(r, ctx, "chunks of chunks", &b.into_array(), &dt, &vals)
        }
        5 => {
            // rows taken from a stream
            let st = ArrayStreamAdapter::new(dt.clone(), futures::stream::iter(parts.into_iter().map(Ok)));
            let mut at: Vec<usize> = if n == 0 { vec![] } else { (0..r.gen_range(0..=n.min(40))).map(|_| r.gen_range(0..n)).collect() };
            at.sort_unstable();
            let want: Vec<V> = at.iter().map(|i| vals[*i].clone()).collect();
            ctx.step(format!("rows {at:?}"));
            let idx = PrimitiveArray::from(at.iter().map(|i| *i as u64).collect::<Vec<_>>()).into_array();
            let st = st.take_rows(idx).map_err(|e| err("take_rows", &e))?;
            let sdt = st.dtype().clone();
            ensure(sdt == dt, "take_rows type", || format!("{sdt}"))?;
            let got: Vec<Array> = futures::executor::block_on(st.try_collect()).map_err(|e| err("take_rows", &e))?;
            let a = made(ChunkedArray::try_new(got, dt.clone()), "taken")?;
            holds(r, ctx, "rows of a stream", &a.into_array(), &dt, &want)
        }
        _ => {
            let a = made(ChunkedArray::try_new(parts.clone(), dt.clone()), "chunked")?;
            let rows = *[0usize, 1, 2, n / 3 + 1, n / 2, n, n + 1, usize::MAX].choose(r).unwrap();
            let nb = a.clone().into_array().nbytes();
            let bytes = *[0usize, 1, nb / 4, nb / 2, nb, nb + 1, 1 << 40].choose(r).unwrap();
            ctx.step(format!("rechunk to {rows} rows, {bytes} bytes"));
            let b = made(a.rechunk(bytes, rows), "rechunk")?;
            let bl: Vec<usize> = b.chunks().map(|c| c.len()).collect();
            // a chunk is one of the old ones or a group of them within the limits (old chunks without
            // rows may be in any group)
            let full: Vec<(usize, usize)> = parts.iter().filter(|p| !p.is_empty()).map(|p| (p.len(), p.nbytes())).collect();
            let mut i = 0;
            for l in bl.iter().filter(|l| **l > 0) {
                let start = i;
                let mut sum = 0;
                while i < full.len() && sum < *l {
                    sum += full[i].0;
                    i += 1;
                }
                ensure(sum == *l, "rechunk splits chunks", || format!("{lens:?} to {bl:?}"))?;
                let nb: usize = full[start..i].iter().map(|p| p.1).sum();
                ensure(i - start == 1 || *l <= rows, "rechunk exceeds the rows", || format!("{lens:?} to {bl:?}, {rows} rows"))?;
                ensure(i - start == 1 || nb <= bytes, "rechunk exceeds the bytes", || format!("{lens:?} to {bl:?}, {bytes} bytes, {nb}"))?;
            }
            if rows >= n && bytes >= parts.iter().map(|p| p.nbytes()).sum() {
                ensure(bl.len() <= 1, "rechunk leaves small chunks apart", || format!("{lens:?} to {bl:?}"))?;
            }
            holds(r, ctx, "rechunk", &b.into_array(), &dt, &vals)
        }
    }
}

fn pieces(a: &ChunkedArray, lens: &[usize]) -> Res {
    let got: Vec<usize> = a.chunks().map(|c| c.len()).collect();
    ensure(got == lens, "chunk lengths", || format!("{got:?} instead of {lens:?}"))?;
    ensure(a.nchunks() == lens.len(), "chunk count", || format!("{}", a.nchunks()))
}

// ------------------------------------------------------------------ structs

fn fields(r: &mut R, ctx: &mut Ctx) -> Res {
    let dt = gen::gen_struct_dtype(r, TyOpts::ALL, 0, NN);
    let DType::Struct(st, _) = &dt else { unreachable!() };
    if st.names().is_empty() {
        return Ok(());
    }
    let n = gen::gen_len(r, ctx.max_len);
    let vals = gen::gen_vals(r, &dt, n);
    ctx.trivial = n == 0;
    ctx.step(format!("rows {dt} {}", show(&vals)));
    let mut items = vec![];
    for (i, (name, fdt)) in st.names().iter().zip(st.dtypes().iter()).enumerate() {
        let col: Vec<V> = vals.iter().map(|v| if let V::Struct(f) = v { f[i].clone() } else { V::Null }).collect();
        let a = gen::build(r, fdt, &col);
        let a = if r.gen_bool(0.4) { encode_any(r, fdt, &col, a, 1).map_err(|e| err("encode", &e))? } else { a };
        items.push((name.to_string(), a));
    }
    let a = StructArray::from_fields(&items).map_err(|e| err("from_fields", &e))?;
    holds(r, ctx, "struct from fields", &a.into_array(), &dt, &vals)?;
    if items.len() > 1 && n > 0 {
        let k = r.gen_range(0..items.len());
        let (name, f) = items[k].clone();
        items[k] = (name, vortex::compute::slice(&f, 0, n - 1).map_err(|e| err("slice", &e))?);
        let res = catch_unwind(AssertUnwindSafe(|| StructArray::from_fields(&items)));
        take_panic();
        ensure(!matches!(res, Ok(Ok(_))), "fields of different lengths accepted", || format!("field {k} of {dt}, {n} rows"))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ validities

fn rows_of(v: &Validity, n: usize) -> Result<Vec<bool>, Fail> {
    let bad = |e: vortex_error::VortexError| err("validity", &e);
    let single: Vec<bool> = (0..n).map(|i| v.is_valid(i)).collect();
    for (i, b) in single.iter().enumerate() {
        ensure(v.is_null(i) != *b, "is_null and is_valid", || format!("row {i}"))?;
    }
    let lv = v.to_logical(n);
    ensure(lv.len() == n, "logical length", || format!("{} of {n}", lv.len()))?;
    ensure(lv.is_empty() == (n == 0), "logical emptiness", || format!("{n}"))?;
    let nb = lv.to_null_buffer().map_err(bad)?;
    let all: Vec<bool> = match &nb {
        None => vec![true; n],
        Some(b) => b.iter().collect(),
    };
    ensure(all == single, "logical validity and single rows", || format!("{all:?} {single:?}"))?;
    ensure(!lv.all_valid() || all.iter().all(|b| *b), "all valid", || format!("{all:?}"))?;
    ensure(!lv.all_invalid() || !all.iter().any(|b| *b), "all invalid", || format!("{all:?}"))?;
    Ok(single)
}

fn gen_val(r: &mut R, n: usize) -> (Validity, Vec<bool>) {
    let valid: Vec<bool> = gen::gen_nulls(r, n).iter().map(|b| !b).collect();
    match r.gen_range(0..8) {
        0 => (Validity::NonNullable, vec![true; n]),
        1 => (Validity::AllValid, vec![true; n]),
        2 => (Validity::AllInvalid, vec![false; n]),
        3 => (Validity::from(valid.clone()), valid),
        4 => (Validity::from(gen::boolean_buffer(r, &valid)), valid),
        5 => (Validity::from(arrow_buffer::NullBuffer::new(gen::boolean_buffer(r, &valid))), valid),
        _ => (Validity::Array(gen::bool_nonnull(r, &valid)), valid),
    }
}

fn validities(r: &mut R, ctx: &mut Ctx) -> Res {
    let bad = |e: vortex_error::VortexError| err("validity", &e);
    let n = gen::gen_len(r, ctx.max_len);
    let (a, ra) = gen_val(r, n);
    let (b, rb) = gen_val(r, n);
    ctx.trivial = n == 0;
    ctx.label("validity");
    ctx.step(format!("validity {a:?} {ra:?} and {b:?} {rb:?}"));
    ctx.key(format!("validity:{} {}", size(n), size(ra.iter().filter(|b| **b).count())));
    let got = rows_of(&a, n)?;
    ensure(got == ra, "validity rows", || format!("{got:?} instead of {ra:?}"))?;
    let c = a.clone().and(b.clone()).map_err(bad)?;
    let want: Vec<bool> = ra.iter().zip(&rb).map(|(a, b)| *a && *b).collect();
    let got = rows_of(&c, n)?;
    ensure(got == want, "validity and", || format!("{got:?} instead of {want:?}"))?;
    let nl = a.nullability() == NU || b.nullability() == NU;
    ensure((c.nullability() == NU) == nl, "validity and nullability", || format!("{a:?} {b:?} {c:?}"))?;
    let nu = a.clone().into_nullable();
    ensure(nu.nullability() == NU && rows_of(&nu, n)? == ra, "validity into_nullable", || format!("{nu:?}"))?;
    // concatenation
    let parts: Vec<(usize, usize)> = ranges(&cuts(r, n, 5), n);
    let lv: Vec<LogicalValidity> = parts.iter().map(|(s, e)| a.slice(*s, *e).map(|v| v.to_logical(e - s))).collect::<VortexResult<_>>().map_err(bad)?;
    let j = Validity::from_iter(lv);
    let got = rows_of(&j, n)?;
    ensure(got == ra, "joined validity", || format!("{parts:?}: {got:?} instead of {ra:?}"))?;
    let lv = a.to_logical(n).into_validity();
    ensure(rows_of(&lv, n)? == ra, "logical into validity", || format!("{lv:?}"))?;
    let arr = gen::bool_nonnull(r, &ra);
    let lv = LogicalValidity::try_new_from_array(arr).map_err(bad)?;
    let v = lv.into_validity();
    ensure(rows_of(&v, n)? == ra, "logical validity of an array", || format!("{v:?} {ra:?}"))?;
    // on an array
    if a.nullability() == NU {
        let p = PrimitiveArray::from_vec(vec![1i32; n], a.clone());
        let want: Vec<V> = ra.iter().map(|b| if *b { V::Int(1) } else { V::Null }).collect();
        for i in probe_idx(r, n, 8) {
            ensure(p.is_valid(i) == ra[i], "array is_valid", || format!("row {i}"))?;
        }
        holds(r, ctx, "values and validity", &p.into_array(), &DType::Primitive(PType::I32, NU), &want)?;
    }
    Ok(())
}
