//! C25: the typed views of an array (fields, projections, set positions, storage, accessors,
//! batch iterators, validity) agree with its rows.
use half::f16;
use rand::seq::SliceRandom;
use rand::Rng;
use vortex::accessor::ArrayAccessor;
use vortex::array::{BoolArray, ChunkedArray, ConstantArray, PrimitiveArray, SparseArray};
use vortex::compute::unary::scalar_at;
use vortex::elementwise::dyn_cast_array_iter;
use vortex::iter::{AccessorRef, VectorizedArrayIter};
use vortex::validity::{LogicalValidity, Validity};
use vortex::variants::BoolArrayTrait;
use vortex::{Array, ArrayDType, IntoArray};
use vortex_bytebool::ByteBoolArray;
use vortex_dtype::field::Field;
use vortex_dtype::{DType, NativePType, Nullability, PType};
use vortex_error::VortexResult;
use vortex_roaring::RoaringBoolArray;
use vortex_runend_bool::RunEndBoolArray;

use crate::gen::{self, TyOpts, R};
use crate::model::*;
use crate::observe::*;
use crate::phys::{enc_id, enc_tree};
use crate::props_array::{describe, select_step, subject_of, Res};
use crate::run::{Ctx, Fail};

fn err(what: &str, e: &vortex_error::VortexError) -> Fail {
    Fail::new(format!("{what} error {}", gist(&errs(e))), errs(e))
}

fn ensure(ok: bool, what: &str, detail: impl FnOnce() -> String) -> Res {
    if ok {
        Ok(())
    } else {
        Err(Fail::new(what, detail()))
    }
}

/// An array of the type in a random form, perhaps after a random selection.
fn view_subject(r: &mut R, ctx: &mut Ctx, dt: &DType) -> Result<(Array, Vec<V>), Fail> {
    let n = gen::gen_len(r, ctx.max_len);
    let mut vals = gen::gen_vals(r, dt, n);
    let mut a = subject_of(r, ctx, dt, &vals)?;
    describe(ctx, "array", dt, &vals, &a);
    if r.gen_bool(0.3) {
        if let Some((v, b)) = select_step(r, ctx, dt, &vals, &a)? {
            a = b;
            vals = v;
            ctx.step(format!("selected {} as {}", show(&vals), enc_tree(&a)));
        }
    }
    ctx.trivial = vals.is_empty();
    ctx.label(format!("{}/{}", enc_id(&a), dtclass(dt)));
    Ok((a, vals))
}

pub fn c25(r: &mut R, ctx: &mut Ctx) -> Res {
    match r.gen_range(0..100) {
        0..=27 => structs(r, ctx),
        28..=52 => bools(r, ctx),
        53..=62 => extensions(r, ctx),
        63..=84 => primitives(r, ctx),
        _ => validities(r, ctx),
    }
}

// ------------------------------------------------------------------ structs

/// The rows of a field (`None` where the row itself is null: there the field may hold anything).
fn check_column(r: &mut R, what: &str, f: &Array, dt: &DType, want: &[Option<V>]) -> Res {
    check_shape(f, dt, want.len()).map_err(|e| e.at(what))?;
    if SparseArray::try_from(f.clone()).is_ok() && !matches!(dt, DType::Bool(_) | DType::Primitive(..)) {
        // sparse arrays of these types are read element by element only
        for i in probe_idx(r, want.len(), 24) {
            if let Some(w) = &want[i] {
                let s = scalar_at(f, i).map_err(|e| err(what, &e))?;
                let g = scalar_to_v(&s).map_err(|e| Fail::new(what, e))?;
                ensure(g == *w, what, || format!("row {i}: {g:?} instead of {w:?}"))?;
            }
        }
        return Ok(());
    }
    let got = decode(f).map_err(|e| Fail::new(format!("{what} decode {}", gist(&e)), e))?;
    let w: Vec<V> = want.iter().zip(&got).map(|(w, g)| w.clone().unwrap_or_else(|| g.clone())).collect();
    diff(what, &got, &w)?;
    let idx: Vec<usize> = probe_idx(r, want.len(), 12);
    check_scalar_at(f, dt, &w, &idx).map_err(|e| e.at(what))?;
    check_validity(f, &w, &idx).map_err(|e| e.at(what))
}

/// Rows that are mostly alike, as patches over a common row.
fn sparse_rows(r: &mut R, ctx: &mut Ctx, dt: &DType) -> Result<(Array, Vec<V>), Fail> {
    let n = gen::gen_len(r, ctx.max_len);
    let fill = gen::gen_vals(r, dt, 1)[0].clone();
    let mut vals = vec![fill.clone(); n];
    let mut at: Vec<usize> = (0..n).filter(|_| r.gen_bool(0.3)).collect();
    at.dedup();
    let pv = gen::gen_vals(r, dt, at.len());
    for (i, v) in at.iter().zip(&pv) {
        vals[*i] = v.clone();
    }
    let patches = subject_of(r, ctx, dt, &pv)?;
    let idx = PrimitiveArray::from(at.iter().map(|i| *i as u64).collect::<Vec<_>>()).into_array();
    let a = SparseArray::try_new(idx, patches, n, v_to_sv(&fill, dt)).map_err(|e| err("sparse", &e))?.into_array();
    describe(ctx, "sparse rows", dt, &vals, &a);
    ctx.trivial = n == 0;
    ctx.label("sparse/struct");
    Ok((a, vals))
}

fn structs(r: &mut R, ctx: &mut Ctx) -> Res {
    let nl = gen::nullability(r);
    let dt = gen::gen_struct_dtype(r, TyOpts::ALL, 0, nl);
    let (a, vals) = if r.gen_bool(0.15) { sparse_rows(r, ctx, &dt)? } else { view_subject(r, ctx, &dt)? };
    let DType::Struct(st, _) = &dt else { unreachable!() };
    let nf = st.names().len();
    ctx.key(format!("struct:{}", enc_tree(&a)));
    let col = |i: usize| -> Vec<Option<V>> {
        vals.iter()
            .map(|v| match v {
                V::Struct(fs) => Some(fs[i].clone()),
                _ => None,
            })
            .collect()
    };
    let (names, dtypes, nfields) = a.with_dyn(|x| {
        let s = x.as_struct_array().expect("a struct array offers its fields");
        (s.names().clone(), s.dtypes().to_vec(), s.nfields())
    });
    ensure(names == *st.names() && dtypes[..] == st.dtypes()[..] && nfields == nf, "struct-shape", || {
        format!("{names:?} {dtypes:?} {nfields} of {dt}")
    })?;
    for i in 0..nf {
        let f = a.with_dyn(|x| x.as_struct_array_unchecked().field(i));
        let Some(f) = f else {
            return Err(Fail::new("field-missing", format!("field({i}) of {nf} is None")));
        };
        ctx.key(format!("field:{}>{}", enc_id(&a), enc_id(&f)));
        check_column(r, "field", &f, &st.dtypes()[i], &col(i))?;
        ctx.obs += vals.len() as u64;
    }
    for i in [nf, nf + 1] {
        let f = a.with_dyn(|x| x.as_struct_array_unchecked().field(i));
        ensure(f.is_none(), "field-beyond", || format!("field({i}) of {nf} is an array"))?;
    }
    if nf > 0 {
        let i = r.gen_range(0..nf);
        let name = st.names()[i].clone();
        let first = st.names().iter().position(|n| *n == name).unwrap();
        let f = a.with_dyn(|x| x.as_struct_array_unchecked().field_by_name(&name));
        let Some(f) = f else {
            return Err(Fail::new("named-field-missing", format!("field_by_name({name}) is None")));
        };
        check_column(r, "named-field", &f, &st.dtypes()[first], &col(first))?;
    }
    let f = a.with_dyn(|x| x.as_struct_array_unchecked().field_by_name("no such field"));
    ensure(f.is_none(), "named-field-beyond", || "an unknown name gave a field".into())?;

    // projection
    let np = r.gen_range(0..=nf.max(1));
    let bad = r.gen_bool(0.1);
    let mut idx: Vec<usize> = (0..np.min(if nf == 0 { 0 } else { np })).map(|_| r.gen_range(0..nf)).collect();
    let mut fields: Vec<Field> = idx
        .iter()
        .map(|i| {
            if r.gen_bool(0.5) {
                Field::Index(*i)
            } else {
                Field::Name(st.names()[*i].to_string())
            }
        })
        .collect();
    for (k, f) in fields.iter().enumerate() {
        if let Field::Name(n) = f {
            idx[k] = st.names().iter().position(|m| m.as_ref() == n.as_str()).unwrap();
        }
    }
    if bad {
        fields.push(if r.gen_bool(0.5) { Field::Index(nf + r.gen_range(0..3)) } else { Field::Name("no such".into()) });
    }
    ctx.step(format!("project {fields:?}"));
    let p = a.with_dyn(|x| x.as_struct_array_unchecked().project(&fields));
    match (p, bad) {
        (Err(_), true) => Ok(()),
        (Ok(p), true) => Err(Fail::new("project-unknown", format!("projection {fields:?} of {dt} gave {}", p.dtype()))),
        (Err(e), false) => Err(err("project", &e)),
        (Ok(p), false) => {
            let want_dt = DType::Struct(
                vortex_dtype::StructDType::new(
                    idx.iter().map(|i| st.names()[*i].clone()).collect::<Vec<_>>().into(),
                    idx.iter().map(|i| st.dtypes()[*i].clone()).collect(),
                ),
                dt.nullability(),
            );
            let want: Vec<V> = vals
                .iter()
                .map(|v| match v {
                    V::Struct(fs) => V::Struct(idx.iter().map(|i| fs[*i].clone()).collect()),
                    o => o.clone(),
                })
                .collect();
            ctx.key(format!("project:{}>{}", enc_id(&a), enc_id(&p)));
            ctx.obs += vals.len() as u64;
            if SparseArray::try_from(p.clone()).is_ok() {
                // sparse structs are read field by field
                check_shape(&p, &want_dt, want.len()).map_err(|e| e.at("project"))?;
                check_validity(&p, &want, &probe_idx(r, want.len(), 20)).map_err(|e| e.at("project"))?;
                for (k, i) in idx.iter().enumerate() {
                    let f = p.with_dyn(|x| x.as_struct_array_unchecked().field(k));
                    let Some(f) = f else {
                        return Err(Fail::new("project-field-missing", format!("field({k})")));
                    };
                    check_column(r, "project-field", &f, &st.dtypes()[*i], &col(*i))?;
                }
                return Ok(());
            }
            check_all(r, &p, &want_dt, &want).map_err(|e| e.at("project"))
        }
    }
}

// ------------------------------------------------------------------ booleans

fn invert_of(a: &Array) -> Option<VortexResult<Array>> {
    macro_rules! try_as {
        ($($t:ty),*) => {$(
            if let Ok(x) = <$t>::try_from(a.clone()) {
                return Some(x.invert());
            }
        )*};
    }
    try_as!(BoolArray, ConstantArray, ChunkedArray, SparseArray, ByteBoolArray, RoaringBoolArray, RunEndBoolArray);
    None
}

fn bools(r: &mut R, ctx: &mut Ctx) -> Res {
    let dt = DType::Bool(gen::nullability(r));
    let (a, vals) = view_subject(r, ctx, &dt)?;
    let n = vals.len();
    ctx.key(format!("bool:{}", enc_tree(&a)));
    // positions that must be set, and those that may be (a null's value is not specified)
    let must: Vec<bool> = vals.iter().map(|v| matches!(v, V::Bool(true))).collect();
    let may: Vec<bool> = vals.iter().map(|v| matches!(v, V::Bool(true) | V::Null)).collect();
    let judge = |what: &str, set: &[usize]| -> Res {
        ensure(set.windows(2).all(|w| w[0] < w[1]), &format!("{what}-order"), || format!("{set:?}"))?;
        let mut got = vec![false; n];
        for i in set {
            ensure(*i < n, &format!("{what}-range"), || format!("{i} of {n}"))?;
            got[*i] = true;
        }
        for i in 0..n {
            ensure(got[i] || !must[i], &format!("{what}-missing"), || format!("position {i} is set and not reported"))?;
            ensure(!got[i] || may[i], &format!("{what}-extra"), || format!("position {i} is reported and not set"))?;
        }
        Ok(())
    };
    ctx.label(format!("indices {}", enc_id(&a)));
    let ind: Vec<usize> = a.with_dyn(|x| x.as_bool_array_unchecked().maybe_null_indices_iter().take(n + 2).collect());
    judge("set-indices", &ind)?;
    ctx.label(format!("slices {}", enc_id(&a)));
    let sl: Vec<(usize, usize)> = a.with_dyn(|x| x.as_bool_array_unchecked().maybe_null_slices_iter().take(n + 2).collect());
    ensure(sl.iter().all(|(s, e)| s < e && *e <= n), "set-slices-shape", || format!("{sl:?} of {n}"))?;
    ensure(sl.windows(2).all(|w| w[0].1 <= w[1].0), "set-slices-order", || format!("{sl:?}"))?;
    let flat: Vec<usize> = sl.iter().flat_map(|(s, e)| *s..*e).collect();
    judge("set-slices", &flat)?;
    ensure(flat == ind, "slices-vs-indices", || format!("{sl:?} and {ind:?}"))?;
    ctx.label(format!("true_count {}", enc_id(&a)));
    let tc = a.with_dyn(|x| x.as_bool_array_unchecked().true_count());
    let lo = must.iter().filter(|b| **b).count();
    ensure(tc == lo, "true-count", || format!("{tc}, but {lo} rows are true"))?;
    ctx.obs += n as u64;
    ctx.label(format!("invert {}", enc_id(&a)));
    if let Some(inv) = invert_of(&a) {
        let inv = inv.map_err(|e| err("invert", &e))?;
        let want: Vec<V> = vals
            .iter()
            .map(|v| match v {
                V::Bool(b) => V::Bool(!b),
                o => o.clone(),
            })
            .collect();
        check_all(r, &inv, &dt, &want).map_err(|e| e.at("invert"))?;
        ctx.key(format!("invert:{}>{}", enc_id(&a), enc_id(&inv)));
    }
    if let Ok(b) = BoolArray::try_from(a.clone()) {
        let got: Vec<V> = ArrayAccessor::<bool>::with_iterator(&b, |it| {
            it.map(|o| o.map_or(V::Null, |b| V::Bool(*b))).collect()
        })
        .map_err(|e| err("bool-iter", &e))?;
        diff("bool-iter", &got, &vals)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ extensions

fn extensions(r: &mut R, ctx: &mut Ctx) -> Res {
    let dt = DType::Extension(gen::gen_ext(r), gen::nullability(r));
    let (a, vals) = view_subject(r, ctx, &dt)?;
    ctx.key(format!("ext:{}", enc_tree(&a)));
    let DType::Extension(ext, nl) = &dt else { unreachable!() };
    let (e, s) = a.with_dyn(|x| {
        let v = x.as_extension_array().expect("an extension array offers its storage");
        (v.ext_dtype().clone(), v.storage_array())
    });
    ensure(e == *ext, "ext-dtype", || format!("{e:?} of {dt}"))?;
    ensure(s.len() == vals.len(), "storage-len", || format!("{} of {}", s.len(), vals.len()))?;
    ctx.obs += vals.len() as u64;
    match ext_storage_ptype(ext) {
        Some(p) => check_all(r, &s, &DType::Primitive(p, *nl), &vals).map_err(|e| e.at("storage")),
        // other extensions do not say what they are stored as
        None => {
            ctx.trivial = true;
            Ok(())
        }
    }
}

// ------------------------------------------------------------------ primitives

fn judge_accessor<T: Copy>(r: &mut R, acc: &AccessorRef<T>, vals: &[V], wrap: impl Fn(T) -> V) -> Res {
    let n = vals.len();
    ensure(acc.array_len() == n, "accessor-len", || format!("{} of {n}", acc.array_len()))?;
    for i in probe_idx(r, n, 64) {
        ensure(acc.is_valid(i) != vals[i].is_null(), "accessor-valid", || format!("position {i}: {:?}", vals[i]))?;
        if !vals[i].is_null() {
            let g = wrap(acc.value_unchecked(i));
            ensure(g == vals[i], "accessor-value", || format!("position {i}: {g:?} of {:?}", vals[i]))?;
        }
    }
    let v = acc.array_validity();
    for i in probe_idx(r, n, 16) {
        ensure(v.is_valid(i) != vals[i].is_null(), "accessor-validity", || format!("position {i}: {:?}", vals[i]))?;
    }
    // a batch may begin anywhere
    if n > 0 {
        let s = *[0, n / 2, n - 1, r.gen_range(0..n)].choose(r).unwrap();
        let b = acc.decode_batch(s);
        ensure(b.len() == acc.batch_size(s) && !b.is_empty() && s + b.len() <= n, "accessor-batch-len", || {
            format!("{} from {s} of {n}", b.len())
        })?;
        for (k, x) in b.into_iter().enumerate() {
            if !vals[s + k].is_null() {
                let g = wrap(x);
                ensure(g == vals[s + k], "accessor-batch", || format!("position {}: {g:?} of {:?}", s + k, vals[s + k]))?;
            }
        }
    }
    // the iterator says how many batches are left
    let mut it = VectorizedArrayIter::new(acc.clone());
    let mut hints = vec![it.size_hint()];
    while it.next().is_some() {
        hints.push(it.size_hint());
    }
    for (k, (lo, hi)) in hints.iter().enumerate() {
        let left = hints.len() - 1 - k;
        ensure(*lo <= left && hi.map_or(true, |h| h >= left), "iter-hint", || format!("({lo}, {hi:?}) with {left} batches left"))?;
    }
    Ok(())
}

fn flattened<T: NativePType>(a: &Array, wrap: impl Fn(T) -> V) -> Vec<V> {
    let mut out = vec![];
    for b in dyn_cast_array_iter::<T>(a) {
        let n = b.len();
        let it = b.into_iter();
        assert_eq!(it.len(), n);
        out.extend(it.map(|o| o.map_or(V::Null, &wrap)));
    }
    out
}

fn primitives(r: &mut R, ctx: &mut Ctx) -> Res {
    let p = if r.gen_bool(0.75) {
        *gen::INTS.choose(r).unwrap()
    } else {
        *[PType::F16, PType::F32, PType::F64].choose(r).unwrap()
    };
    let dt = DType::Primitive(p, gen::nullability(r));
    let (a, vals) = view_subject(r, ctx, &dt)?;
    let n = vals.len();
    ctx.key(format!("prim:{}", enc_tree(&a)));
    check_iter(&a, &vals)?;
    ctx.obs += n as u64;
    // accessors of another type are not offered
    let mut offered = vec![];
    a.with_dyn(|x| {
        if let Some(v) = x.as_primitive_array() {
            macro_rules! o {
                ($($p:ident $f:ident),*) => {$( if v.$f().is_some() { offered.push(PType::$p); } )*};
            }
            o!(U8 u8_accessor, U16 u16_accessor, U32 u32_accessor, U64 u64_accessor, I8 i8_accessor, I16 i16_accessor,
               I32 i32_accessor, I64 i64_accessor, F16 f16_accessor, F32 f32_accessor, F64 f64_accessor);
        }
    });
    ensure(offered.iter().all(|o| *o == p), "accessor-type", || format!("{offered:?} of {p}"))?;
    macro_rules! go {
        ($t:ty, $acc:ident, $wrap:expr) => {{
            if let Some(acc) = a.with_dyn(|x| x.as_primitive_array().and_then(|v| v.$acc())) {
                ctx.key(format!("accessor:{}/{p}", enc_id(&a)));
                judge_accessor(r, &acc, &vals, $wrap)?;
            }
            let got = flattened::<$t>(&a, $wrap);
            diff("flat-iter", &got, &vals)?;
            if let Ok(pa) = PrimitiveArray::try_from(a.clone()) {
                let got: Vec<V> = ArrayAccessor::<$t>::with_iterator(&pa, |it| {
                    it.map(|o| o.map_or(V::Null, |x| $wrap(*x))).collect()
                })
                .map_err(|e| err("slice-iter", &e))?;
                diff("slice-iter", &got, &vals)?;
            }
        }};
    }
    let int = |i: i128| V::Int(i);
    match p {
        PType::U8 => go!(u8, u8_accessor, |x: u8| int(x as i128)),
        PType::U16 => go!(u16, u16_accessor, |x: u16| int(x as i128)),
        PType::U32 => go!(u32, u32_accessor, |x: u32| int(x as i128)),
        PType::U64 => go!(u64, u64_accessor, |x: u64| int(x as i128)),
        PType::I8 => go!(i8, i8_accessor, |x: i8| int(x as i128)),
        PType::I16 => go!(i16, i16_accessor, |x: i16| int(x as i128)),
        PType::I32 => go!(i32, i32_accessor, |x: i32| int(x as i128)),
        PType::I64 => go!(i64, i64_accessor, |x: i64| int(x as i128)),
        PType::F16 => go!(f16, f16_accessor, |x: f16| V::F16(x.to_bits())),
        PType::F32 => go!(f32, f32_accessor, |x: f32| V::F32(x.to_bits())),
        PType::F64 => go!(f64, f64_accessor, |x: f64| V::F64(x.to_bits())),
    }
    Ok(())
}

// ------------------------------------------------------------------ validity

fn lv_vec(l: &LogicalValidity, n: usize) -> Result<Vec<bool>, Fail> {
    ensure(l.len() == n && l.is_empty() == (n == 0), "lv-len", || format!("{} of {n}", l.len()))?;
    let nb = l.to_null_buffer().map_err(|e| err("null-buffer", &e))?;
    let got = match nb {
        None => vec![true; n],
        Some(b) => b.iter().collect(),
    };
    // the same through the array and the validity
    let arr = decode(&l.clone().into_array()).map_err(|e| Fail::new("lv-array", e))?;
    let w: Vec<V> = got.iter().map(|b| V::Bool(*b)).collect();
    diff("lv-array", &arr, &w)?;
    let v = l.clone().into_validity();
    for i in 0..n.min(40) {
        ensure(v.is_valid(i) == got[i], "lv-validity", || format!("{i}"))?;
    }
    Ok(got)
}

fn judge_validity(what: &str, v: &Validity, want: &[bool]) -> Res {
    let n = want.len();
    for i in 0..n.min(48) {
        ensure(v.is_valid(i) == want[i] && v.is_null(i) != want[i], what, || format!("position {i} of {n}: {}", v.is_valid(i)))?;
    }
    let got = lv_vec(&v.to_logical(n), n).map_err(|e| e.at(what))?;
    ensure(got == want, what, || format!("{got:?} instead of {want:?}"))?;
    let l = v.to_logical(n);
    ensure(!l.all_valid() || want.iter().all(|b| *b), what, || "all_valid".into())?;
    ensure(!l.all_invalid() || want.iter().all(|b| !*b), what, || "all_invalid".into())
}

/// A validity of any kind, with what it says of each row.
fn gen_v(r: &mut R, ctx: &mut Ctx, n: usize) -> Result<(Validity, Vec<bool>), Fail> {
    Ok(match r.gen_range(0..8) {
        0 => (Validity::NonNullable, vec![true; n]),
        1 => (Validity::AllValid, vec![true; n]),
        2 => (Validity::AllInvalid, vec![false; n]),
        _ => {
            let dt = DType::Bool(Nullability::NonNullable);
            let vals = gen::gen_vals(r, &dt, n);
            let a = subject_of(r, ctx, &dt, &vals)?;
            ctx.step(format!("validity {} as {}", show(&vals), enc_tree(&a)));
            ctx.key(format!("validity:{}", enc_tree(&a)));
            (Validity::Array(a), vals.iter().map(|v| *v == V::Bool(true)).collect())
        }
    })
}

fn validities(r: &mut R, ctx: &mut Ctx) -> Res {
    let n = gen::gen_len(r, ctx.max_len);
    ctx.trivial = n == 0;
    let (a, av) = gen_v(r, ctx, n)?;
    let (b, bv) = if r.gen_bool(0.2) { (a.clone(), av.clone()) } else { gen_v(r, ctx, n)? };
    ctx.label(format!("validity {}", a.as_array().map(enc_id).unwrap_or_default()));
    judge_validity("validity", &a, &av)?;
    ctx.obs += n as u64;
    ensure(
        matches!(a, Validity::NonNullable) != (a.nullability() == Nullability::Nullable),
        "validity-nullability",
        || format!("{a:?}"),
    )?;
    // both at once
    let c = a.clone().and(b.clone()).map_err(|e| err("validity-and", &e))?;
    let want: Vec<bool> = av.iter().zip(&bv).map(|(x, y)| *x && *y).collect();
    judge_validity("validity-and", &c, &want)?;
    let nullable = matches!(c.nullability(), Nullability::Nullable);
    let either = [&a, &b].iter().any(|v| matches!(v.nullability(), Nullability::Nullable));
    ensure(nullable == either, "validity-and-nullability", || format!("{a:?} and {b:?} give {c:?}"))?;
    judge_validity("validity-nullable", &a.clone().into_nullable(), &av)?;
    // equal representations are equal exactly when they agree
    match (&a, &b) {
        (Validity::Array(_), Validity::Array(_)) => {
            ensure((a == b) == (av == bv), "validity-eq", || format!("{av:?} and {bv:?}: {}", a == b))?
        }
        _ => ensure(a != b || av == bv, "validity-eq", || format!("{a:?} {b:?}"))?,
    }
    // selections
    let s = crate::gen::pos(r, 0, n);
    let e = crate::gen::pos(r, s, n);
    judge_validity("validity-slice", &a.slice(s, e).map_err(|e| err("validity-slice", &e))?, &av[s..e])?;
    if n > 0 {
        let k = r.gen_range(0..2 * n.min(40));
        let idx: Vec<u32> = (0..k).map(|_| r.gen_range(0..n) as u32).collect();
        let want: Vec<bool> = idx.iter().map(|i| av[*i as usize]).collect();
        let t = a.take(&PrimitiveArray::from(idx).into_array()).map_err(|e| err("validity-take", &e))?;
        judge_validity("validity-take", &t, &want)?;
    }
    let mask: Vec<bool> = (0..n).map(|_| r.gen()).collect();
    let want: Vec<bool> = av.iter().zip(&mask).filter(|(_, m)| **m).map(|(v, _)| *v).collect();
    let f = a.filter(&gen::bool_nonnull(r, &mask)).map_err(|e| err("validity-filter", &e))?;
    judge_validity("validity-filter", &f, &want)?;
    // built from plain values
    judge_validity("validity-from", &Validity::from(av.clone()), &av)?;
    judge_validity("validity-from", &Validity::from(gen::boolean_buffer(r, &av)), &av)?;
    let opts: Vec<Option<u8>> = av.iter().map(|b| b.then_some(1)).collect();
    judge_validity("validity-from", &opts.iter().collect::<Validity>(), &av)?;
    // several put together
    let mut want = vec![];
    let mut parts = vec![];
    for _ in 0..r.gen_range(0..4) {
        let m = gen::gen_len(r, 200);
        let (v, vv) = gen_v(r, ctx, m)?;
        parts.push(v.to_logical(m));
        want.extend(vv);
    }
    judge_validity("validity-concat", &parts.into_iter().collect::<Validity>(), &want)?;
    // from an array of flags
    if let Validity::Array(x) = &a {
        let l = LogicalValidity::try_from(x.clone()).map_err(|e| err("lv-from-array", &e))?;
        let got = lv_vec(&l, n)?;
        ensure(got == av, "lv-from-array", || format!("{got:?} instead of {av:?}"))?;
    }
    Ok(())
}
