//! C01-C08: properties of arrays in memory.
use std::cmp::Ordering;

use rand::seq::SliceRandom;
use rand::Rng;
use vortex::array::{ConstantArray, PrimitiveArray};
use vortex::compute::unary::{fill_forward, subtract_scalar, try_cast};
use vortex::compute::{
    and, compare, filter, or, search_sorted, search_sorted_many, search_sorted_u64,
    search_sorted_u64_many, slice, take, Operator, SearchResult, SearchSortedSide,
};
use vortex::validity::Validity;
use vortex::{Array, ArrayDType, IntoArray};
use vortex_dtype::{DType, Nullability, PType};

use crate::gen::{self, TyOpts, R};
use crate::model::*;
use crate::observe::*;
use crate::phys::{self, enc_id, enc_tree};
use crate::run::{Ctx, Fail};

pub type Res = Result<(), Fail>;

pub fn describe(ctx: &mut Ctx, what: &str, dt: &DType, vals: &[V], a: &Array) {
    ctx.step(format!("{what}: {dt} {} as {}", show(vals), enc_tree(a)));
    ctx.key(format!("enc:{}", enc_id(a)));
    ctx.key(format!("enc-dtype:{}/{}", enc_id(a), dtclass(dt)));
    for s in a.children() {
        ctx.key(format!("nest:{}>{}", enc_id(a), enc_id(&s)));
    }
}

/// A random array in a random physical form with its values.
pub fn subject_of(r: &mut R, ctx: &mut Ctx, dt: &DType, vals: &[V]) -> Result<Array, Fail> {
    let a = gen::build(r, dt, vals);
    let deep = *[0usize, 1, 1, 2, 2, 3].choose(r).unwrap();
    ctx.label("build-form");
    let x = match phys::encode_any(r, dt, vals, a.clone(), deep) {
        Ok(x) => x,
        Err(_) => {
            ctx.refused += 1;
            a
        }
    };
    Ok(x)
}

pub fn subject(r: &mut R, ctx: &mut Ctx, o: TyOpts) -> Result<(DType, Vec<V>, Array), Fail> {
    let dt = gen::gen_dtype(r, o, 0);
    let n = gen::gen_len(r, ctx.max_len);
    let vals = gen::gen_vals(r, &dt, n);
    let a = subject_of(r, ctx, &dt, &vals)?;
    describe(ctx, "array", &dt, &vals, &a);
    ctx.trivial = n == 0;
    ctx.label(format!("{}/{}", enc_id(&a), dtclass(&dt)));
    Ok((dt, vals, a))
}

// ---------------------------------------------------------------- C01
pub fn c01(r: &mut R, ctx: &mut Ctx) -> Res {
    let dt = gen::gen_dtype(r, TyOpts::ALL, 0);
    let n = gen::gen_len(r, ctx.max_len);
    let vals = gen::gen_vals(r, &dt, n);
    let a = if r.gen_bool(0.6) {
        gen::build(r, &dt, &vals)
    } else {
        subject_of(r, ctx, &dt, &vals)?
    };
    describe(ctx, "input", &dt, &vals, &a);
    ctx.trivial = n == 0;
    let comp = phys::random_compressor(r);
    ctx.label(format!("compress {}/{}", enc_id(&a), dtclass(&dt)));
    let c = comp
        .compress(&a, None)
        .map_err(|e| Fail::new(format!("error {}", gist(&errs(&e))), errs(&e)))?;
    let (out, tree) = c.into_parts();
    ctx.step(format!("compressed to {}", enc_tree(&out)));
    ctx.key(format!("out:{}", enc_tree(&out)));
    ctx.label(format!("compress {}/{} to {}", enc_id(&a), dtclass(&dt), enc_id(&out)));
    check_all(r, &out, &dt, &vals)?;
    ctx.obs += n as u64;
    if let Some(tree) = tree {
        if r.gen_bool(0.5) {
            // compress another array like the first
            let n2 = if r.gen_bool(0.5) { n } else { gen::gen_len(r, ctx.max_len) };
            let vals2 = match r.gen_range(0..3) {
                0 => vals.clone(),
                1 => {
                    let mut v = vals.clone();
                    v.shuffle(r);
                    v
                }
                _ => gen::gen_vals(r, &dt, n2),
            };
            let b = gen::build(r, &dt, &vals2);
            ctx.step(format!("like-compress: {}", show(&vals2)));
            ctx.label(format!("like-compress {} like {}", dtclass(&dt), enc_id(&out)));
            let c2 = comp
                .compress(&b, Some(&tree))
                .map_err(|e| Fail::new(format!("error {}", gist(&errs(&e))), errs(&e)))?;
            let o2 = c2.into_array();
            ctx.step(format!("compressed to {}", enc_tree(&o2)));
            ctx.key(format!("like:{}>{}", enc_id(&out), enc_id(&o2)));
            check_all(r, &o2, &dt, &vals2)?;
            ctx.obs += vals2.len() as u64;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C02
pub fn c02(r: &mut R, ctx: &mut Ctx) -> Res {
    let e = *phys::ENCODERS.choose(r).unwrap();
    let mut tries = 0;
    let dt = loop {
        let dt = gen::gen_dtype(r, TyOpts::ALL, 0);
        if phys::applicable(e, &dt) {
            break dt;
        }
        tries += 1;
        if tries > 2000 {
            return Err(Fail::new("gen", e));
        }
    };
    let n = gen::gen_len(r, ctx.max_len);
    let mut vals = gen::gen_vals(r, &dt, n);
    match e {
        "bitpacked" => {
            for v in vals.iter_mut() {
                if let V::Int(i) = v {
                    if *i < 0 {
                        *i = -(*i + 1);
                    }
                }
            }
        }
        "constant" if n > 0 => vals = vec![vals[0].clone(); n],
        "roaring_int" => {
            vals.retain(|v| matches!(v, V::Int(i) if *i <= u32::MAX as i128));
            vals.sort_by(vcmp);
            vals.dedup();
        }
        _ => {}
    }
    if crate::known::avoid_encoding(e, &dt, &vals) {
        ctx.trivial = true;
        return Ok(());
    }
    let n = vals.len();
    let a = gen::build(r, &dt, &vals);
    ctx.step(format!("encode {e}: {dt} {} from {}", show(&vals), enc_tree(&a)));
    ctx.label(format!("encode {e}/{}", dtclass(&dt)));
    ctx.trivial = n == 0;
    let deep = r.gen_range(0..3);
    let x = match phys::encode(r, e, &dt, &vals, &a, deep) {
        Ok(Some(x)) => x,
        Ok(None) => {
            ctx.trivial = true;
            ctx.key(format!("not-applicable:{e}"));
            return Ok(());
        }
        Err(err) => {
            ctx.refused += 1;
            ctx.key(format!("refused:{e}/{} {}", dtclass(&dt), gist(&errs(&err))));
            // an encoder may refuse; slicing, decoding or rebuilding encoded data may not fail
            if errs(&err).contains("NOT-ENCODER") {
                return Err(Fail::new(format!("refused {}", gist(&errs(&err))), errs(&err)));
            }
            return Ok(());
        }
    };
    describe(ctx, e, &dt, &vals, &x);
    ctx.key(format!("tree:{}", enc_tree(&x)));
    ctx.label(format!("decode {e}/{} {}", dtclass(&dt), enc_id(&x)));
    ctx.obs += n as u64;
    check_all(r, &x, &dt, &vals)
}

// ---------------------------------------------------------------- selections (C03)
fn idx_array(r: &mut R, idx: &[usize]) -> Array {
    let max = idx.iter().copied().max().unwrap_or(0) as i128;
    let mut kinds: Vec<PType> = gen::INTS.iter().copied().filter(|p| int_range(*p).1 >= max).collect();
    kinds.shuffle(r);
    let v: Vec<V> = idx.iter().map(|i| V::Int(*i as i128)).collect();
    let a = gen::build_prim(kinds[0], &v, &v, Validity::NonNullable).into_array();
    if r.gen_bool(0.75) {
        return a;
    }
    let dt = a.dtype().clone();
    phys::encode_any(r, &dt, &v, a.clone(), 2).unwrap_or(a)
}

pub fn gen_indices(r: &mut R, n: usize) -> Vec<usize> {
    if n == 0 {
        return vec![];
    }
    let k = match r.gen_range(0..8) {
        0 => 0,
        1 => 1,
        2 => n,
        3 => r.gen_range(1..=2 * n),
        _ => r.gen_range(1..=n.min(60)),
    };
    let mut v: Vec<usize> = match r.gen_range(0..5) {
        0 => (0..k).map(|_| r.gen_range(0..n)).collect(),
        1 => {
            let mut v: Vec<usize> = (0..k).map(|_| r.gen_range(0..n)).collect();
            v.sort_unstable();
            v
        }
        2 => {
            // strictly increasing
            let mut v: Vec<usize> = (0..k).map(|_| r.gen_range(0..n)).collect();
            v.sort_unstable();
            v.dedup();
            v
        }
        3 => {
            let s = r.gen_range(0..n);
            (s..(s + k).min(n)).collect()
        }
        _ => {
            let c = r.gen_range(0..n);
            vec![c; k]
        }
    };
    if r.gen_bool(0.1) {
        v.reverse();
    }
    v
}

pub fn gen_mask(r: &mut R, n: usize) -> Vec<bool> {
    match r.gen_range(0..9) {
        0 => vec![true; n],
        1 => vec![false; n],
        2 => (0..n).map(|i| i % 2 == 0).collect(),
        3 => {
            let c = gen::pos(r, 0, n);
            let h = r.gen_bool(0.5);
            (0..n).map(|i| (i < c) == h).collect()
        }
        4 => {
            let one = if n > 0 { r.gen_range(0..n) } else { 0 };
            (0..n).map(|i| i == one).collect()
        }
        5 => {
            let mut v = vec![];
            let mut b = r.gen_bool(0.5);
            while v.len() < n {
                let k = r.gen_range(1..100).min(n - v.len());
                v.extend(std::iter::repeat(b).take(k));
                b = !b;
            }
            v
        }
        _ => {
            let p = *[0.01, 0.1, 0.5, 0.85, 0.99].choose(r).unwrap();
            (0..n).map(|_| r.gen_bool(p)).collect()
        }
    }
}

pub fn mask_array(r: &mut R, m: &[bool]) -> Array {
    gen::bool_nonnull(r, m)
}

/// One random selection step; None when this encoding refuses in a way it may.
pub fn select_step(r: &mut R, ctx: &mut Ctx, dt: &DType, vals: &[V], a: &Array) -> Result<Option<(Vec<V>, Array)>, Fail> {
    let n = vals.len();
    let id = enc_id(a);
    let op = *["slice", "take", "filter"].choose(r).unwrap();
    ctx.label(format!("{op} {id}/{}", dtclass(dt)));
    ctx.key(format!("op:{op}/{id}/{}", dtclass(dt)));
    let (nv, res): (Vec<V>, _) = match op {
        "slice" => {
            let (s, t) = match r.gen_range(0..6) {
                0 => (0, n),
                1 => {
                    let s = gen::pos(r, 0, n);
                    (s, s)
                }
                2 => (gen::pos(r, 0, n), n),
                3 => (0, gen::pos(r, 0, n)),
                _ => {
                    let s = gen::pos(r, 0, n);
                    (s, gen::pos(r, s, n))
                }
            };
            ctx.step(format!("slice {s}..{t}"));
            if crate::known::avoid_slice(a, dt, s, t) {
                return Ok(None);
            }
            (vals[s..t].to_vec(), slice(a, s, t))
        }
        "take" => {
            let idx = gen_indices(r, n);
            let ia = idx_array(r, &idx);
            ctx.step(format!(
                "take {:?}{} ({} {})",
                &idx[..idx.len().min(40)],
                if idx.len() > 40 { ".." } else { "" },
                ia.dtype(),
                enc_tree(&ia)
            ));
            if enc_id(&ia) != "primitive" {
                ctx.label(format!("take {id}/{} at {}", dtclass(dt), enc_id(&ia)));
                ctx.key(format!("indices:{}", enc_id(&ia)));
            }
            if crate::known::avoid_take(a, dt, &idx, &ia) {
                return Ok(None);
            }
            (idx.iter().map(|&i| vals[i].clone()).collect(), take(a, &ia))
        }
        _ => {
            let m = gen_mask(r, n);
            let mut ma = mask_array(r, &m);
            if r.gen_bool(0.15) {
                let mv: Vec<V> = m.iter().map(|b| V::Bool(*b)).collect();
                let mdt = DType::Bool(Nullability::NonNullable);
                ma = phys::encode_any(r, &mdt, &mv, ma.clone(), 2).unwrap_or(ma);
            }
            ctx.step(format!(
                "filter {} of {} by {}",
                m.iter().filter(|b| **b).count(),
                n,
                enc_tree(&ma)
            ));
            ctx.key(format!("mask:{}", enc_id(&ma)));
            if crate::known::avoid_filter(a, dt, &m, &ma) {
                return Ok(None);
            }
            ctx.label(format!("filter {id}/{} by {}", dtclass(dt), enc_id(&ma)));
            (
                vals.iter().zip(&m).filter(|(_, b)| **b).map(|(v, _)| v.clone()).collect(),
                filter(a, &ma),
            )
        }
    };
    match res {
        Ok(x) => Ok(Some((nv, x))),
        Err(e) => {
            let e = errs(&e);
            if crate::known::select_refusal_ok(op, a, dt, &e) {
                ctx.refused += 1;
                return Ok(None);
            }
            Err(Fail::new(format!("error {}", gist(&e)), e))
        }
    }
}

pub fn c03(r: &mut R, ctx: &mut Ctx) -> Res {
    let (dt, mut vals, mut a) = subject(r, ctx, TyOpts::ALL)?;
    let k = r.gen_range(1..5);
    for _ in 0..k {
        let Some((nv, x)) = select_step(r, ctx, &dt, &vals, &a)? else { continue };
        let l = ctx.label.clone();
        ctx.step(format!("-> {} rows as {}", nv.len(), enc_tree(&x)));
        ctx.label(format!("{l} result {}", enc_id(&x)));
        check_decode(&x, &dt, &nv)?;
        let idx = probe_idx(r, nv.len(), 12);
        check_scalar_at(&x, &dt, &nv, &idx)?;
        check_validity(&x, &nv, &idx)?;
        ctx.obs += nv.len() as u64;
        vals = nv;
        a = x;
    }
    ctx.label(format!("slice-oob {}", enc_id(&a)));
    let n = a.len();
    for (s, t) in [(n, n + 1), (n + 1, n + 2), (0, n + 1), (1, 0)] {
        if slice(&a, s, t).is_ok() {
            return Err(Fail::new("accepted", format!("slice({s},{t}) of length {n} succeeded")));
        }
    }
    if r.gen_bool(0.15) {
        select_refuse(r, ctx, &a)?;
    }
    if r.gen_bool(0.05) {
        take_beyond(r, ctx, &a)?;
    }
    Ok(())
}

/// Masks and indices that do not fit the array select nothing.
fn select_refuse(r: &mut R, ctx: &mut Ctx, a: &Array) -> Res {
    let n = a.len();
    let id = enc_id(a);
    ctx.obs += 1;
    let (what, res) = match r.gen_range(0..5) {
        0 => {
            let m = if n > 0 && r.gen() { r.gen_range(0..n) } else { n + r.gen_range(1..100) };
            let m = mask_array(r, &vec![true; m]);
            ("mask of another length", filter(a, &m))
        }
        1 => {
            let v = gen::gen_vals(r, &DType::Bool(Nullability::Nullable), n);
            let m = gen::build(r, &DType::Bool(Nullability::Nullable), &v);
            ("mask with nulls", filter(a, &m))
        }
        2 => ("mask of numbers", filter(a, PrimitiveArray::from(vec![1u8; n]).into_array())),
        3 => {
            let k = r.gen_range(0..4);
            ("indices with nulls", take(a, PrimitiveArray::from_vec(vec![0u32; k], Validity::AllValid).into_array()))
        }
        _ => ("indices of floats", take(a, PrimitiveArray::from(vec![0f32; r.gen_range(0..4)]).into_array())),
    };
    ctx.key(format!("refuse:{what}/{id}"));
    ctx.step(what);
    match res {
        Ok(x) => Err(Fail::new(format!("accepted {what}"), format!("{what} gave {} rows", x.len()))),
        Err(_) => Ok(()),
    }
}

/// Asking for a row past the end is refused, or answered somehow, but comes to an end.
fn take_beyond(r: &mut R, ctx: &mut Ctx, a: &Array) -> Res {
    let n = a.len();
    let mut idx = gen_indices(r, n);
    idx.truncate(50);
    if r.gen() {
        idx.sort_unstable();
        idx.dedup();
    }
    let at = if r.gen() { idx.len() } else { r.gen_range(0..=idx.len()) };
    idx.insert(at, n + *[0usize, 0, 1, 7, 1023, 5000].choose(r).unwrap());
    let ia = PrimitiveArray::from(idx.iter().map(|i| *i as u64).collect::<Vec<_>>()).into_array();
    ctx.label(format!("take-beyond {}", enc_id(a)));
    ctx.key(format!("beyond:{}", enc_id(a)));
    ctx.step(format!("take {idx:?} of {n}"));
    ctx.obs += 1;
    let rising = idx.windows(2).all(|w| w[0] < w[1]);
    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| take(a, &ia).ok().and_then(|x| decode(&x).ok())));
    match got {
        Ok(Some(v)) if rising && enc_id(a) == "chunked" => Err(Fail::new("took a row that is not there", show(&v))),
        _ => Ok(()),
    }
}

// ---------------------------------------------------------------- C04
pub fn c04(r: &mut R, ctx: &mut Ctx) -> Res {
    let (dt, mut vals, mut a) = subject(r, ctx, TyOpts::ALL)?;
    for _ in 0..r.gen_range(0..3) {
        if let Some((nv, x)) = select_step(r, ctx, &dt, &vals, &a)? {
            vals = nv;
            a = x;
        }
    }
    ctx.label(format!("read {}/{}", enc_id(&a), dtclass(&dt)));
    ctx.obs += 3 * vals.len() as u64;
    check_all(r, &a, &dt, &vals)?;
    let all: Vec<usize> = probe_idx(r, vals.len(), 300);
    check_scalar_at(&a, &dt, &vals, &all)?;
    check_oob(&a)?;
    // reading twice gives the same
    check_decode(&a, &dt, &vals)?;
    // the children an array exposes are readable arrays of their declared length and type
    for c in a.children() {
        let v = decode(&c).map_err(|e| Fail::new(format!("child {} {}", enc_id(&c), gist(&e)), e))?;
        if v.len() != c.len() {
            return Err(Fail::new("child-len", format!("child {} decodes to {} of {}", enc_id(&c), v.len(), c.len())));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C05
pub const OPS: [Operator; 6] = [
    Operator::Eq,
    Operator::NotEq,
    Operator::Gt,
    Operator::Gte,
    Operator::Lt,
    Operator::Lte,
];

pub fn op_holds(op: Operator, o: Ordering) -> bool {
    match op {
        Operator::Eq => o.is_eq(),
        Operator::NotEq => o.is_ne(),
        Operator::Gt => o.is_gt(),
        Operator::Gte => o.is_ge(),
        Operator::Lt => o.is_lt(),
        Operator::Lte => o.is_le(),
    }
}

pub fn model_cmp(op: Operator, a: &V, b: &V) -> V {
    if a.is_null() || b.is_null() {
        V::Null
    } else {
        V::Bool(op_holds(op, vcmp(a, b)))
    }
}

pub fn bool_op(is_and: bool, a: &V, b: &V) -> V {
    let f = |v: &V| match v {
        V::Bool(b) => Some(*b),
        _ => None,
    };
    let r = f(a).zip(f(b)).map(|(x, y)| if is_and { x && y } else { x || y });
    r.map_or(V::Null, V::Bool)
}

pub fn check_bool_result(r: &mut R, x: &Array, want: &[V]) -> Res {
    if !x.dtype().is_boolean() {
        return Err(Fail::new("dtype", format!("result type {}", x.dtype())));
    }
    if x.len() != want.len() {
        return Err(Fail::new("len", format!("result length {} expected {}", x.len(), want.len())));
    }
    let dt = x.dtype().clone();
    let got = decode(x).map_err(|e| Fail::new(format!("decode:{}", gist(&e)), e))?;
    diff("result", &got, want)?;
    let idx = probe_idx(r, want.len(), 10);
    check_scalar_at(x, &dt, want, &idx)?;
    check_validity(x, want, &idx)
}

/// Sides that do not fit together have no result.
fn c05_refuse(r: &mut R, ctx: &mut Ctx) -> Res {
    let bools = r.gen_bool(0.3);
    let dt = if bools { DType::Bool(gen::nullability(r)) } else { gen::gen_dtype(r, TyOpts::FLAT, 0) };
    let n = gen::gen_len(r, 300);
    let differ_len = r.gen_bool(0.5);
    let dt2 = if differ_len {
        dt.with_nullability(gen::nullability(r))
    } else {
        let mut d = gen::gen_dtype(r, TyOpts::FLAT, 0);
        while d.eq_ignore_nullability(&dt) {
            d = gen::gen_dtype(r, TyOpts::FLAT, 0);
        }
        d
    };
    let m = match differ_len {
        true if r.gen_bool(0.5) => n + 1,
        true if n > 0 && r.gen_bool(0.7) => r.gen_range(0..n),
        true => n + 1 + r.gen_range(0..100),
        false => n,
    };
    let side = |r: &mut R, ctx: &mut Ctx, dt: &DType, n: usize| -> Result<Array, Fail> {
        let v = gen::gen_vals(r, dt, n);
        if r.gen_bool(0.3) {
            let v = gen::gen_vals(r, dt, 1);
            return Ok(ConstantArray::new(v_to_scalar(&v[0], dt), n).into_array());
        }
        subject_of(r, ctx, dt, &v)
    };
    let a = side(r, ctx, &dt, n)?;
    let b = side(r, ctx, &dt2, m)?;
    let (a, b) = if r.gen_bool(0.5) { (a, b) } else { (b, a) };
    let op = *OPS.choose(r).unwrap();
    ctx.step(format!("{} of {} with {} of {}", enc_tree(&a), a.len(), enc_tree(&b), b.len()));
    ctx.label(format!("refuse {}", if differ_len { "lengths" } else { "types" }));
    ctx.obs += 1;
    let how = if bools || r.gen_bool(0.1) { r.gen_range(0..3) } else { 0 };
    let res = match how {
        0 => compare(&a, &b, op),
        1 => and(&a, &b),
        _ => or(&a, &b),
    };
    ctx.key(format!("refuse:{how}/{differ_len}/{}/{}", enc_id(&a), enc_id(&b)));
    match res {
        Ok(x) => Err(Fail::new("accepted", format!("{} rows of {} with {} rows of {} gave {} rows", a.len(), a.dtype(), b.len(), b.dtype(), x.len()))),
        Err(_) => Ok(()),
    }
}

pub fn c05(r: &mut R, ctx: &mut Ctx) -> Res {
    if r.gen_bool(0.06) {
        return c05_refuse(r, ctx);
    }
    if r.gen_bool(0.25) {
        return c05_bool(r, ctx);
    }
    let ext = r.gen_bool(0.3);
    let (dt, vals, a) = subject(r, ctx, TyOpts { ext, ..TyOpts::FLAT })?;
    let n = vals.len();
    let dt2 = if r.gen_bool(0.5) { dt.clone() } else { dt.with_nullability(gen::nullability(r)) };
    let fix = |v: V| if v.is_null() && !dt2.is_nullable() { phys::default_nn(&dt2) } else { v };
    // right side: a constant or an array; values near the left ones
    let (vals2, b, kind) = match r.gen_range(0..3) {
        0 | 1 => {
            let c = match r.gen_range(0..8) {
                0 if dt2.is_nullable() => V::Null,
                1..=4 if n > 0 => fix(vals[r.gen_range(0..n)].clone()),
                _ => gen::gen_vals(r, &nonnull(&dt2), 3)[r.gen_range(0..3)].clone(),
            };
            let s = v_to_scalar(&c, &dt2);
            (vec![c; n], ConstantArray::new(s, n).into_array(), "const")
        }
        _ => {
            let fresh = gen::gen_vals(r, &dt2, n);
            let v2: Vec<V> = (0..n)
                .map(|i| {
                    if r.gen_bool(0.6) {
                        fix(vals[if r.gen_bool(0.5) { i } else { r.gen_range(0..n) }].clone())
                    } else {
                        fresh[i].clone()
                    }
                })
                .collect();
            let b = subject_of(r, ctx, &dt2, &v2)?;
            (v2, b, "array")
        }
    };
    describe(ctx, "right", &dt2, &vals2, &b);
    let op = *OPS.choose(r).unwrap();
    let swap = r.gen_bool(0.3);
    let (l, rr, lv, rv) = if swap { (&b, &a, &vals2, &vals) } else { (&a, &b, &vals, &vals2) };
    ctx.step(format!("compare {op} swap={swap}"));
    ctx.key(format!("cmp:{}/{op}/{kind}", enc_id(&a)));
    ctx.label(format!("compare {} {op} {} /{}", enc_id(l), enc_id(rr), dtclass(&nonnull(&dt))));
    if crate::known::avoid_compare(l, rr, op, lv, rv) {
        return Ok(());
    }
    let res = match compare(l, rr, op) {
        Ok(x) => x,
        Err(e) => {
            let e = errs(&e);
            if crate::known::compare_refusal_ok(&dt, &e) {
                ctx.refused += 1;
                return Ok(());
            }
            return Err(Fail::new(format!("error {}", gist(&e)), e));
        }
    };
    let want: Vec<V> = lv.iter().zip(rv.iter()).map(|(x, y)| model_cmp(op, x, y)).collect();
    ctx.obs += n as u64;
    check_bool_result(r, &res, &want)
}

fn c05_bool(r: &mut R, ctx: &mut Ctx) -> Res {
    let n = gen::gen_len(r, ctx.max_len);
    let side = |r: &mut R, ctx: &mut Ctx| -> Result<(DType, Vec<V>, Array), Fail> {
        let dt = DType::Bool(gen::nullability(r));
        let mut v = gen::gen_vals(r, &dt, n);
        if r.gen_bool(0.15) && n > 0 {
            v = vec![v[0].clone(); n];
            let c = ConstantArray::new(v_to_scalar(&v[0], &dt), n).into_array();
            return Ok((dt, v, c));
        }
        let a = subject_of(r, ctx, &dt, &v)?;
        Ok((dt, v, a))
    };
    let (d1, v1, a1) = side(r, ctx)?;
    let (d2, v2, a2) = side(r, ctx)?;
    describe(ctx, "left", &d1, &v1, &a1);
    describe(ctx, "right", &d2, &v2, &a2);
    ctx.trivial = n == 0;
    let is_and = r.gen_bool(0.5);
    let nm = if is_and { "and" } else { "or" };
    ctx.step(nm);
    ctx.label(format!("{nm} {} {}", enc_id(&a1), enc_id(&a2)));
    ctx.key(format!("bool:{nm}/{}/{}", enc_id(&a1), enc_id(&a2)));
    let res = if is_and { and(&a1, &a2) } else { or(&a1, &a2) }
        .map_err(|e| Fail::new(format!("error {}", gist(&errs(&e))), errs(&e)))?;
    let want: Vec<V> = v1.iter().zip(&v2).map(|(x, y)| bool_op(is_and, x, y)).collect();
    ctx.obs += n as u64;
    check_bool_result(r, &res, &want)
}

// ---------------------------------------------------------------- C06
/// Sorted values, nulls last.
pub fn sort_vals(v: &mut [V]) {
    v.sort_by(|a, b| match (a.is_null(), b.is_null()) {
        (true, true) => Ordering::Equal,
        (true, false) => Ordering::Greater,
        (false, true) => Ordering::Less,
        _ => vcmp(a, b),
    });
}

pub fn c06(r: &mut R, ctx: &mut Ctx) -> Res {
    let dt = loop {
        let d = gen::gen_dtype(r, TyOpts { ext: false, f16: false, ..TyOpts::FLAT }, 0);
        if matches!(d, DType::Primitive(..)) || r.gen_bool(0.3) {
            break d;
        }
    };
    let n = gen::gen_len(r, ctx.max_len);
    let mut vals = gen::gen_vals(r, &dt, n);
    sort_vals(&mut vals);
    let a = subject_of(r, ctx, &dt, &vals)?;
    describe(ctx, "sorted", &dt, &vals, &a);
    ctx.trivial = n == 0;
    let (mut a, mut vals) = (a, vals);
    if r.gen_bool(0.4) {
        let s = gen::pos(r, 0, n);
        let t = gen::pos(r, s, n);
        ctx.label(format!("slice {}", enc_id(&a)));
        ctx.step(format!("slice {s}..{t}"));
        if !crate::known::avoid_slice(&a, &dt, s, t) {
            a = slice(&a, s, t).map_err(|e| Fail::new("slice", errs(&e)))?;
            vals = vals[s..t].to_vec();
        }
    }
    let n = vals.len();
    let nn: Vec<&V> = vals.iter().filter(|v| !v.is_null()).collect();
    ctx.key(format!("search:{}/{}", enc_id(&a), dtclass(&dt)));
    let expect = |x: &V, left: bool| -> SearchResult {
        let lo = nn.partition_point(|v| vcmp(v, x) == Ordering::Less);
        let hi = nn.partition_point(|v| vcmp(v, x) != Ordering::Greater);
        if lo == hi {
            SearchResult::NotFound(lo)
        } else if left {
            SearchResult::Found(lo)
        } else {
            SearchResult::Found(hi)
        }
    };
    let mut probes: Vec<V> = vec![];
    for _ in 0..8 {
        probes.push(match r.gen_range(0..4) {
            0 | 1 if !nn.is_empty() => nn[r.gen_range(0..nn.len())].clone(),
            2 if !nn.is_empty() => match nn[r.gen_range(0..nn.len())].clone() {
                V::Int(i) => {
                    let DType::Primitive(p, _) = dt else { unreachable!() };
                    let (lo, hi) = int_range(p);
                    V::Int((i + r.gen_range(-2i128..=2)).clamp(lo, hi))
                }
                v => v,
            },
            _ => gen::gen_flat(r, &nonnull(&dt), 2)[0].clone(),
        });
    }
    if let DType::Primitive(p, _) = dt {
        if p.is_int() {
            probes.push(V::Int(int_range(p).0));
            probes.push(V::Int(int_range(p).1));
        }
    }
    let mut many = vec![];
    let mut sides = vec![];
    let mut wants = vec![];
    for x in probes {
        let left = r.gen_bool(0.5);
        let side = if left { SearchSortedSide::Left } else { SearchSortedSide::Right };
        if crate::known::avoid_search(&a, &dt, &vals, &x) {
            continue;
        }
        let want = expect(&x, left);
        ctx.label(format!("search {}/{} {side}", enc_id(&a), dtclass(&dt)));
        let s = v_to_scalar(&x, &dt);
        let got = match search_sorted(&a, s.clone(), side) {
            Ok(g) => g,
            Err(e) => {
                let e = errs(&e);
                if crate::known::search_refusal_ok(&a, &dt, &e) {
                    ctx.refused += 1;
                    return Ok(());
                }
                return Err(Fail::new(format!("error {}", gist(&e)), e));
            }
        };
        ctx.obs += 1;
        if got != want {
            ctx.step(format!("search {x:?} {side}"));
            return Err(Fail::new(
                match (got, want) {
                    (SearchResult::Found(_), SearchResult::Found(_)) => "position",
                    (SearchResult::NotFound(_), SearchResult::NotFound(_)) => "insert-position",
                    (SearchResult::Found(_), _) => "found-absent",
                    _ => "missed",
                },
                format!("search {x:?} {side} in {n} values: {got}, expected {want}"),
            ));
        }
        many.push(s);
        sides.push(side);
        wants.push(want);
    }
    if many.is_empty() {
        return Ok(());
    }
    ctx.label(format!("search_many {}/{}", enc_id(&a), dtclass(&dt)));
    let got = search_sorted_many(&a, &many, &sides).map_err(|e| Fail::new(format!("error {}", gist(&errs(&e))), errs(&e)))?;
    if got != wants {
        return Err(Fail::new("bulk", format!("bulk {got:?} expected {wants:?}")));
    }
    if dt.is_int() && r.gen_bool(0.5) {
        // searching for plain indices, as offsets are searched
        let mut us = vec![];
        let mut ws = vec![];
        let mut ss = vec![];
        for _ in 0..6 {
            let u: u64 = match r.gen_range(0..3) {
                0 if !nn.is_empty() => match nn[r.gen_range(0..nn.len())] {
                    V::Int(i) if *i >= 0 => *i as u64,
                    _ => 3,
                },
                1 => r.gen(),
                _ => r.gen_range(0..300),
            };
            if crate::known::avoid_search_u64(&a, &dt, &vals, u) {
                continue;
            }
            let left = r.gen_bool(0.5);
            let side = if left { SearchSortedSide::Left } else { SearchSortedSide::Right };
            let DType::Primitive(p, _) = dt else { unreachable!() };
            // A target the type cannot hold is either refused, or past every value. (Where nulls
            // follow the values, it is not specified which side of them that is.)
            let fits = u as i128 <= int_range(p).1;
            if !fits && nn.len() != n {
                continue;
            }
            let want = expect(&V::Int(u as i128), left);
            ctx.label(format!("search_u64 {}/{}", enc_id(&a), dtclass(&dt)));
            let g = match search_sorted_u64(&a, u, side) {
                Ok(g) => g,
                Err(e) if !fits && errs(&e).contains("Can't cast") => {
                    ctx.refused += 1;
                    continue;
                }
                Err(e) => return Err(Fail::new(format!("error {}", gist(&errs(&e))), errs(&e))),
            };
            us.push(u);
            ss.push(side);
            ws.push(want);
            if g != *ws.last().unwrap() {
                return Err(Fail::new("position", format!("search_u64 {u} {side}: {g} expected {}", ws.last().unwrap())));
            }
            ctx.obs += 1;
        }
        ctx.label(format!("search_u64_many {}/{}", enc_id(&a), dtclass(&dt)));
        let g = search_sorted_u64_many(&a, &us, &ss).map_err(|e| Fail::new(format!("error {}", gist(&errs(&e))), errs(&e)))?;
        if g != ws {
            return Err(Fail::new("bulk", format!("bulk {us:?} {g:?} expected {ws:?}")));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07
/// Value of `v` in type `to`: Some(exact), or None when it does not fit / is not defined here.
pub fn cast_v(v: &V, from: PType, to: PType) -> Option<V> {
    use half::f16;
    if v.is_null() {
        return Some(V::Null);
    }
    if from == to {
        return Some(v.clone());
    }
    match (v, to) {
        (V::Int(i), p) if p.is_int() => {
            let (lo, hi) = int_range(p);
            (*i >= lo && *i <= hi).then(|| V::Int(*i))
        }
        (V::Int(i), PType::F64) => Some(V::F64((*i as f64).to_bits())),
        (V::Int(i), PType::F32) => Some(V::F32((*i as f32).to_bits())),
        (V::F32(b), PType::F64) => Some(V::F64((f32::from_bits(*b) as f64).to_bits())),
        (V::F16(b), PType::F32) => Some(V::F32(f16::from_bits(*b).to_f32().to_bits())),
        (V::F16(b), PType::F64) => Some(V::F64(f16::from_bits(*b).to_f64().to_bits())),
        _ => None,
    }
}

fn is_nan_v(v: &V) -> bool {
    match v {
        V::F16(b) => half::f16::from_bits(*b).is_nan(),
        V::F32(b) => f32::from_bits(*b).is_nan(),
        V::F64(b) => f64::from_bits(*b).is_nan(),
        _ => false,
    }
}

pub fn c07(r: &mut R, ctx: &mut Ctx) -> Res {
    match r.gen_range(0..10) {
        0..=3 => c07_cast(r, ctx),
        4..=5 => c07_fill(r, ctx),
        6..=8 => c07_sub(r, ctx),
        _ => c07_elementwise(r, ctx),
    }
}

fn prim_subject(r: &mut R, ctx: &mut Ctx, int_only: bool) -> Result<(PType, DType, Vec<V>, Array), Fail> {
    let p = if int_only || r.gen_bool(0.8) {
        *gen::INTS.choose(r).unwrap()
    } else {
        *[PType::F32, PType::F64].choose(r).unwrap()
    };
    let dt = DType::Primitive(p, gen::nullability(r));
    let n = gen::gen_len(r, ctx.max_len);
    let vals = gen::gen_vals(r, &dt, n);
    let a = subject_of(r, ctx, &dt, &vals)?;
    describe(ctx, "array", &dt, &vals, &a);
    ctx.trivial = n == 0;
    Ok((p, dt, vals, a))
}

fn c07_cast(r: &mut R, ctx: &mut Ctx) -> Res {
    let (p, dt, mut vals, mut a) = prim_subject(r, ctx, false)?;
    let to = if p.is_float() {
        *[PType::F32, PType::F64].choose(r).unwrap()
    } else {
        *[PType::U8, PType::U16, PType::U32, PType::U64, PType::I8, PType::I16, PType::I32, PType::I64, PType::F32, PType::F64]
            .choose(r)
            .unwrap()
    };
    if p.is_int() && to.is_int() && r.gen_bool(0.6) {
        // make it fit
        let (lo, hi) = int_range(to);
        let (lo2, hi2) = int_range(p);
        for v in vals.iter_mut() {
            if let V::Int(i) = v {
                *i = (*i).clamp(lo.max(lo2), hi.min(hi2));
            }
        }
        a = subject_of(r, ctx, &dt, &vals)?;
        describe(ctx, "fitted", &dt, &vals, &a);
    }
    let tn = gen::nullability(r);
    let tdt = DType::Primitive(to, tn);
    ctx.step(format!("cast to {tdt}"));
    ctx.key(format!("cast:{p}>{to}/{}", enc_id(&a)));
    ctx.label(format!("cast {} {}->{}", enc_id(&a), dtclass(&dt), dtclass(&tdt)));
    if crate::known::avoid_cast(&a, &dt, &tdt, &vals) {
        return Ok(());
    }
    let want: Vec<Option<V>> = vals.iter().map(|v| cast_v(v, p, to)).collect();
    let has_null = vals.iter().any(V::is_null);
    match try_cast(&a, &tdt) {
        Ok(x) => {
            if x.dtype() != &tdt {
                return Err(Fail::new("dtype", format!("cast result type {}, asked {tdt}", x.dtype())));
            }
            let got = decode(&x).map_err(|e| Fail::new(format!("decode:{}", gist(&e)), e))?;
            if got.len() != vals.len() {
                return Err(Fail::new("len", "cast changed the length"));
            }
            for i in 0..vals.len() {
                match &want[i] {
                    Some(w) => {
                        if got[i] != *w && !(is_nan_v(&got[i]) && is_nan_v(w)) {
                            return Err(Fail::new("value", format!("row {i}: {:?} cast to {tdt} gave {:?}, expected {w:?}", vals[i], got[i])));
                        }
                    }
                    None => {
                        // f64 -> f32 rounds; anything else has to be refused
                        if p == PType::F64 && to == PType::F32 {
                            let V::F64(b) = vals[i] else { unreachable!() };
                            let w = V::F32((f64::from_bits(b) as f32).to_bits());
                            if got[i] != w && !is_nan_v(&w) {
                                return Err(Fail::new("value", format!("row {i}: {:?} cast to f32 gave {:?}", vals[i], got[i])));
                            }
                        } else {
                            return Err(Fail::new("unfit-accepted", format!("row {i}: {:?} does not fit {tdt} but the cast gave {:?}", vals[i], got[i])));
                        }
                    }
                }
            }
            ctx.obs += vals.len() as u64;
        }
        Err(e) => {
            let fits = want.iter().all(|w| w.is_some()) && !(has_null && !tdt.is_nullable());
            if fits && !(p == PType::F64 && to == PType::F32) {
                let e = errs(&e);
                if crate::known::cast_refusal_ok(&a, &dt, &tdt, &e) {
                    ctx.refused += 1;
                    return Ok(());
                }
                return Err(Fail::new(format!("error {}", gist(&e)), e));
            }
        }
    }
    Ok(())
}

fn c07_fill(r: &mut R, ctx: &mut Ctx) -> Res {
    let dt = if r.gen_bool(0.2) {
        DType::Bool(gen::nullability(r))
    } else {
        DType::Primitive(
            *[PType::U8, PType::I16, PType::I32, PType::I64, PType::U64, PType::F32, PType::F64].choose(r).unwrap(),
            if r.gen_bool(0.8) { Nullability::Nullable } else { Nullability::NonNullable },
        )
    };
    let n = gen::gen_len(r, ctx.max_len);
    let vals = gen::gen_vals(r, &dt, n);
    let a = subject_of(r, ctx, &dt, &vals)?;
    describe(ctx, "array", &dt, &vals, &a);
    ctx.trivial = n == 0;
    ctx.label(format!("fill_forward {}/{}", enc_id(&a), dtclass(&dt)));
    ctx.key(format!("fill:{}/{}", enc_id(&a), dtclass(&dt)));
    let x = match fill_forward(&a) {
        Ok(x) => x,
        Err(e) => {
            let e = errs(&e);
            if crate::known::fill_refusal_ok(&a, &dt, &e) {
                ctx.refused += 1;
                return Ok(());
            }
            return Err(Fail::new(format!("error {}", gist(&e)), e));
        }
    };
    if !x.dtype().eq_ignore_nullability(&dt) {
        return Err(Fail::new("dtype", format!("{} from {dt}", x.dtype())));
    }
    let got = decode(&x).map_err(|e| Fail::new(format!("decode:{}", gist(&e)), e))?;
    if got.len() != n {
        return Err(Fail::new("len", format!("{} of {n}", got.len())));
    }
    // leading nulls have no preceding value: they stay null or become the type's default
    let mut last: Option<V> = None;
    for i in 0..n {
        if !vals[i].is_null() {
            last = Some(vals[i].clone());
        }
        match &last {
            Some(w) => {
                if got[i] != *w {
                    return Err(Fail::new("value", format!("row {i}: {:?} expected {w:?}", got[i])));
                }
            }
            None => {
                if !got[i].is_null() && got[i] != gen::default_v(&dt) {
                    return Err(Fail::new("leading", format!("leading null row {i} became {:?}", got[i])));
                }
            }
        }
    }
    ctx.obs += n as u64;
    Ok(())
}

fn c07_sub(r: &mut R, ctx: &mut Ctx) -> Res {
    let (p, dt, vals, a) = prim_subject(r, ctx, false)?;
    let n = vals.len();
    let nn: Vec<&V> = vals.iter().filter(|v| !v.is_null()).collect();
    // a subtrahend for which no row overflows
    let s: V = if p.is_int() {
        let mn = nn.iter().map(|v| if let V::Int(i) = v { *i } else { 0 }).min().unwrap_or(0);
        let mx = nn.iter().map(|v| if let V::Int(i) = v { *i } else { 0 }).max().unwrap_or(0);
        let (lo, hi) = int_range(p);
        // x - s in [lo,hi] for all x => s in [mx-hi, mn-lo]
        let a0 = (mx - hi).max(lo);
        let b0 = (mn - lo).min(hi);
        if a0 > b0 {
            return Ok(());
        }
        V::Int(match r.gen_range(0..4) {
            0 => a0,
            1 => b0,
            2 => 0i128.clamp(a0, b0),
            _ => a0 + (r.gen::<u64>() as i128) % (b0 - a0 + 1),
        })
    } else {
        gen::gen_flat(r, &nonnull(&dt), 3)[0].clone()
    };
    let sdt = if r.gen_bool(0.7) { nonnull(&dt) } else { dt.clone() };
    ctx.step(format!("subtract {s:?}"));
    ctx.key(format!("sub:{p}/{}", enc_id(&a)));
    ctx.label(format!("subtract {}/{}", enc_id(&a), dtclass(&dt)));
    if crate::known::avoid_sub(&a, &dt, &vals, &s) {
        return Ok(());
    }
    let x = match subtract_scalar(&a, &v_to_scalar(&s, &sdt)) {
        Ok(x) => x,
        Err(e) => {
            let e = errs(&e);
            if crate::known::sub_refusal_ok(&a, &dt, &e) {
                ctx.refused += 1;
                return Ok(());
            }
            return Err(Fail::new(format!("error {}", gist(&e)), e));
        }
    };
    if !x.dtype().eq_ignore_nullability(&dt) {
        return Err(Fail::new("dtype", format!("{} from {dt}", x.dtype())));
    }
    let got = decode(&x).map_err(|e| Fail::new(format!("decode:{}", gist(&e)), e))?;
    if got.len() != n {
        return Err(Fail::new("len", format!("{} of {n}", got.len())));
    }
    for i in 0..n {
        let w = match (&vals[i], &s) {
            (V::Null, _) => V::Null,
            (V::Int(x), V::Int(s)) => V::Int(x - s),
            (V::F32(x), V::F32(s)) => V::F32((f32::from_bits(*x) - f32::from_bits(*s)).to_bits()),
            (V::F64(x), V::F64(s)) => V::F64((f64::from_bits(*x) - f64::from_bits(*s)).to_bits()),
            _ => unreachable!(),
        };
        if got[i] != w && !(is_nan_v(&w) && is_nan_v(&got[i])) {
            return Err(Fail::new(
                if got[i].is_null() || w.is_null() { "null" } else { "value" },
                format!("row {i}: {:?} - {s:?} gave {:?}, expected {w:?}", vals[i], got[i]),
            ));
        }
    }
    ctx.obs += n as u64;
    Ok(())
}

fn c07_elementwise(r: &mut R, ctx: &mut Ctx) -> Res {
    use vortex::elementwise::{BinaryFn, UnaryFn};
    let mk = |r: &mut R, n: usize| {
        let dt = DType::Primitive(PType::I32, gen::nullability(r));
        let v = gen::gen_vals(r, &dt, n);
        let a = gen::build(r, &dt, &v);
        (dt, v, a)
    };
    let n = gen::gen_len(r, ctx.max_len);
    let (dt, v, a) = mk(r, n);
    describe(ctx, "elementwise", &dt, &v, &a);
    ctx.trivial = n == 0;
    let pa = PrimitiveArray::try_from(a.clone()).map_err(|e| Fail::new("prim", errs(&e)))?;
    let f = |x: i32| x.wrapping_mul(3) as i64 - 7;
    ctx.label("unary".to_string());
    let x = pa.unary(f).map_err(|e| Fail::new(format!("error {}", gist(&errs(&e))), errs(&e)))?;
    let got = decode(&x).map_err(|e| Fail::new(format!("decode:{}", gist(&e)), e))?;
    let want: Vec<V> = v
        .iter()
        .map(|x| match x {
            V::Int(i) => V::Int(f(*i as i32) as i128),
            _ => V::Null,
        })
        .collect();
    diff("unary", &got, &want)?;
    let (dt2, v2, _) = mk(r, n);
    let b = subject_of(r, ctx, &dt2, &v2)?;
    describe(ctx, "rhs", &dt2, &v2, &b);
    ctx.label(format!("binary prim {}", enc_id(&b)));
    ctx.key(format!("binary:{}", enc_id(&b)));
    let g = |x: i32, y: i32| x.wrapping_sub(y) as i64;
    let x = match pa.binary(b.clone(), g) {
        Ok(x) => x,
        Err(e) => {
            let e = errs(&e);
            return Err(Fail::new(format!("error {}", gist(&e)), e));
        }
    };
    let got = decode(&x).map_err(|e| Fail::new(format!("decode:{}", gist(&e)), e))?;
    let want: Vec<V> = v
        .iter()
        .zip(&v2)
        .map(|(x, y)| match (x, y) {
            (V::Int(i), V::Int(j)) => V::Int(g(*i as i32, *j as i32) as i128),
            _ => V::Null,
        })
        .collect();
    ctx.obs += 2 * n as u64;
    diff("binary", &got, &want)
}


