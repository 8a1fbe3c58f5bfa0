//! C08: statistics never contradict the data.
use std::cmp::Ordering;

use rand::seq::SliceRandom;
use rand::Rng;
use vortex::compute::slice;
use vortex::stats::{ArrayStatistics, Stat};
use vortex::{Array, ArrayDType};
use vortex_dtype::{DType, PType};
use vortex_scalar::Scalar;

use crate::gen::{self, TyOpts, R};
use crate::model::*;
use crate::observe::*;
use crate::phys::{self, enc_id, enc_tree};
use crate::props_array::{select_step, subject, Res};
use crate::run::{Ctx, Fail};

pub const STATS: [Stat; 10] = [
    Stat::BitWidthFreq,
    Stat::TrailingZeroFreq,
    Stat::IsConstant,
    Stat::IsSorted,
    Stat::IsStrictSorted,
    Stat::Max,
    Stat::Min,
    Stat::RunCount,
    Stat::TrueCount,
    Stat::NullCount,
];

/// What is true of the values of one array.
pub struct Truth {
    n: usize,
    nulls: usize,
    ordered: bool,
    min: V,
    max: V,
    trues: u64,
    constant: bool,
    nan: bool,
    sorted: bool,
    strict: bool,
    runs: u64,
    widths: Option<Vec<u64>>,
    zeros: Option<Vec<u64>>,
}

fn is_nan(v: &V) -> bool {
    match v {
        V::F16(b) => half::f16::from_bits(*b).is_nan(),
        V::F32(b) => f32::from_bits(*b).is_nan(),
        V::F64(b) => f64::from_bits(*b).is_nan(),
        _ => false,
    }
}

pub fn truth(dt: &DType, vals: &[V]) -> Truth {
    let sdt = storage_dtype(dt);
    let ordered = matches!(sdt, DType::Bool(_) | DType::Primitive(..) | DType::Utf8(_) | DType::Binary(_));
    let nn: Vec<&V> = vals.iter().filter(|v| !v.is_null()).collect();
    let nulls = vals.len() - nn.len();
    let mut min = V::Null;
    let mut max = V::Null;
    let (mut sorted, mut strict) = (true, true);
    let mut runs = u64::from(!nn.is_empty());
    if ordered {
        for v in &nn {
            if min.is_null() || vcmp(v, &min) == Ordering::Less {
                min = (*v).clone();
            }
            if max.is_null() || vcmp(v, &max) == Ordering::Greater {
                max = (*v).clone();
            }
        }
        for w in nn.windows(2) {
            match vcmp(w[0], w[1]) {
                Ordering::Less => {}
                Ordering::Equal => strict = false,
                Ordering::Greater => {
                    sorted = false;
                    strict = false
                }
            }
        }
    }
    for w in nn.windows(2) {
        if w[0] != w[1] {
            runs += 1;
        }
    }
    let constant = vals.windows(2).all(|w| w[0] == w[1]);
    let (mut widths, mut zeros) = (None, None);
    if let DType::Primitive(p, _) = &sdt {
        let bits = p.byte_width() * 8;
        let mut w = vec![0u64; bits + 1];
        let mut z = vec![0u64; bits + 1];
        w[0] += nulls as u64;
        z[bits] += nulls as u64;
        for v in &nn {
            match v {
                V::Int(i) => {
                    let u = (*i as u128) & ((1u128 << bits) - 1);
                    w[128 - u.leading_zeros() as usize] += 1;
                    z[(u.trailing_zeros() as usize).min(bits)] += 1;
                }
                _ => {
                    w[bits] += 1;
                    z[0] += 1;
                }
            }
        }
        widths = Some(w);
        zeros = Some(z);
    }
    Truth {
        n: vals.len(),
        nulls,
        ordered,
        min,
        max,
        trues: nn.iter().filter(|v| matches!(v, V::Bool(true))).count() as u64,
        constant,
        nan: nn.iter().any(|v| is_nan(v)),
        sorted,
        strict,
        runs,
        widths,
        zeros,
    }
}

/// The wire format of f32 scalars quietens signalling NaNs (finding C17-f32-snan); a NaN bound says no less.
fn quiet(v: &V) -> V {
    match v {
        V::F32(b) if f32::from_bits(*b).is_nan() => V::F32(b | 0x0040_0000),
        o => o.clone(),
    }
}

/// Is the reported statistic true? `exact_runs`: no merged chunks underneath.
pub fn judge(t: &Truth, dt: &DType, s: Stat, v: &Scalar, exact_runs: bool) -> Result<(), String> {
    let num = |v: &Scalar| usize::try_from(v).map(|x| x as u64).map_err(|e| format!("not a count: {}", errs(&e)));
    let flag = |v: &Scalar| bool::try_from(v).map_err(|e| format!("not a flag: {}", errs(&e)));
    let want = |ok: bool, w: String| if ok { Ok(()) } else { Err(format!("{:?} but {w}", v.value())) };
    match s {
        Stat::Min | Stat::Max => {
            let w = if s == Stat::Min { &t.min } else { &t.max };
            if !t.ordered {
                return Ok(());
            }
            if !v.dtype().eq_ignore_nullability(dt) && !v.dtype().eq_ignore_nullability(&storage_dtype(dt)) {
                return Err(format!("of type {} for an array of {}", v.dtype(), dt));
            }
            let got = if v.is_null() { V::Null } else { scalar_to_v(v)? };
            // no value contradicts the bound of an empty array
            want(t.n == 0 || quiet(&got) == quiet(w), format!("{w:?}"))
        }
        Stat::NullCount => want(num(v)? == t.nulls as u64, t.nulls.to_string()),
        Stat::TrueCount => want(num(v)? == t.trues, t.trues.to_string()),
        Stat::IsConstant => {
            let g = flag(v)?;
            want(t.n == 0 || g == t.constant || (t.nan && !g), t.constant.to_string())
        }
        Stat::IsSorted => {
            let g = flag(v)?;
            want(!t.ordered || t.n == 0 || g == t.sorted, t.sorted.to_string())
        }
        Stat::IsStrictSorted => {
            let g = flag(v)?;
            want(
                !t.ordered || t.n == 0 || g == t.strict || (!g && t.nulls > 0),
                t.strict.to_string(),
            )
        }
        Stat::RunCount => {
            let g = num(v)?;
            let ok = if t.n == 0 {
                g <= 1
            } else {
                g >= t.runs && (g == t.runs || !exact_runs || t.nulls > 0)
            };
            want(ok, t.runs.to_string())
        }
        Stat::BitWidthFreq | Stat::TrailingZeroFreq => {
            let w = if s == Stat::BitWidthFreq { &t.widths } else { &t.zeros };
            let Some(w) = w else {
                return Err("histogram of a type without bits".into());
            };
            let g: Vec<u64> = Vec::<usize>::try_from(v).map_err(|e| errs(&e))?.into_iter().map(|x| x as u64).collect();
            want(&g == w, format!("{w:?}"))
        }
    }
}

/// Run counts merged over chunks and taken from dictionary codes are upper bounds.
fn is_chunked(a: &Array) -> bool {
    let t = enc_tree(a);
    t.contains("chunked") || t.contains("dict")
}

/// Check the statistics one node already carries.
pub fn check_present(a: &Array, dt: &DType, vals: &[V], ctx: &mut Ctx, how: &str) -> Res {
    let t = truth(dt, vals);
    for (s, v) in a.statistics().to_set() {
        ctx.key(format!("{how}:{s}/{}", enc_id(a)));
        ctx.obs += 1;
        if let Err(e) = judge(&t, dt, s, &v, !is_chunked(a)) {
            return Err(Fail::new(
                format!("{how} stat {s} {}/{}", enc_id(a), dtclass(dt)),
                format!("{s} is {e}; array {} {} {}", dt, enc_tree(a), show(vals)),
            ));
        }
    }
    Ok(())
}

pub fn check_tree(a: &Array, dt: &DType, vals: &[V], ctx: &mut Ctx, how: &str, depth: usize) -> Res {
    check_present(a, dt, vals, ctx, how)?;
    if depth == 0 {
        return Ok(());
    }
    for c in a.children() {
        if matches!(c.dtype(), DType::List(..)) {
            continue;
        }
        let Ok(vs) = decode(&c) else { continue };
        check_tree(&c, c.dtype(), &vs, ctx, how, depth - 1)?;
    }
    Ok(())
}

fn ask(r: &mut R, a: &Array, dt: &DType, vals: &[V], ctx: &mut Ctx, how: &str) -> Res {
    let t = truth(dt, vals);
    let mut ss = STATS.to_vec();
    ss.shuffle(r);
    ss.truncate(r.gen_range(0..=STATS.len()));
    for s in ss {
        ctx.step(format!("compute {s}"));
        if let Some(v) = a.statistics().compute(s) {
            ctx.key(format!("{how}:{s}/{}/{}", enc_id(a), dtclass(dt)));
            ctx.obs += 1;
            if let Err(e) = judge(&t, dt, s, &v, !is_chunked(a)) {
                return Err(Fail::new(
                    format!("{how} stat {s} {}/{}", enc_id(a), dtclass(dt)),
                    format!("{s} is {e}; array {} {} {}", dt, enc_tree(a), show(vals)),
                ));
            }
        }
    }
    check_present(a, dt, vals, ctx, "after")
}

/// What is known of two arrays says what is known of one after the other.
fn c08_merge(r: &mut R, ctx: &mut Ctx) -> Res {
    let dt = gen::gen_dtype(r, TyOpts::FLAT, 0);
    let pool = gen::gen_vals(r, &dt, 12);
    let mut parts: Vec<(Vec<V>, Array)> = vec![];
    let up = |v: &mut Vec<V>| {
        v.sort_by(|x, y| match (x.is_null(), y.is_null()) {
            (true, true) => Ordering::Equal,
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            _ => vcmp(x, y),
        })
    };
    let mut all: Vec<V> = vec![];
    let k = r.gen_range(2..4);
    for _ in 0..k * r.gen_range(1..6) {
        all.push(pool.choose(r).unwrap().clone());
    }
    if r.gen_bool(0.3) {
        up(&mut all);
    }
    let shape = r.gen_range(0..3);
    let per = all.len().div_ceil(k);
    for c in all.chunks(per) {
        let mut v = c.to_vec();
        if shape > 0 {
            up(&mut v);
        }
        if shape > 1 {
            v.dedup();
        }
        let a = crate::props_array::subject_of(r, ctx, &dt, &v)?;
        ctx.step(format!("part {} {}", enc_tree(&a), show(&v)));
        parts.push((v, a));
    }
    ctx.label("merge");
    let mut vals: Vec<V> = vec![];
    let mut sum: Option<vortex::stats::StatsSet> = None;
    let mut ss = STATS.to_vec();
    ss.shuffle(r);
    ss.truncate(r.gen_range(4..=STATS.len()));
    for (v, a) in &parts {
        for s in &ss {
            if r.gen_bool(0.97) {
                a.statistics().compute(*s);
            }
        }
        vals.extend(v.iter().cloned());
        let set = a.statistics().to_set();
        match &mut sum {
            None => sum = Some(set),
            Some(m) => {
                m.merge(&set);
            }
        }
        let t = truth(&dt, &vals);
        for (s, x) in sum.clone().unwrap() {
            ctx.key(format!("merge:{s}/{}", dtclass(&dt)));
            ctx.obs += 1;
            if let Err(e) = judge(&t, &dt, s, &x, false) {
                return Err(Fail::new(format!("merge stat {s} {}", dtclass(&dt)), format!("{s} is {e}; parts so far {}", show(&vals))));
            }
        }
    }
    // the same through an array of the parts, which is then told what is true
    let a: Array = vortex::array::ChunkedArray::try_new(parts.into_iter().map(|p| p.1).collect(), dt.clone())
        .map_err(|e| Fail::new("chunk", errs(&e)))?
        .into();
    ask(r, &a, &dt, &vals, ctx, "computed")?;
    check_tree(&a, &dt, &vals, ctx, "carried", 3)?;
    let b = gen::build(r, &dt, &vals);
    for (s, x) in a.statistics().to_set() {
        b.statistics().set(s, x.clone());
        if b.statistics().get(s).as_ref() != Some(&x) {
            return Err(Fail::new("set", format!("{s} set to {x:?} reads {:?}", b.statistics().get(s))));
        }
    }
    Ok(())
}

pub fn c08(r: &mut R, ctx: &mut Ctx) -> Res {
    if r.gen_bool(0.15) {
        return c08_merge(r, ctx);
    }
    let (dt, mut vals, mut a) = subject(r, ctx, TyOpts::ALL)?;
    if r.gen_bool(0.3) {
        // sorted and nearly constant data make the flags true
        sortish(r, ctx, &dt, &mut vals, &mut a)?;
    }
    let base = ctx.label.clone();
    check_tree(&a, &dt, &vals, ctx, "carried", 3)?;
    for _ in 0..r.gen_range(1..4) {
        if r.gen_bool(0.7) {
            ask(r, &a, &dt, &vals, ctx, "computed")?;
        }
        match r.gen_range(0..6) {
            0..=2 => {
                ctx.label = base.clone();
                let Some((v2, a2)) = select_step(r, ctx, &dt, &vals, &a)? else { break };
                (vals, a) = (v2, a2);
            }
            3 => {
                ctx.step("compress");
                let comp = phys::random_compressor(r);
                a = comp
                    .compress(&a, None)
                    .map_err(|e| Fail::new(format!("compress {}", gist(&errs(&e))), errs(&e)))?
                    .into_array();
                ctx.step(format!("is {}", enc_tree(&a)));
            }
            4 => {
                ctx.step("stream round trip");
                let back = crate::ipc::roundtrip_one(&a).map_err(|e| Fail::new(format!("ipc {}", gist(&errs(&e))), errs(&e)))?;
                if let Some(b) = back {
                    a = b;
                }
            }
            _ => {
                // halves glued together again
                let k = r.gen_range(0..=vals.len());
                ctx.step(format!("chunks split at {k}"));
                let l = slice(&a, 0, k).map_err(|e| Fail::new("slice", errs(&e)))?;
                let h = slice(&a, k, vals.len()).map_err(|e| Fail::new("slice", errs(&e)))?;
                if r.gen_bool(0.5) {
                    ask(r, &l, &dt, &vals[..k], ctx, "computed")?;
                }
                if r.gen_bool(0.5) {
                    ask(r, &h, &dt, &vals[k..], ctx, "computed")?;
                }
                a = vortex::array::ChunkedArray::try_new(vec![l, h], dt.clone())
                    .map_err(|e| Fail::new("chunk", errs(&e)))?
                    .into();
            }
        }
        ctx.label = String::new();
        check_tree(&a, &dt, &vals, ctx, "carried", 3)?;
    }
    ctx.label = String::new();
    ask(r, &a, &dt, &vals, ctx, "computed")?;
    // children too: the encoders read the statistics of what they were given
    for c in a.children() {
        if matches!(c.dtype(), DType::List(..)) {
            continue;
        }
        if let Ok(vs) = decode(&c) {
            ask(r, &c, c.dtype(), &vs, ctx, "computed")?;
        }
    }
    check_tree(&a, &dt, &vals, ctx, "carried", 3)
}

fn sortish(r: &mut R, ctx: &mut Ctx, dt: &DType, vals: &mut Vec<V>, a: &mut Array) -> Res {
    if matches!(storage_dtype(dt), DType::Struct(..) | DType::List(..) | DType::Null) {
        return Ok(());
    }
    match r.gen_range(0..4) {
        0 => vals.sort_by(|x, y| match (x.is_null(), y.is_null()) {
            (true, true) => Ordering::Equal,
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            _ => vcmp(x, y),
        }),
        1 => {
            vals.retain(|v| !v.is_null());
            vals.sort_by(vcmp);
            vals.dedup();
        }
        2 => {
            let n = vals.len();
            if n > 0 {
                let v = vals.choose(r).unwrap().clone();
                *vals = vec![v; n];
            }
        }
        _ => {
            let n = vals.len();
            if n > 0 {
                let v = vals.choose(r).unwrap().clone();
                let odd = vals.choose(r).unwrap().clone();
                *vals = vec![v; n];
                vals[r.gen_range(0..n)] = odd;
            }
        }
    }
    *a = crate::props_array::subject_of(r, ctx, dt, vals)?;
    crate::props_array::describe(ctx, "rearranged", dt, vals, a);
    Ok(())
}

#[allow(dead_code)]
pub fn has_bits(p: PType) -> bool {
    p.is_int()
}
