//! C23 (memory safety) and C24 (sharing between threads). The deciding monitors are the sanitizers and the
//! interpreter these workloads run under; C24 also compares what threads obtain with what one thread obtains.
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use vortex::compute::unary::scalar_at;
use vortex::compute::{compare, filter, slice, take, Operator};
use vortex::stats::{ArrayStatistics, Stat};
use vortex::{Array, ArrayDType, ArrayData, IntoArray};
use vortex_buffer::Buffer;
use vortex_dtype::DType;

use crate::gen::{self, TyOpts, R};
use crate::model::*;
use crate::observe::*;
use crate::phys::enc_tree;
use crate::props_array::{describe, subject, subject_of};
use crate::props_expr::{batch, gen_bool, gen_table};
use crate::props_serde::{gen_batches, gen_how, gen_scan, scan, write_file, Scan};
use crate::props_stats::{check_tree, judge, truth, STATS};
use crate::run::{guard, CaseFn, Ctx, Fail};
use crate::*;

type Res = Result<(), Fail>;

/// The same array with every buffer in an allocation of exactly its size, sharing nothing with the original.
pub fn fresh(a: &Array) -> Array {
    let Array::Data(d) = a else { return a.clone() };
    let buffer = d.buffer().map(|b| {
        let mut v = Vec::with_capacity(b.len());
        v.extend_from_slice(b.as_slice());
        Buffer::from(bytes::Bytes::from(v.into_boxed_slice()))
    });
    // interpreted memory is only as aligned as asked for
    let buffer = if cfg!(miri) { d.buffer().cloned() } else { buffer };
    let children: Vec<Array> = d.children().iter().map(fresh).collect();
    ArrayData::try_new(d.encoding(), d.dtype().clone(), d.len(), d.metadata().clone(), buffer, children.into(), d.statistics().to_set())
        .map_or_else(|_| a.clone(), Array::from)
}

// ---------------------------------------------------------------- C23
/// What happened in cases whose own property failed: (case, outcome). Compared between runs that differ only in
/// what uninitialised memory contains.
pub static TIGHT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub static OUTCOMES: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);

const WORK: &[(&str, CaseFn, u32, u32)] = &[
    // name, case, weight, weight in the interpreter
    ("compress", props_array::c01, 6, 2),
    ("encode", props_array::c02, 8, 6),
    ("select", props_array::c03, 10, 10),
    ("read", props_array::c04, 8, 6),
    ("compare", props_array::c05, 6, 5),
    ("search", props_array::c06, 5, 3),
    ("elementwise", props_array::c07, 6, 5),
    ("statistics", props_stats::c08, 4, 2),
    ("arrow", props_arrow::c09, 8, 8),
    ("parts", props_build::c10, 8, 8),
    ("streams", props_serde::c11, 5, 3),
    ("rows", props_serde::c12, 6, 3),
    ("files", props_serde::c13, 3, 1),
    ("scans", props_serde::c14, 3, 1),
    ("damage", props_serde::c15, 4, 0),
    ("storage", props_serde::c16, 3, 0),
    ("scalars", props_scalar::c17, 3, 3),
    ("types", props_scalar::c18, 1, 1),
    ("expressions", props_expr::c19, 4, 2),
    ("calendar", props_time::c20, 5, 3),
];

pub fn c23(r: &mut R, ctx: &mut Ctx) -> Res {
    let w = WORK.choose_weighted(r, |w| if cfg!(miri) { w.3 } else { w.2 }).unwrap();
    let max = if cfg!(miri) { ctx.max_len } else { *[40usize, 300, 1500, 5000].choose(r).unwrap() };
    ctx.max_len = max.min(ctx.max_len);
    ctx.step(w.0);
    TIGHT.store(true, Ordering::Relaxed);
    // cases that single out an index are about size, not memory
    ctx.index = 1;
    let res = guard(|| w.1(r, ctx));
    let keys: Vec<String> = ctx.keys.drain().collect();
    ctx.keys = keys.into_iter().map(|k| format!("{}:{k}", w.0)).collect();
    ctx.key(format!("work:{}", w.0));
    ctx.obs += 1;
    if let Err(f) = res {
        ctx.outcome = Some(format!("{} {} :: {}", w.0, f.class, f.detail));
    }
    ctx.label.clear();
    Ok(())
}

// ---------------------------------------------------------------- C24
#[derive(Clone, Debug)]
enum Op {
    At(usize),
    Decode,
    Slice(usize, usize),
    Take(Vec<u64>),
    Filter(Vec<bool>),
    Compute(Stat),
    Get(Stat),
    /// Tell the array one of its statistics.
    Tell(Stat, vortex_scalar::Scalar),
    All,
    Valid,
    Iterate,
    Compare(Operator, usize),
    Compress(u8),
    Write,
    Show,
}

fn dec(x: vortex_error::VortexResult<Array>) -> String {
    match x {
        Err(e) => format!("error {}", gist(&errs(&e))),
        Ok(a) => match decode(&a) {
            Ok(v) => format!("{} {v:?}", a.dtype()),
            Err(e) => format!("undecodable {}", gist(&e)),
        },
    }
}

fn show_scalar(s: &vortex_scalar::Scalar) -> String {
    match (Vec::<usize>::try_from(s), s.dtype()) {
        (Ok(v), DType::List(..)) => format!("{v:?}"),
        _ => format!("{} {:?}", s.dtype(), scalar_to_v(s)),
    }
}

/// What one operation obtains.
fn perform(op: &Op, a: &Array) -> String {
    let r = guard(|| {
        Ok(match op {
            Op::At(i) => match scalar_at(a, *i) {
                Ok(s) => format!("{:?}", scalar_to_v(&s)),
                Err(e) => format!("error {}", gist(&errs(&e))),
            },
            Op::Decode => dec(Ok(a.clone())),
            Op::Slice(s, e) => dec(slice(a, *s, *e)),
            Op::Take(i) => dec(take(a, &i.clone().into_array())),
            Op::Filter(m) => {
                let m = vortex::array::BoolArray::from(m.clone()).into_array();
                dec(filter(a, &m))
            }
            Op::Compute(s) => a.statistics().compute(*s).map_or("unknown".into(), |v| show_scalar(&v)),
            Op::Get(s) => a.statistics().get(*s).map_or("unknown".into(), |v| show_scalar(&v)),
            Op::Tell(s, v) => {
                a.statistics().set(*s, v.clone());
                "told".into()
            }
            Op::All => {
                let mut v: Vec<String> = a.statistics().to_set().into_iter().map(|(s, v)| format!("{s}={}", show_scalar(&v))).collect();
                v.sort();
                v.join(" ")
            }
            Op::Valid => format!("{:?}", logical_valid(a)),
            Op::Iterate => format!("{:?}", a.clone().into_array_iterator_len()),
            Op::Compare(o, i) => match scalar_at(a, *i) {
                Ok(s) => dec(compare(a, vortex::array::ConstantArray::new(s, a.len()).into_array(), *o)),
                Err(e) => format!("error {}", gist(&errs(&e))),
            },
            Op::Compress(k) => {
                let c = phys::random_compressor(&mut StdRng::seed_from_u64(*k as u64));
                dec(c.compress(a, None).map(|c| c.into_array()))
            }
            Op::Write => match ipc::roundtrip_one(a) {
                Ok(Some(b)) => dec(Ok(b)),
                Ok(None) => "nothing".into(),
                Err(e) => format!("error {}", gist(&errs(&e))),
            },
            Op::Show => format!("{}|{}|{}", enc_tree(a), a.nbytes(), a.len()),
        })
    });
    r.unwrap_or_else(|f| f.class)
}

trait IterLen {
    fn into_array_iterator_len(self) -> Vec<usize>;
}
impl IterLen for Array {
    fn into_array_iterator_len(self) -> Vec<usize> {
        use vortex::iter::ArrayIterator;
        let mut it = self.into_array_iterator();
        let _ = it.dtype();
        it.by_ref().map(|x| x.map_or(usize::MAX, |x| x.len())).collect()
    }
}

fn gen_op(r: &mut R, n: usize) -> Op {
    let at = |r: &mut R| if n == 0 { 0 } else { r.gen_range(0..n) };
    match r.gen_range(0..22) {
        0 | 1 => Op::At(at(r)),
        2 => Op::Decode,
        3 | 4 => {
            let s = crate::gen::pos(r, 0, n);
            Op::Slice(s, crate::gen::pos(r, s, n))
        }
        5 => Op::Take(if n == 0 { vec![] } else { (0..r.gen_range(0..20)).map(|_| r.gen_range(0..n) as u64).collect() }),
        6 => Op::Filter((0..n).map(|_| r.gen()).collect()),
        7..=13 => Op::Compute(*STATS.choose(r).unwrap()),
        14 => Op::Get(*STATS.choose(r).unwrap()),
        15 => Op::All,
        16 => Op::Valid,
        17 => Op::Iterate,
        18 => Op::Compare(*props_array::OPS.choose(r).unwrap(), at(r)),
        19 => Op::Compress(r.gen()),
        20 => Op::Write,
        _ => Op::Show,
    }
}

/// Run the plans of several threads on one array; returns what each obtained and the order of events.
fn race(a: &Array, plans: &[Vec<Op>], seeds: &[u64]) -> (Vec<Vec<String>>, u64, u64) {
    let barrier = AtomicU64::new(0);
    let clock = AtomicU64::new(0);
    let events: Mutex<Vec<(u64, u8, u8, bool)>> = Mutex::new(vec![]);
    let got: Vec<Vec<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .enumerate()
            .map(|(t, plan)| {
                let (barrier, clock, events, seed) = (&barrier, &clock, &events, seeds[t]);
                // Sharing the reference and sharing a clone are both sharing
                let mine = if seed % 2 == 0 { Some(a.clone()) } else { None };
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(s, move || {
                        let x = mine.as_ref().unwrap_or(a);
                        let mut rng = StdRng::seed_from_u64(seed);
                        let mut ev = vec![];
                        let mut out = vec![];
                        // Start together: woken sleepers start one after another
                        barrier.fetch_add(1, Ordering::AcqRel);
                        let mut spins = 0u32;
                        while barrier.load(Ordering::Acquire) < plans.len() as u64 {
                            spins += 1;
                            if spins % 64 == 0 || cfg!(miri) {
                                std::thread::yield_now();
                            } else {
                                std::hint::spin_loop();
                            }
                        }
                        for (k, op) in plan.iter().enumerate() {
                            for _ in 0..rng.gen_range(0..3) {
                                std::thread::yield_now();
                            }
                            ev.push((clock.fetch_add(1, Ordering::Relaxed), t as u8, k as u8, false));
                            out.push(perform(op, x));
                            ev.push((clock.fetch_add(1, Ordering::Relaxed), t as u8, k as u8, true));
                        }
                        events.lock().unwrap().extend(ev);
                        out
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    let mut ev = events.into_inner().unwrap();
    ev.sort();
    let mut h = std::collections::hash_map::DefaultHasher::new();
    let mut overlaps = 0;
    let mut open = 0u64;
    for e in &ev {
        (e.1, e.2, e.3).hash(&mut h);
        if e.3 {
            open -= 1;
        } else {
            overlaps += open;
            open += 1;
        }
    }
    (got, h.finish(), overlaps)
}

/// Does some sequential order of the same operations obtain `want` at (t, k)?
fn sequential(r: &mut R, template: &Array, plans: &[Vec<Op>], t: usize, k: usize, want: &str) -> bool {
    for round in 0..120 {
        let x = fresh(template);
        let mut at = vec![0usize; plans.len()];
        // first alone, then in random orders
        if round == 0 {
            if perform(&plans[t][k], &x) == want {
                return true;
            }
            continue;
        }
        loop {
            let live: Vec<usize> = (0..plans.len()).filter(|&i| at[i] < plans[i].len()).collect();
            let Some(&i) = live.choose(r) else { break };
            let got = perform(&plans[i][at[i]], &x);
            if i == t && at[i] == k {
                if got == want {
                    return true;
                }
                break;
            }
            at[i] += 1;
        }
    }
    false
}

fn shared_array(r: &mut R, ctx: &mut Ctx) -> Res {
    // Now and then statistics only, of enough rows that computing them takes a while
    let storm = r.gen_bool(0.25) && !cfg!(miri);
    let (dt, vals, a) = if storm {
        let dt = gen::gen_dtype(r, TyOpts { strct: false, ..TyOpts::ALL }, 0);
        let n = r.gen_range(500..6000);
        let vals = gen::gen_vals(r, &dt, n);
        let a = subject_of(r, ctx, &dt, &vals)?;
        describe(ctx, "array", &dt, &vals, &a);
        ctx.label(format!("{}/{}", phys::enc_id(&a), dtclass(&dt)));
        (dt, vals, a)
    } else {
        subject(r, ctx, TyOpts::ALL)?
    };
    let n = a.len();
    let template = fresh(&a);
    let tc = truth(&dt, &vals);
    let exact = !enc_tree(&a).contains("chunked") && !enc_tree(&a).contains("dict");
    for round in 0..3 {
        let shared = fresh(&template);
        let threads = r.gen_range(2..6);
        let few: Vec<Op> = (0..r.gen_range(1..4)).map(|_| gen_op(r, n)).collect();
        let mut plans: Vec<Vec<Op>> = (0..threads)
            .map(|_| {
                if storm {
                    return (0..r.gen_range(1..4)).map(|_| Op::Compute(*STATS.choose(r).unwrap())).collect();
                }
                (0..r.gen_range(1..7))
                    .map(|_| if r.gen_bool(0.5) { few.choose(r).unwrap().clone() } else { gen_op(r, n) })
                    .collect()
            })
            .collect();
        // True statistics told by one thread while others compute theirs
        for plan in &mut plans {
            if r.gen_bool(if storm { 0.6 } else { 0.3 }) {
                let s = *STATS.choose(r).unwrap();
                // (known of the same rows in another form: not every form computes every statistic)
                let v = match fresh(&template).statistics().compute(s) {
                    Some(v) => Some(v),
                    None => gen::build(r, &dt, &vals).statistics().compute(s),
                };
                if let Some(v) = v {
                    if judge(&tc, &dt, s, &v, exact).is_ok() {
                        let at = r.gen_range(0..=plan.len());
                        plan.insert(at, Op::Tell(s, v));
                        plan.push(Op::Get(s));
                    }
                }
            }
            if r.gen_bool(0.3) {
                if let Some(Op::Compute(s)) = plan.iter().find(|o| matches!(o, Op::Compute(_))) {
                    let s = *s;
                    plan.push(Op::Get(s));
                }
            }
        }
        let seeds: Vec<u64> = (0..threads).map(|_| r.gen()).collect();
        ctx.step(format!("{threads} threads, {} operations, round {round}", plans.iter().map(Vec::len).sum::<usize>()));
        let (got, order, overlaps) = race(&shared, &plans, &seeds);
        ctx.step(format!("interleaving {order:016x}"));
        ctx.key(format!("threads:{threads}"));
        ctx.key(format!("overlap:{}", overlaps.min(20)));
        for (t, plan) in plans.iter().enumerate() {
            for (k, op) in plan.iter().enumerate() {
                ctx.obs += 1;
                let kind = format!("{op:?}").split(['(', '{', ' ']).next().unwrap_or("").to_string();
                ctx.key(format!("{kind}/{}", phys::enc_id(&a)));
                let Some(g) = got[t].get(k) else {
                    return Err(Fail::new("thread died", format!("thread {t} ended before its operation {k} ({op:?})")));
                };
                let alone = perform(op, &fresh(&template));
                if *g == alone {
                    continue;
                }
                // statistics may be known or unknown, more or less exact, depending on what was asked before
                if let Op::Compute(s) = op {
                    if let Some(v) = shared.statistics().get(*s) {
                        if show_scalar(&v) == *g && judge(&tc, &dt, *s, &v, exact).is_ok() {
                            continue;
                        }
                    }
                }
                if matches!(op, Op::Get(_) | Op::All) {
                    continue;
                }
                if !sequential(r, &template, &plans, t, k, g) {
                    return Err(Fail::new(
                        format!("{kind} differs"),
                        format!("{op:?} obtains {} among threads, {} alone", cut(g), cut(&alone)),
                    ));
                }
            }
        }
        // What an array was told or has computed stays known
        for (t, plan) in plans.iter().enumerate() {
            for (k, op) in plan.iter().enumerate() {
                let s = match op {
                    Op::Compute(s) if got[t][k] != "unknown" && !got[t][k].starts_with("panic") => *s,
                    Op::Tell(s, _) => *s,
                    _ => continue,
                };
                let x = fresh(&template);
                perform(op, &x);
                if x.statistics().get(s).is_none() {
                    continue;
                }
                ctx.obs += 1;
                ctx.key(format!("kept:{s}"));
                let later = plan[k..].iter().zip(&got[t][k..]).find(|(o, g)| matches!(o, Op::Get(q) if *q == s) && *g == "unknown");
                if later.is_some() || shared.statistics().get(s).is_none() {
                    return Err(Fail::new("statistic lost", format!("{s} obtained by {op:?} of thread {t} is not known afterwards")));
                }
            }
        }
        // whatever was cached is true
        check_tree(&shared, &dt, &vals, ctx, "shared", 2).or_else(|f| {
            // unless one thread would have cached the same
            let x = fresh(&template);
            for op in plans.iter().flatten() {
                perform(op, &x);
            }
            match check_tree(&x, &dt, &vals, &mut Ctx::new(1, false), "alone", 2) {
                Ok(()) => Err(f),
                Err(_) => Ok(()),
            }
        })?;
    }
    Ok(())
}

fn cut(s: &str) -> String {
    s.chars().take(200).collect()
}

/// Many readers of one file at once, and one stream read by a different thread each time.
fn shared_file(r: &mut R, ctx: &mut Ctx) -> Res {
    let n = gen::gen_len(r, ctx.max_len.min(1500));
    let t = gen_table(r, ctx, TyOpts::ALL, n, 1);
    let batches = gen_batches(r, ctx, &t)?;
    let how = gen_how(r);
    ctx.trivial = n == 0;
    let bytes = futures::executor::block_on(write_file(vec![], how, &t.dtype(), &batches))
        .map_err(|e| Fail::new("write", errs(&e)))?;
    let bytes: Buffer = bytes.into();
    let scans: Vec<Scan> = (0..3).map(|_| gen_scan(r, ctx, &t)).collect();
    let digest = |b: Buffer, s: &Scan| -> String {
        let g = guard(|| {
            let g = futures::executor::block_on(scan(b, s));
            let rows: Vec<String> = g.batches.iter().map(|b| dec(Ok(b.clone()))).collect();
            Ok(format!("{rows:?} {:?}", g.err.map(|e| gist(&errs(&e)))))
        });
        g.unwrap_or_else(|f| f.class)
    };
    let alone: Vec<String> = scans.iter().map(|s| digest(bytes.clone(), s)).collect();
    let threads = r.gen_range(2..6usize);
    ctx.step(format!("{threads} threads scan {} batches of {n} rows", batches.len()));
    ctx.key(format!("scan-threads:{threads}"));
    let got: Vec<Vec<String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (bytes, scans, digest) = (&bytes, &scans, &digest);
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(sc, move || scans.iter().map(|s| digest(bytes.clone(), s)).collect::<Vec<_>>())
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    for g in &got {
        ctx.obs += scans.len() as u64;
        if *g != alone {
            return Err(Fail::new("scan differs", format!("{} among threads, {} alone", cut(&format!("{g:?}")), cut(&format!("{alone:?}")))));
        }
    }
    Ok(())
}

/// One expression and one batch shared by threads.
fn shared_expr(r: &mut R, ctx: &mut Ctx) -> Res {
    let n = gen::gen_len(r, ctx.max_len.min(1500));
    let t = gen_table(r, ctx, TyOpts::ALL, n, 1);
    ctx.trivial = n == 0;
    let b = batch(r, ctx, &t)?;
    let template = fresh(&b);
    let depth = r.gen_range(0..4);
    let (e, x) = gen_bool(r, &t, depth, true);
    ctx.step(format!("threads evaluate {} on {n} rows", e.show(&t)));
    ctx.key("evaluate");
    let eval = |b: &Array| guard(|| Ok(dec(x.evaluate(b)))).unwrap_or_else(|f| f.class);
    let alone = eval(&fresh(&template));
    let threads = r.gen_range(2..6usize);
    let got: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (eval, b) = (&eval, &b);
                std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(sc, move || eval(b)).unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    for g in &got {
        ctx.obs += 1;
        if *g != alone && eval(&b) != *g {
            return Err(Fail::new("evaluation differs", format!("{} among threads, {} alone", cut(g), cut(&alone))));
        }
    }
    Ok(())
}

pub fn c24(r: &mut R, ctx: &mut Ctx) -> Res {
    ctx.max_len = *[40usize, 300, 2000].choose(r).unwrap();
    match r.gen_range(0..20) {
        0..=13 => shared_array(r, ctx),
        14..=16 => shared_file(r, ctx),
        17 | 18 => shared_expr(r, ctx),
        _ => {
            // readers and writers on executors with several threads; wrong results are C16's
            ctx.step("storage");
            ctx.index = 1;
            let res = guard(|| props_serde::c16(r, ctx));
            ctx.key(format!("storage:{}", res.is_ok()));
            ctx.obs += 1;
            ctx.label.clear();
            Ok(())
        }
    }
}

#[allow(dead_code)]
fn unused(_: Arc<DType>) {}
