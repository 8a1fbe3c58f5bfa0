//! Case runner: threads, panic capture, hang watchdog, signatures, replay files, evidence.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use rand::rngs::StdRng;
use rand::SeedableRng;
use serde_json::json;

#[derive(Debug, Clone)]
pub struct Fail {
    pub class: String,
    pub detail: String,
}
impl Fail {
    pub fn new(class: impl Into<String>, detail: impl Into<String>) -> Self {
        Fail {
            class: class.into(),
            detail: detail.into(),
        }
    }
    pub fn at(mut self, prefix: &str) -> Self {
        self.class = format!("{prefix}|{}", self.class);
        self
    }
}

pub struct Ctx {
    pub steps: Vec<String>,
    pub keys: HashSet<String>,
    /// short label for failure signatures: what was being done to what
    pub label: String,
    pub obs: u64,
    pub refused: u64,
    pub trivial: bool,
    pub max_len: usize,
    pub index: u64,
    pub thorough: bool,
    /// how a workload ended whose result is not the point (C23)
    pub outcome: Option<String>,
}
impl Ctx {
    pub fn new(max_len: usize, thorough: bool) -> Self {
        Ctx {
            steps: vec![],
            keys: HashSet::new(),
            label: String::new(),
            obs: 0,
            refused: 0,
            trivial: false,
            max_len,
            index: 0,
            thorough,
            outcome: None,
        }
    }
    pub fn step(&mut self, s: impl Into<String>) {
        let s = s.into();
        if VERBOSE.load(Ordering::Relaxed) {
            println!("  {s}");
        }
        self.steps.push(s);
    }
    pub fn key(&mut self, s: impl Into<String>) {
        self.keys.insert(s.into());
    }
    pub fn label(&mut self, s: impl Into<String>) {
        self.label = s.into();
    }
}

/// print steps as they happen (single-case mode)
pub static VERBOSE: AtomicBool = AtomicBool::new(false);

pub type CaseFn = fn(&mut StdRng, &mut Ctx) -> Result<(), Fail>;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub case: CaseFn,
    /// extra relative weight of this check's own time budget
    pub quick_cases: u64,
    pub thorough_cases: u64,
    pub max_len: usize,
    pub threads: usize,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        // these abort the process right after this hook
        if msg.contains("unsafe precondition") || msg.contains("cannot unwind") {
            eprintln!("ABORTING {loc} {msg}\n{}", std::backtrace::Backtrace::force_capture());
        } else if std::env::var("VH_BT").is_ok() {
            eprintln!("{loc} {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{loc}\u{1}{msg}")));
    }));
}

pub fn take_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

/// file (no line number) + message gist
pub fn panic_fail() -> Fail {
    let p = take_panic();
    let (loc, msg) = p.split_once('\u{1}').unwrap_or(("?", "?"));
    let file = loc.rsplit_once(':').map_or(loc, |x| x.0);
    let file = match file.find("/repo/") {
        Some(i) => &file[i + 6..],
        None => file,
    };
    let file = match file.find("/library/") {
        Some(i) => &file[i + 9..],
        None => file,
    };
    Fail::new(
        format!("panic {} {}", file, crate::observe::gist(msg)),
        format!("panic at {loc}: {}", msg.lines().take(3).collect::<Vec<_>>().join(" / ")),
    )
}

/// Run `f`, turning a panic into a Fail.
pub fn guard<T>(f: impl FnOnce() -> Result<T, Fail>) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(panic_fail()),
    }
}

pub fn case_seed(seed: u64, prop: &str, i: u64) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (seed, prop, i).hash(&mut h);
    h.finish()
}

pub fn run_case(p: &Prop, seed: u64, i: u64, max_len: usize, thorough: bool) -> (Ctx, Result<(), Fail>) {
    let mut ctx = Ctx::new(max_len, thorough);
    ctx.index = i;
    let mut rng = StdRng::seed_from_u64(case_seed(seed, p.id, i));
    let res = guard(|| (p.case)(&mut rng, &mut ctx));
    let res = res.map_err(|f| {
        if ctx.label.is_empty() {
            f
        } else {
            f.at(&ctx.label)
        }
    });
    (ctx, res)
}

pub struct Failure {
    pub sig: String,
    pub detail: String,
    pub i: u64,
    pub max_len: usize,
    pub steps: Vec<String>,
}

pub struct Outcome {
    pub evals: u64,
    pub obs: u64,
    pub refused: u64,
    pub distinct: usize,
    pub keys: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub failures: BTreeMap<String, (u64, Failure)>,
    pub wall: f64,
    pub stopped_by_time: bool,
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub cases: u64,
    pub secs: f64,
    pub triage: bool,
    pub stop_after: usize,
    pub inflight: Option<String>,
    pub max_len: Option<usize>,
    pub threads: Option<usize>,
    pub from: u64,
}

pub const HANG_SECS: u64 = if cfg!(miri) { 3600 } else { 120 };

pub fn run(p: &'static Prop, o: &Opts) -> Outcome {
    let t0 = Instant::now();
    let next = AtomicU64::new(o.from);
    let stop = AtomicBool::new(false);
    let by_time = AtomicBool::new(false);
    let threads = o.threads.unwrap_or(p.threads);
    let max_len = o.max_len.unwrap_or(p.max_len);
    let inflight = o.inflight.as_ref().map(|f| {
        std::fs::OpenOptions::new()
            .create(true)
            .write(true)
            .truncate(true)
            .open(f)
            .expect("inflight file")
    });
    struct Acc {
        evals: u64,
        obs: u64,
        refused: u64,
        fps: HashSet<u64>,
        keys: BTreeMap<String, u64>,
        samples: Vec<String>,
        failures: BTreeMap<String, (u64, Failure)>,
    }
    let acc = Mutex::new(Acc {
        evals: 0,
        obs: 0,
        refused: 0,
        fps: HashSet::new(),
        keys: BTreeMap::new(),
        samples: vec![],
        failures: BTreeMap::new(),
    });
    // per thread: (start ms since t0) + 1, 0 = idle; and case index
    let starts: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
    let alive = AtomicBool::new(true);

    std::thread::scope(|s| {
        let mut hs = vec![];
        for t in 0..threads {
            let (next, stop, by_time, acc, inflight, starts) = (&next, &stop, &by_time, &acc, &inflight, &starts);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if t0.elapsed().as_secs_f64() > o.secs {
                            by_time.store(true, Ordering::Relaxed);
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= o.cases {
                            break;
                        }
                        if let Some(f) = inflight {
                            let _ = f.write_at(format!("{i:>18}\n").as_bytes(), (t * 19) as u64);
                        }
                        starts[t].1.store(i, Ordering::Relaxed);
                        starts[t].0.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        let (mut ctx, mut res) = run_case(p, o.seed, i, max_len, o.thorough);
                        let mut ml = max_len;
                        if res.is_err() && o.triage {
                            // find a smaller case of the same signature
                            let sig = res.as_ref().unwrap_err().class.clone();
                            let known = acc.lock().unwrap().failures.contains_key(&sig);
                            if !known {
                                'out: for m in [4usize, 12, 64] {
                                    for k in 0..150 {
                                        let (c2, r2) = run_case(p, o.seed, 1_000_000_000 + i * 1000 + k, m, o.thorough);
                                        if let Err(f) = &r2 {
                                            if f.class == sig {
                                                ctx = c2;
                                                res = r2;
                                                ml = m;
                                                break 'out;
                                            }
                                        }
                                    }
                                }
                            }
                        }
                        starts[t].0.store(0, Ordering::Relaxed);
                        if let Some(x) = ctx.outcome.take() {
                            crate::props_mem::OUTCOMES.lock().unwrap().push((i, x));
                        }
                        let mut a = acc.lock().unwrap();
                        a.evals += 1;
                        a.obs += ctx.obs;
                        a.refused += ctx.refused;
                        if !ctx.trivial {
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            ctx.steps.hash(&mut h);
                            a.fps.insert(h.finish());
                        }
                        for k in &ctx.keys {
                            *a.keys.entry(k.clone()).or_default() += 1;
                        }
                        if a.samples.len() < 6 && !ctx.trivial && (i % 7 == 3 || a.samples.is_empty()) {
                            let mut s = ctx.steps.join("; ");
                            s.truncate(s.char_indices().nth(600).map_or(s.len(), |x| x.0));
                            a.samples.push(s);
                        }
                        if let Err(f) = res {
                            let n = a.failures.len();
                            let e = a.failures.entry(f.class.clone()).or_insert_with(|| {
                                (
                                    0,
                                    Failure {
                                        sig: f.class.clone(),
                                        detail: f.detail.clone(),
                                        i,
                                        max_len: ml,
                                        steps: ctx.steps.clone(),
                                    },
                                )
                            });
                            e.0 += 1;
                            if n + 1 >= o.stop_after {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    })
                    .unwrap(),
            );
        }
        // hang watchdog
        let (starts, alive) = (&starts, &alive);
        let wd = s.spawn(move || {
            while alive.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(200));
                let now = t0.elapsed().as_millis() as u64 + 1;
                for (st, ix) in starts {
                    let s0 = st.load(Ordering::Relaxed);
                    if s0 != 0 && now.saturating_sub(s0) > HANG_SECS * 1000 {
                        let i = ix.load(Ordering::Relaxed);
                        let path = write_replay(p.id, o.seed, i, max_len, o.thorough, "hang", "case did not finish", &[]);
                        println!("# hang in case {i}");
                        println!("VIOLATION property={} replay={path}", p.id);
                        std::io::stdout().flush().ok();
                        std::process::exit(1);
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        alive.store(false, Ordering::Relaxed);
        let _ = wd.join();
    });
    let a = acc.into_inner().unwrap();
    Outcome {
        evals: a.evals,
        obs: a.obs,
        refused: a.refused,
        distinct: a.fps.len(),
        keys: a.keys,
        samples: a.samples,
        failures: a.failures,
        wall: t0.elapsed().as_secs_f64(),
        stopped_by_time: by_time.load(Ordering::Relaxed),
    }
}

pub fn verif_dir() -> String {
    std::env::var("VERIF").unwrap_or_else(|_| "/verif".into())
}

#[allow(clippy::too_many_arguments)]
pub fn write_replay(id: &str, seed: u64, i: u64, max_len: usize, thorough: bool, sig: &str, detail: &str, steps: &[String]) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{seed}-{i}-{max_len}.json");
    let j = json!({"property": id, "seed": seed, "case": i, "max_len": max_len, "thorough": thorough,
        "signature": sig, "detail": detail, "steps": steps,
        "run": format!("tools/check.py {id} --replay {path}")});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    path
}

pub fn write_evidence(p: &Prop, o: &Opts, out: &Outcome, known: &[String], extra: serde_json::Value) {
    let tier = if o.thorough { "thorough" } else { "quick" };
    let mut top: Vec<(&String, &u64)> = out.keys.iter().collect();
    top.sort();
    let keyset: BTreeMap<String, _> = top.into_iter().take(400).map(|(k, n)| (k.chars().take(120).collect(), n)).collect();
    // (the file has to stay small)
    let classes: BTreeSet<String> = out.keys.keys().map(|k| k.split(':').next().unwrap_or("").chars().take(80).collect()).collect();
    let classes: Vec<String> = classes.into_iter().take(1000).collect();
    let j = json!({
        "property": p.id, "tier": tier, "seed": o.seed, "level": p.level,
        "coverage": {
            "evaluations": out.evals,
            "distinct_nontrivial": out.distinct,
            "rule": p.rule,
            "samples": out.samples,
            "observations": out.obs,
            "encoder_refusals": out.refused,
            "distinct_coverage_keys": out.keys.len(),
            "coverage_key_classes": classes,
            "coverage_keys": keyset,
            "stopped_by_time": out.stopped_by_time,
            "known_findings_seen": known,
            "extra": extra,
        },
        "assumptions": p.assumptions,
        "wall_s": out.wall,
        "violations": out.failures.len(),
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", p.id), serde_json::to_string_pretty(&j).unwrap()).expect("evidence");
}
