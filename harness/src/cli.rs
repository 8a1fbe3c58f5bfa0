//! Command line shared by the monitor binaries.
use crate::run::*;
use crate::{known, props_mem};

pub fn cli(props: &'static [Prop]) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    install_panic_hook();
    let id = args.first().cloned().unwrap_or_default();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let has = |k: &str| args.iter().any(|a| a == k);
    if id == "probe" {
        // exit 1 when the recorded finding still occurs
        std::process::exit(known::probe(args.get(1).map_or("", |s| s)) as i32);
    }
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let seed: u64 = get("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").or(std::env::var("VERIF_TIER").ok()).is_some_and(|t| t == "thorough");
    if let Some(i) = get("--case") {
        let i: u64 = i.parse().unwrap();
        let ml = get("--max-len").and_then(|s| s.parse().ok()).unwrap_or(p.max_len);
        VERBOSE.store(true, std::sync::atomic::Ordering::Relaxed);
        let (ctx, res) = run_case(p, seed, i, ml, thorough);
        if let Some(x) = ctx.outcome {
            println!("OUTCOME {x}");
        }
        match res {
            Ok(()) => println!("case {i}: ok"),
            Err(f) => {
                println!("case {i}: FAIL {} :: {}", f.class, f.detail);
                std::process::exit(1);
            }
        }
        return;
    }
    let triage = has("--triage");
    let o = Opts {
        seed,
        thorough,
        cases: get("--cases")
            .and_then(|s| s.parse().ok())
            .unwrap_or(if thorough { p.thorough_cases } else { p.quick_cases }),
        secs: get("--secs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000.0 } else { 45.0 }),
        triage,
        stop_after: if triage { 100_000 } else { 3 },
        inflight: get("--inflight"),
        max_len: get("--max-len").and_then(|s| s.parse().ok()),
        from: get("--from").and_then(|s| s.parse().ok()).unwrap_or(0),
        threads: get("--threads").and_then(|s| s.parse().ok()),
    };
    let out = run(p, &o);
    if triage {
        let mut v: Vec<_> = out.failures.values().collect();
        v.sort_by_key(|f| std::cmp::Reverse(f.0));
        for (n, f) in &v {
            println!("[{n}] {}\n      case {} max_len {} :: {}", f.sig, f.i, f.max_len, f.detail);
            for s in f.steps.iter().rev().take(4).rev() {
                println!("        {s}");
            }
        }
        println!(
            "{} evals, {} failing signatures, {} distinct, {} keys, refused {}, {:.1}s",
            out.evals,
            v.len(),
            out.distinct,
            out.keys.len(),
            out.refused,
            out.wall
        );
        return;
    }
    if let Some(f) = get("--outcomes") {
        let v = std::mem::take(&mut *props_mem::OUTCOMES.lock().unwrap());
        std::fs::write(f, serde_json::to_string(&v).unwrap()).unwrap();
    }
    write_evidence(p, &o, &out, &[], serde_json::json!({}));
    println!(
        "{} {}: {} cases, {} distinct, {} observations, {} coverage keys, {:.1}s{}",
        p.id,
        if thorough { "thorough" } else { "quick" },
        out.evals,
        out.distinct,
        out.obs,
        out.keys.len(),
        out.wall,
        if out.stopped_by_time { " (time cap)" } else { "" }
    );
    if out.failures.is_empty() {
        if out.evals == 0 || out.obs == 0 {
            eprintln!("observed nothing");
            std::process::exit(2);
        }
        return;
    }
    for (n, f) in out.failures.values() {
        let path = write_replay(p.id, seed, f.i, f.max_len, thorough, &f.sig, &f.detail, &f.steps);
        println!("# [{n}x] {} :: {}", f.sig, f.detail);
        println!("VIOLATION property={} replay={path}", p.id);
    }
    std::process::exit(1);
}
