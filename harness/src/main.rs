mod conv;
mod corpus;
mod engine;
mod gen;
mod model;
mod props;
mod term;

use engine::{Config, Tier};
use model::{Outcome, Stop};

fn show_model(src: &str) -> String {
    let p = model::parse(src);
    match p.out {
        Outcome::Ok(t) => format!("OK {}", t.show()),
        Outcome::Stop(Stop::Reject { pos, end, eof, late }) => format!("REJECT {}..{} eof={} late={}", pos, end, eof, late),
        Outcome::Stop(Stop::Unspec(r)) => format!("UNSPEC {}", r),
    }
}

fn show_impl(src: &str) -> String {
    match ratel::parse(src) {
        Ok(m) => format!("OK {}", conv::program(m.body()).show()),
        Err(e) => format!("REJECT {:?}", e),
    }
}

fn find(id: &str) -> &'static dyn engine::Property {
    match props::all().into_iter().find(|p| p.id() == id) {
        Some(p) => p,
        None => { eprintln!("unknown property {}", id); std::process::exit(2) }
    }
}

fn check(id: &str, tier: Tier, verif: &str) -> i32 {
    use std::sync::atomic::Ordering::Relaxed;
    let prop = find(id);
    let start = std::time::Instant::now();
    let known: Vec<engine::Known> = engine::read_known(&format!("{}/known-findings.txt", verif));
    let mut listed = 0;
    for k in known.iter().filter(|k| k.prop == id) {
        match engine::alone(prop, &k.kind, &k.data) {
            Some(_) => { listed += 1; println!("KNOWN-FINDING: property={} {}", id, k.what); }
            None => println!("note: the finding {:?} no longer shows", k.what),
        }
    }
    let _ = engine::KNOWN.set(known);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let cfg = Config { tier, seed, verif: verif.into(), keep_going: false, only: None };
    let s = engine::explore(prop, &cfg);
    let g = |a: &std::sync::atomic::AtomicU64| a.load(Relaxed);
    let mut found = s.violations.clone();
    found.sort_by_key(|v| engine::read_replay(&v.0).map_or(usize::MAX, |r| r.2.len()));
    for (path, kind, msg) in &found {
        println!("VIOLATION property={} replay={}", id, path);
        println!("  {} case: {}", kind, msg);
    }
    let incomplete = found.is_empty() && !s.complete;
    let sh = s.shared;
    let evidence = serde_json::json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": cfg.seed,
        "level": "model_checking",
        "coverage": {
            "states": g(&sh.states),
            "transitions": g(&sh.transitions),
            "traces_validated_against_impl": g(&sh.compared),
            "samples": s.samples,
            "exhaustive": s.complete,
            "scope": prop.scope(tier),
            "states_reached_again": g(&sh.duplicates),
            "model_accepts": g(&sh.accepted),
            "model_rejects": g(&sh.rejected),
            "model_leaves_open": g(&sh.open),
            "checked_without_verdict_of_the_model": g(&sh.skipped),
            "shards_completed": g(&sh.tasks_done),
            "shards": s.tasks,
            "known_findings_shown": listed,
        },
        "assumptions": prop.assumptions(),
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": found.len(),
    });
    let dir = format!("{}/evidence", verif);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, id), serde_json::to_string_pretty(&evidence).unwrap() + "\n") { eprintln!("cannot write evidence: {}", e); return 2; }
    println!("{} {:?}: {} states, {} transitions, {} compared with the model, {} shards of {}, {:.1} s", id, tier, g(&sh.states), g(&sh.transitions), g(&sh.compared), g(&sh.tasks_done), s.tasks, start.elapsed().as_secs_f64());
    if !found.is_empty() { 1 } else if incomplete { eprintln!("the exploration is not complete"); 2 } else { 0 }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let flag = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    match args.get(1).map(|s| s.as_str()) {
        Some("tree") => println!("model {}\nimpl  {}", show_model(&args[2]), show_impl(&args[2])),
        Some("spans") => {
            fn go(t: &term::T, src: &str, depth: usize) {
                let text = src.get(t.s as usize..t.e as usize).unwrap_or("-");
                if t.k != term::K::None { println!("{}{:?} {} {:?}", "  ".repeat(depth), t.k, t.v, text); }
                for c in &t.c { go(c, src, depth + 1); }
            }
            if let Ok(m) = ratel::parse(&args[2]) { go(&conv::program(m.body()), &args[2], 0); }
        }
        Some("trees") => for l in std::io::stdin().lines() {
            let l = l.unwrap().replace("\\n", "\n");
            println!("{:?}\n  model {}\n  impl  {}", l, show_model(&l), show_impl(&l));
        },
        Some("export") => {
            // texts with the model's verdict and tree, for comparison with another parser
            std::env::set_var("MC_EXPORT", flag("--every").unwrap_or_else(|| "1".into()));
            let cfg = Config { tier: Tier::Quick, seed: 1, verif: "/tmp/mcdev".into(), keep_going: true, only: flag("--only") };
            engine::explore(find("export"), &cfg);
        }
        Some("dev") => {
            let cfg = Config {
                tier: if flag("--tier").map_or(false, |t| t == "thorough") { Tier::Thorough } else { Tier::Quick },
                seed: 1, verif: "/tmp/mcdev".into(), keep_going: true, only: flag("--only"),
            };
            let max: usize = flag("--max").and_then(|m| m.parse().ok()).unwrap_or(40);
            let t0 = std::time::Instant::now();
            let s = engine::explore(find(&args[2]), &cfg);
            let mut v: Vec<_> = s.violations.iter().filter_map(|v| engine::read_replay(&v.0)).collect();
            v.sort_by_key(|v| (v.2.len(), v.2.clone()));
            for (k, m, d) in v.iter().take(max) { println!("{} {:?}\n    {}", k, d, m); }
            use std::sync::atomic::Ordering::Relaxed;
            let g = |a: &std::sync::atomic::AtomicU64| a.load(Relaxed);
            println!("{} violations; {} states ({} accepted {} rejected {} open), {} duplicates, {} transitions, {} compared, {}/{} tasks, complete {}, {:.1}s",
                v.len(), g(&s.shared.states), g(&s.shared.accepted), g(&s.shared.rejected), g(&s.shared.open), g(&s.shared.duplicates),
                g(&s.shared.transitions), g(&s.shared.compared), g(&s.shared.tasks_done), s.tasks, s.complete, t0.elapsed().as_secs_f32());
        }
        Some("check") => {
            let id = args.get(2).cloned().unwrap_or_default();
            let tier = match flag("--tier").as_deref() { Some("thorough") => Tier::Thorough, _ => Tier::Quick };
            std::process::exit(check(&id, tier, &verif));
        }
        Some("replay") => {
            let path = args.get(2).cloned().unwrap_or_default();
            let id = flag("--property").or_else(|| std::path::Path::new(&path).parent().and_then(|p| p.file_name()).map(|n| n.to_string_lossy().into_owned())).unwrap_or_default();
            let (kind, _, data) = match engine::read_replay(&path) { Some(r) => r, None => { eprintln!("cannot read {}", path); std::process::exit(2) } };
            println!("{} {:?}", kind, data);
            match engine::alone(find(&id), &kind, &data) {
                Some(m) => { println!("VIOLATION property={} replay={}\n{}", id, path, m); std::process::exit(1) }
                None => println!("the property holds"),
            }
        }
        _ => { eprintln!("usage: mc check <property> [--tier quick|thorough] | replay <file> | tree <text>"); std::process::exit(2) }
    }
}
