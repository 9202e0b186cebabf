mod classes;
mod encode;
mod engine;
mod equality;
mod extra;
mod gen;
mod judge;
mod model;
mod props;
mod purity;
mod raw;
mod work;

use engine::*;
use std::fmt::Write;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: purity::Counting = purity::Counting;

/// pcimon run <Cnn> <quick|thorough> | pcimon replay <file>
fn main() {
    let args: Vec<String> = std::env::args().collect();
    install_panic_hook();
    match args.get(1).map(|s| s.as_str()) {
        Some("run") if args.len() == 4 => check(&args[2], &args[3]),
        Some("literals") => print!("{}", gen::literal_lines()),
        Some("replay") if args.len() == 3 => replay(&args[2]),
        _ => {
            eprintln!("usage: pcimon run <Cnn> <quick|thorough> | pcimon replay <file>");
            std::process::exit(2);
        }
    }
}

fn number(p: &str) -> u32 {
    p.trim_start_matches('C').parse().ok().filter(|n| (1..=26).contains(n)).unwrap_or_else(|| {
        eprintln!("no such property: {p}");
        std::process::exit(2)
    })
}

fn replay(path: &str) {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("{path}: {e}");
        std::process::exit(2)
    });
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_string();
    let prop = number(&get("property"));
    match props::replay(prop, &get("kind"), &unhex(&get("a")), &unhex(&get("b"))) {
        Some(v) => {
            println!("{}", v.what);
            println!("REPRODUCED property=C{prop:02}");
            std::process::exit(1);
        }
        None => println!("not reproduced (or this kind of input is replayed by running the check): {}", get("what")),
    }
}

fn check(prop: &str, tier: &str) {
    let prop = number(prop);
    let small = tier == "small";
    let tier = match tier {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        "small" => Tier::Quick,
        t => {
            eprintln!("no such tier: {t}");
            std::process::exit(2)
        }
    };
    let env = |k: &str, d: u64| std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d);
    let mut run = Run {
        fmt_every: 1,
        prop,
        tier,
        seed: env("VERIF_SEED", 1),
        threads: env("VERIF_THREADS", std::thread::available_parallelism().map_or(4, |n| n.get() as u64)).clamp(1, 16) as usize,
        start: Instant::now(),
        total: Totals::default(),
        violation: None,
        rule: String::new(),
        assumptions: vec![],
        extra: vec![],
        deadline: Duration::from_secs(env("VERIF_DEADLINE", if tier == Tier::Quick { 300 } else { 600 })),
        truncated: false,
    };
    let needs = if small { props::small(&mut run) } else { props::run(&mut run) };
    // what other builds of the monitor saw, run just before by check.sh
    for (name, dir) in [("alternative_entry_stepping", "target/ea"), ("release_build", "target/rel"), ("address_sanitizer", "target/asan"), ("thread_sanitizer", "target/tsan"), ("miri", "target/miri")] {
        let f = format!("{dir}/C{prop:02}.json");
        if std::env::var("VERIF_EVIDENCE").is_err() {
            if let Ok(t) = std::fs::read_to_string(&f) {
                let get = |k: &str| t.split(&format!("\"{k}\":")).nth(1).map(|r| r.split([',', '}']).next().unwrap_or("").to_string()).unwrap_or_default();
                run.extra.push((name.into(), format!("{} executions, {} judgements", get("evaluations"), get("judgements"))));
                let _ = std::fs::remove_file(&f);
            }
        }
    }
    if let Some(v) = &run.violation {
        report(prop, v);
        evidence(&run, 1);
        std::process::exit(1);
    }
    // a run that saw too little decides nothing
    let mut lacking = vec![];
    for id in &needs.ok {
        if run.total.structs.get(id).map_or(0, |q| q[1]) == 0 {
            lacking.push(format!("structure {id:03x}h never decoded"));
        }
    }
    for id in &needs.err {
        if run.total.structs.get(id).map_or(0, |q| q[0]) == 0 {
            lacking.push(format!("structure {id:03x}h never refused"));
        }
    }
    for k in &needs.counts {
        if run.total.counts.get(*k).copied().unwrap_or(0) == 0 {
            lacking.push(format!("no {k}"));
        }
    }
    if run.total.events < needs.min_events {
        lacking.push(format!("only {} judgements", run.total.events));
    }
    evidence(&run, 0);
    if !lacking.is_empty() && !run.truncated {
        eprintln!("inconclusive: {}", lacking.join(", "));
        std::process::exit(3);
    }
    println!(
        "C{prop:02}: held on {} executions, {} judgements, {} distinct ({:.1} s{})",
        run.total.evals,
        run.total.events,
        run.total.seen.len(),
        run.start.elapsed().as_secs_f64(),
        if run.truncated { ", stopped at the time budget" } else { "" }
    );
}

const LEVEL: &str = "exploration";

fn evidence(run: &Run, violations: u32) {
    let t = &run.total;
    let mut s = String::new();
    let tier = if run.thorough() { "thorough" } else { "quick" };
    let mut structs = String::new();
    for (id, q) in &t.structs {
        let name = match *id {
            0..=0xff => format!("conventional {id:02x}h"),
            0x100..=0x1ff => format!("extended {:04x}h", id - 0x100),
            0x200..=0x202 => format!("header layout {}", id - 0x200),
            _ => "header layout 3 and up".to_string(),
        };
        let span = match *id {
            0..=0xff => gen::conv_len(*id as u8),
            0x100..=0x1ff => gen::ext_len((*id - 0x100) as u16),
            _ => 64,
        }
        .min(96);
        let both = t.bits.get(id).map_or(0, |(a, b)| (0..span).map(|i| (a[i] & b[i]).count_ones()).sum::<u32>());
        let _ = write!(
            structs,
            "{}\"{name}\":{{\"decoded\":{},\"refused\":{},\"bits_seen_0_and_1\":{both},\"bits\":{}}}",
            if structs.is_empty() { "" } else { "," },
            q[1],
            q[0],
            span * 8
        );
    }
    let mut counts = format!("\"novel_literals\":{}", gen::novel().len());
    for (k, v) in &t.counts {
        let _ = write!(counts, "{}{}:{v}", if counts.is_empty() { "" } else { "," }, jstr(k));
    }
    let samples: Vec<String> = t.samples.iter().map(|s| jstr(s)).collect();
    let rule = if run.rule.is_empty() {
        "hash of the bytes of a structure with at least one bit set (capped per worker)"
    } else {
        &run.rule
    };
    let assumptions: Vec<String> = run.assumptions.iter().map(|s| jstr(s)).collect();
    let extra: String = run.extra.iter().map(|(k, v)| format!(",{}:{}", jstr(k), jstr(v))).collect();
    let _ = write!(
        s,
        "{{\"property\":\"C{:02}\",\"tier\":\"{tier}\",\"seed\":{},\"level\":\"{LEVEL}\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"judgements\":{},\"structures\":{{{structs}}},\"workload\":{{{counts}}},\"stopped_at_time_budget\":{}{extra}}},\"wall_s\":{:.3},\"assumptions\":[{}],\"violations\":{violations}}}\n",
        run.prop,
        run.seed,
        t.evals,
        t.seen.len(),
        jstr(rule),
        samples.join(","),
        t.events,
        run.truncated,
        run.start.elapsed().as_secs_f64(),
        assumptions.join(","),
    );
    let dir = std::env::var("VERIF_EVIDENCE").unwrap_or_else(|_| format!("{}/evidence", verif_dir()));
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/C{:02}.json", run.prop), s) {
        eprintln!("cannot write evidence: {e}");
        std::process::exit(3);
    }
}
