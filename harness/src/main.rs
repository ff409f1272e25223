//! pbt run <ID> --seed N --tier quick|thorough --out FILE [--announce FILE] [--percent P] [--sub NAME] [--index I]
//!         [--threads N] [--noshrink]
//! pbt replay <ID> <SUB> <CHOICES FILE> [--tier T]
//! pbt history <ID> <SUB> (<CHOICES FILE> | --seed N --indices I,J,...) [--tier T]   several cases in one process and thread
//! pbt serve

use pbt::engine::*;
use std::time::Instant;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    install_hook();
    let code = match args.first().map(|s| s.as_str()) {
        Some("run") => run(&args[1..]),
        Some("replay") => replay(&args[1..]),
        Some("history") => history(&args[1..]),
        Some("serve") => pbt::serve::serve(),
        Some("list") => {
            for d in pbt::props::all() {
                println!("{} {}", d.id, d.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(","));
            }
            0
        }
        _ => {
            eprintln!("usage: pbt run|replay|serve|list");
            2
        }
    };
    std::process::exit(code);
}

fn opt(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn def(id: &str) -> Option<PropertyDef> {
    pbt::props::all().into_iter().find(|d| d.id == id)
}

fn run(args: &[String]) -> i32 {
    let id = args[0].clone();
    let Some(d) = def(&id) else {
        eprintln!("no property {id}");
        return 2;
    };
    let seed: u64 = opt(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = opt(args, "--tier").as_deref() == Some("thorough");
    let percent: u64 = opt(args, "--percent").and_then(|s| s.parse().ok()).unwrap_or(100);
    let threads: usize = opt(args, "--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let announce = opt(args, "--announce");
    let only = opt(args, "--sub");
    let depth = if thorough { 2 } else { 1 };
    if args.iter().any(|a| a == "--noshrink") {
        SHRINK.store(false, std::sync::atomic::Ordering::SeqCst);
    }
    let cases: u64 = opt(args, "--cases").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    if let Some(i) = opt(args, "--index") {
        let i: u64 = i.parse().unwrap();
        for s in d.subs.iter().filter(|s| only.as_deref().map_or(true, |o| o == s.name)) {
            let r = run_index(s, d.id, seed, i, depth, opt(args, "--trace").as_deref());
            println!("{} {}", s.name, r.trace.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" "));
            println!("{:?}", r.result);
        }
        return 0;
    }
    let t0 = Instant::now();
    let mut o = String::from("{");
    o.push_str(&format!("\"property\":{},\"rule\":{},\"seed\":{},\"subs\":[", json_str(d.id), json_str(d.rule), seed));
    let mut failed = false;
    let mut firstsub = true;
    for s in d.subs.iter().filter(|s| only.as_deref().map_or(true, |o| o == s.name)) {
        let n = if thorough { s.thorough } else { s.quick };
        let n = if s.enumerate || percent == 100 { n } else { (n * percent / 100).max(1) };
        let n = n.min(cases);
        let st = run_sub(d.id, s, seed, n, threads, depth, announce.as_deref());
        if !firstsub {
            o.push(',');
        }
        firstsub = false;
        o.push_str(&format!(
            "{{\"name\":{},\"cases\":{},\"evaluations\":{},\"comparisons\":{},\"nontrivial_evaluations\":{},\"distinct_nontrivial\":{},\"enumerated\":{},\"wall_s\":{:.3},\"labels\":{{{}}},\"samples\":[{}]",
            json_str(s.name), n, st.evaluations, st.inner, st.nontrivial_evals, st.nontrivial.len(), s.enumerate, st.wall,
            st.labels.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","),
            st.samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",")
        ));
        if let Some(f) = st.failure {
            failed = true;
            o.push_str(&format!(
                ",\"failure\":{{\"sub\":{},\"index\":{},\"choices\":[{}],\"message\":{},\"notes\":[{}],\"original\":[{}]}}",
                json_str(&f.sub), f.index, f.choices.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","),
                json_str(&f.message), f.notes.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(","), f.original.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")
            ));
        }
        o.push('}');
    }
    o.push_str(&format!("],\"wall_s\":{:.3}}}", t0.elapsed().as_secs_f64()));
    match opt(args, "--out") {
        Some(p) => std::fs::write(p, o).expect("cannot write the result"),
        None => println!("{o}"),
    }
    if failed { 1 } else { 0 }
}

fn replay(args: &[String]) -> i32 {
    let (id, sub, file) = (&args[0], &args[1], &args[2]);
    let Some(d) = def(id) else { return 2 };
    let Some(s) = d.subs.into_iter().find(|s| s.name == sub) else { return 2 };
    let depth = if opt(args, "--tier").as_deref() == Some("thorough") { 2 } else { 1 };
    let choices: Vec<u64> = std::fs::read_to_string(file).expect("cannot read choices").split_whitespace().map(|t| t.parse().expect("choice")).collect();
    let r = run_fixed(s.f, &choices, true, depth);
    for n in &r.notes {
        println!("note: {n}");
    }
    match r.result {
        Ok(()) => {
            println!("holds");
            0
        }
        Err(m) => {
            println!("FAILS: {m}");
            1
        }
    }
}

/// Runs cases one after another; fails when the last one does
fn history(args: &[String]) -> i32 {
    let (id, sub) = (&args[0], &args[1]);
    let Some(d) = def(id) else { return 2 };
    let Some(s) = d.subs.into_iter().find(|s| s.name == sub) else { return 2 };
    let depth = if opt(args, "--tier").as_deref() == Some("thorough") { 2 } else { 1 };
    let last = match opt(args, "--indices") {
        Some(list) => {
            let seed: u64 = opt(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let indices: Vec<u64> = list.split(',').map(|t| t.parse().expect("case number")).collect();
            indices.iter().map(|i| run_seeded(&s, d.id, seed, *i, depth)).last()
        }
        None => {
            let text = std::fs::read_to_string(&args[2]).expect("cannot read choices");
            let cases: Vec<Vec<u64>> = text.lines().map(|l| l.split_whitespace().map(|t| t.parse().expect("choice")).collect()).collect();
            cases.iter().map(|c| run_fixed(s.f, c, true, depth)).last()
        }
    };
    match last {
        Some(Run { result: Err(m), notes, .. }) => {
            for n in &notes {
                println!("note: {n}");
            }
            println!("FAILS: {m}");
            1
        }
        _ => {
            println!("holds");
            0
        }
    }
}
