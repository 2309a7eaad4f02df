mod exec;
mod expr;
mod ir;
mod solver;
use exec::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// readable form of a v0-mangled name: its identifiers joined by "::"
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut parts: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j > i {
                i = j + 1;
                continue;
            }
        }
        if b[i] == b'B' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            i = j + 1;
            continue;
        }
        if b[i].is_ascii_digit() {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let l: usize = n[i..j].parse().unwrap_or(0);
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if l == 0 || j + l > b.len() {
                i = j;
                continue;
            }
            parts.push(n[j..j + l].to_string());
            i = j + l;
            continue;
        }
        i += 1;
    }
    parts.join("::")
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let mut ll = String::new();
    let mut harness: Vec<String> = vec![];
    let mut threads = 8usize;
    let mut out = String::new();
    let mut limit = 600u64;
    let mut max_steps = 3_000_000u64;
    let mut max_alloc = 1u64 << 20;
    let mut max_depth = 2000usize;
    let mut tmo = 20_000u32;
    let mut verbose = false;
    let mut max_viol = 24usize;
    let mut after_viol = u64::MAX;
    let mut prefix = vec!["/repo/".to_string()];
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("value");
        match a.as_str() {
            "--ll" => ll = v(),
            "--harness" => harness.push(v()),
            "--threads" => threads = v().parse().unwrap(),
            "--out" => out = v(),
            "--limit" => limit = v().parse().unwrap(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--max-alloc" => max_alloc = v().parse().unwrap(),
            "--max-depth" => max_depth = v().parse().unwrap(),
            "--solver-timeout" => tmo = v().parse().unwrap(),
            "--after-viol" => after_viol = v().parse().unwrap(),
            "--max-viol" => max_viol = v().parse().unwrap(),
            "--src" => prefix.push(v()),
            "-v" => verbose = true,
            _ => {
                eprintln!("unknown option {}", a);
                std::process::exit(2);
            }
        }
    }
    let t0 = Instant::now();
    let text = std::fs::read(&ll).expect("read ll");
    let m = match ir::parse(&text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("IR parse error: {}", e);
            std::process::exit(2);
        }
    };
    drop(text);
    let parse_time = t0.elapsed().as_secs_f64();
    let mut js_h: Vec<String> = vec![];
    solver::watchdog();
    for h in &harness {
        let entry = match m.func_by_name.get(h) {
            Some(e) => *e,
            None => {
                eprintln!("no harness {}", h);
                std::process::exit(2);
            }
        };
        let t1 = Instant::now();
        let ext = m.externs.iter().map(|n| classify(n)).collect();
        let special = m
            .funcs
            .iter()
            .map(|f| {
                let n = &f.name;
                if n.ends_with("4core9panicking9panic_fmt") {
                    1
                } else if n.ends_with("9panicking18panic_nounwind_fmt") || n.ends_with("9panicking14panic_nounwind") || n.ends_with("panic_cannot_unwind") {
                    2
                } else {
                    0
                }
            })
            .collect();
        let mut q = VecDeque::new();
        q.push_back(Item { ds: vec![], model: vec![] });
        let sh = Shared {
            m: &m,
            ext,
            special,
            entry,
            queue: Mutex::new(q),
            cv: Condvar::new(),
            idle: AtomicUsize::new(0),
            threads,
            stop: AtomicBool::new(false),
            t0: t1,
            deadline: AtomicU64::new(limit * 1000),
            after_viol,
            max_steps,
            max_alloc,
            max_depth,
            timeout_ms: tmo,
            max_viol,
            viol: Mutex::new(vec![]),
            verbose,
        };
        solver::stop_at(Some(t1 + Duration::from_secs(limit)));
        let stats: Mutex<Vec<Stats>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(1 << 30)
                    .spawn_scoped(s, || {
                        let mut w = Worker::new(&sh);
                        w.run();
                        stats.lock().unwrap().push(std::mem::take(&mut w.st));
                    })
                    .unwrap();
            }
        });
        let mut t = Stats::default();
        let mut fs: BTreeSet<u32> = BTreeSet::new();
        let mut ls: BTreeSet<u32> = BTreeSet::new();
        for s in stats.into_inner().unwrap() {
            t.paths += s.paths;
            t.assumed_away += s.assumed_away;
            t.forks += s.forks;
            t.steps += s.steps;
            t.max_steps = t.max_steps.max(s.max_steps);
            t.max_vars = t.max_vars.max(s.max_vars);
            t.asserts += s.asserts;
            t.covers |= s.covers;
            t.want_covers |= s.want_covers;
            t.concretized += s.concretized;
            t.nodes += s.nodes;
            for (v, set) in [(&s.funcs, &mut fs), (&s.lines, &mut ls)] {
                for (i, w) in v.iter().enumerate() {
                    for b in 0..64 {
                        if w >> b & 1 == 1 {
                            set.insert(i as u32 * 64 + b);
                        }
                    }
                }
            }
            t.solver.queries += s.solver.queries;
            t.solver.cache_hits += s.solver.cache_hits;
            t.solver.z3_sat += s.solver.z3_sat;
            t.solver.z3_unsat += s.solver.z3_unsat;
            t.solver.z3_unknown += s.solver.z3_unknown;
            t.solver.time += s.solver.time;
            t.solver.hard += s.solver.hard;
            t.solver.max = t.solver.max.max(s.solver.max);
            t.samples.extend(s.samples);
            for (k, v) in s.inconclusive {
                *t.inconclusive.entry(k).or_insert(0) += v;
            }
            for (k, v) in s.fork_sites {
                *t.fork_sites.entry(k).or_insert(0) += v;
            }
            for (k, v) in s.queries_by_site {
                *t.queries_by_site.entry(k).or_insert(0) += v;
            }
        }
        // functions and source lines of the code under test that were executed
        let mut funcs: BTreeSet<String> = BTreeSet::new();
        let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
        for d in &ls {
            let mut d = *d;
            while d != 0 {
                if let Some((f, l, n)) = m.src(d) {
                    if let Some(p) = prefix.iter().find(|p| f.starts_with(p.as_str())) {
                        funcs.insert(demangle(&n));
                        lines.entry(f[p.len()..].to_string()).or_default().insert(l);
                    }
                }
                d = m.locs.get(&d).map(|x| x.2).unwrap_or(0);
            }
        }
        let viol = sh.viol.into_inner().unwrap();
        let wall = t1.elapsed().as_secs_f64();
        let missing = t.want_covers & !t.covers;
        eprintln!(
            "{}: paths {} (+{} assumed away) forks {} steps {} (max {}) vars {} asserts {} queries {} (z3 {} sat {} unsat {} unknown, {} cached) z3 {:.1}s max {:.2}s wall {:.1}s nodes {} viol {} incon {:?} covers missing {:#x}",
            h, t.paths, t.assumed_away, t.forks, t.steps, t.max_steps, t.max_vars, t.asserts, t.solver.queries, t.solver.z3_sat, t.solver.z3_unsat, t.solver.z3_unknown, t.solver.cache_hits,
            t.solver.time, t.solver.max, wall, t.nodes, viol.len(), t.inconclusive, missing
        );
        if verbose {
            for (nm, mp) in [("forks", &t.fork_sites), ("queries", &t.queries_by_site)] {
                let mut v: Vec<_> = mp.iter().collect();
                v.sort_by_key(|x| std::cmp::Reverse(*x.1));
                for (k, c) in v.iter().take(25) {
                    let mut d = k.1;
                    let mut ch = vec![];
                    while d != 0 {
                        if let Some((f, l, _)) = m.src(d) {
                            ch.push(format!("{}:{}", f.rsplit('/').next().unwrap_or(""), l));
                        }
                        d = m.locs.get(&d).map(|x| x.2).unwrap_or(0);
                    }
                    eprintln!("  {} {} in {} {}", nm, c, demangle(&m.funcs[k.0 as usize].name), ch.join(" < "));
                }
            }
            for (f, l) in &lines {
                eprintln!("  lines {} {:?}", f, l);
            }
        }
        let vs: Vec<String> = viol
            .iter()
            .map(|v| format!("{{\"kind\":{},\"at\":{},\"input\":\"{}\"}}", js(&v.kind), js(&v.at), v.input.iter().map(|b| format!("{:02x}", b)).collect::<String>()))
            .collect();
        let inc: Vec<String> = t.inconclusive.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let sj: Vec<String> = t
            .samples
            .iter()
            .map(|v| {
                format!(
                    "{{\"input\":\"{}\",\"covers\":{},\"asserts\":{},\"trace\":{:?}}}",
                    v.input.iter().map(|b| format!("{:02x}", b)).collect::<String>(),
                    v.covers,
                    v.asserts,
                    v.trace
                )
            })
            .collect();
        let lj: Vec<String> = lines.iter().map(|(f, l)| format!("{}:{}", js(f), l.len())).collect();
        js_h.push(format!(
            "{{\"harness\":{},\"paths\":{},\"assumed_away\":{},\"forks\":{},\"steps\":{},\"max_steps\":{},\"input_bytes\":{},\"asserts\":{},\"queries\":{},\"cache_hits\":{},\"z3_sat\":{},\"z3_unsat\":{},\"z3_unknown\":{},\"solver_seconds\":{:.3},\"max_query_seconds\":{:.3},\"wall_seconds\":{:.3},\"covers_missing\":{},\"violations\":[{}],\"inconclusive\":{{{}}},\"functions\":[{}],\"ir_functions\":{},\"lines\":{{{}}},\"samples\":[{}]}}",
            js(h), t.paths, t.assumed_away, t.forks, t.steps, t.max_steps, t.max_vars, t.asserts, t.solver.queries, t.solver.cache_hits, t.solver.z3_sat, t.solver.z3_unsat, t.solver.z3_unknown,
            t.solver.time, t.solver.max, wall, missing,
            vs.join(","), inc.join(","), funcs.iter().map(|f| js(f)).collect::<Vec<_>>().join(","), fs.len(), lj.join(","), sj.join(",")
        ));
    }
    let j = format!("{{\"parse_seconds\":{:.3},\"ir_functions\":{},\"harnesses\":[{}]}}\n", parse_time, m.funcs.len(), js_h.join(",\n"));
    if out.is_empty() {
        if verbose {
            println!("{}", j);
        }
    } else {
        std::fs::write(&out, j).unwrap();
    }
}
