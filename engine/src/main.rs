//! irsym: symbolic execution of one harness in the LLVM IR of the real code.
mod exec;
mod expr;
mod hash;
mod ir;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }

/// Everything a worker found, as text lines.
fn dump(ex: &Ex, left: usize) -> String {
    let mut s = String::new();
    let t = &ex.st;
    let _ = writeln!(s, "N\tpaths\t{}", t.paths);
    for (k, v) in [("assumed", t.assumed), ("forks", t.forks), ("instrs", t.instrs), ("decisions", t.decisions), ("dom_unsat", t.dom_unsat), ("dom_sat", t.dom_sat),
        ("checks", t.checks), ("checks_sym", t.checks_sym), ("checks_proved", t.checks_proved), ("certified", t.certified), ("hash_apps", t.hash_apps), ("hash_sym", t.hash_sym), ("hash_lemmas", t.lemmas), ("refuted", t.refuted), ("abstract_paths", t.abstract_paths), ("cached", t.cached), ("z3_queries", ex.z3.queries), ("z3_sat", ex.z3.sat), ("z3_unsat", ex.z3.unsat),
        ("z3_us", (ex.z3.time * 1e6) as u64), ("left", left as u64)] { let _ = writeln!(s, "N\t{k}\t{v}"); }
    let _ = writeln!(s, "X\tmax_path_instrs\t{}", t.max_path_instrs);
    let _ = writeln!(s, "X\tmax_depth\t{}", t.max_depth);
    for v in &ex.violations { let _ = writeln!(s, "V\t{}\t{}\t{}\t{}", v.kind, v.msg.replace(['\n', '\t'], " "), hex(&v.input), v.stack.join("\u{1}").replace(['\n', '\t'], " ")); }
    for (m, n) in &ex.internal { let _ = writeln!(s, "I\t{}\t{}", n, m.replace(['\n', '\t'], " ")); }
    for (k, n) in &ex.covers { let _ = writeln!(s, "K\t{k}\t{n}"); }
    for (m, o) in &ex.samples { let _ = writeln!(s, "S\t{}\t{}", hex(m), o); }
    let mut c = String::new();
    for (i, b) in ex.cov.iter().enumerate() { if *b { let _ = write!(c, "{i} "); } }
    let _ = writeln!(s, "C\t{c}");
    s
}

fn main() {
    let t0 = Instant::now();
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let ll = get("--ll").expect("--ll");
    let harness = get("--harness").expect("--harness");
    let jobs: usize = get("--jobs").and_then(|x| x.parse().ok()).unwrap_or(8);
    let secs: f64 = get("--time").and_then(|x| x.parse().ok()).unwrap_or(600.0);
    let src = get("--src").unwrap_or("/repo/src".into());
    let m = ir::Module::load(&ll);
    let mut ex = Ex::new(m, get("--solver-ms").and_then(|x| x.parse().ok()).unwrap_or(60_000));
    ex.certify = a.iter().any(|x| x == "--certify");
    if let Some(l) = get("--limit") { ex.limit = l.parse().unwrap(); }
    if let Some(l) = get("--samples") { ex.max_samples = l.parse().unwrap(); }
    if let Some(l) = get("--param") { ex.params = l.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(); }
    if let Some(l) = get("--seed") { ex.seed = l.parse().unwrap(); }
    if let Some(l) = get("--checks") { ex.only = Some(l.split(',').filter_map(|x| x.parse().ok()).collect()); }
    let load = t0.elapsed().as_secs_f64();
    let Some(f) = ex.entry(&harness) else { eprintln!("no such harness {harness}"); std::process::exit(3) };
    let deadline = t0 + Duration::from_secs_f64(secs);
    let st = ex.initial(f);
    let mut front = std::collections::VecDeque::from([st]);
    // breadth first until there is enough to share
    let want = if jobs > 1 { 48 * jobs } else { usize::MAX };
    let bfs_budget = Instant::now() + Duration::from_millis(1500);
    while let Some(s) = front.pop_front() {
        ex.run_one(s);
        // forks of one path, shallowest first
        front.extend(ex.work.drain(..));
        if front.len() >= want || Instant::now() > deadline || (front.len() >= jobs * 4 && Instant::now() > bfs_budget) { break; }
    }
    let mut outs: Vec<String> = vec![];
    let mut died = 0;
    if !front.is_empty() {
        let states: Vec<State> = front.into_iter().collect();
        let total = states.len();
        let ctr = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const std::sync::atomic::AtomicUsize) };
        let dir = std::env::temp_dir().join(format!("irsym.{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let mut pids = vec![];
        for w in 0..jobs {
            let pid = unsafe { fork() };
            if pid == 0 {
                // statistics of the parent are reported by the parent
                ex.st = Stats { ..Default::default() };
                ex.violations.clear();
                ex.internal.clear();
                ex.covers.clear();
                ex.samples.clear();
                (ex.z3.queries, ex.z3.sat, ex.z3.unsat, ex.z3.time) = (0, 0, 0, 0.0);
                let mut left = 0;
                loop {
                    let i = ctr.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= total { break; }
                    if Instant::now() > deadline { left += 1; continue; }
                    ex.work.push(states[i].clone());
                    if !ex.run_until(deadline) { left += ex.work.len(); ex.work.clear(); }
                }
                let p = dir.join(format!("{w}"));
                let _ = std::fs::write(&p, dump(&ex, left));
                unsafe { _exit(0) }
            }
            pids.push(pid);
        }
        for p in pids { let mut st = 0; unsafe { waitpid(p, &mut st, 0) }; if st != 0 { died += 1; } }
        for w in 0..jobs { if let Ok(s) = std::fs::read_to_string(dir.join(format!("{w}"))) { outs.push(s); } }
        let _ = std::fs::remove_dir_all(&dir);
    }
    outs.push(dump(&ex, 0));
    // merge
    let mut n: BTreeMap<String, u64> = BTreeMap::new();
    let mut viols: Vec<Vec<String>> = vec![];
    let mut ints: BTreeMap<String, u64> = BTreeMap::new();
    let mut covers: BTreeMap<u64, u64> = BTreeMap::new();
    let mut samples: Vec<(String, String)> = vec![];
    let mut cov: BTreeSet<u32> = BTreeSet::new();
    for o in &outs {
        for l in o.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            match p[0] {
                "N" => *n.entry(p[1].into()).or_insert(0) += p[2].parse::<u64>().unwrap(),
                "X" => { let e = n.entry(p[1].into()).or_insert(0); *e = (*e).max(p[2].parse().unwrap()); }
                "V" => viols.push(p[1..].iter().map(|x| x.to_string()).collect()),
                "I" => *ints.entry(p[2].into()).or_insert(0) += p[1].parse::<u64>().unwrap(),
                "K" => *covers.entry(p[1].parse().unwrap()).or_insert(0) += p[2].parse::<u64>().unwrap(),
                "S" => samples.push((p[1].into(), p[2].into())),
                "C" => cov.extend(p[1].split(' ').filter_map(|x| x.parse::<u32>().ok())),
                _ => {}
            }
        }
    }
    if died > 0 { *ints.entry("a worker process died".into()).or_insert(0) += died; }
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    viols.retain(|v| { let k = format!("{}|{}|{}", v[0], v[1], v[3].split('\u{1}').next().unwrap_or("")); let c = seen.entry(k).or_insert(0); *c += 1; *c <= 3 });
    // functions and lines of the code under test that were executed
    let mut funcs: BTreeMap<(String, String), BTreeSet<u32>> = BTreeMap::new();
    for d in cov {
        for (sp, line) in ex.m.location(d) {
            if sp.1.starts_with(&src) { funcs.entry((sp.1[src.len()..].trim_start_matches('/').to_string(), sp.0.clone())).or_default().insert(line); }
        }
    }
    if let Some(p) = get("--lines") {
        let t: String = funcs.iter().flat_map(|((f, _), l)| l.iter().map(move |n| format!("{f}:{n}\n"))).collect();
        std::fs::write(p, t).unwrap();
    }
    let mut o = String::from("{\n");
    let _ = writeln!(o, "\"harness\": {}, \"z3\": {},", js(&harness), js(&z3::version()));
    let _ = writeln!(o, "\"load_s\": {:.2}, \"wall_s\": {:.2},", load, t0.elapsed().as_secs_f64());
    for (k, v) in &n { let _ = writeln!(o, "\"{k}\": {v},"); }
    let _ = writeln!(o, "\"complete\": {},", n["left"] == 0 && ints.is_empty());
    let _ = writeln!(o, "\"internal\": [{}],", ints.iter().map(|(m, c)| format!("{{\"n\": {c}, \"msg\": {}}}", js(m))).collect::<Vec<_>>().join(", "));
    let _ = writeln!(o, "\"covers\": {{{}}},", covers.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect::<Vec<_>>().join(", "));
    let _ = writeln!(o, "\"violations\": [{}],", viols.iter().map(|v| format!("{{\"kind\": {}, \"msg\": {}, \"input\": {}, \"stack\": [{}]}}", js(&v[0]), js(&v[1]), js(&v[2]), v[3].split('\u{1}').take(25).map(js).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(",\n "));
    let _ = writeln!(o, "\"functions\": [{}],", funcs.iter().map(|((f, s), l)| format!("{{\"file\": {}, \"fn\": {}, \"lines\": {}}}", js(f), js(s), l.len())).collect::<Vec<_>>().join(",\n "));
    let _ = writeln!(o, "\"samples\": [{}]", samples.iter().map(|(i, t)| format!("[{}, {}]", js(i), js(t))).collect::<Vec<_>>().join(",\n "));
    o.push_str("}\n");
    match get("--out") { Some(p) => std::fs::write(p, o).unwrap(), None => { let _ = std::io::stdout().write_all(o.as_bytes()); } }
}
