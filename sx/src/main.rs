mod exec;
mod expr;
mod ir;
mod iv;
mod mem;
mod z3;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn dump(e: &exec::Exec, path: &str, wall: f64, complete: bool) {
    let s = &e.st;
    let mut o = String::from("{");
    let num = |o: &mut String, k: &str, v: f64| o.push_str(&format!("{}:{},", esc(k), v));
    num(&mut o, "paths", s.paths as f64);
    num(&mut o, "ended", s.ended as f64);
    num(&mut o, "assumed_away", s.assumed_away as f64);
    num(&mut o, "instructions", s.instrs as f64);
    num(&mut o, "forks", s.forks as f64);
    num(&mut o, "max_path_instructions", s.maxsteps as f64);
    num(&mut o, "queries", e.so.queries as f64);
    num(&mut o, "queries_sat", e.so.sat as f64);
    num(&mut o, "queries_unsat", e.so.unsat as f64);
    num(&mut o, "queries_unknown", e.so.unknown as f64);
    num(&mut o, "queries_cached", e.so.cached as f64);
    num(&mut o, "queries_second_solver", e.so.slow as f64);
    num(&mut o, "domain_decisions", s.domain as f64);
    num(&mut o, "interval_decisions", s.interval as f64);
    num(&mut o, "domain_decisions_confirmed_by_solver", s.crosschecked as f64);
    num(&mut o, "solver_seconds", e.so.secs);
    num(&mut o, "max_query_seconds", e.so.maxq);
    num(&mut o, "wall_seconds", wall);
    num(&mut o, "terms", e.ar.n.len() as f64);
    o.push_str(&format!("\"complete\":{},", complete));
    o.push_str(&format!("\"solver\":{},", esc(&e.so.version)));
    let ins = |v: &Vec<(String, u128, u32)>| {
        let v: Vec<String> = v.iter().map(|(n, x, w)| format!("[{},{},{}]", esc(n), esc(&x.to_string()), w)).collect();
        format!("[{}]", v.join(","))
    };
    let sm: Vec<String> = s
        .samples
        .iter()
        .map(|(i, c)| {
            let c: Vec<String> = c.iter().map(|x| esc(x)).collect();
            format!("{{\"inputs\":{},\"covers\":[{}]}}", ins(i), c.join(","))
        })
        .collect();
    o.push_str(&format!("\"samples\":[{}],", sm.join(",")));
    let map = |m: &BTreeMap<String, u64>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        format!("{{{}}}", v.join(","))
    };
    o.push_str(&format!("\"asserts\":{},", map(&s.asserts)));
    o.push_str(&format!("\"covers\":{},", map(&s.covers)));
    let er: Vec<String> = s.errors.iter().map(|x| esc(x)).collect();
    o.push_str(&format!("\"errors\":[{}],", er.join(",")));
    let lg: Vec<String> = s.logs.iter().map(|x| esc(x)).collect();
    o.push_str(&format!("\"logs\":[{}],", lg.join(",")));
    let vs: Vec<String> = e
        .viol
        .iter()
        .map(|v| {
            format!("{{\"kind\":{},\"id\":{},\"at\":{},\"known\":{},\"inputs\":{}}}", esc(&v.kind), esc(&v.id), esc(&v.at), v.known, ins(&v.inputs))
        })
        .collect();
    o.push_str(&format!("\"violations\":[{}],", vs.join(",")));
    // functions and lines of the code under test that were executed
    let mut lines: BTreeMap<String, BTreeSet<(String, u32)>> = BTreeMap::new();
    for (f, b) in &e.covered {
        if let Some(body) = e.m.funcs[*f as usize].body.as_ref() {
            for i in &body.blocks[*b as usize].ins {
                if i.dbg != 0 {
                    for (func, file, line) in e.m.loc(i.dbg) {
                        if file.contains("/repo/src/") || file.contains("/repo/derive/") {
                            lines.entry(func).or_default().insert((file, line));
                        }
                    }
                }
            }
        }
    }
    let fs: Vec<String> = lines
        .iter()
        .map(|(f, ls)| {
            let v: Vec<String> = ls.iter().map(|(a, b)| format!("[{},{}]", esc(a), b)).collect();
            format!("{}:[{}]", esc(f), v.join(","))
        })
        .collect();
    o.push_str(&format!("\"functions\":{{{}}},", fs.join(",")));
    let mut hot: Vec<_> = e.hot.iter().collect();
    hot.sort_by_key(|x| std::cmp::Reverse(*x.1));
    let hs: Vec<String> = hot
        .iter()
        .take(15)
        .map(|((f, b, i), n)| {
            let fu = &e.m.funcs[*f as usize];
            let d = fu.body.as_ref().map(|x| x.blocks[*b as usize].ins[*i as usize].dbg).unwrap_or(0);
            let l: Vec<String> = e.m.loc(d).into_iter().take(4).map(|(f, file, line)| format!("{f} ({file}:{line})")).collect();
            format!("[{},{},{}]", n, esc(&fu.name), esc(&l.join(" < ")))
        })
        .collect();
    o.push_str(&format!("\"hot\":[{}]}}", hs.join(",")));
    let mut f = std::fs::File::create(path).unwrap();
    f.write_all(o.as_bytes()).unwrap();
}

fn main() {
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::from("/dev/stdout");
    let mut jobs = 1usize;
    let mut cfg = exec::Cfg { max_steps: 20_000_000, max_viol: 20, env: vec![], deadline: None, stop: None, trace: false, max_paths: u64::MAX, crosscheck: false, confirm: 3, plain: false, fork_select: false };
    let mut fast = 3000;
    let mut full = 60000;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut n = || it.next().expect("argument");
        match a.as_str() {
            "--ir" => ll = n(),
            "--entry" => entry = n(),
            "--out" => out = n(),
            "--jobs" => jobs = n().parse().unwrap(),
            "--max-steps" => cfg.max_steps = n().parse().unwrap(),
            "--max-viol" => cfg.max_viol = n().parse().unwrap(),
            "--max-paths" => cfg.max_paths = n().parse().unwrap(),
            "--time" => cfg.deadline = Some(Instant::now() + Duration::from_secs_f64(n().parse().unwrap())),
            "--stop" => {
                let f = n();
                cfg.stop = Some((f, 40));
            }
            "--fast-ms" => fast = n().parse().unwrap(),
            "--full-ms" => full = n().parse().unwrap(),
            "--fork-select" => cfg.fork_select = true,
            "--crosscheck" => cfg.crosscheck = true,
            "--plain" => cfg.plain = true,
            "--trace" => cfg.trace = true,
            "--env" => {
                let v = n();
                let (k, x) = v.split_once('=').unwrap();
                cfg.env.push((k.into(), x.into()));
            }
            _ => panic!("unknown argument {a}"),
        }
    }
    let child = std::thread::Builder::new().stack_size(1 << 30).spawn(move || real(ll, entry, out, jobs, cfg, fast, full)).unwrap();
    if child.join().is_err() {
        std::process::exit(3);
    }
}

fn real(ll: String, entry: String, out: String, jobs: usize, cfg: exec::Cfg, fast: u32, full: u32) {
    let t0 = Instant::now();
    let text = std::fs::read(&ll).expect("IR file");
    let m = ir::Module::load(text);
    let so = z3::Solver::new(fast, full);
    let mut e = exec::Exec::new(m, so, cfg);
    e.start(&entry);
    if jobs <= 1 {
        e.explore(0);
        let complete = e.work.is_empty();
        dump(&e, &out, t0.elapsed().as_secs_f64(), complete);
        return;
    }
    e.explore(jobs * 12);
    let front: Vec<_> = e.work.drain(..).collect();
    if front.is_empty() || e.over() {
        e.work = front;
        let complete = e.work.is_empty();
        dump(&e, &out, t0.elapsed().as_secs_f64(), complete);
        return;
    }
    // distribute the frontier over child processes, one chunk at a time
    dump(&e, &out, t0.elapsed().as_secs_f64(), true);
    e.st = exec::Stats::default();
    e.viol.clear();
    e.hot.clear();
    e.so.queries = 0;
    e.so.sat = 0;
    e.so.unsat = 0;
    e.so.cached = 0;
    e.so.slow = 0;
    e.so.unknown = 0;
    e.so.secs = 0.0;
    let n = front.len();
    let chunks = n.min(jobs * 6);
    let mut running = 0;
    let mut failed = false;
    let mut wait = |running: &mut usize| {
        let mut st = 0;
        unsafe { waitpid(-1, &mut st, 0) };
        if st != 0 {
            failed = true;
        }
        *running -= 1;
    };
    for c in 0..chunks {
        if running >= jobs {
            wait(&mut running);
        }
        let pid = unsafe { fork() };
        if pid == 0 {
            let t1 = Instant::now();
            e.work = front.iter().enumerate().filter(|(i, _)| i % chunks == c).map(|(_, s)| s.clone()).collect();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                e.explore(0);
                let complete = e.work.is_empty();
                dump(&e, &format!("{out}.{c}"), t1.elapsed().as_secs_f64(), complete);
            }));
            unsafe { _exit(if r.is_ok() { 0 } else { 3 }) }
        }
        running += 1;
    }
    while running > 0 {
        wait(&mut running);
    }
    if failed {
        std::process::exit(3);
    }
    eprintln!("wall {:.1}", t0.elapsed().as_secs_f64());
}
