//! symx: symbolic execution of LLVM IR produced from the Rust sources under
//! test. See ../DESIGN.md.
mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
use exec::*;
use std::collections::{BTreeMap, VecDeque};
use std::io::Write;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn prctl(a: i32, b: u64) -> i32;
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\t', "\\t").replace('\n', "\\n")
}

fn dump(ex: &Ex, path: &str) {
    let mut o = String::new();
    let s = &ex.st;
    let mut kv = |k: &str, v: String| {
        o.push_str(&format!("n\t{}\t{}\n", k, v));
    };
    kv("paths", s.paths.to_string());
    kv("assumed", s.assumed.to_string());
    kv("panics_ok", s.panics_ok.to_string());
    kv("forks", s.forks.to_string());
    kv("insts", s.insts.to_string());
    kv("checks", s.checks.to_string());
    kv("checks_sym", s.checks_sym.to_string());
    kv("queries", ex.sol.queries.to_string());
    kv("cache_hits", ex.sol.hits.to_string());
    kv("sat", ex.sol.sat.to_string());
    kv("unsat", ex.sol.unsat.to_string());
    kv("unknown", ex.sol.unknown.to_string());
    kv("solver_us", ((ex.sol.secs * 1e6) as u64).to_string());
    for (k, v) in &s.covers {
        o.push_str(&format!("c\t{}\t{}\n", esc(k), v));
    }
    for (k, v) in &s.errors {
        o.push_str(&format!("e\t{}\t{}\n", esc(k), v));
    }
    for (k, v) in &s.limits {
        o.push_str(&format!("l\t{}\t{}\n", esc(k), v));
    }
    for (i, f) in ex.prog.fns.iter().enumerate() {
        if f.calls > 0 {
            let ni = f.parsed.as_ref().map_or(0, |p| p.ninsts);
            o.push_str(&format!("f\t{}\t{}\t{}\n", i, f.calls, ni));
        }
    }
    for (id, (a, b)) in &s.prof {
        eprintln!("P\t{}\t{}\t{}", b, a, ex.prog.fns[*id as usize].name);
    }
    for (k, v) in &s.violations {
        o.push_str(&format!("v\t{}\t{}\t{}\t{}\t{}\n", esc(&v.kind), esc(&v.msg), s.vcount[k], esc(&v.trace), v.inputs.len()));
        for (n, w, x, h) in &v.inputs {
            o.push_str(&format!("i\t{}\t{}\t{:x}\t{}\n", esc(n), w, x, *h as u8));
        }
    }
    for (k, l) in &s.witnesses {
        for w in l {
            o.push_str(&format!("w\t{}\t{}\n", esc(k), w.len()));
            for (n, w, x, h) in w {
                o.push_str(&format!("i\t{}\t{}\t{:x}\t{}\n", esc(n), w, x, *h as u8));
            }
        }
    }
    std::fs::write(path, o).unwrap();
}

#[derive(Default)]
struct Total {
    n: BTreeMap<String, u64>,
    c: BTreeMap<String, u64>,
    e: BTreeMap<String, u64>,
    l: BTreeMap<String, u64>,
    f: BTreeMap<usize, (u64, u64)>,
    v: Vec<(String, Vec<String>)>, // key line, inputs
    w: Vec<(String, Vec<String>)>,
}
fn absorb(t: &mut Total, text: &str, first: bool) {
    let mut skip = false;
    let mut wit = false;
    for l in text.lines() {
        let p: Vec<&str> = l.split('\t').collect();
        let num = |i: usize| p[i].parse::<u64>().unwrap_or(0);
        match p[0] {
            "n" => *t.n.entry(p[1].into()).or_insert(0) += num(2),
            "c" => *t.c.entry(p[1].into()).or_insert(0) += num(2),
            "e" => *t.e.entry(p[1].into()).or_insert(0) += num(2),
            "l" => *t.l.entry(p[1].into()).or_insert(0) += num(2),
            "f" => {
                let e = t.f.entry(num(1) as usize).or_insert((0, 0));
                e.0 += num(2);
                e.1 = e.1.max(num(3));
            }
            "w" => {
                wit = true;
                skip = t.w.len() >= 40 || t.w.iter().filter(|x| x.0 == p[1]).count() >= 6;
                if !skip {
                    t.w.push((p[1].into(), vec![]));
                }
            }
            "v" => {
                wit = false;
                let key = format!("{}\t{}", p[1], p[2]);
                skip = t.v.iter().any(|x| x.0.starts_with(&(key.clone() + "\t")));
                if !skip {
                    t.v.push((format!("{}\t{}\t{}", key, p[3], p[4]), vec![]));
                }
            }
            "i" => {
                if !skip {
                    let l = if wit { &mut t.w } else { &mut t.v };
                    l.last_mut().unwrap().1.push(format!("{}\t{}\t{}\t{}", p[1], p[2], p[3], p[4]));
                }
            }
            _ => {}
        }
    }
    let _ = first;
}

/// statistics start afresh in a new worker
fn fresh(ex: &mut Ex) {
    ex.st = Stats::default();
    ex.sol.queries = 0;
    ex.sol.hits = 0;
    ex.sol.sat = 0;
    ex.sol.unsat = 0;
    ex.sol.unknown = 0;
    ex.sol.secs = 0.0;
    for f in ex.prog.fns.iter_mut() {
        f.calls = 0;
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut mods = vec![];
    let mut entry = String::new();
    let mut out = String::from("/dev/stdout");
    let mut workers = 1usize;
    let mut secs = 600u64;
    let mut steps = 200_000_000u64;
    let mut stop = true;
    let mut trace = false;
    let mut prof = false;
    let mut params = BTreeMap::new();
    let mut rl = 40_000_000u32;
    let mut part = String::from("/tmp");
    let mut i = 1;
    let mut nomerge = false;
    while i < args.len() {
        let a = &args[i];
        let nx = || args[i + 1].clone();
        match a.as_str() {
            "--entry" => entry = nx(),
            "--out" => out = nx(),
            "--tmp" => part = nx(),
            "--workers" => workers = nx().parse().unwrap(),
            "--secs" => secs = nx().parse().unwrap(),
            "--steps" => steps = nx().parse().unwrap(),
            "--rlimit" => rl = nx().parse().unwrap(),
            "--list" => {
                for l in std::fs::read_to_string(nx()).unwrap().lines() {
                    if !l.is_empty() {
                        mods.push(l.to_string())
                    }
                }
            }
            "--param" => {
                let v = nx();
                let (k, x) = v.split_once('=').unwrap();
                params.insert(k.to_string(), x.parse().unwrap());
            }
            "--all" => {
                stop = false;
                i += 1;
                continue;
            }
            "--trace" => {
                trace = true;
                i += 1;
                continue;
            }
            "--nomerge" => {
                nomerge = true;
                i += 1;
                continue;
            }
            "--prof" => {
                prof = true;
                i += 1;
                continue;
            }
            m => {
                mods.push(m.to_string());
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    std::panic::set_hook(Box::new(|i| eprintln!("symx: {}", i)));
    let t0 = Instant::now();
    let mut prog = ir::Prog::new();
    for m in &mods {
        if let Err(e) = prog.load(m) {
            eprintln!("symx: {}: {}", m, e);
            std::process::exit(3);
        }
    }
    let t_load = t0.elapsed().as_secs_f64();
    let e: &'static [u8] = Box::leak(entry.clone().into_bytes().into_boxed_slice());
    let Some(&fid) = prog.gfn.get(e) else {
        eprintln!("symx: no entry {}", entry);
        std::process::exit(3);
    };
    let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *mut u32;
    let mut ex = Ex {
        prog,
        ar: expr::Arena::new(),
        sol: solver::Solver::new(rl),
        work: VecDeque::new(),
        st: Stats::default(),
        path_limit: steps,
        deadline: t0 + Duration::from_secs(secs),
        stop_on_violation: stop,
        stop: false,
        shared_stop: shared,
        merge_loads: !nomerge,
        prof,
        trace,
        params,
    };
    let mut s = State::new();
    if let Err(_) = ex.enter(&mut s, fid, vec![], u32::MAX, std::ptr::null()) {
        eprintln!("symx: cannot enter {}", entry);
        std::process::exit(3);
    }
    ex.work.push_back(s);
    let target = if workers <= 1 { usize::MAX } else { workers * 24 };
    let mut n = 0usize;
    let ramp = Instant::now();
    while !ex.stop && ex.work.len() < target && (workers <= 1 || ramp.elapsed().as_secs() < 20 || ex.work.len() < 2) {
        // breadth first while ramping up, depth first otherwise
        let s = if workers > 1 { ex.work.pop_front() } else { ex.work.pop_back() };
        let Some(mut s) = s else { break };
        let r = ex.run_state(&mut s);
        ex.finish(&s, r);
        n += 1;
        let _ = n;
    }
    let mut tot = Total::default();
    let mut crashed = 0;
    if !ex.work.is_empty() && !ex.stop {
        // share the frontier among forked workers
        let pending = std::mem::take(&mut ex.work).into_iter().collect::<Vec<_>>();
        let pid = std::process::id();
        let p0 = format!("{}/symx.{}.parent", part, pid);
        dump(&ex, &p0);
        absorb(&mut tot, &std::fs::read_to_string(&p0).unwrap(), true);
        let _ = std::fs::remove_file(&p0);
        // how many initial states are taken; how many workers there are now;
        // how many there have been
        let at = |i: usize| unsafe { &*(shared.add(i) as *const AtomicU32) };
        let (ctr, active, serial) = (at(16), at(32), at(48));
        active.store(workers as u32, SeqCst);
        serial.store(workers as u32, SeqCst);
        // workers left behind by the ones that started them come to us
        unsafe { prctl(36, 1) };
        let mut pend: Vec<Option<State>> = pending.into_iter().map(Some).collect();
        for w in 0..workers {
            let c = unsafe { fork() };
            if c == 0 {
                unsafe { prctl(1, 9) };
                fresh(&mut ex);
                let mut me = w;
                'all: loop {
                    let k = ctr.fetch_add(1, SeqCst) as usize;
                    if k >= pend.len() {
                        break;
                    }
                    for j in 0..k {
                        pend[j] = None;
                    }
                    ex.work.push_back(pend[k].take().unwrap());
                    while let Some(mut s) = ex.work.pop_back() {
                        if unsafe { std::ptr::read_volatile(shared) } != 0 {
                            break 'all;
                        }
                        if Instant::now() > ex.deadline {
                            *ex.st.limits.entry("time budget".into()).or_insert(0) += 1 + ex.work.len() as u64;
                            ex.work.clear();
                            break;
                        }
                        let r = ex.run_state(&mut s);
                        ex.finish(&s, r);
                        drop(s);
                        if ex.stop {
                            break 'all;
                        }
                        // where others have nothing left to do, share
                        if ex.work.len() >= 2 && ctr.load(SeqCst) as usize >= pend.len() && active.load(SeqCst) < workers as u32 {
                            if active.fetch_add(1, SeqCst) >= workers as u32 {
                                active.fetch_sub(1, SeqCst);
                                continue;
                            }
                            let id = serial.fetch_add(1, SeqCst) as usize;
                            let c = unsafe { fork() };
                            let mut odd = c == 0;
                            ex.work.retain(|_| {
                                odd = !odd;
                                odd
                            });
                            if c == 0 {
                                me = id;
                                fresh(&mut ex);
                            }
                        }
                    }
                }
                dump(&ex, &format!("{}/symx.{}.{}", part, pid, me));
                active.fetch_sub(1, SeqCst);
                unsafe { _exit(0) };
            }
        }
        loop {
            let mut st = 0i32;
            if unsafe { waitpid(-1, &mut st, 0) } < 0 {
                break;
            }
            if st != 0 {
                crashed += 1;
                active.fetch_sub(1, SeqCst);
            }
        }
        for w in 0..serial.load(SeqCst) {
            let p = format!("{}/symx.{}.{}", part, pid, w);
            if let Ok(t) = std::fs::read_to_string(&p) {
                absorb(&mut tot, &t, false);
            } else if crashed == 0 {
                crashed += 1;
            }
            let _ = std::fs::remove_file(&p);
        }
    } else {
        let p0 = format!("{}/symx.{}.parent", part, std::process::id());
        dump(&ex, &p0);
        absorb(&mut tot, &std::fs::read_to_string(&p0).unwrap(), true);
        let _ = std::fs::remove_file(&p0);
    }
    if crashed > 0 {
        *tot.e.entry("worker crashed".into()).or_insert(0) += crashed;
    }
    let mut o = String::new();
    for (k, v) in &tot.n {
        o.push_str(&format!("n\t{}\t{}\n", k, v));
    }
    o.push_str(&format!("n\twall_ms\t{}\n", t0.elapsed().as_millis()));
    o.push_str(&format!("n\tload_ms\t{}\n", (t_load * 1e3) as u64));
    for (t, m) in [("c", &tot.c), ("e", &tot.e), ("l", &tot.l)] {
        for (k, v) in m {
            o.push_str(&format!("{}\t{}\t{}\n", t, k, v));
        }
    }
    for (k, (c, ni)) in &tot.f {
        let f = &ex.prog.fns[*k];
        let m = if f.module == usize::MAX { "-" } else { &ex.prog.mods[f.module].path };
        let m = m.rsplit('/').next().unwrap_or(m);
        o.push_str(&format!("f\t{}\t{}\t{}\t{}\t{}\n", short_name(&f.name), c, ni, m, f.name));
    }
    for (k, ins) in &tot.v {
        o.push_str(&format!("v\t{}\n", k));
        for x in ins {
            o.push_str(&format!("i\t{}\n", x));
        }
    }
    for (k, ins) in &tot.w {
        o.push_str(&format!("w\t{}\t{}\n", k, ins.len()));
        for x in ins {
            o.push_str(&format!("i\t{}\n", x));
        }
    }
    let mut f = std::fs::File::create(&out).unwrap_or_else(|e| panic!("{}: {}", out, e));
    f.write_all(o.as_bytes()).unwrap();
}
