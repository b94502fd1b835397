//! symex: bounded symbolic execution of a whole program in LLVM IR.
mod exec;
mod expr;
mod ll;
mod mem;
mod solver;

use exec::{Exec, State, Stop};
use std::collections::BTreeMap;
use std::ffi::c_void;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

unsafe extern "C" {
    fn fork() -> i32;
    fn _exit(c: i32) -> !;
    fn waitpid(p: i32, st: *mut i32, fl: i32) -> i32;
    fn mmap(a: *mut c_void, n: usize, prot: i32, fl: i32, fd: i32, off: i64) -> *mut c_void;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

#[repr(C)]
struct Shared {
    avail: AtomicI64,
    queued: AtomicI64,
    stop: AtomicI64,
    paths: AtomicU64,
    seq: AtomicU64,
    hviol: [AtomicI64; 256],
    hstates: [AtomicI64; 256],
}

pub fn demangle(n: &str) -> String {
    // Rust v0: collect the identifiers
    let Some(r) = n.strip_prefix("_R") else { return n.to_string() };
    let b = r.as_bytes();
    let mut i = 0;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let k: usize = r[st..i].parse().unwrap_or(0);
            if i < b.len() && b[i] == b'_' {
                i += 1;
            }
            if k == 0 || i + k > b.len() {
                continue;
            }
            out.push(r[i..i + k].to_string());
            i += k;
        } else if b[i] == b's' || b[i] == b'B' {
            // disambiguator s<base62>_ / backref B<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i <= 14 {
                i = j + 1;
            } else {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    if out.is_empty() {
        return n.to_string();
    }
    out.truncate(7);
    out.join("::")
}

struct Opts {
    ll: String,
    harness: Vec<(u64, Vec<u64>)>,
    jobs: i64,
    time: f64,
    out: String,
    dir: String,
    budget: u64,
    samples: usize,
    trace: bool,
    prof: bool,
    rlimit: u32,
    nocheck: bool,
    maxviol: i64,
    dump: u64,
}

struct Rep {
    f: std::fs::File,
    buf: String,
}
impl Rep {
    fn flush(&mut self) {
        let _ = self.f.write_all(self.buf.as_bytes());
        self.buf.clear();
    }
}

fn main() {
    let mut o = Opts { ll: String::new(), harness: vec![], jobs: 8, time: 60.0, out: String::new(), dir: String::new(), budget: 400_000_000, samples: 60, trace: false, prof: false, rlimit: 1_000_000, nocheck: false, maxviol: 3, dump: 0 };
    let a: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < a.len() {
        let v = || a[i + 1].clone();
        match a[i].as_str() {
            "--harness" => {
                // idx[:arg]...
                for p in v().split(',') {
                    let mut it = p.split(':').map(|x| x.parse::<u64>().unwrap());
                    let h = it.next().unwrap();
                    o.harness.push((h, it.collect()));
                }
                i += 1;
            }
            "--jobs" => { o.jobs = v().parse().unwrap(); i += 1; }
            "--time" => { o.time = v().parse().unwrap(); i += 1; }
            "--out" => { o.out = v(); i += 1; }
            "--dir" => { o.dir = v(); i += 1; }
            "--budget" => { o.budget = v().parse().unwrap(); i += 1; }
            "--samples" => { o.samples = v().parse().unwrap(); i += 1; }
            "--rlimit" => { o.rlimit = v().parse().unwrap(); i += 1; }
            "--maxviol" => { o.maxviol = v().parse().unwrap(); i += 1; }
            "--dump" => { o.dump = v().parse().unwrap(); i += 1; }
            "--trace" => o.trace = true,
            "--prof" => o.prof = true,
            "--nocheck" => o.nocheck = true,
            _ => o.ll = a[i].clone(),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text: &'static str = Box::leak(std::fs::read_to_string(&o.ll).expect("read ll").into_boxed_str());
    let m: &'static ll::Module = Box::leak(Box::new(ll::Module::load(text)));
    let t_load = t0.elapsed();
    if o.dir.is_empty() {
        o.dir = format!("/tmp/symex.{}", std::process::id());
    }
    std::fs::create_dir_all(&o.dir).unwrap();
    for e in std::fs::read_dir(&o.dir).unwrap() {
        let p = e.unwrap().path();
        if p.extension().is_some_and(|x| x == "res" || x == "smt2") {
            let _ = std::fs::remove_file(p);
        }
    }
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 65536, 3, 0x21, -1, 0);
        &*(p as *const Shared)
    };
    sh.avail.store(o.jobs, SeqCst);
    sh.queued.store(o.harness.len() as i64, SeqCst);
    unsafe { prctl(36, 1, 0, 0, 0) };
    let deadline = t0 + Duration::from_secs_f64(o.time);

    let mut ex = Exec::new(m, o.rlimit);
    ex.budget = o.budget;
    ex.check_unsat = !o.nocheck;
    ex.trace = o.trace;
    // globals are the same for every harness
    let base = ex.initial("sx_run", &[0]);

    let mut crashed = 0;
    let mut next = 0;
    let mut live = 0i64;
    loop {
        while next < o.harness.len() && sh.avail.load(SeqCst) > 0 {
            sh.avail.fetch_sub(1, SeqCst);
            sh.queued.fetch_sub(1, SeqCst);
            let hi = next;
            next += 1;
            let pid = unsafe { fork() };
            if pid == 0 {
                let mut st = base.clone();
                st.mem.flush();
                {
                    let fr = std::rc::Rc::make_mut(&mut st.threads[0].frames[0]);
                    fr.regs[0].v = o.harness[hi].0;
                }
                worker(ex, &o, sh, hi, vec![st], deadline);
            }
            live += 1;
        }
        let _ = live;
        let mut status = 0;
        let p = unsafe { waitpid(-1, &mut status, 0) };
        if p > 0 {
            sh.avail.fetch_add(1, SeqCst);
            if status != 0 {
                crashed += 1;
                eprintln!("worker {p} ended with status {status:#x}");
                sh.stop.store(1, SeqCst);
            }
        } else if next >= o.harness.len() {
            break;
        }
    }
    summary(&o, crashed, t_load, t0);
}

fn worker(mut ex: Exec, o: &Opts, sh: &'static Shared, hi: usize, mut stack: Vec<State>, deadline: Instant) -> ! {
    let id = sh.seq.fetch_add(1, SeqCst);
    let path = format!("{}/{id}.res", o.dir);
    let mut rep = Rep { f: std::fs::File::create(&path).unwrap(), buf: String::new() };
    if o.prof {
        ex.prof = Some(vec![0; ex.m.funcs.len()]);
        ex.fprof = true;
    }
    if o.dump > 0 {
        ex.sol.dump = Some((format!("{}/{id}.smt2", o.dir), o.dump));
    }
    let h = &o.harness[hi];
    let mut nsamp = 0usize;
    let mut pcount = 0u64;
    let mut tail: Option<String> = None;
    let mut incomplete = 0u64;
    let mut last_flush = Instant::now();
    'main: while let Some(mut st) = stack.pop() {
        if sh.stop.load(SeqCst) != 0 || sh.hviol[hi].load(SeqCst) >= o.maxviol {
            incomplete += 1 + stack.len() as u64;
            break;
        }
        if Instant::now() > deadline {
            incomplete += 1 + stack.len() as u64;
            break;
        }
        // give work away
        while stack.len() >= 1 && sh.queued.load(SeqCst) == 0 && sh.avail.load(SeqCst) > 0 {
            if sh.avail.fetch_sub(1, SeqCst) <= 0 {
                sh.avail.fetch_add(1, SeqCst);
                break;
            }
            rep.flush();
            let k = stack.len().div_ceil(2);
            let pid = unsafe { fork() };
            if pid == 0 {
                let pid2 = unsafe { fork() };
                if pid2 != 0 {
                    unsafe { _exit(0) };
                }
                drop(st);
                let mine: Vec<State> = stack.drain(..k).collect();
                drop(stack);
                ex.st = exec::Stats { instrs: 0, paths: 0, killed: 0, budget: 0, forks: 0, branches: 0, checks_sym: 0, checks_conc: 0, dom_sat: 0, dom_unsat: 0, model_sat: 0, unknown: 0, max_depth: 0, max_steps: 0, clones: 0 };
                ex.sol.st = Default::default();
                ex.violations.clear();
                ex.labels.clear();
                ex.full_checks = 0;
                ex.forkprof.clear();
                worker(ex, o, sh, hi, mine, deadline);
            }
            let mut s = 0;
            unsafe { waitpid(pid, &mut s, 0) };
            stack.drain(..k);
        }
        loop {
            match ex.run(&mut st) {
                Stop::Done => {
                    ex.st.paths += 1;
                    ex.st.max_steps = ex.st.max_steps.max(st.steps);
                    pcount += 1;
                    let model: Vec<u64> = (*st.model).clone();
                    let dig = ex.digest(&st);
                    let inp = ex.inputs(&st, &model);
                    let line = format!("P {hi} {dig:016x} {}\n", inp.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
                    if nsamp < 4 || (pcount.is_power_of_two() && nsamp < o.samples) {
                        rep.buf.push_str(&line);
                        nsamp += 1;
                    } else {
                        tail = Some(line);
                    }
                    for l in st.reach.iter() {
                        *ex.labels.entry(*l).or_insert(0) += 1;
                    }
                    continue 'main;
                }
                Stop::Kill => {
                    ex.st.killed += 1;
                    continue 'main;
                }
                Stop::Budget => {
                    ex.st.budget += 1;
                    let inp = ex.inputs(&st, &st.model.clone());
                    let _ = writeln!(rep.buf, "B {hi} {}", inp.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
                    continue 'main;
                }
                Stop::Viol(msg) => {
                    ex.st.paths += 1;
                    let bt = ex.backtrace(&st);
                    let inp = ex.inputs(&st, &st.model.clone());
                    let _ = writeln!(rep.buf, "V {hi} {}|{}|{}", inp.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "), msg.replace(['\n', '|'], " "), bt.replace('\n', ";").replace('|', "/"));
                    rep.flush();
                    sh.hviol[hi].fetch_add(1, SeqCst);
                    continue 'main;
                }
                Stop::Err(msg) => {
                    let bt = ex.backtrace(&st);
                    let _ = writeln!(rep.buf, "E {hi} {}|{}", msg.replace(['\n', '|'], " "), bt.replace('\n', ";").replace('|', "/"));
                    rep.flush();
                    sh.hviol[hi].fetch_add(1, SeqCst);
                    continue 'main;
                }
                Stop::Fork(alts) => match ex.split(st, alts) {
                    Ok(mut v) => {
                        st = v.pop().unwrap();
                        let forked = !v.is_empty();
                        stack.extend(v);
                        if forked {
                            stack.push(st);
                            continue 'main;
                        }
                    }
                    Err(msg) => {
                        let _ = writeln!(rep.buf, "E {hi} {}|", msg.replace(['\n', '|'], " "));
                        rep.flush();
                        sh.hviol[hi].fetch_add(1, SeqCst);
                        continue 'main;
                    }
                },
            }
            if last_flush.elapsed() > Duration::from_secs(1) {
                rep.flush();
                last_flush = Instant::now();
                if Instant::now() > deadline {
                    incomplete += 1 + stack.len() as u64;
                    break 'main;
                }
            }
        }
    }
    if let Some(l) = tail {
        rep.buf.push_str(&l);
    }
    let s = &ex.st;
    let z = &ex.sol.st;
    for (k, v) in [
        ("instrs", s.instrs),
        ("paths", s.paths),
        ("killed", s.killed),
        ("budget", s.budget),
        ("forks", s.forks),
        ("branches", s.branches),
        ("checks_sym", s.checks_sym),
        ("checks_conc", s.checks_conc),
        ("dom_sat", s.dom_sat),
        ("dom_unsat", s.dom_unsat),
        ("model_sat", s.model_sat),
        ("unknown", s.unknown),
        ("queries", z.queries),
        ("sat", z.sat),
        ("unsat", z.unsat),
        ("second_solver", z.second),
        ("cache_hits", z.cache_hits),
        ("solver_ns", z.nanos),
        ("full_checks", ex.full_checks),
        ("incomplete", incomplete),
        ("workers", 1),
    ] {
        if v > 0 {
            let _ = writeln!(rep.buf, "S {hi} {k} {v}");
        }
    }
    for (k, v) in [("max_depth", s.max_depth as u64), ("max_steps", s.max_steps), ("max_solver_ns", z.max_nanos), ("vars", ex.pool.varinfo.len() as u64)] {
        let _ = writeln!(rep.buf, "M {hi} {k} {v}");
    }
    for (k, v) in &ex.labels {
        let _ = writeln!(rep.buf, "L {hi} {k} {v}");
    }
    for (i, u) in ex.used.iter().enumerate() {
        if *u {
            let _ = writeln!(rep.buf, "U {hi} {}", ex.m.fname(i as u32));
        }
    }
    if let Some(p) = &ex.prof {
        for (i, c) in p.iter().enumerate() {
            if *c > 0 {
                let _ = writeln!(rep.buf, "C {} {c} {}", ex.m.fname(i as u32), 0);
            }
        }
        for (k, v) in &ex.forkprof {
            let _ = writeln!(rep.buf, "F {v} {k}");
        }
    }
    let _ = writeln!(rep.buf, "OK {} {}", hi, h.0);
    rep.flush();
    unsafe { _exit(0) }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn summary(o: &Opts, crashed: i32, t_load: Duration, t0: Instant) {
    #[derive(Default)]
    struct H {
        s: BTreeMap<String, u64>,
        labels: BTreeMap<u64, u64>,
        viol: Vec<(String, String, String)>,
        err: Vec<String>,
        samples: Vec<(String, String)>,
        over: Vec<String>,
    }
    let mut hs: Vec<H> = (0..o.harness.len()).map(|_| H::default()).collect();
    let mut used: std::collections::BTreeSet<String> = Default::default();
    let mut prof: BTreeMap<String, u64> = BTreeMap::new();
    let mut fprof: BTreeMap<String, u64> = BTreeMap::new();
    let mut unfinished = 0;
    for e in std::fs::read_dir(&o.dir).unwrap() {
        let p = e.unwrap().path();
        if p.extension().is_none_or(|x| x != "res") {
            continue;
        }
        let t = std::fs::read_to_string(&p).unwrap_or_default();
        let mut ok = false;
        for l in t.lines() {
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            if k == "C" {
                let mut it = r.split(' ');
                let n = it.next().unwrap().to_string();
                *prof.entry(n).or_insert(0) += it.next().unwrap().parse::<u64>().unwrap();
                continue;
            }
            if k == "F" {
                let (n, s) = r.split_once(' ').unwrap();
                *fprof.entry(s.to_string()).or_insert(0) += n.parse::<u64>().unwrap();
                continue;
            }
            let (hi, r) = r.split_once(' ').unwrap_or((r, ""));
            let hi: usize = match hi.parse() {
                Ok(x) => x,
                Err(_) => continue,
            };
            let h = &mut hs[hi];
            match k {
                "S" | "M" => {
                    let (n, v) = r.split_once(' ').unwrap();
                    let v: u64 = v.parse().unwrap();
                    let e = h.s.entry(n.to_string()).or_insert(0);
                    if k == "S" { *e += v } else { *e = (*e).max(v) }
                }
                "L" => {
                    let (n, v) = r.split_once(' ').unwrap();
                    *h.labels.entry(n.parse().unwrap()).or_insert(0) += v.parse::<u64>().unwrap();
                }
                "V" => {
                    let mut it = r.splitn(3, '|');
                    h.viol.push((it.next().unwrap().to_string(), it.next().unwrap_or("").to_string(), it.next().unwrap_or("").to_string()));
                }
                "E" => h.err.push(r.to_string()),
                "B" => h.over.push(r.to_string()),
                "P" => {
                    let (d, v) = r.split_once(' ').unwrap_or((r, ""));
                    h.samples.push((d.to_string(), v.to_string()));
                }
                "U" => {
                    used.insert(r.to_string());
                }
                "OK" => ok = true,
                _ => {}
            }
        }
        if !ok {
            unfinished += 1;
        }
        let _ = std::fs::remove_file(&p);
    }
    let mut j = String::new();
    let _ = write!(j, "{{\"crashed\":{crashed},\"unfinished\":{unfinished},\"load_s\":{:.3},\"wall_s\":{:.3},\"harnesses\":[", t_load.as_secs_f64(), t0.elapsed().as_secs_f64());
    for (i, h) in hs.iter().enumerate() {
        if i > 0 {
            j.push(',');
        }
        let _ = write!(j, "{{\"index\":{},\"stats\":{{", o.harness[i].0);
        j.push_str(&h.s.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(","));
        j.push_str("},\"labels\":{");
        j.push_str(&h.labels.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","));
        j.push_str("},\"violations\":[");
        j.push_str(&h.viol.iter().map(|(a, b, c)| format!("{{\"inputs\":[{}],\"msg\":{},\"at\":{}}}", a.split(' ').filter(|x| !x.is_empty()).collect::<Vec<_>>().join(","), esc(b), esc(c))).collect::<Vec<_>>().join(","));
        j.push_str("],\"errors\":[");
        j.push_str(&h.err.iter().map(|a| esc(a)).collect::<Vec<_>>().join(","));
        j.push_str("],\"over_budget\":[");
        j.push_str(&h.over.iter().map(|a| esc(a)).collect::<Vec<_>>().join(","));
        j.push_str("],\"samples\":[");
        j.push_str(&h.samples.iter().take(o.samples * 4).map(|(d, a)| format!("{{\"digest\":\"{d}\",\"inputs\":[{}]}}", a.split(' ').filter(|x| !x.is_empty()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
        j.push_str("]}");
    }
    j.push_str("],\"functions\":[");
    j.push_str(&used.iter().map(|a| esc(&demangle(a))).collect::<Vec<_>>().join(","));
    j.push_str("]}");
    if o.out.is_empty() {
        println!("{j}");
    } else {
        std::fs::write(&o.out, &j).unwrap();
    }
    if o.prof {
        let mut v: Vec<_> = prof.into_iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1));
        for (n, c) in v.iter().take(40) {
            eprintln!("{c:12} {}", demangle(n));
        }
        let mut v: Vec<_> = fprof.into_iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1));
        eprintln!("--- forks");
        for (n, c) in v.iter().take(40) {
            eprintln!("{c:12} {n}");
        }
    }
}
