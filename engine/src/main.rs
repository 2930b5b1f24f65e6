#![allow(static_mut_refs)]
mod env;
mod exec;
mod expr;
mod ir;
mod mem;
mod merge;
mod parse;
mod selftest;
mod solver;
mod sweep;

use exec::*;
use mem::*;
use std::collections::HashMap;
use std::ffi::c_void;
use std::rc::Rc;
use std::sync::atomic::{AtomicI32, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn _exit(c: i32) -> !;
    fn getrusage(who: i32, p: *mut [i64; 18]) -> i32;
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            '\r' => o += "\\r",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn report(en: &Engine, secs: f64) -> String {
    let s = &en.stats;
    let q = &en.solver.stats;
    let viol: Vec<String> = en
        .violations
        .iter()
        .map(|v| format!("{{\"id\":{},\"msg\":{},\"stack\":{},\"replay\":{}}}", jstr(&v.id), jstr(&v.msg), jstr(&v.stack), jstr(&v.replay)))
        .collect();
    let samp: Vec<String> = en
        .samples
        .iter()
        .map(|v| format!("{{\"replay\":{},\"trace\":[{}]}}", jstr(&v.replay), v.trace.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(",")))
        .collect();
    let uns: Vec<String> = en.unsup.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    let cov: Vec<String> = en.covers.iter().map(|k| jstr(k)).collect();
    let fns: Vec<String> = en.encoded.iter().map(|k| jstr(&short(k))).collect();
    let vc: Vec<String> = en.viol_count.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    let mut ru = [0i64; 18];
    unsafe { getrusage(0, &mut ru) };
    format!(
        "{{\"paths\":{},\"dropped\":{},\"steps\":{},\"forks\":{},\"asserts\":{},\"assert_syntactic\":{},\"assert_solver\":{},\"merges\":{},\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"fallback\":{},\"sweep\":{},\"secs\":{:.3},\"rss_mb\":{},\"nodes\":{},\"left\":{},\"violations\":[{}],\"viol_count\":{{{}}},\"samples\":[{}],\"unsupported\":{{{}}},\"covers\":[{}],\"encoded\":[{}]}}\n",
        s.paths, s.dropped, s.steps, s.forks, s.asserts, s.assert_syntactic, s.assert_solver, s.merges, q.queries, q.cache_hits, q.sat, q.unsat, q.secs, q.max_secs, q.fallback, q.sweep, secs, ru[4] / 1024, expr::cx().nodes.len(), en.work.len(), viol.join(","), vc.join(","), samp.join(","), uns.join(","), cov.join(","), fns.join(",")
    )
}

fn main() {
    // deep recursion in the simplifier
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let r = h.join();
    std::process::exit(match r {
        Ok(c) => c,
        Err(_) => 3,
    });
}

thread_local! {
    pub static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn real_main() -> i32 {
    let debug = std::env::var("TELSYM_DEBUG").is_ok_and(|v| v == "2");
    std::panic::set_hook(Box::new(move |i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if debug {
            eprintln!("panic at {at}: {}", std::backtrace::Backtrace::force_capture());
        }
        PANIC_AT.with(|p| *p.borrow_mut() = at);
    }));
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1] == "selftest" {
        return selftest::run(args.get(2).and_then(|s| s.parse().ok()).unwrap_or(20000));
    }
    let mut opts: HashMap<String, Vec<String>> = HashMap::new();
    let mut it = args.iter().skip(1);
    while let Some(a) = it.next() {
        if let Some(k) = a.strip_prefix("--") {
            let v = it.next().cloned().unwrap_or_default();
            opts.entry(k.to_string()).or_default().push(v);
        }
    }
    let one = |k: &str, d: &str| -> String { opts.get(k).and_then(|v| v.last().cloned()).unwrap_or(d.to_string()) };
    let out = one("out", "/tmp/telsym_out");
    let _ = std::fs::create_dir_all(&out);
    let harness = one("harness", "");
    let workers: i32 = one("workers", "8").parse().unwrap();
    let budget: f64 = one("budget", "600").parse().unwrap();
    let mut en = Engine::new(one("rlimit", "50000").parse().unwrap());
    en.harness = harness.clone();
    en.hargs = opts.get("arg").cloned().unwrap_or_default().iter().map(|s| s.parse().unwrap()).collect();
    en.step_limit = one("steps", "200000000").parse().unwrap();
    en.merge_max = one("merge", "0").parse().unwrap();
    en.verbose = opts.contains_key("profile");
    en.sample_max = one("samples", "4").parse().unwrap();
    let dump = one("dump", "");
    if !dump.is_empty() {
        en.solver.dump_dir = Some(dump);
        en.solver.dump_left = 12;
    }
    let t0 = Instant::now();
    en.deadline = Some(t0 + Duration::from_secs_f64(budget));
    en.add_module("harness", &one("ll", ""));
    for t in opts.get("tool").cloned().unwrap_or_default() {
        let (n, p) = t.split_once('=').unwrap();
        en.add_module(n, p);
    }
    let hargs: Vec<V> = opts.get("arg").cloned().unwrap_or_default().iter().map(|s| V::I(s.parse().unwrap())).collect();
    let model = en.new_model(HashMap::new());
    let mut st = State {
        frames: vec![],
        mem: Mem::default(),
        pc: vec![],
        known: Default::default(),
        eqs: Default::default(),
        model,
        inputs: Default::default(),
        insts: vec![Instance { module: 0, globals: Default::default(), heap_lo: 0, stdout: 0, stderr: 0, stdin_pos: 0, argv: Rc::new(vec![]), calls: 0 }],
        arrs: vec![],
        bases: vec![],
        trace: Default::default(),
        fs: Default::default(),
        steps: 0,
        covers: Default::default(),
        forks: 0,
    };
    let ino = env::new_inode(&mut st);
    st.fs.stdin = ino;
    env::errno_addr(&mut st);
    let Some(&sym) = en.modules[0].by_name.get(&harness) else {
        eprintln!("telsym: no function {harness}");
        return 2;
    };
    let Target::Func(f) = en.resolve(0, sym) else {
        eprintln!("telsym: {harness} is not a function");
        return 2;
    };
    if let Err(_) = en.push_frame(&mut st, f, hargs, 0, None) {
        return 2;
    }
    en.work.push(st);

    let slots: &'static AtomicI32 = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut AtomicI32;
        (*p).store(workers - 1, Ordering::SeqCst);
        &*p
    };
    if opts.contains_key("stop") {
        // shared between the workers: seconds (+1) after which all stop, set by the first violation
        en.stop = Some((unsafe { &*(slots as *const AtomicI32).add(16) }, t0, one("stop", "5").parse().unwrap()));
    }
    unsafe { prctl(36, 1, 0, 0, 0) };
    let mut root = true;
    let mut start = Instant::now();
    loop {
        if en.work.len() >= 2 {
            let s = slots.fetch_sub(1, Ordering::SeqCst);
            if s > 0 {
                let pid = unsafe { fork() };
                if pid == 0 {
                    root = false;
                    start = Instant::now();
                    let w = std::mem::take(&mut en.work);
                    en.work = w.into_iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|x| x.1).collect();
                    en.stats = Default::default();
                    en.solver.stats = Default::default();
                    en.violations.clear();
                    en.viol_count.clear();
                    en.samples.clear();
                    en.unsup.clear();
                    en.covers.clear();
                    en.profile.clear();
                } else if pid > 0 {
                    let w = std::mem::take(&mut en.work);
                    en.work = w.into_iter().enumerate().filter(|(i, _)| i % 2 == 1).map(|x| x.1).collect();
                } else {
                    slots.fetch_add(1, Ordering::SeqCst);
                }
            } else {
                slots.fetch_add(1, Ordering::SeqCst);
            }
        }
        if en.stopped() {
            let n = en.work.len() as u64;
            *en.unsup.entry("stopped after a violation".into()).or_insert(0) += n;
            break;
        }
        if let Some(d) = en.deadline {
            if Instant::now() > d && !en.work.is_empty() {
                let n = en.work.len() as u64;
                *en.unsup.entry("time budget exhausted".into()).or_insert(0) += n;
                break;
            }
        }
        let Some(st) = en.work.pop() else { break };
        en.run_path(st);
    }
    let txt = report(&en, start.elapsed().as_secs_f64());
    let f = format!("{out}/{}.json", std::process::id());
    std::fs::write(&f, txt).expect("write result");
    if en.verbose {
        let mut v: Vec<_> = en.profile.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(25) {
            eprintln!("fork {n:6} {}", k);
        }
    }
    slots.fetch_add(1, Ordering::SeqCst);
    if !root {
        unsafe { _exit(0) };
    }
    let mut bad = 0;
    loop {
        let mut s = 0;
        let p = unsafe { waitpid(-1, &mut s, 0) };
        if p <= 0 {
            break;
        }
        if s != 0 {
            bad += 1;
            eprintln!("telsym: worker {p} ended with status {s:#x}");
        }
    }
    if bad > 0 {
        3
    } else {
        0
    }
}
