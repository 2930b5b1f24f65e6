//! Replays one path natively: replay FILE [TOOLDIR SCRATCH]
//! Prints TRACE/FAIL/COVER lines; exit 0 if nothing failed, 1 if a FAIL line
//! was printed, 101 on a panic, 3 if the recorded inputs do not fit.
use std::collections::{BTreeMap, VecDeque};
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Default)]
struct St {
    inputs: VecDeque<(char, u64, u64)>,
    init: BTreeMap<(u32, u32), u8>,
    bases: u32,
    arrs: Vec<(u32, BTreeMap<u32, u8>)>,
    failed: bool,
    tools: PathBuf,
    scratch: PathBuf,
    stdin: Vec<u8>,
    out: [Vec<u8>; 2],
}
static mut ST: Option<St> = None;
#[allow(static_mut_refs)]
fn st() -> &'static mut St {
    unsafe { ST.get_or_insert_with(Default::default) }
}
fn quit(code: i32) -> ! {
    std::io::stdout().flush().ok();
    std::process::exit(code)
}
fn finish() -> ! {
    quit(if st().failed { 1 } else { 0 })
}
unsafe fn s(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(b(p, n)).to_string()
}
unsafe fn b<'a>(p: *const u8, n: usize) -> &'a [u8] {
    if n == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(p, n)
    }
}
#[no_mangle]
extern "C" fn sym_int(bits: u32) -> u64 {
    match st().inputs.pop_front() {
        Some(('v', w, v)) if w == bits as u64 => v,
        None => 0,
        x => {
            println!("MISMATCH sym_int({bits}) got {x:?}");
            quit(3)
        }
    }
}
#[no_mangle]
extern "C" fn sym_choice(n: u64) -> u64 {
    match st().inputs.pop_front() {
        Some(('c', m, k)) if m == n => k,
        x => {
            println!("MISMATCH sym_choice({n}) got {x:?}");
            quit(3)
        }
    }
}
#[no_mangle]
extern "C" fn sym_assume(c: bool) {
    if !c {
        println!("ASSUMPTION FAILED");
        quit(if st().failed { 1 } else { 3 })
    }
}
#[no_mangle]
unsafe extern "C" fn sym_assert(c: bool, id: *const u8, n: usize) {
    if !c {
        println!("FAIL {}", s(id, n));
        st().failed = true;
    }
}
#[no_mangle]
unsafe extern "C" fn sym_cover(id: *const u8, n: usize) {
    println!("COVER {}", s(id, n));
}
#[no_mangle]
extern "C" fn sym_trace(x: u64) {
    println!("TRACE {x}");
}
#[no_mangle]
extern "C" fn sym_ite(c: bool, a: u64, b: u64) -> u64 {
    if c {
        a
    } else {
        b
    }
}
#[no_mangle]
extern "C" fn sym_and(a: bool, b: bool) -> bool {
    a & b
}
#[no_mangle]
extern "C" fn sym_or(a: bool, b: bool) -> bool {
    a | b
}
#[no_mangle]
extern "C" fn sym_concretize(x: u64) -> u64 {
    x
}
#[no_mangle]
extern "C" fn sym_end() {
    finish()
}
#[no_mangle]
extern "C" fn sym_known(_: u64) -> bool {
    true
}
#[no_mangle]
extern "C" fn sym_arr_new() -> u32 {
    let q = st();
    q.arrs.push((q.bases, BTreeMap::new()));
    q.bases += 1;
    q.arrs.len() as u32 - 1
}
#[no_mangle]
extern "C" fn sym_arr_clone(id: u32) -> u32 {
    let q = st();
    let x = q.arrs[id as usize].clone();
    q.arrs.push(x);
    q.arrs.len() as u32 - 1
}
#[no_mangle]
extern "C" fn sym_arr_read(id: u32, a: u32) -> u8 {
    let q = st();
    let (base, m) = &q.arrs[id as usize];
    *m.get(&a).or_else(|| q.init.get(&(*base, a))).unwrap_or(&0)
}
#[no_mangle]
extern "C" fn sym_arr_write(id: u32, a: u32, v: u8) {
    st().arrs[id as usize].1.insert(a, v);
}
fn path(name: &str) -> PathBuf {
    assert!(!name.contains('/') && !name.starts_with('.'));
    st().scratch.join(name)
}
#[no_mangle]
unsafe extern "C" fn sym_fs_write(n: *const u8, l: usize, p: *const u8, k: usize) {
    let f = path(&s(n, l));
    let _ = std::fs::remove_file(&f);
    std::fs::write(f, b(p, k)).unwrap();
}
#[no_mangle]
unsafe extern "C" fn sym_fs_len(n: *const u8, l: usize) -> i64 {
    match std::fs::metadata(path(&s(n, l))) {
        Ok(m) => m.len() as i64,
        Err(_) => -1,
    }
}
#[no_mangle]
unsafe extern "C" fn sym_fs_read(n: *const u8, l: usize, p: *mut u8, cap: usize) {
    if let Ok(v) = std::fs::read(path(&s(n, l))) {
        let k = v.len().min(cap);
        std::ptr::copy_nonoverlapping(v.as_ptr(), p, k);
    }
}
#[no_mangle]
unsafe extern "C" fn sym_fs_remove(n: *const u8, l: usize) {
    let _ = std::fs::remove_file(path(&s(n, l)));
}
#[no_mangle]
unsafe extern "C" fn sym_stdin(p: *const u8, n: usize) {
    st().stdin = b(p, n).to_vec();
}
#[no_mangle]
unsafe extern "C" fn sym_run_tool(p: *const u8, n: usize) -> i32 {
    let args = s(p, n);
    let args: Vec<&str> = args.split('\0').collect();
    let q = st();
    let mut ch = Command::new(q.tools.join(args[0]))
        .args(&args[1..])
        .current_dir(&q.scratch)
        .env_clear()
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("run tool");
    let mut si = ch.stdin.take().unwrap();
    let data = q.stdin.clone();
    let w = std::thread::spawn(move || {
        let _ = si.write_all(&data);
    });
    let mut so = ch.stdout.take().unwrap();
    let o = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = so.by_ref().take(1 << 24).read_to_end(&mut v);
        v
    });
    let mut se = ch.stderr.take().unwrap();
    let e = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = se.by_ref().take(1 << 24).read_to_end(&mut v);
        v
    });
    let t0 = Instant::now();
    let code = loop {
        if let Some(x) = ch.try_wait().unwrap() {
            break x.code().unwrap_or(134);
        }
        if t0.elapsed() > Duration::from_secs(20) {
            let _ = ch.kill();
            let _ = ch.wait();
            println!("HANG {}", args[0]);
            quit(4);
        }
        std::thread::sleep(Duration::from_millis(1));
    };
    let _ = w.join();
    q.out = [o.join().unwrap(), e.join().unwrap()];
    if code == 101 || code == 134 {
        println!("TOOLPANIC {}: {}", args[0], String::from_utf8_lossy(&q.out[1]).replace('\n', " "));
    }
    code
}
#[no_mangle]
unsafe extern "C" fn sym_tool_out(which: u32, p: *mut u8, cap: usize) -> i64 {
    let v = &st().out[which as usize - 1];
    let k = v.len().min(cap);
    if k > 0 {
        std::ptr::copy_nonoverlapping(v.as_ptr(), p, k);
    }
    v.len() as i64
}
#[no_mangle]
unsafe extern "C" fn sym_bytes_eq(p: *const u8, q: *const u8, n: usize) -> bool {
    b(p, n) == b(q, n)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let txt = std::fs::read_to_string(&a[1]).expect("replay file");
    let q = st();
    if a.len() > 3 {
        q.tools = std::fs::canonicalize(&a[2]).expect("tool directory");
        q.scratch = std::fs::canonicalize(&a[3]).expect("scratch directory");
        std::env::set_current_dir(&q.scratch).unwrap();
    }
    let (mut h, mut p) = (String::new(), vec![]);
    for l in txt.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        let n = |k: usize| -> u64 { w[k].parse().expect("number") };
        match w[0] {
            "h" => h = w[1].to_string(),
            "p" => p.push(n(1)),
            "v" => q.inputs.push_back(('v', n(1), n(2))),
            "c" => q.inputs.push_back(('c', n(1), n(2))),
            "a" => {
                q.init.entry((n(1) as u32, n(2) as u32)).or_insert(n(3) as u8);
            }
            _ => (),
        }
    }
    std::panic::set_hook(Box::new(|i| {
        println!("PANIC {} {}", i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default(), i.to_string().replace('\n', " "));
    }));
    let r = std::panic::catch_unwind(move || harness::dispatch(&h, &p));
    match r {
        Ok(true) => finish(),
        Ok(false) => {
            println!("no such harness");
            quit(3)
        }
        Err(_) => quit(101),
    }
}
