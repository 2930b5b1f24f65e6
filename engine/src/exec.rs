//! Symbolic execution of LLVM IR.
use crate::env::{self, Flow};
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::parse::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub enum Ev {
    /// the path ends normally
    End,
    /// assumption failed: drop the path
    Drop,
    Violation(String, String),
    /// construct outside the engine's reach
    Unsup(String),
    /// the state was joined into others
    Gone,
}
pub type R<T> = Result<T, Ev>;

pub struct Model {
    pub id: u64,
    pub m: HashMap<u32, u128>,
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub block: u32,
    pub pc: u32,
    pub regs: Vec<V>,
    pub nstack: usize,
    pub inst: u32,
    pub call: Option<&'static Call>,
    pub tool: bool,
}

#[derive(Clone)]
pub struct Instance {
    pub module: u32,
    pub globals: Rc<HashMap<u32, u32>>,
    pub heap_lo: u32,
    pub stdout: u32,
    pub stderr: u32,
    pub stdin_pos: u64,
    pub argv: Rc<Vec<Vec<u8>>>,
    pub calls: u64,
}

#[derive(Clone, Copy)]
pub enum In {
    Var(Ex),
    Choice(u64, u64),
}

#[derive(Clone)]
pub struct Arr {
    pub base: usize,
    pub log: Rc<Vec<(Ex, Ex)>>,
}

#[derive(Clone)]
pub struct Inode {
    pub data: Obj,
    pub mode: u32,
}
#[derive(Clone)]
pub struct Fd {
    pub inode: usize,
    pub pos: u64,
    pub append: bool,
    pub flags: u32,
}
#[derive(Clone, Default)]
pub struct Fs {
    pub names: BTreeMap<String, usize>,
    pub inodes: Vec<Rc<Inode>>,
    pub fds: Vec<Option<Fd>>,
    pub stdin: usize,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<Ex>,
    pub known: Rc<HashSet<Ex>>,
    pub eqs: Rc<HashMap<Ex, u64>>,
    pub model: Rc<Model>,
    pub inputs: Rc<Vec<In>>,
    pub insts: Vec<Instance>,
    pub arrs: Vec<Arr>,
    pub bases: Vec<Rc<Vec<(Ex, Ex)>>>,
    pub trace: Rc<Vec<Ex>>,
    pub fs: Fs,
    pub steps: u64,
    pub covers: Rc<BTreeSet<String>>,
    pub forks: u32,
}

#[derive(Clone, Copy)]
pub enum Target {
    Func(&'static Func),
    Builtin(env::Bi),
    Missing,
}

pub struct Violation {
    pub id: String,
    pub msg: String,
    pub stack: String,
    pub replay: String,
}
pub struct Sample {
    pub replay: String,
    pub trace: Vec<u64>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub dropped: u64,
    pub steps: u64,
    pub forks: u64,
    pub asserts: u64,
    pub assert_syntactic: u64,
    pub assert_solver: u64,
    pub merges: u64,
}

pub struct Engine {
    pub modules: Vec<Module>,
    pub mod_names: Vec<String>,
    funcs: Vec<Vec<Option<Target>>>,
    pub solver: Solver,
    pub work: Vec<State>,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub stop: Option<(&'static std::sync::atomic::AtomicI32, std::time::Instant, i32)>,
    pub viol_count: HashMap<String, u32>,
    pub samples: Vec<Sample>,
    pub sample_max: usize,
    pub unsup: BTreeMap<String, u64>,
    pub covers: BTreeSet<String>,
    pub encoded: BTreeSet<String>,
    ev_model: u64,
    next_model: u64,
    pub step_limit: u64,
    pub harness: String,
    pub hargs: Vec<u64>,
    pub deadline: Option<std::time::Instant>,
    pub verbose: bool,
    pub profile: HashMap<String, u64>,
    pub max_viol_per_id: u32,
    pub vars: HashMap<String, Ex>,
    pub infos: crate::merge::Infos,
    pub merge_max: usize,
    /// join regions being explored: frame depth and join block
    pub regions: Vec<(usize, u32)>,
    /// path conditions added other than by exhaustive forks
    pub narrowed: u64,
}

pub enum Place {
    C(u32, u64),
    /// object, candidate offsets, address expression
    S(u32, Vec<u64>, Ex),
    /// object, lo offset, hi offset, address expression
    W(u32, u64, u64, Ex),
}

fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
fn sx64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

pub fn fn_addr(module: u32, sym: u32) -> u64 {
    (1u64 << 62) | ((module as u64) << 40) | ((sym as u64) << 4)
}

/// a number that divides `e`
fn known_mult(e: Ex, depth: u32) -> u64 {
    let n = cx().nodes[e as usize];
    fn gcd(a: u64, b: u64) -> u64 {
        if b == 0 {
            a
        } else {
            gcd(b, a % b)
        }
    }
    if depth == 0 {
        return 1;
    }
    match n.k {
        K::Const => n.v as u64,
        K::Add => gcd(known_mult(n.a, depth - 1), known_mult(n.b, depth - 1)),
        K::Mul => {
            // no overflow when the interval is exact
            let (a, b) = (cx().iv[n.a as usize], cx().iv[n.b as usize]);
            if (a.1 as u128) * (b.1 as u128) <= mask(n.w) {
                known_mult(n.a, depth - 1).saturating_mul(known_mult(n.b, depth - 1))
            } else {
                1
            }
        }
        K::Shl => match cx().cv(n.b) {
            Some(k) if k < 32 => 1 << k,
            _ => 1,
        },
        K::Concat => {
            if let Some(0) = cx().cv(n.b) {
                let lw = cx().w(n.b);
                if lw < 32 {
                    return known_mult(n.a, depth - 1).saturating_mul(1 << lw);
                }
            }
            if cx().cv(n.a) == Some(0) {
                return known_mult(n.b, depth - 1);
            }
            1
        }
        K::Ite => gcd(known_mult(n.b, depth - 1), known_mult(n.c, depth - 1)),
        _ => 1,
    }
}

/// constant leaves of an ite tree
fn leaves(e: Ex, out: &mut BTreeSet<u64>, add: u64, seen: &mut HashSet<(Ex, u64)>) -> bool {
    if !seen.insert((e, add)) {
        return true;
    }
    if out.len() > 256 || seen.len() > 2000 {
        return false;
    }
    let n = cx().nodes[e as usize];
    match n.k {
        K::Const => {
            out.insert((n.v as u64).wrapping_add(add));
            true
        }
        K::Ite => leaves(n.b, out, add, seen) && leaves(n.c, out, add, seen),
        K::Add => match cx().cv(n.b) {
            Some(k) => leaves(n.a, out, add.wrapping_add(k as u64), seen),
            None => false,
        },
        _ => false,
    }
}

impl Engine {
    pub fn new(rlimit: u32) -> Engine {
        Engine {
            modules: vec![],
            mod_names: vec![],
            funcs: vec![],
            solver: Solver::new(rlimit),
            work: vec![],
            stats: Stats::default(),
            violations: vec![],
            stop: None,
            viol_count: HashMap::new(),
            samples: vec![],
            sample_max: 8,
            unsup: BTreeMap::new(),
            covers: BTreeSet::new(),
            encoded: BTreeSet::new(),
            ev_model: 0,
            next_model: 1,
            step_limit: 200_000_000,
            harness: String::new(),
            hargs: vec![],
            deadline: None,
            verbose: false,
            profile: HashMap::new(),
            max_viol_per_id: 2,
            vars: HashMap::new(),
            infos: HashMap::new(),
            merge_max: 0,
            narrowed: 0,
            regions: vec![],
        }
    }
    pub fn add_module(&mut self, name: &str, path: &str) -> u32 {
        let id = self.modules.len() as u32;
        self.modules.push(Module::load(path, id));
        self.mod_names.push(name.to_string());
        self.funcs.push(vec![]);
        id
    }
    pub fn new_model(&mut self, m: HashMap<u32, u128>) -> Rc<Model> {
        let id = self.next_model;
        self.next_model += 1;
        Rc::new(Model { id, m })
    }
    pub fn resolve(&mut self, module: u32, sym: u32) -> Target {
        let t = &mut self.funcs[module as usize];
        if t.len() <= sym as usize {
            t.resize(sym as usize + 1, None);
        }
        if let Some(t) = self.funcs[module as usize][sym as usize] {
            return t;
        }
        let name = self.modules[module as usize].names[sym as usize].clone();
        let t = if let Some(b) = env::lookup(&name) {
            Target::Builtin(b)
        } else {
            match self.modules[module as usize].kinds[sym as usize] {
                SymKind::Func { .. } => {
                    let f: &'static Func = Box::leak(Box::new(self.modules[module as usize].func(sym)));
                    self.encoded.insert(name.clone());
                    Target::Func(f)
                }
                SymKind::Alias { .. } => {
                    let s = self.modules[module as usize].alias_target(sym);
                    self.resolve(module, s)
                }
                _ => Target::Missing,
            }
        };
        self.funcs[module as usize][sym as usize] = Some(t);
        t
    }

    // ---- constraints ------------------------------------------------
    pub fn ev(&mut self, st: &State, e: Ex) -> u128 {
        if self.ev_model != st.model.id {
            cx().new_stamp();
            self.ev_model = st.model.id;
        }
        cx().eval(e, &st.model.m)
    }
    pub fn assume_true(&mut self, st: &mut State, c: Ex) {
        // c must hold in st.model
        if c == TRUE || st.known.contains(&c) {
            return;
        }
        let n = cx().nodes[c as usize];
        if n.k == K::And && n.w == 1 {
            self.assume_true(st, n.a);
            self.assume_true(st, n.b);
            return;
        }
        st.pc.push(c);
        Rc::make_mut(&mut st.known).insert(c);
        if n.k == K::Eq {
            if let Some(v) = cx().cv(n.b) {
                if cx().w(n.a) <= 64 {
                    Rc::make_mut(&mut st.eqs).insert(n.a, v as u64);
                }
            }
            if let Some(v) = cx().cv(n.a) {
                if cx().w(n.b) <= 64 {
                    Rc::make_mut(&mut st.eqs).insert(n.b, v as u64);
                }
            }
        }
    }
    fn with_model(&mut self, st: &mut State, vals: &[(u32, u128)]) {
        let mut m = st.model.m.clone();
        for &(k, v) in vals {
            m.insert(k, v);
        }
        st.model = self.new_model(m);
    }
    pub fn query(&mut self, st: &State, c: Ex) -> R<Option<Rc<Vec<(u32, u128)>>>> {
        let r = self.solver.check(&st.pc, c);
        self.ev_model = 0;
        match r {
            Res::Unsat => Ok(None),
            Res::Sat(m) => Ok(Some(m)),
            Res::Unknown => Err(Ev::Unsup("solver gave no answer within its resource limit".into())),
        }
    }
    fn known(&self, st: &State, c: Ex) -> Option<bool> {
        if c <= 1 {
            return Some(c == TRUE);
        }
        conj_known(&st.known, c)
    }
    /// truth value of c on this path, forking when both are possible
    pub fn decide(&mut self, st: &mut State, c: Ex) -> R<bool> {
        if let Some(b) = self.known(st, c) {
            return Ok(b);
        }
        let mv = self.ev(st, c) == 1;
        let nc = cx().not1(c);
        let (mine, other) = if mv { (c, nc) } else { (nc, c) };
        if let Some(m) = self.query(st, other)? {
            let mut o = st.clone();
            self.with_model(&mut o, &m);
            self.assume_true(&mut o, other);
            o.forks += 1;
            self.stats.forks += 1;
            self.note_fork(st);
            self.work.push(o);
            self.assume_true(st, mine);
        } else {
            Rc::make_mut(&mut st.known).insert(mine);
            self.learn_eq(st, mine);
        }
        Ok(mv)
    }
    fn learn_eq(&mut self, st: &mut State, c: Ex) {
        let n = cx().nodes[c as usize];
        if n.k == K::Eq {
            if let Some(v) = cx().cv(n.b) {
                if cx().w(n.a) <= 64 {
                    Rc::make_mut(&mut st.eqs).insert(n.a, v as u64);
                }
            }
        }
    }
    fn note_fork(&mut self, st: &State) {
        if self.verbose {
            let f = st.frames.last().unwrap();
            *self.profile.entry(format!("{}:b{}", f.f.name, f.block)).or_insert(0) += 1;
        }
    }
    /// is c true on all of this path?  (no fork)
    pub fn must(&mut self, st: &mut State, c: Ex) -> R<bool> {
        if let Some(b) = self.known(st, c) {
            return Ok(b);
        }
        if self.ev(st, c) != 1 {
            return Ok(false);
        }
        let nc = cx().not1(c);
        let r = self.query(st, nc)?.is_none();
        if r {
            Rc::make_mut(&mut st.known).insert(c);
        }
        Ok(r)
    }
    /// as must, giving up early
    pub fn must_cheap(&mut self, st: &mut State, c: Ex) -> bool {
        self.solver.cheap = true;
        let r = self.must(st, c);
        self.solver.cheap = false;
        matches!(r, Ok(true))
    }
    pub fn assume(&mut self, st: &mut State, c: Ex) -> R<()> {
        match self.known(st, c) {
            Some(true) => return Ok(()),
            Some(false) => return Err(Ev::Drop),
            None => {}
        }
        if self.ev(st, c) != 1 {
            match self.query(st, c)? {
                None => return Err(Ev::Drop),
                Some(m) => self.with_model(st, &m),
            }
        }
        self.narrowed += 1;
        self.assume_true(st, c);
        Ok(())
    }
    /// one concrete value of e on this path; other values are explored by forks
    pub fn concretize(&mut self, st: &mut State, v: &V, w: u32) -> R<u64> {
        let e = match v {
            V::I(x) => return Ok(*x),
            V::E(e) => *e,
            _ => return Err(Ev::Unsup("concretize aggregate".into())),
        };
        if let Some(v) = cx().cv(e) {
            return Ok(v as u64);
        }
        if let Some(&v) = st.eqs.get(&e) {
            return Ok(v);
        }
        let val = self.ev(st, e);
        let k = cx().c(val, w as u8);
        let c = cx().eq(e, k);
        // decide() takes the model's side
        let b = self.decide(st, c)?;
        debug_assert!(b);
        Rc::make_mut(&mut st.eqs).insert(e, val as u64);
        Ok(val as u64)
    }
    /// pick one satisfying target out of mutually exclusive and exhaustive conditions
    pub fn split_on(&mut self, st: &mut State, conds: &[Ex]) -> R<usize> {
        for (i, &c) in conds.iter().enumerate() {
            if c == TRUE || st.known.contains(&c) {
                return Ok(i);
            }
        }
        let mut mine = None;
        for (i, &c) in conds.iter().enumerate() {
            if self.ev(st, c) == 1 {
                mine = Some(i);
                break;
            }
        }
        let mine = mine.ok_or_else(|| Ev::Unsup("split_on: conditions not exhaustive".into()))?;
        for (i, &c) in conds.iter().enumerate() {
            if i == mine || self.known(st, c) == Some(false) {
                continue;
            }
            if let Some(m) = self.query(st, c)? {
                let mut o = st.clone();
                self.with_model(&mut o, &m);
                self.assume_true(&mut o, c);
                Rc::make_mut(&mut o.known).insert(c);
                o.forks += 1;
                self.stats.forks += 1;
                self.note_fork(st);
                self.work.push(o);
            }
        }
        self.assume_true(st, conds[mine]);
        Rc::make_mut(&mut st.known).insert(conds[mine]);
        Ok(mine)
    }

    // ---- addresses ----------------------------------------------------
    pub fn place(&mut self, st: &mut State, v: &V, n: u64, write: bool) -> R<Place> {
        let e = match v {
            V::I(a) => {
                let (id, off) = split(*a);
                return self.place_conc(st, *a, id, off, n, write).map(|(i, o)| Place::C(i, o));
            }
            V::E(e) => *e,
            _ => return Err(Ev::Unsup("address aggregate".into())),
        };
        if let Some(&a) = st.eqs.get(&e) {
            let (id, off) = split(a);
            return self.place_conc(st, a, id, off, n, write).map(|(i, o)| Place::C(i, o));
        }
        let mut ls = BTreeSet::new();
        if leaves(e, &mut ls, 0, &mut HashSet::new()) && ls.len() <= 256 {
            // drop leaves that cannot occur when some are out of bounds
            let id0 = split(*ls.iter().next().unwrap()).0;
            let same = ls.iter().all(|&a| split(a).0 == id0);
            let inb = |st: &State, a: u64| {
                let (id, off) = split(a);
                match st.mem.get(id) {
                    Some(o) => off >= 0 && off as u64 + n <= o.data.len() as u64,
                    None => false,
                }
            };
            if same && ls.iter().all(|&a| inb(st, a)) {
                let offs: Vec<u64> = ls.iter().map(|&a| split(a).1 as u64).collect();
                if write && st.mem.get(id0).unwrap().ro {
                    return Err(Ev::Violation("memory".into(), "write to constant".into()));
                }
                return Ok(Place::S(id0, offs, e));
            }
            let a = self.concretize(st, v, 64)?;
            let (id, off) = split(a);
            return self.place_conc(st, a, id, off, n, write).map(|(i, o)| Place::C(i, o));
        }
        let (mut lo, mut hi) = cx().iv[e as usize];
        let mv = self.ev(st, e) as u64;
        let (id, _) = split(mv);
        let size = match st.mem.get(id) {
            Some(o) => o.data.len() as u64,
            None => return Err(Ev::Violation("memory".into(), format!("access to invalid address {mv:#x}"))),
        };
        if size < n {
            return Err(Ev::Violation("memory".into(), format!("access of {n} bytes to object of {size}")));
        }
        let base = addr_of(id);
        let (lo_ok, hi_ok) = (base, base + size - n);
        if lo < lo_ok || hi > hi_ok {
            let l = cx().c(lo_ok as u128, 64);
            let h = cx().c(hi_ok as u128, 64);
            let c1 = cx().ule(l, e);
            let c2 = cx().ule(e, h);
            let c = cx().and(c1, c2);
            if self.ev(st, c) != 1 {
                return Err(Ev::Violation("memory".into(), format!("out of bounds access of {n} bytes at {mv:#x} in object of {size} bytes")));
            }
            // the other side of this fork is out of bounds or in another object
            self.decide(st, c)?;
            lo = lo.max(lo_ok);
            hi = hi.min(hi_ok);
        }
        if write && st.mem.get(id).unwrap().ro {
            return Err(Ev::Violation("memory".into(), "write to constant".into()));
        }
        let bx = cx().c(base as u128, 64);
        let rel = cx().sub(e, bx);
        let mut stride = known_mult(rel, 12).max(1);
        if stride > size {
            stride = 1;
        }
        let lo_o = lo - base;
        let hi_o = hi - base;
        let mut lo_o = (lo_o + stride - 1) / stride * stride;
        let mut hi_o = hi_o / stride * stride;
        if (hi_o.saturating_sub(lo_o)) / stride + 1 > 24 {
            // narrow the range with the solver
            let mv_o = mv - base;
            let (mut a, mut b) = (lo_o / stride, mv_o / stride);
            while a < b {
                let m = (a + b) / 2;
                let k = cx().c((base + (m + 1) * stride) as u128, 64);
                let c = cx().ule(k, e);
                if self.must_q(st, c)? {
                    a = m + 1
                } else {
                    b = m
                }
            }
            lo_o = a * stride;
            let (mut a, mut b) = (mv_o / stride, hi_o / stride);
            while a < b {
                let m = (a + b) / 2;
                let k = cx().c((base + m * stride) as u128, 64);
                let c = cx().ule(e, k);
                if self.must_q(st, c)? {
                    b = m
                } else {
                    a = m + 1
                }
                if b * stride - lo_o > 4096 * stride && a * stride - lo_o > 4096 * stride {
                    break;
                }
            }
            hi_o = b * stride;
        }
        let cnt = (hi_o - lo_o) / stride + 1;
        if cnt <= 256 {
            return Ok(Place::S(id, (0..cnt).map(|i| lo_o + i * stride).collect(), e));
        }
        Ok(Place::W(id, lo_o, hi_o, e))
    }
    fn must_q(&mut self, st: &mut State, c: Ex) -> R<bool> {
        if let Some(b) = self.known(st, c) {
            return Ok(b);
        }
        if self.ev(st, c) != 1 {
            return Ok(false);
        }
        let nc = cx().not1(c);
        Ok(self.query(st, nc)?.is_none())
    }
    fn place_conc(&mut self, st: &State, a: u64, id: u32, off: i64, n: u64, write: bool) -> R<(u32, u64)> {
        match st.mem.get(id) {
            Some(o) => {
                if off < 0 || off as u64 + n > o.data.len() as u64 {
                    return Err(Ev::Violation("memory".into(), format!("out of bounds access at offset {off} of {n} bytes in object of {} bytes", o.data.len())));
                }
                if write && o.ro {
                    return Err(Ev::Violation("memory".into(), "write to constant".into()));
                }
                Ok((id, off as u64))
            }
            None => {
                if n == 0 {
                    return Ok((0, 0));
                }
                Err(Ev::Violation("memory".into(), format!("access to invalid address {a:#x}")))
            }
        }
    }
    pub fn load_n(&mut self, st: &mut State, p: &V, n: u64) -> R<V> {
        match self.place(st, p, n, false)? {
            Place::C(id, off) => {
                let v = st.mem.get(id).unwrap().load(id, off, n);
                Ok(self.subst(st, v))
            }
            Place::S(id, offs, e) => {
                let o = st.mem.get(id).unwrap().clone();
                // group equal values
                let mut groups: Vec<(V, Vec<(u64, u64)>)> = vec![];
                let mut idx: HashMap<(u8, u64), usize> = HashMap::new();
                let mut last: Option<usize> = None;
                for &off in &offs {
                    let v = o.load(id, off, n);
                    let key = match &v {
                        V::I(x) => (0, *x),
                        V::E(e) => (1, *e as u64),
                        _ => unreachable!(),
                    };
                    let g = *idx.entry(key).or_insert_with(|| {
                        groups.push((v, vec![]));
                        groups.len() - 1
                    });
                    if last == Some(g) {
                        groups[g].1.last_mut().unwrap().1 = off;
                    } else {
                        groups[g].1.push((off, off));
                    }
                    last = Some(g);
                }
                // the group with most ranges becomes the default
                let d = (0..groups.len()).max_by_key(|&g| groups[g].1.len()).unwrap();
                let w = (n * 8) as u32;
                let mut r = groups[d].0.ex(w);
                let rounded = w;
                let _ = rounded;
                for (g, (v, rs)) in groups.iter().enumerate() {
                    if g == d {
                        continue;
                    }
                    let mut c = FALSE;
                    for &(l, h) in rs {
                        let la = cx().c((addr_of(id) + l) as u128, 64);
                        let t = if l == h {
                            cx().eq(e, la)
                        } else {
                            let ha = cx().c((addr_of(id) + h) as u128, 64);
                            let a = cx().ule(la, e);
                            let b = cx().ule(e, ha);
                            cx().and(a, b)
                        };
                        c = cx().or(c, t);
                    }
                    let x = v.ex(w);
                    r = cx().ite(c, x, r);
                }
                Ok(self.subst(st, mk(r)))
            }
            Place::W(id, lo, hi, e) => {
                let o = st.mem.get(id).unwrap().clone();
                if n != 1 || o.sym.len() > 4096 {
                    if n <= 4 && o.sym.range(lo as u32..(hi + n) as u32).next().is_none() {
                        // multi-byte read as separate bytes
                        let mut r: Option<Ex> = None;
                        for i in 0..n {
                            let k = cx().c(i as u128, 64);
                            let a = cx().add(e, k);
                            let b = self.load_wide_byte(&o, id, lo + i, hi + i, a)?;
                            r = Some(match r {
                                None => b,
                                Some(x) => cx().concat(b, x),
                            });
                        }
                        return Ok(self.subst(st, mk(r.unwrap())));
                    }
                    if std::env::var("TELSYM_W").is_ok() {
                        eprintln!("W load n {n} lo {lo} hi {hi} sym {} log {} size {} {}", o.sym.len(), o.log.len(), o.data.len(), self.backtrace(st));
                    }
                    let a = self.concretize(st, &V::E(e), 64)?;
                    return self.load_n(st, &V::I(a), n);
                }
                let b = self.load_wide_byte(&o, id, lo, hi, e)?;
                Ok(self.subst(st, mk(b)))
            }
        }
    }
    fn load_wide_byte(&mut self, o: &Obj, id: u32, lo: u64, hi: u64, e: Ex) -> R<Ex> {
        // runs of equal base bytes
        let mut runs: Vec<(u64, u64, Ex)> = vec![];
        for off in lo..=hi {
            let b = if let Some(&(x, i)) = o.sym.get(&(off as u32)) {
                if cx().w(x) == 8 {
                    x
                } else {
                    cx().extract(x, i * 8 + 7, i * 8)
                }
            } else {
                cx().c(o.data[off as usize] as u128, 8)
            };
            match runs.last_mut() {
                Some(r) if r.2 == b && r.1 + 1 == off => r.1 = off,
                _ => runs.push((off, off, b)),
            }
        }
        if runs.len() > 3000 {
            return Err(Ev::Unsup(format!("symbolic read over {} distinct runs", runs.len())));
        }
        let base = addr_of(id);
        // binary tree over runs
        fn tree(runs: &[(u64, u64, Ex)], base: u64, e: Ex) -> Ex {
            if runs.len() == 1 {
                return runs[0].2;
            }
            let m = runs.len() / 2;
            let l = tree(&runs[..m], base, e);
            let r = tree(&runs[m..], base, e);
            let k = cx().c((base + runs[m].0) as u128, 64);
            let c = cx().ult(e, k);
            cx().ite(c, l, r)
        }
        let mut r = tree(&runs, base, e);
        for &(la, lv) in &o.log {
            let c = cx().eq(e, la);
            r = cx().ite(c, lv, r);
        }
        Ok(r)
    }
    fn subst(&mut self, st: &State, v: V) -> V {
        if let V::E(e) = v {
            if !st.eqs.is_empty() {
                if let Some(&k) = st.eqs.get(&e) {
                    return V::I(k);
                }
            }
        }
        v
    }
    pub fn store_n(&mut self, st: &mut State, p: &V, n: u64, v: &V) -> R<()> {
        match self.place(st, p, n, true)? {
            Place::C(id, off) => {
                st.mem.get_mut(id).unwrap().store(id, off, n, v);
            }
            Place::S(id, offs, e) => {
                let w = (n * 8) as u32;
                let nv = match v {
                    V::I(_) => v.ex(w),
                    V::E(x) => {
                        if (cx().w(*x) as u32) < w {
                            cx().zext(*x, w as u8)
                        } else {
                            *x
                        }
                    }
                    _ => return Err(Ev::Unsup("store agg".into())),
                };
                let o = st.mem.get_mut(id).unwrap();
                // overlapping candidates need the old values of all first
                let olds: Vec<V> = offs.iter().map(|&off| o.load(id, off, n)).collect();
                let overlap = offs.windows(2).any(|x| x[1] - x[0] < n);
                if overlap {
                    for i in 0..n {
                        let k = cx().c(i as u128, 64);
                        let a = cx().add(e, k);
                        let b = cx().extract(nv, (i * 8 + 7) as u8, (i * 8) as u8);
                        for &off in &offs {
                            let p = (off + i) as u32;
                            let old = o.byte(id, p);
                            let ka = cx().c((addr_of(id) + p as u64) as u128, 64);
                            let c = cx().eq(a, ka);
                            let x = cx().ite(c, b, old);
                            o.set_byte(id, p, x);
                        }
                    }
                } else {
                    for (i, &off) in offs.iter().enumerate() {
                        let old = olds[i].ex(w);
                        let ka = cx().c((addr_of(id) + off) as u128, 64);
                        let c = cx().eq(e, ka);
                        let x = cx().ite(c, nv, old);
                        o.store(id, off, n, &mk(x));
                    }
                }
            }
            Place::W(id, _, _, e) => {
                let w = (n * 8) as u32;
                let nv = v.ex(w);
                let o = st.mem.get_mut(id).unwrap();
                for i in 0..n {
                    let k = cx().c(i as u128, 64);
                    let a = cx().add(e, k);
                    let b = cx().extract(nv, (i * 8 + 7) as u8, (i * 8) as u8);
                    o.log.push((a, b));
                }
                if o.log.len() > 4000 {
                    return Err(Ev::Unsup("write log too long".into()));
                }
            }
        }
        Ok(())
    }
    pub fn load_ty(&mut self, st: &mut State, p: &V, ty: &Ty) -> R<V> {
        match ty {
            Ty::Int(w) => {
                let n = ty.store_size();
                let v = self.load_n(st, p, n)?;
                let bits = n as u32 * 8;
                if *w == bits {
                    return Ok(v);
                }
                Ok(match v {
                    V::I(x) if *w <= 64 => V::I(x & m64(*w)),
                    v => {
                        let e = v.ex(bits);
                        let r = mk(cx().extract(e, (*w - 1) as u8, 0));
                        self.subst(st, r)
                    }
                })
            }
            Ty::Ptr | Ty::F64 => self.load_n(st, p, 8),
            Ty::F32 => self.load_n(st, p, 4),
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                let mut out = vec![];
                for i in 0..ty.n_fields() {
                    let q = self.ptr_add(p, ty.field_offset(i) as i64);
                    out.push(self.load_ty(st, &q, &ty.field_ty(i))?);
                }
                Ok(V::A(Rc::new(out)))
            }
            _ => Err(Ev::Unsup(format!("load {ty:?}"))),
        }
    }
    pub fn store_ty(&mut self, st: &mut State, p: &V, ty: &Ty, v: &V) -> R<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 => self.store_n(st, p, ty.store_size(), v),
            _ => {
                let V::A(xs) = v else { return Err(Ev::Unsup("store scalar as aggregate".into())) };
                for i in 0..ty.n_fields() {
                    let q = self.ptr_add(p, ty.field_offset(i) as i64);
                    self.store_ty(st, &q, &ty.field_ty(i), &xs[i])?;
                }
                Ok(())
            }
        }
    }
    pub fn ptr_add(&mut self, p: &V, k: i64) -> V {
        match p {
            V::I(a) => V::I(a.wrapping_add(k as u64)),
            V::E(e) => {
                let c = cx().c(k as u64 as u128, 64);
                mk(cx().add(*e, c))
            }
            _ => panic!(),
        }
    }
    pub fn bytes(&mut self, st: &mut State, p: &V, n: u64) -> R<Vec<Ex>> {
        let mut out = vec![];
        if n == 0 {
            return Ok(out);
        }
        if let Place::C(id, off) = self.place(st, p, n, false)? {
            let o = st.mem.get(id).unwrap();
            for i in 0..n {
                let b = o.byte(id, (off + i) as u32);
                out.push(b);
            }
            return Ok(out);
        }
        for i in 0..n {
            let q = self.ptr_add(p, i as i64);
            let v = self.load_n(st, &q, 1)?;
            out.push(v.ex(8));
        }
        Ok(out)
    }
    pub fn cstr_bytes(&mut self, st: &mut State, p: &V, n: u64) -> R<Vec<u8>> {
        let b = self.bytes(st, p, n)?;
        let mut out = vec![];
        for e in b {
            out.push(self.concretize(st, &mk(e), 8)? as u8);
        }
        Ok(out)
    }
    pub fn copy(&mut self, st: &mut State, d: &V, s: &V, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (dp, sp) = (self.place(st, d, n, true)?, self.place(st, s, n, false)?);
        if let (Place::C(di, doff), Place::C(si, so)) = (&dp, &sp) {
            let src = st.mem.get(*si).unwrap().clone();
            let dst = st.mem.get_mut(*di).unwrap();
            // log entries of the source known to lie outside or inside the copied range
            let mut moved: Option<Vec<(Ex, Ex)>> = Some(vec![]);
            if dst.log.is_empty() {
                let (lo, hi) = (addr_of(*si) + *so, addr_of(*si) + *so + n);
                let (le, he) = (cx().c(lo as u128, 64), cx().c(hi as u128, 64));
                for &(la, lv) in src.log.iter() {
                    let a = cx().ule(le, la);
                    let b = cx().ult(la, he);
                    let inside = cx().and(a, b);
                    let outside = cx().not1(inside);
                    if self.must_q(st, outside)? {
                        continue;
                    }
                    if self.must_q(st, inside)? {
                        let d = cx().c((addr_of(*di) + *doff).wrapping_sub(lo) as u128, 64);
                        let na = cx().add(la, d);
                        moved.as_mut().unwrap().push((na, lv));
                        continue;
                    }
                    moved = None;
                    break;
                }
            }
            let dst = st.mem.get_mut(*di).unwrap();
            if moved.is_some() && dst.log.is_empty() {
                dst.log = moved.unwrap().into();
                dst.data[*doff as usize..(*doff + n) as usize].copy_from_slice(&src.data[*so as usize..(*so + n) as usize]);
                if !dst.sym.is_empty() {
                    let ks: Vec<u32> = dst.sym.range(*doff as u32..(*doff + n) as u32).map(|x| *x.0).collect();
                    for k in ks {
                        dst.sym.remove(&k);
                    }
                }
                if !src.sym.is_empty() {
                    for (k, v) in src.sym.range(*so as u32..(*so + n) as u32) {
                        dst.sym.insert((*k as u64 - so + doff) as u32, *v);
                    }
                }
            } else {
                for i in 0..n {
                    let b = src.byte(*si, (so + i) as u32);
                    dst.set_byte(*di, (doff + i) as u32, b);
                }
            }
            return Ok(());
        }
        // symbolic address
        let b = self.bytes(st, s, n)?;
        let step = if n % 8 == 0 { 8 } else if n % 2 == 0 { 2 } else { 1 };
        let mut i = 0;
        while i < n {
            let mut e = b[i as usize];
            for k in 1..step {
                e = cx().concat(b[(i + k) as usize], e);
            }
            let q = self.ptr_add(d, i as i64);
            self.store_n(st, &q, step, &mk(e))?;
            i += step;
        }
        Ok(())
    }

    // ---- globals ---------------------------------------------------------
    pub fn sym_addr(&mut self, st: &mut State, inst: u32, sym: u32) -> R<u64> {
        let module = st.insts[inst as usize].module;
        if let Some(&id) = st.insts[inst as usize].globals.get(&sym) {
            return Ok(addr_of(id));
        }
        match self.modules[module as usize].kinds[sym as usize] {
            SymKind::Func { .. } | SymKind::DeclFunc => {
                let n = &self.modules[module as usize].names[sym as usize];
                if env::weak_null(n) {
                    return Ok(0);
                }
                Ok(fn_addr(module, sym))
            }
            SymKind::Alias { .. } => {
                let t = self.modules[module as usize].alias_target(sym);
                self.sym_addr(st, inst, t)
            }
            SymKind::DeclGlobal { weak } => {
                if weak {
                    return Ok(0);
                }
                let n = self.modules[module as usize].names[sym as usize].clone();
                let id = st.mem.alloc(Obj::new(64, Kind::Global));
                Rc::make_mut(&mut st.insts[inst as usize].globals).insert(sym, id);
                if n != "environ" && n != "__environ" {
                    return Err(Ev::Unsup(format!("external global {n}")));
                }
                Ok(addr_of(id))
            }
            SymKind::Global { .. } => {
                let g = self.modules[module as usize].global(sym);
                let n = g.ty.size();
                let mut o = Obj::new(n, Kind::Global);
                o.align = g.align.max(1) as u32;
                let id = st.mem.alloc(o);
                Rc::make_mut(&mut st.insts[inst as usize].globals).insert(sym, id);
                if let Some(c) = &g.init {
                    self.init_const(st, inst, id, 0, &g.ty, c)?;
                }
                st.mem.get_mut(id).unwrap().ro = g.constant;
                Ok(addr_of(id))
            }
        }
    }
    fn init_const(&mut self, st: &mut State, inst: u32, id: u32, off: u64, ty: &Ty, c: &C) -> R<()> {
        match c {
            C::Zero => {}
            C::Bytes(b) => {
                st.mem.get_mut(id).unwrap().data[off as usize..off as usize + b.len()].copy_from_slice(b);
            }
            C::Int(v) => {
                let n = ty.store_size();
                let o = st.mem.get_mut(id).unwrap();
                for i in 0..n {
                    o.data[(off + i) as usize] = (*v >> (8 * i)) as u8;
                }
            }
            C::Agg(v) => {
                for (i, x) in v.iter().enumerate() {
                    self.init_const(st, inst, id, off + ty.field_offset(i), &ty.field_ty(i), x)?;
                }
            }
            C::Splat(x) => {
                for i in 0..ty.n_fields() {
                    self.init_const(st, inst, id, off + ty.field_offset(i), &ty.field_ty(i), x)?;
                }
            }
            C::Sym(..) | C::Bin(..) | C::Trunc(..) => {
                let v = self.const_int(st, inst, c)?;
                let n = ty.store_size();
                let o = st.mem.get_mut(id).unwrap();
                for i in 0..n {
                    o.data[(off + i) as usize] = (v >> (8 * i)) as u8;
                }
            }
        }
        Ok(())
    }
    fn const_int(&mut self, st: &mut State, inst: u32, c: &C) -> R<u64> {
        Ok(match c {
            C::Zero => 0,
            C::Int(v) => *v as u64,
            C::Sym(s, o) => self.sym_addr(st, inst, *s)?.wrapping_add(*o as u64),
            C::Bin(op, a, b, w) => {
                let a = self.const_int(st, inst, a)?;
                let b = self.const_int(st, inst, b)?;
                match bin_i(*op, a, b, *w) {
                    Some(x) => x,
                    None => return Err(Ev::Unsup("const bin".into())),
                }
            }
            C::Trunc(a, w) => self.const_int(st, inst, a)? & m64(*w),
            _ => return Err(Ev::Unsup("const".into())),
        })
    }
    pub fn const_v(&mut self, st: &mut State, inst: u32, c: &C, ty: &Ty) -> R<V> {
        Ok(match ty {
            Ty::Int(w) if *w > 64 => {
                let v = match c {
                    C::Int(v) => *v,
                    C::Zero => 0,
                    _ => return Err(Ev::Unsup("wide const".into())),
                };
                V::E(cx().c(v, *w as u8))
            }
            Ty::Int(w) => V::I(self.const_int(st, inst, c)? & m64(*w)),
            Ty::Ptr | Ty::F32 | Ty::F64 => V::I(self.const_int(st, inst, c)?),
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                let mut out = vec![];
                for i in 0..ty.n_fields() {
                    let ft = ty.field_ty(i);
                    let z = C::Zero;
                    let tmp;
                    let x = match c {
                        C::Zero => &z,
                        C::Agg(v) => &v[i],
                        C::Splat(v) => v,
                        C::Bytes(b) => {
                            let n = ft.size() as usize;
                            let mut v = 0u128;
                            for k in (0..n).rev() {
                                v = (v << 8) | b[i * n + k] as u128;
                            }
                            tmp = C::Int(v);
                            &tmp
                        }
                        _ => return Err(Ev::Unsup("agg const".into())),
                    };
                    out.push(self.const_v(st, inst, x, &ft)?);
                }
                V::A(Rc::new(out))
            }
            _ => V::I(0),
        })
    }
    #[inline]
    fn opv(&mut self, st: &mut State, o: &Op) -> R<V> {
        Ok(match o {
            Op::Reg(r) => {
                let v = &st.frames.last().unwrap().regs[*r as usize];
                match v {
                    V::I(x) => V::I(*x),
                    V::E(e) => {
                        let e = *e;
                        if !st.eqs.is_empty() {
                            if let Some(&k) = st.eqs.get(&e) {
                                return Ok(V::I(k));
                            }
                        }
                        V::E(e)
                    }
                    V::A(a) => V::A(a.clone()),
                }
            }
            Op::I(x) => V::I(*x),
            Op::Sym(s, off) => {
                let inst = st.frames.last().unwrap().inst;
                V::I(self.sym_addr(st, inst, *s)?.wrapping_add(*off as u64))
            }
            Op::C(c) => {
                let inst = st.frames.last().unwrap().inst;
                self.const_v(st, inst, &c.0, &c.1)?
            }
        })
    }

    // ---- running ------------------------------------------------------------
    pub fn push_frame(&mut self, st: &mut State, f: &'static Func, args: Vec<V>, inst: u32, call: Option<&'static Call>) -> R<()> {
        if st.frames.len() > 2000 {
            return Err(Ev::Violation("stack-overflow".into(), f.name.clone()));
        }
        let mut regs = vec![V::I(0); f.nregs as usize];
        for (i, (_, r)) in f.params.iter().enumerate() {
            regs[*r as usize] = args[i].clone();
        }
        st.frames.push(Frame { f, block: 0, pc: 0, regs, nstack: st.mem.stack.len(), inst, call, tool: false });
        Ok(())
    }
    fn goto(&mut self, st: &mut State, b: u32) -> R<()> {
        let fr = st.frames.last_mut().unwrap();
        let blk = &fr.f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let ops = blk.incoming.get(&fr.block).expect("phi edge");
            assert!(ops.len() == blk.phis.len(), "phi entries");
            if ops.len() == 1 {
                let v = self.opv(st, &ops[0])?;
                let fr = st.frames.last_mut().unwrap();
                fr.regs[blk.phis[0].0 as usize] = v;
            } else {
                let mut vs = Vec::with_capacity(ops.len());
                for o in ops {
                    vs.push(self.opv(st, o)?);
                }
                let fr = st.frames.last_mut().unwrap();
                for (i, v) in vs.into_iter().enumerate() {
                    fr.regs[blk.phis[i].0 as usize] = v;
                }
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.block = b;
        fr.pc = 0;
        Ok(())
    }
    pub fn ret(&mut self, st: &mut State, v: Option<V>) -> R<()> {
        let fr = st.frames.pop().unwrap();
        st.mem.stack.truncate(fr.nstack);
        if fr.tool {
            // main() of a tool run returned
            let code = v.unwrap_or(V::I(0));
            st.frames.push(fr);
            return env::tool_exit(self, st, code);
        }
        let Some(call) = fr.call else { return Err(Ev::End) };
        self.finish_call(st, call, v)
    }
    /// deliver a call's result to the top frame and move on
    pub fn finish_call(&mut self, st: &mut State, call: &'static Call, v: Option<V>) -> R<()> {
        if st.frames.is_empty() {
            return Err(Ev::End);
        }
        let top = st.frames.last_mut().unwrap();
        if let (Some(d), Some(v)) = (call.dst, v) {
            top.regs[d as usize] = v;
        }
        match call.next {
            Some(b) => self.goto(st, b)?,
            None => top.pc += 1,
        }
        Ok(())
    }
    pub fn backtrace(&self, st: &State) -> String {
        let mut s = vec![];
        for f in st.frames.iter().rev().take(14) {
            s.push(short(&f.f.name));
        }
        s.join(" < ")
    }

    pub fn run_path(&mut self, mut st: State) {
        self.regions.clear();
        let me = &mut *self;
        let sr = &mut st;
        let ev = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || me.run_loop(sr)));
        let ev = ev.unwrap_or_else(|e| {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Ev::Unsup(format!("engine: {} at {}", m.chars().take(120).collect::<String>(), crate::PANIC_AT.with(|p| p.borrow().clone())))
        });
        self.finish_path(st, ev);
    }
    fn run_loop(&mut self, st: &mut State) -> Ev {
        loop {
            st.steps += 1;
            self.stats.steps += 1;
            if st.steps > self.step_limit {
                break Ev::Violation("hang".into(), format!("more than {} steps", self.step_limit));
            }
            if st.steps & 0xfff == 0 {
                if self.stopped() {
                    break Ev::Unsup("stopped after a violation".into());
                }
                if let Some(d) = self.deadline {
                    if std::time::Instant::now() > d {
                        break Ev::Unsup("time budget exhausted".into());
                    }
                }
            }
            if let Err(e) = self.step(st) {
                break e;
            }
        }
    }
    pub fn finish_path(&mut self, st: State, ev: Ev) {
        match ev {
            Ev::End => {
                self.stats.paths += 1;
                for c in st.covers.iter() {
                    if !self.covers.contains(c) {
                        self.covers.insert(c.clone());
                    }
                }
                self.sample(&st);
            }
            Ev::Drop => self.stats.dropped += 1,
            Ev::Gone => {}
            Ev::Violation(k, m) => {
                self.stats.paths += 1;
                self.violation(&st, &k, &m);
            }
            Ev::Unsup(m) => {
                let bt = self.backtrace(&st);
                if std::env::var("TELSYM_DEBUG").is_ok() {
                    eprintln!("unsup: {m} at {bt}");
                }
                *self.unsup.entry(format!("{m} at {bt}")).or_insert(0) += 1;
            }
        }
        self.solver.clear_cache_if_big();
    }
    fn sample(&mut self, st: &State) {
        // keep samples spread over the run: every 2^k-th path
        let n = self.stats.paths;
        if self.samples.len() >= self.sample_max && !(n.is_power_of_two() && n > 8) {
            return;
        }
        let replay = self.replay_text(st);
        let tr: Vec<u64> = st.trace.clone().iter().map(|&e| self.ev(st, e) as u64).collect();
        self.samples.push(Sample { replay, trace: tr });
    }
    pub fn replay_text(&mut self, st: &State) -> String {
        let mut s = format!("h {}\n", self.harness);
        for a in &self.hargs {
            s += &format!("p {a}\n");
        }
        for i in st.inputs.clone().iter() {
            match i {
                In::Var(e) => {
                    let v = self.ev(st, *e);
                    s += &format!("v {} {}\n", cx().w(*e), v);
                }
                In::Choice(k, n) => s += &format!("c {n} {k}\n"),
            }
        }
        for (bi, b) in st.bases.clone().iter().enumerate() {
            for &(a, v) in b.iter() {
                let a = self.ev(st, a);
                let v = self.ev(st, v);
                s += &format!("a {bi} {a} {v}\n");
            }
        }
        s
    }
    pub fn stopped(&self) -> bool {
        let Some((a, t0, _)) = &self.stop else { return false };
        let v = a.load(std::sync::atomic::Ordering::Relaxed);
        v > 0 && t0.elapsed().as_secs() as i32 + 1 > v
    }
    pub fn violation(&mut self, st: &State, id: &str, msg: &str) {
        let key = if id == "panic" || id == "memory" || id == "hang" || id == "exit" { format!("{id}: {msg}") } else { id.to_string() };
        if let Some((a, t0, grace)) = &self.stop {
            let v = t0.elapsed().as_secs() as i32 + 1 + grace;
            let _ = a.compare_exchange(0, v, std::sync::atomic::Ordering::Relaxed, std::sync::atomic::Ordering::Relaxed);
        }
        let n = self.viol_count.entry(key.clone()).or_insert(0);
        *n += 1;
        if *n > self.max_viol_per_id {
            return;
        }
        let replay = self.replay_text(st);
        let stack = self.backtrace(st);
        self.violations.push(Violation { id: id.to_string(), msg: msg.to_string(), stack, replay });
    }

    pub fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f: &'static Func = fr.f;
        let inst: &'static Inst = &f.blocks[fr.block as usize].insts[fr.pc as usize];
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                let fr = st.frames.last_mut().unwrap();
                fr.regs[*$d as usize] = v;
                fr.pc += 1;
                Ok(())
            }};
        }
        match inst {
            Inst::Bin(d, op, ty, a, b) => {
                let a = self.opv(st, a)?;
                let b = self.opv(st, b)?;
                let v = self.bin(*op, ty, &a, &b)?;
                set!(d, v)
            }
            Inst::Icmp(d, p, ty, a, b) => {
                let a = self.opv(st, a)?;
                let b = self.opv(st, b)?;
                let v = self.icmp(*p, ty, &a, &b)?;
                set!(d, v)
            }
            Inst::Load(d, ty, p) => {
                let p = self.opv(st, p)?;
                let v = self.load_ty(st, &p, ty)?;
                set!(d, v)
            }
            Inst::Store(ty, v, p) => {
                let v = self.opv(st, v)?;
                let p = self.opv(st, p)?;
                self.store_ty(st, &p, ty, &v)?;
                st.frames.last_mut().unwrap().pc += 1;
                Ok(())
            }
            Inst::Gep(d, base, off, idx) => {
                let b = self.opv(st, base)?;
                let mut c = *off;
                let mut sym: Option<Ex> = None;
                for (o, w, scale) in idx {
                    match self.opv(st, o)? {
                        V::I(x) => c = c.wrapping_add(sx64(x, *w).wrapping_mul(*scale)),
                        V::E(e) => {
                            let e = if *w < 64 { cx().sext(e, 64) } else { e };
                            let k = cx().c(*scale as u64 as u128, 64);
                            let t = cx().mul(e, k);
                            sym = Some(match sym {
                                None => t,
                                Some(s) => cx().add(s, t),
                            });
                        }
                        _ => return Err(Ev::Unsup("gep vector".into())),
                    }
                }
                let v = match (sym, b) {
                    (None, V::I(a)) => V::I(a.wrapping_add(c as u64)),
                    (s, b) => {
                        let mut e = b.ex(64);
                        if let Some(s) = s {
                            e = cx().add(e, s);
                        }
                        let k = cx().c(c as u64 as u128, 64);
                        mk(cx().add(e, k))
                    }
                };
                set!(d, v)
            }
            Inst::Cast(d, op, from, o, to) => {
                let v = self.opv(st, o)?;
                let v = self.cast(*op, from, &v, to)?;
                set!(d, v)
            }
            Inst::Br(b) => self.goto(st, *b),
            Inst::CondBr(c, a, b) => {
                let t = match self.opv(st, c)? {
                    V::I(x) => x & 1 == 1,
                    V::E(e) => {
                        if self.merge_max > 0 && self.known(st, e).is_none() && !self.in_region(st) {
                            let base = st.clone();
                            let saved = std::mem::take(&mut self.work);
                            let r = self.decide(st, e);
                            if r.is_ok() && !self.work.is_empty() {
                                return self.region(st, base, saved);
                            }
                            self.work = saved;
                            r?
                        } else {
                            self.decide(st, e)?
                        }
                    }
                    _ => return Err(Ev::Unsup("br agg".into())),
                };
                self.goto(st, if t { *a } else { *b })
            }
            Inst::Switch(o, w, def, cases) => match self.opv(st, o)? {
                V::I(x) => {
                    let mut t = *def;
                    for (k, l) in cases {
                        if *k == x as u128 {
                            t = *l;
                            break;
                        }
                    }
                    self.goto(st, t)
                }
                V::E(e) => {
                    let mut targets: Vec<(u32, Ex)> = vec![];
                    let mut any = FALSE;
                    for (k, l) in cases {
                        let kk = cx().c(*k, *w as u8);
                        let c = cx().eq(e, kk);
                        any = cx().or(any, c);
                        match targets.iter_mut().find(|t| t.0 == *l) {
                            Some(t) => t.1 = cx().or(t.1, c),
                            None => targets.push((*l, c)),
                        }
                    }
                    let dc = cx().not1(any);
                    match targets.iter_mut().find(|t| t.0 == *def) {
                        Some(t) => t.1 = cx().or(t.1, dc),
                        None => targets.push((*def, dc)),
                    }
                    let conds: Vec<Ex> = targets.iter().map(|t| t.1).collect();
                    let i = if self.merge_max > 0 && !self.in_region(st) {
                        let base = st.clone();
                        let saved = std::mem::take(&mut self.work);
                        let r = self.split_on(st, &conds);
                        if r.is_ok() && !self.work.is_empty() {
                            return self.region(st, base, saved);
                        }
                        self.work = saved;
                        r?
                    } else {
                        self.split_on(st, &conds)?
                    };
                    self.goto(st, targets[i].0)
                }
                _ => Err(Ev::Unsup("switch agg".into())),
            },
            Inst::Call(c) => self.call(st, c),
            Inst::Ret(v) => {
                let v = match v {
                    Some((_, o)) => Some(self.opv(st, o)?),
                    None => None,
                };
                self.ret(st, v)
            }
            Inst::Alloca(d, n, al) => {
                let mut o = Obj::new(*n, Kind::Stack);
                o.align = *al as u32;
                let id = st.mem.alloc_stack(o);
                set!(d, V::I(addr_of(id)))
            }
            Inst::Select(d, ct, c, ty, a, b) => {
                let c = self.opv(st, c)?;
                let a = self.opv(st, a)?;
                let b = self.opv(st, b)?;
                let _ = ct;
                let v = match c {
                    V::I(x) => {
                        if x & 1 == 1 {
                            a
                        } else {
                            b
                        }
                    }
                    V::E(e) => {
                        if let Some(t) = self.known(st, e) {
                            if t {
                                a
                            } else {
                                b
                            }
                        } else {
                            match self.merge(e, ty, &a, &b) {
                                Some(v) => v,
                                None => {
                                    if self.decide(st, e)? {
                                        a
                                    } else {
                                        b
                                    }
                                }
                            }
                        }
                    }
                    V::A(cs) => {
                        let (V::A(xs), V::A(ys)) = (&a, &b) else { return Err(Ev::Unsup("vselect".into())) };
                        let et = ty.field_ty(0);
                        let mut out = vec![];
                        for i in 0..cs.len() {
                            out.push(match &cs[i] {
                                V::I(x) => {
                                    if x & 1 == 1 {
                                        xs[i].clone()
                                    } else {
                                        ys[i].clone()
                                    }
                                }
                                V::E(e) => match self.merge(*e, &et, &xs[i], &ys[i]) {
                                    Some(v) => v,
                                    None => return Err(Ev::Unsup("vselect merge".into())),
                                },
                                _ => return Err(Ev::Unsup("vselect".into())),
                            });
                        }
                        V::A(Rc::new(out))
                    }
                };
                set!(d, v)
            }
            Inst::ExtractValue(d, o, ix) => {
                let mut v = self.opv(st, o)?;
                for &i in ix {
                    v = match v {
                        V::A(a) => a[i as usize].clone(),
                        _ => return Err(Ev::Unsup("extractvalue".into())),
                    };
                }
                set!(d, v)
            }
            Inst::InsertValue(d, ty, o, v, ix) => {
                let a = self.opv(st, o)?;
                let v = self.opv(st, v)?;
                let a = self.agg(a, ty);
                let r = insert_value(a, v, ix);
                set!(d, r)
            }
            Inst::ExtractElement(d, o, i) => {
                let v = self.opv(st, o)?;
                let i = self.opv(st, i)?;
                let i = self.concretize(st, &i, 64)?;
                let V::A(a) = v else { return Err(Ev::Unsup("extractelement".into())) };
                set!(d, a[i as usize].clone())
            }
            Inst::InsertElement(d, ty, o, v, i) => {
                let a = self.opv(st, o)?;
                let v = self.opv(st, v)?;
                let i = self.opv(st, i)?;
                let i = self.concretize(st, &i, 64)?;
                let a = self.agg(a, ty);
                set!(d, insert_value(a, v, &[i as u32]))
            }
            Inst::Shuffle(d, ty, a, b, mask) => {
                let a = self.opv(st, a)?;
                let b = self.opv(st, b)?;
                let (V::A(x), V::A(y)) = (self.agg(a, ty), self.agg(b, ty)) else { return Err(Ev::Unsup("shuffle".into())) };
                let n = x.len() as i64;
                let out: Vec<V> = mask
                    .iter()
                    .map(|&k| if k < 0 { x[0].clone() } else if k < n { x[k as usize].clone() } else { y[(k - n) as usize].clone() })
                    .collect();
                set!(d, V::A(Rc::new(out)))
            }
            Inst::Freeze(d, o) => {
                let v = self.opv(st, o)?;
                set!(d, v)
            }
            Inst::Nop => {
                st.frames.last_mut().unwrap().pc += 1;
                Ok(())
            }
            Inst::AtomicRmw(d, op, ty, p, v) => {
                let p = self.opv(st, p)?;
                let v = self.opv(st, v)?;
                let old = self.load_ty(st, &p, ty)?;
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(BinOp::Add, ty, &old, &v)?,
                    "sub" => self.bin(BinOp::Sub, ty, &old, &v)?,
                    "and" => self.bin(BinOp::And, ty, &old, &v)?,
                    "or" => self.bin(BinOp::Or, ty, &old, &v)?,
                    "xor" => self.bin(BinOp::Xor, ty, &old, &v)?,
                    _ => return Err(Ev::Unsup(format!("atomicrmw {op}"))),
                };
                self.store_ty(st, &p, ty, &new)?;
                set!(d, old)
            }
            Inst::CmpXchg(d, ty, p, c, n) => {
                let p = self.opv(st, p)?;
                let c = self.opv(st, c)?;
                let n = self.opv(st, n)?;
                let old = self.load_ty(st, &p, ty)?;
                let eq = self.icmp(Pred::Eq, ty, &old, &c)?;
                let b = match &eq {
                    V::I(x) => *x == 1,
                    V::E(e) => self.decide(st, *e)?,
                    _ => unreachable!(),
                };
                if b {
                    self.store_ty(st, &p, ty, &n)?;
                }
                set!(d, V::A(Rc::new(vec![old, V::I(b as u64)])))
            }
            Inst::FBin(d, op, ty, a, b) => {
                let a = self.opv(st, a)?;
                let b = self.opv(st, b)?;
                let (Some(x), Some(y)) = (a.conc(), b.conc()) else { return Err(Ev::Unsup("symbolic float".into())) };
                let r = if *ty == Ty::F64 {
                    let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                    match op {
                        b'+' => x + y,
                        b'-' => x - y,
                        b'*' => x * y,
                        b'/' => x / y,
                        _ => x % y,
                    }
                    .to_bits()
                } else {
                    let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    match op {
                        b'+' => x + y,
                        b'-' => x - y,
                        b'*' => x * y,
                        b'/' => x / y,
                        _ => x % y,
                    }
                    .to_bits() as u64
                };
                set!(d, V::I(r))
            }
            Inst::Fcmp(d, p, ty, a, b) => {
                let a = self.opv(st, a)?;
                let b = self.opv(st, b)?;
                let (Some(x), Some(y)) = (a.conc(), b.conc()) else { return Err(Ev::Unsup("symbolic float".into())) };
                let (x, y) = if *ty == Ty::F64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                let r = match p.as_str() {
                    "oeq" => x == y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "une" => x != y,
                    "ult" => !(x >= y),
                    "ugt" => !(x <= y),
                    "uno" => x.is_nan() || y.is_nan(),
                    "ord" => !(x.is_nan() || y.is_nan()),
                    _ => return Err(Ev::Unsup(format!("fcmp {p}"))),
                };
                set!(d, V::I(r as u64))
            }
            Inst::Unreachable => Err(Ev::Violation("unreachable".into(), format!("unreachable code in {}", short(&f.name)))),
            Inst::Bad(s) => Err(Ev::Unsup(format!("instruction {s}"))),
        }
    }
    fn agg(&self, v: V, ty: &Ty) -> V {
        match v {
            V::A(_) => v,
            _ => zero_of(ty),
        }
    }
    pub fn merge(&mut self, c: Ex, ty: &Ty, a: &V, b: &V) -> Option<V> {
        match ty {
            Ty::Int(w) => {
                let (x, y) = (a.ex(*w), b.ex(*w));
                Some(mk(cx().ite(c, x, y)))
            }
            Ty::Ptr => {
                // pointers into one object
                if let (V::I(x), V::I(y)) = (a, b) {
                    if x == y {
                        return Some(V::I(*x));
                    }
                    if split(*x).0 == split(*y).0 && split(*x).0 != 0 && x >> 62 == 0 {
                        let (x, y) = (a.ex(64), b.ex(64));
                        return Some(mk(cx().ite(c, x, y)));
                    }
                }
                None
            }
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let (V::A(x), V::A(y)) = (a, b) else { return None };
                let mut out = vec![];
                for i in 0..x.len() {
                    out.push(self.merge(c, &ty.field_ty(i), &x[i], &y[i])?);
                }
                Some(V::A(Rc::new(out)))
            }
            _ => None,
        }
    }
    pub fn bin(&mut self, op: BinOp, ty: &Ty, a: &V, b: &V) -> R<V> {
        if let Ty::Vec(_, t) = ty {
            let (V::A(x), V::A(y)) = (a, b) else { return Err(Ev::Unsup("vec bin".into())) };
            let mut out = vec![];
            for i in 0..x.len() {
                out.push(self.bin(op, t, &x[i], &y[i])?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        let w = ty.bits();
        if let (V::I(x), V::I(y)) = (a, b) {
            if w <= 64 {
                return bin_i(op, *x, *y, w).map(V::I).ok_or_else(|| Ev::Violation("division".into(), "division by zero".into()));
            }
        }
        let (x, y) = (a.ex(w), b.ex(w));
        let c = cx();
        Ok(mk(match op {
            BinOp::Add => c.add(x, y),
            BinOp::Sub => c.sub(x, y),
            BinOp::Mul => c.mul(x, y),
            BinOp::UDiv => c.udiv(x, y),
            BinOp::SDiv => c.sdiv(x, y),
            BinOp::URem => c.urem(x, y),
            BinOp::SRem => c.srem(x, y),
            BinOp::And => c.and(x, y),
            BinOp::Or => c.or(x, y),
            BinOp::Xor => c.xor(x, y),
            BinOp::Shl => c.shl(x, y),
            BinOp::LShr => c.lshr(x, y),
            BinOp::AShr => c.ashr(x, y),
        }))
    }
    pub fn icmp(&mut self, p: Pred, ty: &Ty, a: &V, b: &V) -> R<V> {
        if let Ty::Vec(_, t) = ty {
            let (V::A(x), V::A(y)) = (a, b) else { return Err(Ev::Unsup("vec icmp".into())) };
            let mut out = vec![];
            for i in 0..x.len() {
                out.push(self.icmp(p, t, &x[i], &y[i])?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        let w = ty.bits();
        if let (V::I(x), V::I(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let (s, t) = (sx64(x, w), sx64(y, w));
                let r = match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Sgt => s > t,
                    Pred::Sge => s >= t,
                    Pred::Slt => s < t,
                    Pred::Sle => s <= t,
                };
                return Ok(V::I(r as u64));
            }
        }
        let (x, y) = (a.ex(w), b.ex(w));
        let c = cx();
        Ok(mk(match p {
            Pred::Eq => c.eq(x, y),
            Pred::Ne => {
                let e = c.eq(x, y);
                c.not1(e)
            }
            Pred::Ugt => c.ult(y, x),
            Pred::Uge => c.ule(y, x),
            Pred::Ult => c.ult(x, y),
            Pred::Ule => c.ule(x, y),
            Pred::Sgt => c.slt(y, x),
            Pred::Sge => c.sle(y, x),
            Pred::Slt => c.slt(x, y),
            Pred::Sle => c.sle(x, y),
        }))
    }
    fn cast(&mut self, op: CastOp, from: &Ty, v: &V, to: &Ty) -> R<V> {
        if let (Ty::Vec(_, ft), Ty::Vec(_, tt)) = (from, to) {
            if op == CastOp::Bitcast {
                let e = self.to_int(v, from)?;
                return self.from_int(e, to);
            }
            let V::A(xs) = v else { return Err(Ev::Unsup("vec cast".into())) };
            let mut out = vec![];
            for x in xs.iter() {
                out.push(self.cast(op, ft, x, tt)?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        Ok(match op {
            CastOp::Zext => {
                let (f, t) = (from.bits(), to.bits());
                match v {
                    V::I(x) if t <= 64 => V::I(*x),
                    _ => {
                        let e = v.ex(f);
                        mk(cx().zext(e, t as u8))
                    }
                }
            }
            CastOp::Sext => {
                let (f, t) = (from.bits(), to.bits());
                match v {
                    V::I(x) if t <= 64 => V::I(sx64(*x, f) as u64 & m64(t)),
                    _ => {
                        let e = v.ex(f);
                        mk(cx().sext(e, t as u8))
                    }
                }
            }
            CastOp::Trunc => {
                let (f, t) = (from.bits(), to.bits());
                match v {
                    V::I(x) if f <= 64 => V::I(*x & m64(t)),
                    _ => {
                        let e = v.ex(f);
                        mk(cx().extract(e, (t - 1) as u8, 0))
                    }
                }
            }
            CastOp::PtrToInt => {
                let t = to.bits();
                match v {
                    V::I(x) => V::I(*x & m64(t)),
                    _ => {
                        let e = v.ex(64);
                        mk(cx().extract(e, (t - 1) as u8, 0))
                    }
                }
            }
            CastOp::IntToPtr => {
                let f = from.bits();
                match v {
                    V::I(x) => V::I(*x),
                    _ => {
                        let e = v.ex(f);
                        mk(cx().zext(e, 64))
                    }
                }
            }
            CastOp::Bitcast => {
                if from == to || (from.is_scalar() && to.is_scalar()) {
                    v.clone()
                } else {
                    let e = self.to_int(v, from)?;
                    self.from_int(e, to)?
                }
            }
            _ => {
                let Some(x) = v.conc() else { return Err(Ev::Unsup("symbolic float cast".into())) };
                let r = match op {
                    CastOp::UIToFP => {
                        if *to == Ty::F64 {
                            (x as f64).to_bits()
                        } else {
                            (x as f32).to_bits() as u64
                        }
                    }
                    CastOp::SIToFP => {
                        let x = sx64(x, from.bits());
                        if *to == Ty::F64 {
                            (x as f64).to_bits()
                        } else {
                            (x as f32).to_bits() as u64
                        }
                    }
                    CastOp::FPToUI | CastOp::FPToSI => {
                        let f = if *from == Ty::F64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                        (if op == CastOp::FPToUI { f as u64 } else { f as i64 as u64 }) & m64(to.bits())
                    }
                    CastOp::FPExt => (f32::from_bits(x as u32) as f64).to_bits(),
                    _ => (f64::from_bits(x) as f32).to_bits() as u64,
                };
                V::I(r)
            }
        })
    }
    pub fn to_int(&mut self, v: &V, ty: &Ty) -> R<Ex> {
        match ty {
            Ty::Vec(_, t) => {
                let V::A(xs) = v else { return Err(Ev::Unsup("bitcast".into())) };
                let mut r = self.to_int(&xs[0], t)?;
                for x in xs.iter().skip(1) {
                    let e = self.to_int(x, t)?;
                    r = cx().concat(e, r);
                }
                Ok(r)
            }
            _ => Ok(v.ex(ty.bits())),
        }
    }
    fn from_int(&mut self, e: Ex, ty: &Ty) -> R<V> {
        match ty {
            Ty::Vec(n, t) => {
                let w = t.bits();
                let mut out = vec![];
                for i in 0..*n as u32 {
                    out.push(mk(cx().extract(e, (i * w + w - 1) as u8, (i * w) as u8)));
                }
                Ok(V::A(Rc::new(out)))
            }
            _ => Ok(mk(e)),
        }
    }
    fn call(&mut self, st: &mut State, c: &'static Call) -> R<()> {
        let fr = st.frames.last().unwrap();
        let inst = fr.inst;
        let module = st.insts[inst as usize].module;
        let (m, sym) = match &c.callee {
            Callee::Sym(s) => (module, *s),
            Callee::Asm => {
                let v = match &c.ret {
                    Ty::Void => None,
                    t => Some(zero_of(t)),
                };
                return self.finish_call(st, c, v);
            }
            Callee::Ind(o) => {
                let a = self.opv(st, o)?;
                let a = self.concretize(st, &a, 64)?;
                if a >> 62 != 1 {
                    return Err(Ev::Violation("memory".into(), format!("call through invalid pointer {a:#x}")));
                }
                (((a >> 40) & 0x3f_ffff) as u32, ((a >> 4) & 0xf_ffff_ffff) as u32)
            }
        };
        let mut args = Vec::with_capacity(c.args.len());
        for (_, o) in &c.args {
            args.push(self.opv(st, o)?);
        }
        match self.resolve(m, sym) {
            Target::Func(f) => {
                if args.len() < f.params.len() {
                    return Err(Ev::Unsup(format!("call arity {}", f.name)));
                }
                self.push_frame(st, f, args, inst, Some(c))
            }
            Target::Builtin(b) => match b(self, st, &args, c)? {
                Flow::Val(v) => self.finish_call(st, c, Some(v)),
                Flow::Void => self.finish_call(st, c, None),
                Flow::Done => Ok(()),
            },
            Target::Missing => {
                let n = self.modules[m as usize].names[sym as usize].clone();
                Err(Ev::Unsup(format!("external function {n}")))
            }
        }
    }
}

pub fn zero_of(ty: &Ty) -> V {
    match ty {
        Ty::Int(w) if *w > 64 => V::E(cx().c(0, *w as u8)),
        Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => V::A(Rc::new((0..ty.n_fields()).map(|i| zero_of(&ty.field_ty(i))).collect())),
        _ => V::I(0),
    }
}

fn insert_value(a: V, v: V, ix: &[u32]) -> V {
    if ix.is_empty() {
        return v;
    }
    let V::A(mut xs) = a else { panic!("insertvalue") };
    let i = ix[0] as usize;
    let x = Rc::make_mut(&mut xs);
    let old = std::mem::replace(&mut x[i], V::I(0));
    x[i] = insert_value(old, v, &ix[1..]);
    V::A(xs)
}

pub fn bin_i(op: BinOp, x: u64, y: u64, w: u32) -> Option<u64> {
    let m = m64(w);
    Some(match op {
        BinOp::Add => x.wrapping_add(y) & m,
        BinOp::Sub => x.wrapping_sub(y) & m,
        BinOp::Mul => x.wrapping_mul(y) & m,
        BinOp::UDiv => x.checked_div(y)?,
        BinOp::URem => x.checked_rem(y)?,
        BinOp::SDiv => {
            if y == 0 {
                return None;
            }
            sx64(x, w).wrapping_div(sx64(y, w)) as u64 & m
        }
        BinOp::SRem => {
            if y == 0 {
                return None;
            }
            sx64(x, w).wrapping_rem(sx64(y, w)) as u64 & m
        }
        BinOp::And => x & y,
        BinOp::Or => x | y,
        BinOp::Xor => x ^ y,
        BinOp::Shl => {
            if y >= w as u64 {
                0
            } else {
                (x << y) & m
            }
        }
        BinOp::LShr => {
            if y >= w as u64 {
                0
            } else {
                x >> y
            }
        }
        BinOp::AShr => {
            let s = y.min(w as u64 - 1);
            (sx64(x, w) >> s) as u64 & m
        }
    })
}

/// last path components of a mangled name, for people
pub fn short(n: &str) -> String {
    let mut out = vec![];
    let b = n.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if let Ok(k) = n[i..j].parse::<usize>() {
                let s = if j < b.len() && b[j] == b'_' { j + 1 } else { j };
                if k >= 2 && s + k <= b.len() && b[s..s + k].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'.' || *c == b'$') {
                    out.push(n[s..s + k].to_string());
                    i = s + k;
                    continue;
                }
            }
            i = j;
            continue;
        }
        i += 1;
    }
    if out.is_empty() {
        return n.to_string();
    }
    let l = out.len();
    out[l.saturating_sub(3)..].join("::")
}
