//! z3 through its C API; slicing, caching and statistics.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, s: P, v: c_uint);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
}

extern "C" fn on_error(c: P, e: c_int) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("telsym: z3 error {:?}", m);
        std::process::exit(2);
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub secs: f64,
    pub max_secs: f64,
    pub assert_queries: u64,
    pub fallback: u64,
    pub sweep: u64,
}

pub struct Solver {
    c: P,
    s: P,
    ast: Vec<P>,
    cache: HashMap<Vec<Ex>, Option<Rc<Vec<(u32, u128)>>>>,
    pub stats: Stats,
    pub slow: f64,
    pub cheap: bool,
    pub dump_dir: Option<String>,
    pub dump_left: u32,
    dump_n: u32,
    ve: Vec<u32>,
    ve_stamp: u32,
    recent: Vec<Rc<HashMap<u32, u128>>>,
}

pub enum Res {
    Unsat,
    /// assignment to the variables of the slice
    Sat(Rc<Vec<(u32, u128)>>),
    Unknown,
}

impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, on_error);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let nm = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, nm.as_ptr()), rlimit);
            let nm = CString::new("random_seed").unwrap();
            let seed: u32 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, nm.as_ptr()), seed);
            Z3_solver_set_params(c, s, p);
            Solver { c, s, ast: vec![], cache: HashMap::new(), stats: Stats::default(), slow: 0.0, cheap: false, dump_dir: None, dump_left: 0, dump_n: 0, ve: vec![], ve_stamp: 0, recent: vec![] }
        }
    }
    fn get(&self, e: Ex) -> P {
        self.ast[e as usize]
    }
    /// translate iteratively
    fn tr(&mut self, e: Ex) -> P {
        let n_nodes = cx().nodes.len();
        if self.ast.len() < n_nodes {
            self.ast.resize(n_nodes, std::ptr::null_mut());
        }
        let mut stack = vec![e];
        let c = self.c;
        while let Some(&t) = stack.last() {
            if !self.ast[t as usize].is_null() {
                stack.pop();
                continue;
            }
            let n = cx().nodes[t as usize];
            let kids: [Ex; 3];
            let nk;
            match n.k {
                K::Const | K::Var => {
                    kids = [0; 3];
                    nk = 0
                }
                K::Not | K::Extract | K::SExt => {
                    kids = [n.a, 0, 0];
                    nk = 1
                }
                K::Ite => {
                    kids = [n.a, n.b, n.c];
                    nk = 3
                }
                _ => {
                    kids = [n.a, n.b, 0];
                    nk = 2
                }
            }
            let mut ready = true;
            for i in 0..nk {
                if self.ast[kids[i] as usize].is_null() {
                    stack.push(kids[i]);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let r = unsafe {
                let w1 = n.w == 1;
                let bv1 = |me: &Self, x: Ex| -> P {
                    // as bit-vector even if width 1
                    if cx().w(x) == 1 {
                        let s = Z3_mk_bv_sort(c, 1);
                        let one = CString::new("1").unwrap();
                        let zero = CString::new("0").unwrap();
                        Z3_mk_ite(c, me.get(x), Z3_mk_numeral(c, one.as_ptr(), s), Z3_mk_numeral(c, zero.as_ptr(), s))
                    } else {
                        me.get(x)
                    }
                };
                let tobool = |x: P| -> P {
                    let s = Z3_mk_bv_sort(c, 1);
                    let one = CString::new("1").unwrap();
                    Z3_mk_eq(c, x, Z3_mk_numeral(c, one.as_ptr(), s))
                };
                match n.k {
                    K::Const => {
                        if w1 {
                            if n.v == 1 {
                                Z3_mk_true(c)
                            } else {
                                Z3_mk_false(c)
                            }
                        } else {
                            let s = CString::new(n.v.to_string()).unwrap();
                            Z3_mk_numeral(c, s.as_ptr(), Z3_mk_bv_sort(c, n.w as u32))
                        }
                    }
                    K::Var => {
                        let s = CString::new(format!("v{}", n.a)).unwrap();
                        let sy = Z3_mk_string_symbol(c, s.as_ptr());
                        let so = if w1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, n.w as u32) };
                        Z3_mk_const(c, sy, so)
                    }
                    K::And | K::Or if w1 => {
                        let a = [self.get(n.a), self.get(n.b)];
                        if n.k == K::And {
                            Z3_mk_and(c, 2, a.as_ptr())
                        } else {
                            Z3_mk_or(c, 2, a.as_ptr())
                        }
                    }
                    K::Xor if w1 => Z3_mk_xor(c, self.get(n.a), self.get(n.b)),
                    K::Not => Z3_mk_not(c, self.get(n.a)),
                    K::Eq => Z3_mk_eq(c, self.get(n.a), self.get(n.b)),
                    K::Ite => Z3_mk_ite(c, self.get(n.a), self.get(n.b), self.get(n.c)),
                    K::Add => Z3_mk_bvadd(c, self.get(n.a), self.get(n.b)),
                    K::Sub => Z3_mk_bvsub(c, self.get(n.a), self.get(n.b)),
                    K::Mul if w1 => {
                        let a = [self.get(n.a), self.get(n.b)];
                        Z3_mk_and(c, 2, a.as_ptr())
                    }
                    K::Mul => Z3_mk_bvmul(c, self.get(n.a), self.get(n.b)),
                    K::UDiv => Z3_mk_bvudiv(c, self.get(n.a), self.get(n.b)),
                    K::URem => Z3_mk_bvurem(c, self.get(n.a), self.get(n.b)),
                    K::SDiv => Z3_mk_bvsdiv(c, self.get(n.a), self.get(n.b)),
                    K::SRem => Z3_mk_bvsrem(c, self.get(n.a), self.get(n.b)),
                    K::And => Z3_mk_bvand(c, self.get(n.a), self.get(n.b)),
                    K::Or => Z3_mk_bvor(c, self.get(n.a), self.get(n.b)),
                    K::Xor => Z3_mk_bvxor(c, self.get(n.a), self.get(n.b)),
                    K::Shl => Z3_mk_bvshl(c, self.get(n.a), self.get(n.b)),
                    K::LShr => Z3_mk_bvlshr(c, self.get(n.a), self.get(n.b)),
                    K::AShr => Z3_mk_bvashr(c, self.get(n.a), self.get(n.b)),
                    K::Ult => Z3_mk_bvult(c, self.get(n.a), self.get(n.b)),
                    K::Ule => Z3_mk_bvule(c, self.get(n.a), self.get(n.b)),
                    K::Slt => Z3_mk_bvslt(c, self.get(n.a), self.get(n.b)),
                    K::Sle => Z3_mk_bvsle(c, self.get(n.a), self.get(n.b)),
                    K::Concat => Z3_mk_concat(c, bv1(self, n.a), bv1(self, n.b)),
                    K::Extract => {
                        let x = Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, self.get(n.a));
                        if w1 {
                            tobool(x)
                        } else {
                            x
                        }
                    }
                    K::SExt => {
                        let aw = cx().w(n.a);
                        Z3_mk_sign_ext(c, (n.w - aw) as u32, bv1(self, n.a))
                    }
                }
            };
            self.ast[t as usize] = r;
            stack.pop();
        }
        self.ast[e as usize]
    }

    /// constraints of `pc` transitively sharing variables with `q`
    pub fn slice(&mut self, pc: &[Ex], q: &[Ex]) -> (Vec<Ex>, Vec<u32>) {
        let a = cx();
        let nv = a.var_names.len();
        if self.ve.len() < nv {
            self.ve.resize(nv, 0);
        }
        self.ve_stamp += 1;
        let st = self.ve_stamp;
        let mut vars = vec![];
        for &e in q {
            for &v in a.vars_of(e).iter() {
                if self.ve[v as usize] != st {
                    self.ve[v as usize] = st;
                    vars.push(v);
                }
            }
        }
        let mut used = vec![false; pc.len()];
        let mut out = vec![];
        loop {
            let mut changed = false;
            for (i, &e) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let vs = a.vars_of(e);
                if vs.iter().any(|&v| self.ve[v as usize] == st) {
                    used[i] = true;
                    out.push(e);
                    changed = true;
                    for &v in vs.iter() {
                        if self.ve[v as usize] != st {
                            self.ve[v as usize] = st;
                            vars.push(v);
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        out.sort();
        out.dedup();
        (out, vars)
    }

    /// is pc /\ q satisfiable
    pub fn check(&mut self, pc: &[Ex], q: Ex) -> Res {
        if q == FALSE {
            return Res::Unsat;
        }
        let (mut sl, vars) = self.slice(pc, &[q]);
        let mut key = sl.clone();
        key.push(q);
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return match r {
                None => Res::Unsat,
                Some(m) => Res::Sat(m.clone()),
            };
        }
        // try recent models
        for i in (0..self.recent.len()).rev() {
            let m = self.recent[i].clone();
            cx().new_stamp();
            if cx().eval(q, &m) == 1 && sl.iter().all(|&e| cx().eval(e, &m) == 1) {
                cx().new_stamp();
                let vals: Vec<(u32, u128)> = vars.iter().map(|&v| (v, m.get(&v).copied().unwrap_or(0))).collect();
                let r = Rc::new(vals);
                self.cache.insert(key, Some(r.clone()));
                self.stats.cache_hits += 1;
                return Res::Sat(r);
            }
        }
        cx().new_stamp();
        sl.push(q);
        let t0 = Instant::now();
        let r = self.run(&sl, &vars);
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.secs += dt;
        if dt > self.stats.max_secs {
            self.stats.max_secs = dt;
        }
        if let Some(d) = &self.dump_dir {
            if self.dump_left > 0 && !matches!(r, Res::Unknown) && (self.stats.queries % 37 == 1 || dt > 1.0) {
                self.dump_left -= 1;
                let res = if matches!(r, Res::Unsat) { "unsat" } else { "sat" };
                let f = format!("{d}/q{}_{}_{}ms.smt2", std::process::id(), self.dump_n, (dt * 1000.0) as u64);
                self.dump_n += 1;
                unsafe {
                    Z3_solver_push(self.c, self.s);
                    for &e in &sl {
                        let a = self.tr(e);
                        Z3_solver_assert(self.c, self.s, a);
                    }
                    let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().to_string();
                    Z3_solver_pop(self.c, self.s, 1);
                    let _ = std::fs::write(f, format!("(set-info :status {res})\n(set-logic QF_BV)\n{s}\n(check-sat)\n"));
                }
            }
        }
        match &r {
            Res::Unsat => {
                self.stats.unsat += 1;
                self.cache.insert(key, None);
            }
            Res::Sat(m) => {
                self.stats.sat += 1;
                self.cache.insert(key, Some(m.clone()));
                if self.recent.len() >= 6 {
                    self.recent.remove(0);
                }
                self.recent.push(Rc::new(m.iter().copied().collect()));
            }
            _ => {}
        }
        r
    }
    fn run(&mut self, cs: &[Ex], vars: &[u32]) -> Res {
        unsafe {
            let c = self.c;
            Z3_solver_push(c, self.s);
            for &e in cs {
                let a = self.tr(e);
                Z3_solver_assert(c, self.s, a);
            }
            let r = Z3_solver_check(c, self.s);
            let res = self.finish(r, self.s, vars);
            Z3_solver_pop(c, self.s, 1);
            if !matches!(res, Res::Unknown) {
                return res;
            }
            if self.cheap {
                return res;
            }
            // harder: identify equal parts first, then the dedicated QF_BV solver
            self.stats.fallback += 1;
            let n = cs.len();
            let q = self.sweep(&cs[..n - 1], cs[n - 1], vars);
            if q == FALSE {
                return Res::Unsat;
            }
            // the negation of a conjunction: one conjunct at a time
            let mut parts = vec![];
            if cx().k(q) == K::Not {
                let mut st = vec![cx().nodes[q as usize].a];
                while let Some(e) = st.pop() {
                    let n = cx().nodes[e as usize];
                    if n.k == K::And && n.w == 1 {
                        st.push(n.a);
                        st.push(n.b);
                    } else {
                        parts.push(cx().not1(e));
                    }
                }
                parts.sort();
                parts.dedup();
            } else {
                parts.push(q);
            }
            for p in parts {
                let r = match self.quick(&cs[..n - 1], p, vars) {
                    Some(None) => continue,
                    Some(Some(m)) => Res::Sat(Rc::new(m)),
                    None => self.hard(&cs[..n - 1], p, vars, 150_000_000),
                };
                if !matches!(r, Res::Unsat) {
                    return r;
                }
            }
            Res::Unsat
        }
    }
    pub fn hard(&mut self, pc: &[Ex], q: Ex, vars: &[u32], limit: u32) -> Res {
        unsafe {
            let c = self.c;
            let t0 = Instant::now();
            let mut cs = pc.to_vec();
            cs.push(q);
            let nm = CString::new("QF_BV").unwrap();
            let s2 = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, nm.as_ptr()));
            Z3_solver_inc_ref(c, s2);
            for &e in &cs {
                let a = self.tr(e);
                Z3_solver_assert(c, s2, a);
            }
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let nm = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, nm.as_ptr()), limit);
            Z3_solver_set_params(c, s2, p);
            let r = Z3_solver_check(c, s2);
            let res = self.finish(r, s2, vars);
            Z3_solver_dec_ref(c, s2);
            if std::env::var("TELSYM_SHOW").is_ok() && t0.elapsed().as_secs_f64() > 1.0 {
                eprintln!("HARD {:.1} {}", t0.elapsed().as_secs_f64(), cx().show(q, 14));
            }
            res
        }
    }
    pub fn recent_models(&self) -> Vec<Rc<HashMap<u32, u128>>> {
        self.recent.clone()
    }
    /// one attempt with the small resource limit: None unknown, Some(None) unsat
    pub fn quick(&mut self, pc: &[Ex], q: Ex, vars: &[u32]) -> Option<Option<Vec<(u32, u128)>>> {
        unsafe {
            let c = self.c;
            Z3_solver_push(c, self.s);
            for &e in pc.iter().chain(std::iter::once(&q)) {
                let a = self.tr(e);
                Z3_solver_assert(c, self.s, a);
            }
            let r = Z3_solver_check(c, self.s);
            let res = self.finish(r, self.s, vars);
            Z3_solver_pop(c, self.s, 1);
            self.stats.sweep += 1;
            match res {
                Res::Unsat => Some(None),
                Res::Sat(m) => Some(Some(m.to_vec())),
                Res::Unknown => None,
            }
        }
    }
    unsafe fn finish(&mut self, r: c_int, s: P, vars: &[u32]) -> Res {
        let c = self.c;
        match r {
            -1 => Res::Unsat,
            1 => {
                let m = Z3_solver_get_model(c, s);
                Z3_model_inc_ref(c, m);
                let mut out = Vec::with_capacity(vars.len());
                for &v in vars {
                    let (_, w, e) = cx().var_names[v as usize].clone();
                    let a = self.tr(e);
                    let mut val: P = std::ptr::null_mut();
                    let mut x = 0u128;
                    if Z3_model_eval(c, m, a, true, &mut val) {
                        if w == 1 {
                            x = (val == Z3_mk_true(c)) as u128;
                        } else {
                            let st = CStr::from_ptr(Z3_get_numeral_string(c, val));
                            x = st.to_str().unwrap().parse().unwrap_or(0);
                        }
                    }
                    out.push((v, x));
                }
                Z3_model_dec_ref(c, m);
                Res::Sat(Rc::new(out))
            }
            _ => Res::Unknown,
        }
    }
    pub fn clear_cache_if_big(&mut self) {
        if self.cache.len() > 400_000 {
            self.cache.clear();
        }
    }
}

pub fn conj_known(known: &HashSet<Ex>, c: Ex) -> Option<bool> {
    if known.contains(&c) {
        return Some(true);
    }
    let n = cx().not1(c);
    if known.contains(&n) {
        return Some(false);
    }
    None
}
