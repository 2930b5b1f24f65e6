//! Query simplification: nodes of the goal that agree on many models of the path
//! condition are proved equal one by one (bottom up) and identified.
use crate::expr::*;
use crate::solver::*;
use std::collections::HashMap;
use std::time::Instant;

pub fn rebuild(n: Node, a: Ex, b: Ex, c: Ex) -> Ex {
    let x = cx();
    match n.k {
        K::Const | K::Var => unreachable!(),
        K::Add => x.add(a, b),
        K::Sub => x.sub(a, b),
        K::Mul => x.mul(a, b),
        K::UDiv => x.udiv(a, b),
        K::URem => x.urem(a, b),
        K::SDiv => x.sdiv(a, b),
        K::SRem => x.srem(a, b),
        K::And => x.and(a, b),
        K::Or => x.or(a, b),
        K::Xor => x.xor(a, b),
        K::Not => x.not1(a),
        K::Shl => x.shl(a, b),
        K::LShr => x.lshr(a, b),
        K::AShr => x.ashr(a, b),
        K::Eq => x.eq(a, b),
        K::Ult => x.ult(a, b),
        K::Ule => x.ule(a, b),
        K::Slt => x.slt(a, b),
        K::Sle => x.sle(a, b),
        K::Ite => x.ite(a, b, c),
        K::Concat => x.concat(a, b),
        K::Extract => x.extract(a, n.b as u8 + n.w - 1, n.b as u8),
        K::SExt => x.sext(a, n.w),
    }
}
pub fn kids(n: &Node) -> usize {
    match n.k {
        K::Const | K::Var => 0,
        K::Not | K::Extract | K::SExt => 1,
        K::Ite => 3,
        _ => 2,
    }
}

impl Solver {
    /// an equivalent goal under pc
    pub fn sweep(&mut self, pc: &[Ex], q: Ex, vars: &[u32]) -> Ex {
        let t0 = Instant::now();
        // cone of the goal, children first (ids grow towards the root)
        let mut cone = vec![];
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![q];
        while let Some(e) = st.pop() {
            if !seen.insert(e) {
                continue;
            }
            let n = cx().nodes[e as usize];
            let k = kids(&n);
            if k > 0 {
                cone.push(e);
                for &x in &[n.a, n.b, n.c][..k] {
                    st.push(x);
                }
            }
        }
        cone.sort();
        if cone.len() > 6000 || cone.len() < 8 {
            return q;
        }
        // models of the path condition
        let mut rng = 0x1234_5678_9abc_def1u64;
        let mut next = || {
            rng ^= rng << 13;
            rng ^= rng >> 7;
            rng ^= rng << 17;
            rng
        };
        let holds = |m: &HashMap<u32, u128>| {
            cx().new_stamp();
            pc.iter().all(|&e| cx().eval(e, m) == 1)
        };
        let mut models: Vec<HashMap<u32, u128>> = vec![];
        for m in self.recent_models() {
            if holds(&m) {
                models.push((*m).clone());
            }
        }
        if models.is_empty() {
            match self.quick(pc, TRUE, vars) {
                Some(Some(m)) => models.push(m.into_iter().collect()),
                _ => return q,
            }
        }
        for round in 0..600u64 {
            if models.len() >= 40 {
                break;
            }
            let odds = [2, 4, 8, 16][round as usize % 4];
            let mut m = models[next() as usize % models.len()].clone();
            for &v in vars {
                let r = next();
                let w = cx().var_names[v as usize].1;
                if r % 3 != 0 && (r >> 40) % odds < 2 {
                    let x = match r / 3 % 4 {
                        0 => 0,
                        _ => next() as u128,
                    };
                    m.insert(v, x & mask(w));
                }
            }
            if holds(&m) {
                models.push(m);
            }
        }
        let mut sig: HashMap<Ex, u64> = HashMap::new();
        for m in &models {
            cx().new_stamp();
            for &e in &cone {
                let x = cx().eval(e, m);
                let h = sig.entry(e).or_insert(0xcbf29ce484222325);
                *h = (*h ^ (x as u64) ^ ((x >> 64) as u64)).wrapping_mul(0x100000001b3);
                *h ^= *h >> 29;
            }
        }
        cx().new_stamp();
        let mut map: HashMap<Ex, Ex> = HashMap::new();
        let mut reps: HashMap<(u8, u64), Vec<Ex>> = HashMap::new();
        let mut fails = 0;
        let mut unk = 0;
        let mut hard = 0;
        let mut extra: Vec<HashMap<u32, u128>> = vec![];
        for &e in &cone {
            let n = cx().nodes[e as usize];
            let g = |x: Ex| map.get(&x).copied().unwrap_or(x);
            let k = kids(&n);
            let (a, b, c) = (if k > 0 { g(n.a) } else { n.a }, if k > 1 { g(n.b) } else { n.b }, if k > 2 { g(n.c) } else { n.c });
            let mut r = if (a, b, c) == (n.a, n.b, n.c) { e } else { rebuild(n, a, b, c) };
            if cx().cv(r).is_none() && n.w != 1 && fails < 200 && unk < 40 && t0.elapsed().as_secs_f64() < 20.0 {
                let key = (n.w, sig[&e]);
                let l = reps.entry(key).or_default();
                if !l.contains(&r) {
                    let mut hit = false;
                    'cand: for &o in l.iter().take(16) {
                        for m in &extra {
                            cx().new_stamp();
                            if cx().eval(o, m) != cx().eval(r, m) {
                                continue 'cand;
                            }
                        }
                        let ne = {
                            let t = cx().eq(o, r);
                            cx().not1(t)
                        };
                        if ne == FALSE {
                            r = o;
                            hit = true;
                            break;
                        }
                        match self.quick(pc, ne, vars) {
                            Some(None) => {
                                r = o;
                                hit = true;
                                break;
                            }
                            Some(Some(m)) => {
                                if extra.len() < 200 {
                                    extra.push(m.into_iter().collect());
                                }
                            }
                            None => {
                                unk += 1;
                                if matches!(self.hard(pc, ne, &[], 3_000_000), Res::Unsat) {
                                    r = o;
                                    hit = true;
                                    hard += 1;
                                    break;
                                }
                            }
                        }
                        fails += 1;
                    }
                    if !hit {
                        reps.get_mut(&key).unwrap().push(r);
                    }
                }
            }
            if r != e {
                map.insert(e, r);
            }
        }
        if std::env::var("TELSYM_DEBUG").is_ok() {
            eprintln!("sweep: cone {} models {} mapped {} fails {} unk {} hard {} -> {} {:.2}s", cone.len(), models.len(), map.len(), fails, unk, hard, map.get(&q).copied().unwrap_or(q) == FALSE, t0.elapsed().as_secs_f64());
        }
        map.get(&q).copied().unwrap_or(q)
    }
}
