//! The simplifier against plain evaluation: random expressions are built twice,
//! through the simplifying constructors and as values, and compared.
use crate::expr::*;
use std::collections::HashMap;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

fn bits(v: u128, w: u8) -> u128 {
    v & mask(w)
}

pub fn run(n: u64) -> i32 {
    let widths = [1u8, 4, 8, 16, 17, 32, 64, 128];
    let mut r = Rng(0x9e3779b97f4a7c15);
    let mut bad = 0;
    let mut vars: Vec<(Ex, u8)> = vec![];
    for (i, &w) in widths.iter().enumerate() {
        for k in 0..2 {
            vars.push((cx().var(&format!("t{i}_{k}"), w), w));
        }
    }
    for it in 0..n {
        let mut model = HashMap::new();
        for &(e, w) in &vars {
            let id = cx().nodes[e as usize].a;
            let v = match r.below(4) {
                0 => r.below(4) as u128,
                1 => mask(w) - r.below(3) as u128 % (mask(w).wrapping_add(1).max(1)),
                _ => ((r.next() as u128) << 64) | r.next() as u128,
            };
            model.insert(id, bits(v, w));
        }
        // pool of (expr, value)
        let mut pool: Vec<(Ex, u128)> = vars.iter().map(|&(e, _)| (e, model[&cx().nodes[e as usize].a])).collect();
        for &w in &widths {
            for v in [0u128, 1, 2, 7, 255, mask(w), 1u128 << (w - 1), r.next() as u128] {
                pool.push((cx().c(v, w), bits(v, w)));
            }
        }
        for _ in 0..40 {
            let (a, av) = pool[r.below(pool.len() as u64) as usize];
            let w = cx().w(a);
            let same: Vec<(Ex, u128)> = pool.iter().copied().filter(|x| cx().w(x.0) == w).collect();
            let (b, bv) = same[r.below(same.len() as u64) as usize];
            let c = cx();
            let m = mask(w);
            let (e, v) = match r.below(24) {
                0 => (c.add(a, b), av.wrapping_add(bv) & m),
                1 => (c.sub(a, b), av.wrapping_sub(bv) & m),
                2 => (c.mul(a, b), av.wrapping_mul(bv) & m),
                3 if bv != 0 => (c.udiv(a, b), av / bv),
                4 if bv != 0 => (c.urem(a, b), av % bv),
                5 => (c.and(a, b), av & bv),
                6 => (c.or(a, b), av | bv),
                7 => (c.xor(a, b), av ^ bv),
                8 => (c.shl(a, b), if bv >= w as u128 { 0 } else { (av << bv) & m }),
                9 => (c.lshr(a, b), if bv >= w as u128 { 0 } else { av >> bv }),
                10 => (c.ashr(a, b), (sx(av, w) >> bv.min(w as u128 - 1)) as u128 & m),
                11 => (c.eq(a, b), (av == bv) as u128),
                12 => (c.ult(a, b), (av < bv) as u128),
                13 => (c.ule(a, b), (av <= bv) as u128),
                14 => (c.slt(a, b), (sx(av, w) < sx(bv, w)) as u128),
                15 => (c.sle(a, b), (sx(av, w) <= sx(bv, w)) as u128),
                16 | 17 => {
                    let bs: Vec<(Ex, u128)> = pool.iter().copied().filter(|x| cx().w(x.0) == 1).collect();
                    let (q, qv) = bs[r.below(bs.len() as u64) as usize];
                    (c.ite(q, a, b), if qv == 1 { av } else { bv })
                }
                18 if w < 128 => {
                    let t = w + 1 + r.below(128 - w as u64) as u8;
                    (c.zext(a, t), av)
                }
                19 if w < 128 => {
                    let t = w + 1 + r.below(128 - w as u64) as u8;
                    (c.sext(a, t), sx(av, w) as u128 & mask(t))
                }
                20 | 21 => {
                    let lo = r.below(w as u64) as u8;
                    let hi = lo + r.below((w - lo) as u64) as u8;
                    (c.extract(a, hi, lo), (av >> lo) & mask(hi - lo + 1))
                }
                22 => {
                    let (x, xv) = pool[r.below(pool.len() as u64) as usize];
                    let xw = cx().w(x);
                    if xw as u32 + w as u32 > 128 {
                        continue;
                    }
                    (c.concat(a, x), (av << xw) | xv)
                }
                23 if w == 1 => (c.not1(a), av ^ 1),
                _ => continue,
            };
            cx().new_stamp();
            let got = cx().eval(e, &model);
            if got != v {
                bad += 1;
                eprintln!("selftest: {} evaluates to {got:#x}, expected {v:#x} (iteration {it})", cx().show(e, 5));
                if bad > 5 {
                    return 1;
                }
            }
            if cx().w(e) <= 64 {
                let (l, h) = cx().iv[e as usize];
                if (v as u64) < l || v as u64 > h {
                    bad += 1;
                    eprintln!("selftest: interval of {} is {l:#x}..{h:#x}, value {v:#x}", cx().show(e, 5));
                    if bad > 5 {
                        return 1;
                    }
                }
            }
            pool.push((e, v));
        }
    }
    println!("selftest: {n} rounds, {bad} mismatches, {} nodes", cx().nodes.len());
    (bad > 0) as i32
}
