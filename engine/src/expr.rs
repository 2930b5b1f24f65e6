//! Hash-consed bit-vector expressions (widths 1..=128) with eager simplification.
use std::collections::HashMap;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum K {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Not,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract, // a, b = lo
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub k: K,
    pub w: u8,
    pub a: Ex,
    pub b: Ex,
    pub c: Ex,
    pub v: u128,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    /// unsigned interval for w <= 64
    pub iv: Vec<(u64, u64)>,
    map: HashMap<Node, Ex>,
    pub var_names: Vec<(String, u8, Ex)>,
    // evaluation memo
    ev_stamp: Vec<u32>,
    ev_val: Vec<u128>,
    stamp: u32,
    ext_cache: HashMap<(Ex, u8, u8), Ex>,
    vs_stamp: Vec<u32>,
    vs_cur: u32,
    var_cache: HashMap<Ex, std::rc::Rc<Vec<u32>>>,
}

static mut ARENA: *mut Arena = std::ptr::null_mut();

pub fn cx() -> &'static mut Arena {
    unsafe {
        if ARENA.is_null() {
            ARENA = Box::into_raw(Box::new(Arena {
                nodes: Vec::new(),
                iv: Vec::new(),
                map: HashMap::new(),
                var_names: Vec::new(),
                ev_stamp: vec![],
                ev_val: vec![],
                stamp: 1,
                ext_cache: HashMap::new(), vs_stamp: vec![],
                vs_cur: 0,
                var_cache: HashMap::new(),
            }));
            let a = &mut *ARENA;
            // 0 = false, 1 = true
            a.intern(Node { k: K::Const, w: 1, a: 0, b: 0, c: 0, v: 0 });
            a.intern(Node { k: K::Const, w: 1, a: 0, b: 0, c: 0, v: 1 });
        }
        &mut *ARENA
    }
}

pub const FALSE: Ex = 0;
pub const TRUE: Ex = 1;

#[inline]
pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
fn m64(w: u8) -> u64 {
    mask(w) as u64
}
pub fn sx(v: u128, w: u8) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

impl Arena {
    fn intern(&mut self, n: Node) -> Ex {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as Ex;
        let iv = self.interval(&n);
        self.nodes.push(n);
        self.iv.push(iv);
        self.map.insert(n, e);
        e
    }
    fn interval(&self, n: &Node) -> (u64, u64) {
        if n.w > 64 {
            return (0, u64::MAX);
        }
        let full = (0, m64(n.w));
        let i = |e: Ex| self.iv[e as usize];
        match n.k {
            K::Const => (n.v as u64, n.v as u64),
            K::Var => full,
            K::Add => {
                let (a, b) = (i(n.a), i(n.b));
                match (a.1.checked_add(b.1), a.0.checked_add(b.0)) {
                    (Some(h), Some(l)) if h <= m64(n.w) => (l, h),
                    _ => {
                        // all wrap exactly once?
                        let l = a.0 as u128 + b.0 as u128;
                        let h = a.1 as u128 + b.1 as u128;
                        let m = mask(n.w) + 1;
                        if l >= m && h < 2 * m {
                            ((l - m) as u64, (h - m) as u64)
                        } else {
                            full
                        }
                    }
                }
            }
            K::Sub => {
                let (a, b) = (i(n.a), i(n.b));
                if a.0 >= b.1 {
                    (a.0 - b.1, a.1 - b.0)
                } else {
                    full
                }
            }
            K::Mul => {
                let (a, b) = (i(n.a), i(n.b));
                let h = a.1 as u128 * b.1 as u128;
                if h <= mask(n.w) {
                    (a.0 * b.0, h as u64)
                } else {
                    full
                }
            }
            K::UDiv => {
                let (a, b) = (i(n.a), i(n.b));
                if b.0 > 0 {
                    (a.0 / b.1, a.1 / b.0)
                } else {
                    full
                }
            }
            K::URem => {
                let (a, b) = (i(n.a), i(n.b));
                if b.0 > 0 {
                    (0, (b.1 - 1).min(a.1))
                } else {
                    full
                }
            }
            K::And => {
                let (a, b) = (i(n.a), i(n.b));
                (0, a.1.min(b.1))
            }
            K::Or => {
                let (a, b) = (i(n.a), i(n.b));
                let m = a.1 | b.1;
                let h = if m == 0 { 0 } else { u64::MAX >> m.leading_zeros() };
                (a.0.max(b.0), h)
            }
            K::Xor => {
                let (a, b) = (i(n.a), i(n.b));
                let m = a.1 | b.1;
                let h = if m == 0 { 0 } else { u64::MAX >> m.leading_zeros() };
                (0, h)
            }
            K::LShr => {
                let (a, b) = (i(n.a), i(n.b));
                if b.0 < 64 {
                    ((if b.1 < 64 { a.0 >> b.1 } else { 0 }), a.1 >> b.0)
                } else {
                    (0, 0)
                }
            }
            K::Ite => {
                let (a, b) = (i(n.b), i(n.c));
                (a.0.min(b.0), a.1.max(b.1))
            }
            K::Concat => {
                let lw = self.nodes[n.b as usize].w;
                let hi = i(n.a);
                let lo = i(n.b);
                ((hi.0 << lw) | lo.0, (hi.1 << lw) | lo.1)
            }
            K::Extract => {
                let lo = n.b as u8;
                let aw = self.nodes[n.a as usize].w;
                if aw <= 64 {
                    let (l, h) = i(n.a);
                    let (l, h) = (l >> lo, h >> lo);
                    if h <= m64(n.w) {
                        return (l, h);
                    }
                }
                full
            }
            _ => full,
        }
    }
    pub fn w(&self, e: Ex) -> u8 {
        self.nodes[e as usize].w
    }
    pub fn k(&self, e: Ex) -> K {
        self.nodes[e as usize].k
    }
    pub fn cv(&self, e: Ex) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.k == K::Const {
            Some(n.v)
        } else {
            None
        }
    }
    pub fn c(&mut self, v: u128, w: u8) -> Ex {
        self.intern(Node { k: K::Const, w, a: 0, b: 0, c: 0, v: v & mask(w) })
    }
    pub fn var(&mut self, name: &str, w: u8) -> Ex {
        let id = self.var_names.len() as u32;
        let e = self.intern(Node { k: K::Var, w, a: id, b: 0, c: 0, v: 0 });
        self.var_names.push((name.to_string(), w, e));
        e
    }
    fn n2(&mut self, k: K, w: u8, a: Ex, b: Ex) -> Ex {
        self.intern(Node { k, w, a, b, c: 0, v: 0 })
    }
    /// split x into (base, const) with x = base + const; base None if constant
    fn lin(&self, x: Ex) -> (Option<Ex>, u128) {
        let n = &self.nodes[x as usize];
        match n.k {
            K::Const => (None, n.v),
            K::Add => {
                if let Some(v) = self.cv(n.b) {
                    (Some(n.a), v)
                } else {
                    (Some(x), 0)
                }
            }
            _ => (Some(x), 0),
        }
    }
    pub fn add(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            return self.xor(a, b);
        }
        let (ba, ca) = self.lin(a);
        let (bb, cb) = self.lin(b);
        let c = ca.wrapping_add(cb) & mask(w);
        match (ba, bb) {
            (None, None) => self.c(c, w),
            (Some(x), None) | (None, Some(x)) => self.add_c(x, c),
            (Some(x), Some(y)) => {
                // x + (-y)? handle Sub nodes: (p - y) + y = p
                let nx = self.nodes[x as usize];
                let ny = self.nodes[y as usize];
                if nx.k == K::Sub && nx.b == y {
                    return self.add_c(nx.a, c);
                }
                if ny.k == K::Sub && ny.b == x {
                    return self.add_c(ny.a, c);
                }
                let (x, y) = if x <= y { (x, y) } else { (y, x) };
                let s = if x == y {
                    let one = self.c(1, w);
                    self.shl(x, one)
                } else {
                    self.n2(K::Add, w, x, y)
                };
                self.add_c(s, c)
            }
        }
    }
    fn add_c(&mut self, x: Ex, c: u128) -> Ex {
        let w = self.w(x);
        let c = c & mask(w);
        if c == 0 {
            return x;
        }
        let (bx, cx0) = self.lin(x);
        let cc = c.wrapping_add(cx0) & mask(w);
        match bx {
            None => self.c(cc, w),
            Some(bx) => {
                if cc == 0 {
                    return bx;
                }
                // ite(c, k1, k2) + k
                let n = self.nodes[bx as usize];
                if n.k == K::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                    let p = self.add_c(n.b, cc);
                    let q = self.add_c(n.c, cc);
                    return self.ite(n.a, p, q);
                }
                let k = self.c(cc, w);
                self.n2(K::Add, w, bx, k)
            }
        }
    }
    pub fn neg(&mut self, a: Ex) -> Ex {
        let w = self.w(a);
        let z = self.c(0, w);
        self.sub(z, a)
    }
    pub fn sub(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        let (ba, ca) = self.lin(a);
        let (bb, cb) = self.lin(b);
        let c = ca.wrapping_sub(cb) & mask(w);
        match (ba, bb) {
            (None, None) => self.c(c, w),
            (Some(x), None) => self.add_c(x, c),
            (Some(x), Some(y)) if x == y => self.c(c, w),
            (None, Some(y)) => {
                let k = self.c(c, w);
                self.n2(K::Sub, w, k, y)
            }
            (Some(x), Some(y)) => {
                // (p + y) - y
                let nx = self.nodes[x as usize];
                if nx.k == K::Add && nx.a == y {
                    return self.add_c(nx.b, c);
                }
                if nx.k == K::Add && nx.b == y {
                    return self.add_c(nx.a, c);
                }
                let s = self.n2(K::Sub, w, x, y);
                self.add_c(s, c)
            }
        }
    }
    pub fn mul(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x.wrapping_mul(y), w),
            (None, Some(0)) => return b,
            (None, Some(1)) => return a,
            (None, Some(y)) if y.is_power_of_two() => {
                let k = self.c(y.trailing_zeros() as u128, w);
                return self.shl(a, k);
            }
            _ => {}
        }
        if w <= 64 {
            let (x, y) = (self.iv[a as usize].1, self.iv[b as usize].1);
            let nw = ((64 - x.leading_zeros()) + (64 - y.leading_zeros())).max(1) as u8;
            if nw < w {
                let x = self.extract(a, nw - 1, 0);
                let y = self.extract(b, nw - 1, 0);
                let r = self.mul(x, y);
                return self.zext(r, w);
            }
        }
        if self.cv(b).is_none() && a > b {
            return self.n2(K::Mul, w, b, a);
        }
        self.n2(K::Mul, w, a, b)
    }
    pub fn udiv(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return self.c(0, w); // UB; caller checks
            }
            if let Some(x) = self.cv(a) {
                return self.c(x / y, w);
            }
            if y.is_power_of_two() {
                let k = self.c(y.trailing_zeros() as u128, w);
                return self.lshr(a, k);
            }
            // narrow
            if w <= 64 {
                let hi = self.iv[a as usize].1;
                if (hi as u128) < y {
                    return self.c(0, w);
                }
                let nw = (64 - hi.leading_zeros()).max(128 - y.leading_zeros()) as u8;
                if nw < w {
                    let x = self.extract(a, nw - 1, 0);
                    let yy = self.c(y, nw);
                    let r = self.n2(K::UDiv, nw, x, yy);
                    return self.zext(r, w);
                }
            }
        }
        if w <= 64 {
            let m = self.iv[a as usize].1.max(self.iv[b as usize].1);
            let nw = (64 - m.leading_zeros()).max(1) as u8;
            if nw < w {
                let x = self.extract(a, nw - 1, 0);
                let y = self.extract(b, nw - 1, 0);
                let r = self.udiv(x, y);
                return self.zext(r, w);
            }
        }
        self.n2(K::UDiv, w, a, b)
    }
    pub fn urem(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return self.c(0, w);
            }
            if let Some(x) = self.cv(a) {
                return self.c(x % y, w);
            }
            if y.is_power_of_two() {
                let k = self.c(y - 1, w);
                return self.and(a, k);
            }
            if w <= 64 {
                let hi = self.iv[a as usize].1;
                if (hi as u128) < y {
                    return a;
                }
                let nw = (64 - hi.leading_zeros()).max(128 - y.leading_zeros()) as u8;
                if nw < w {
                    let x = self.extract(a, nw - 1, 0);
                    let yy = self.c(y, nw);
                    let r = self.n2(K::URem, nw, x, yy);
                    return self.zext(r, w);
                }
            }
        }
        if w <= 64 {
            let m = self.iv[a as usize].1.max(self.iv[b as usize].1);
            let nw = (64 - m.leading_zeros()).max(1) as u8;
            if nw < w {
                let x = self.extract(a, nw - 1, 0);
                let y = self.extract(b, nw - 1, 0);
                let r = self.urem(x, y);
                return self.zext(r, w);
            }
        }
        self.n2(K::URem, w, a, b)
    }
    pub fn sdiv(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                return self.c(sx(x, w).wrapping_div(sx(y, w)) as u128, w);
            }
        }
        self.n2(K::SDiv, w, a, b)
    }
    pub fn srem(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                return self.c(sx(x, w).wrapping_rem(sx(y, w)) as u128, w);
            }
        }
        self.n2(K::SRem, w, a, b)
    }
    fn concat_split(&self, x: Ex) -> Option<(Ex, Ex)> {
        let n = &self.nodes[x as usize];
        if n.k == K::Concat && (self.cv(n.a).is_some() || self.cv(n.b).is_some() || self.k(n.b) == K::Concat) {
            Some((n.a, n.b))
        } else {
            None
        }
    }
    fn bitop_split(&mut self, k: K, a: Ex, b: Ex) -> Option<Ex> {
        let s = self.concat_split(a).or_else(|| self.concat_split(b))?;
        let w = self.w(a);
        let lw = self.w(s.1);
        let ah = self.extract(a, w - 1, lw);
        let al = self.extract(a, lw - 1, 0);
        let bh = self.extract(b, w - 1, lw);
        let bl = self.extract(b, lw - 1, 0);
        let (h, l) = match k {
            K::And => (self.and(ah, bh), self.and(al, bl)),
            K::Or => (self.or(ah, bh), self.or(al, bl)),
            _ => (self.xor(ah, bh), self.xor(al, bl)),
        };
        Some(self.concat(h, l))
    }
    /// x op const with const made of long runs of 0s and 1s: split into concat
    fn const_runs(&mut self, k: K, x: Ex, c: u128) -> Option<Ex> {
        let w = self.w(x);
        if w == 1 {
            return None;
        }
        // number of runs
        let mut runs = vec![];
        let mut i = 0u8;
        while i < w {
            let bit = (c >> i) & 1;
            let st = i;
            while i < w && (c >> i) & 1 == bit {
                i += 1;
            }
            runs.push((st, i, bit));
            if runs.len() > 3 {
                return None;
            }
        }
        if runs.len() < 2 {
            return None;
        }
        let mut r: Option<Ex> = None;
        for (s, e, bit) in runs {
            let ww = e - s;
            let p = match (k, bit) {
                (K::And, 0) => self.c(0, ww),
                (K::And, _) => self.extract(x, e - 1, s),
                (K::Or, 0) => self.extract(x, e - 1, s),
                (K::Or, _) => self.c(u128::MAX, ww),
                _ => return None,
            };
            r = Some(match r {
                None => p,
                Some(l) => self.concat(p, l),
            });
        }
        r
    }
    pub fn and(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if a == b {
            return a;
        }
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return b;
            }
            if y == mask(w) {
                return a;
            }
            if let Some(x) = self.cv(a) {
                return self.c(x & y, w);
            }
            let n = self.nodes[a as usize];
            if n.k == K::And {
                if let Some(z) = self.cv(n.b) {
                    let k = self.c(y & z, w);
                    return self.and(n.a, k);
                }
            }
            if n.k == K::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                let p = self.and(n.b, b);
                let q = self.and(n.c, b);
                return self.ite(n.a, p, q);
            }
            if let Some(r) = self.const_runs(K::And, a, y) {
                return r;
            }
        }
        if w == 1 {
            if self.nodes[a as usize].k == K::Not && self.nodes[a as usize].a == b {
                return FALSE;
            }
            if self.nodes[b as usize].k == K::Not && self.nodes[b as usize].a == a {
                return FALSE;
            }
            let (na, nb) = (self.not1(a), self.not1(b));
            if na == b || nb == a {
                return FALSE;
            }
        } else if let Some(r) = self.bitop_split(K::And, a, b) {
            return r;
        }
        if self.cv(b).is_some() || a < b {
            self.n2(K::And, w, a, b)
        } else {
            self.n2(K::And, w, b, a)
        }
    }
    pub fn or(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if a == b {
            return a;
        }
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return a;
            }
            if y == mask(w) {
                return b;
            }
            if let Some(x) = self.cv(a) {
                return self.c(x | y, w);
            }
            let n = self.nodes[a as usize];
            if n.k == K::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                let p = self.or(n.b, b);
                let q = self.or(n.c, b);
                return self.ite(n.a, p, q);
            }
            if let Some(r) = self.const_runs(K::Or, a, y) {
                return r;
            }
        }
        if w == 1 {
            let (na, nb) = (self.not1(a), self.not1(b));
            if na == b || nb == a {
                return TRUE;
            }
        } else if let Some(r) = self.bitop_split(K::Or, a, b) {
            return r;
        }
        if self.cv(b).is_some() || a < b {
            self.n2(K::Or, w, a, b)
        } else {
            self.n2(K::Or, w, b, a)
        }
    }
    pub fn xor(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if a == b {
            return self.c(0, w);
        }
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return a;
            }
            if let Some(x) = self.cv(a) {
                return self.c(x ^ y, w);
            }
            if w == 1 {
                return self.not1(a);
            }
            let n = self.nodes[a as usize];
            if n.k == K::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                let p = self.xor(n.b, b);
                let q = self.xor(n.c, b);
                return self.ite(n.a, p, q);
            }
        }
        if w == 1 {
            let na = self.nodes[a as usize];
            let nb = self.nodes[b as usize];
            if na.k == K::Not {
                let x = self.xor(na.a, b);
                return self.not1(x);
            }
            if nb.k == K::Not {
                let x = self.xor(a, nb.a);
                return self.not1(x);
            }
        } else if let Some(r) = self.bitop_split(K::Xor, a, b) {
            return r;
        }
        if self.cv(b).is_some() || a < b {
            self.n2(K::Xor, w, a, b)
        } else {
            self.n2(K::Xor, w, b, a)
        }
    }
    pub fn not1(&mut self, a: Ex) -> Ex {
        let n = self.nodes[a as usize];
        debug_assert_eq!(n.w, 1);
        match n.k {
            K::Const => (1 - n.v) as Ex,
            K::Not => n.a,
            K::Ult => self.ule(n.b, n.a),
            K::Ule => self.ult(n.b, n.a),
            K::Slt => self.sle(n.b, n.a),
            K::Sle => self.slt(n.b, n.a),
            _ => self.n2(K::Not, 1, a, 0),
        }
    }
    pub fn shl(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.c(0, w);
            }
            let s = s as u8;
            let x = self.extract(a, w - s - 1, 0);
            let z = self.c(0, s);
            return self.concat(x, z);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        self.n2(K::Shl, w, a, b)
    }
    pub fn lshr(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.c(0, w);
            }
            let s = s as u8;
            let x = self.extract(a, w - 1, s);
            return self.zext(x, w);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        self.n2(K::LShr, w, a, b)
    }
    pub fn ashr(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if s == 0 {
                return a;
            }
            let s = s.min(w as u128 - 1) as u8;
            let x = self.extract(a, w - 1, s);
            return self.sext(x, w);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        self.n2(K::AShr, w, a, b)
    }
    pub fn zext(&mut self, a: Ex, w: u8) -> Ex {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let z = self.c(0, w - aw);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: Ex, w: u8) -> Ex {
        let n = self.nodes[a as usize];
        if n.w == w {
            return a;
        }
        if n.k == K::Const {
            return self.c(sx(n.v, n.w) as u128, w);
        }
        if n.k == K::SExt {
            return self.sext(n.a, w);
        }
        if n.w <= 64 && self.iv[a as usize].1 < (1u64 << (n.w - 1)) {
            return self.zext(a, w);
        }
        if n.w == 1 {
            let t = self.c(u128::MAX, w);
            let f = self.c(0, w);
            return self.ite(a, t, f);
        }
        self.intern(Node { k: K::SExt, w, a, b: 0, c: 0, v: 0 })
    }
    /// does some arm of a chain of ites come apart under extract
    fn splits(&self, a: Ex, depth: u32) -> bool {
        let n = &self.nodes[a as usize];
        match n.k {
            K::Const | K::Concat => true,
            K::Ite if depth > 0 => {
                if matches!(self.k(n.b), K::Const | K::Concat) || matches!(self.k(n.c), K::Const | K::Concat) {
                    return true;
                }
                if self.k(n.c) == K::Ite {
                    self.splits(n.c, depth - 1)
                } else {
                    self.splits(n.b, depth - 1)
                }
            }
            _ => false,
        }
    }
    pub fn extract(&mut self, a: Ex, hi: u8, lo: u8) -> Ex {
        let n = self.nodes[a as usize];
        let w = hi - lo + 1;
        if w == n.w {
            return a;
        }
        match n.k {
            K::Const => return self.c(n.v >> lo, w),
            K::Extract => return self.extract(n.a, hi + n.b as u8, lo + n.b as u8),
            K::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, hi - lw, lo - lw);
                }
                if hi < lw {
                    return self.extract(n.b, hi, lo);
                }
                let h = self.extract(n.a, hi - lw, 0);
                let l = self.extract(n.b, lw - 1, lo);
                return self.concat(h, l);
            }
            K::Ite => {
                if let Some(&r) = self.ext_cache.get(&(a, hi, lo)) {
                    return r;
                }
                if self.splits(a, 24) {
                    let p = self.extract(n.b, hi, lo);
                    let q = self.extract(n.c, hi, lo);
                    let r = self.ite(n.a, p, q);
                    self.ext_cache.insert((a, hi, lo), r);
                    return r;
                }
            }
            K::And | K::Or | K::Xor => {
                if self.cv(n.b).is_some() {
                    let p = self.extract(n.a, hi, lo);
                    let q = self.extract(n.b, hi, lo);
                    return match n.k {
                        K::And => self.and(p, q),
                        K::Or => self.or(p, q),
                        _ => self.xor(p, q),
                    };
                }
            }
            K::Add | K::Sub | K::Mul if hi + 1 < n.w => {
                // the low bits depend on the low bits only
                let p = self.extract(n.a, hi, 0);
                let q = self.extract(n.b, hi, 0);
                let r = match n.k {
                    K::Add => self.add(p, q),
                    K::Sub => self.sub(p, q),
                    _ => self.mul(p, q),
                };
                return self.extract(r, hi, lo);
            }
            K::SExt => {
                let aw = self.w(n.a);
                if hi < aw {
                    return self.extract(n.a, hi, lo);
                }
                if lo < aw {
                    let p = self.extract(n.a, aw - 1, lo);
                    return self.sext(p, w);
                }
                let s = self.extract(n.a, aw - 1, aw - 1);
                return self.sext(s, w);
            }
            _ => {}
        }
        if n.w <= 64 && lo < 64 {
            let h = self.iv[a as usize].1;
            if h >> lo == 0 {
                return self.c(0, w);
            }
            // trim zero top bits
            let top = 63 - (h.leading_zeros() as u8); // highest possibly set bit
            if hi > top {
                let p = self.extract(a, top, lo);
                return self.zext(p, w);
            }
        }
        self.intern(Node { k: K::Extract, w, a, b: lo as u32, c: 0, v: 0 })
    }
    pub fn concat(&mut self, h: Ex, l: Ex) -> Ex {
        let (nh, nl) = (self.nodes[h as usize], self.nodes[l as usize]);
        let w = nh.w + nl.w;
        if nh.k == K::Const && nl.k == K::Const {
            return self.c((nh.v << nl.w) | nl.v, w);
        }
        if nh.k == K::Concat {
            let t = self.concat(nh.b, l);
            return self.concat(nh.a, t);
        }
        // merge h with the head of l
        let (head, tail) = if nl.k == K::Concat { (nl.a, Some(nl.b)) } else { (l, None) };
        let nhead = self.nodes[head as usize];
        let merged = if nh.k == K::Const && nhead.k == K::Const {
            Some(self.c((nh.v << nhead.w) | nhead.v, nh.w + nhead.w))
        } else if nh.k == K::Extract && nhead.k == K::Extract && nh.a == nhead.a && nh.b as u8 == nhead.b as u8 + nhead.w {
            Some(self.extract(nh.a, nh.b as u8 + nh.w - 1, nhead.b as u8))
        } else if nh.k == K::Const && nh.v == 0 && nhead.k == K::Ite && self.cv(nhead.b).is_some() && self.cv(nhead.c).is_some() {
            let nw = nh.w + nhead.w;
            let (p, q) = (self.cv(nhead.b).unwrap(), self.cv(nhead.c).unwrap());
            let (p, q) = (self.c(p, nw), self.c(q, nw));
            Some(self.ite(nhead.a, p, q))
        } else {
            None
        };
        if let Some(m) = merged {
            return match tail {
                Some(t) => self.concat(m, t),
                None => m,
            };
        }
        self.n2(K::Concat, w, h, l)
    }
    pub fn eq(&mut self, a: Ex, b: Ex) -> Ex {
        debug_assert_eq!(self.w(a), self.w(b), "eq widths");
        if a == b {
            return TRUE;
        }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if self.cv(a).is_some() {
                return FALSE;
            }
            if w == 1 {
                return if y == 1 { a } else { self.not1(a) };
            }
            if w <= 64 {
                let (l, h) = self.iv[a as usize];
                if (y as u64) < l || (y as u64) > h {
                    return FALSE;
                }
            }
            let n = self.nodes[a as usize];
            match n.k {
                K::Add => {
                    if let Some(c) = self.cv(n.b) {
                        let k = self.c(y.wrapping_sub(c), w);
                        return self.eq(n.a, k);
                    }
                }
                K::Sub => {
                    if let Some(c) = self.cv(n.a) {
                        let k = self.c(c.wrapping_sub(y), w);
                        return self.eq(n.b, k);
                    }
                    if y == 0 {
                        return self.eq(n.a, n.b);
                    }
                }
                K::Xor => {
                    if let Some(c) = self.cv(n.b) {
                        let k = self.c(y ^ c, w);
                        return self.eq(n.a, k);
                    }
                    if y == 0 {
                        return self.eq(n.a, n.b);
                    }
                }
                K::Concat => {
                    let lw = self.w(n.b);
                    let kh = self.c(y >> lw, w - lw);
                    let kl = self.c(y, lw);
                    let p = self.eq(n.a, kh);
                    if p == FALSE {
                        return FALSE;
                    }
                    let q = self.eq(n.b, kl);
                    return self.and(p, q);
                }
                K::Ite => {
                    let (p, q) = (self.cv(n.b), self.cv(n.c));
                    if p.is_some() || q.is_some() {
                        let e1 = self.eq(n.b, b);
                        let e2 = self.eq(n.c, b);
                        return self.ite(n.a, e1, e2);
                    }
                }
                K::SExt => {
                    let aw = self.w(n.a);
                    let low = y & mask(aw);
                    if (sx(low, aw) as u128) & mask(w) != y {
                        return FALSE;
                    }
                    let k = self.c(low, aw);
                    return self.eq(n.a, k);
                }
                _ => {}
            }
        } else {
            if w <= 64 {
                let (l, h) = self.iv[a as usize];
                let (l2, h2) = self.iv[b as usize];
                if h < l2 || h2 < l {
                    return FALSE;
                }
            }
            if w == 1 {
                let x = self.xor(a, b);
                return self.not1(x);
            }
            let (ba, ca) = self.lin(a);
            let (bb, cb) = self.lin(b);
            if let (Some(x), Some(y)) = (ba, bb) {
                if x == y {
                    return if ca == cb { TRUE } else { FALSE };
                }
                if ca != 0 && cb != 0 {
                    let x = self.add_c(x, ca.wrapping_sub(cb));
                    return self.eq(x, y);
                }
            }
            let na = self.nodes[a as usize];
            let nb = self.nodes[b as usize];
            if na.k == K::Concat && nb.k == K::Concat && self.w(na.b) == self.w(nb.b) {
                let p = self.eq(na.a, nb.a);
                if p == FALSE {
                    return FALSE;
                }
                let q = self.eq(na.b, nb.b);
                return self.and(p, q);
            }
            let (c1, o1) = (na, b);
            for (cn, o) in [(c1, o1), (nb, a)] {
                if cn.k == K::Concat && self.cv(cn.a).is_some() {
                    let lw = self.w(cn.b);
                    let oh = self.extract(o, w - 1, lw);
                    let ol = self.extract(o, lw - 1, 0);
                    let p = self.eq(oh, cn.a);
                    if p == FALSE {
                        return FALSE;
                    }
                    if p == TRUE || self.k(oh) != K::Extract {
                        let q = self.eq(ol, cn.b);
                        return self.and(p, q);
                    }
                }
            }
        }
        if self.cv(b).is_some() || a < b {
            self.n2(K::Eq, 1, a, b)
        } else {
            self.n2(K::Eq, 1, b, a)
        }
    }
    fn strip_zero_hi(&mut self, a: Ex, b: Ex) -> Option<(Ex, Ex)> {
        let w = self.w(a);
        if w > 64 {
            // only handle concat with const zero
            let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
            let za = if na.k == K::Concat && self.cv(na.a) == Some(0) { self.w(na.a) } else if na.k == K::Const { (na.v.leading_zeros() as u8).saturating_sub(128 - w) } else { 0 };
            let zb = if nb.k == K::Concat && self.cv(nb.a) == Some(0) { self.w(nb.a) } else if nb.k == K::Const { (nb.v.leading_zeros() as u8).saturating_sub(128 - w) } else { 0 };
            let z = za.min(zb).min(w - 1);
            if z == 0 {
                return None;
            }
            return Some((self.extract(a, w - z - 1, 0), self.extract(b, w - z - 1, 0)));
        }
        let h = self.iv[a as usize].1 | self.iv[b as usize].1;
        let need = (64 - h.leading_zeros() as u8).max(1);
        if need < w {
            return Some((self.extract(a, need - 1, 0), self.extract(b, need - 1, 0)));
        }
        None
    }
    pub fn ult(&mut self, a: Ex, b: Ex) -> Ex {
        debug_assert_eq!(self.w(a), self.w(b));
        if a == b {
            return FALSE;
        }
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return (x < y) as Ex,
            (_, Some(0)) => return FALSE,
            (Some(x), _) if x == mask(w) => return FALSE,
            (_, Some(1)) => {
                let z = self.c(0, w);
                return self.eq(a, z);
            }
            (Some(0), _) => {
                let z = self.c(0, w);
                let e = self.eq(b, z);
                return self.not1(e);
            }
            _ => {}
        }
        if w <= 64 {
            let (l1, h1) = self.iv[a as usize];
            let (l2, h2) = self.iv[b as usize];
            if h1 < l2 {
                return TRUE;
            }
            if l1 >= h2 {
                return FALSE;
            }
        }
        if w == 1 {
            let na = self.not1(a);
            return self.and(na, b);
        }
        if let Some((x, y)) = self.strip_zero_hi(a, b) {
            return self.ult(x, y);
        }
        if let Some(r) = self.cmp_ite(a, b, Self::ult) {
            return r;
        }
        self.n2(K::Ult, 1, a, b)
    }
    fn cmp_ite(&mut self, a: Ex, b: Ex, f: fn(&mut Self, Ex, Ex) -> Ex) -> Option<Ex> {
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if nb.k == K::Const && na.k == K::Ite && self.cv(na.b).is_some() && self.cv(na.c).is_some() {
            let p = f(self, na.b, b);
            let q = f(self, na.c, b);
            return Some(self.ite(na.a, p, q));
        }
        if na.k == K::Const && nb.k == K::Ite && self.cv(nb.b).is_some() && self.cv(nb.c).is_some() {
            let p = f(self, a, nb.b);
            let q = f(self, a, nb.c);
            return Some(self.ite(nb.a, p, q));
        }
        None
    }
    pub fn ule(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return TRUE;
        }
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return (x <= y) as Ex,
            (Some(0), _) => return TRUE,
            (_, Some(y)) if y == mask(w) => return TRUE,
            (_, Some(y)) => {
                let k = self.c(y + 1, w);
                return self.ult(a, k);
            }
            (Some(x), _) => {
                let k = self.c(x - 1, w);
                return self.ult(k, b);
            }
            _ => {}
        }
        if w <= 64 {
            let (l1, h1) = self.iv[a as usize];
            let (l2, h2) = self.iv[b as usize];
            if h1 <= l2 {
                return TRUE;
            }
            if l1 > h2 {
                return FALSE;
            }
        }
        if w == 1 {
            let na = self.not1(a);
            return self.or(na, b);
        }
        if let Some((x, y)) = self.strip_zero_hi(a, b) {
            return self.ule(x, y);
        }
        self.n2(K::Ule, 1, a, b)
    }
    fn nonneg(&self, a: Ex) -> bool {
        let w = self.w(a);
        w <= 64 && self.iv[a as usize].1 < (1u64 << (w - 1))
    }
    pub fn slt(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return FALSE;
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return (sx(x, w) < sx(y, w)) as Ex;
        }
        if self.nonneg(a) && self.nonneg(b) {
            return self.ult(a, b);
        }
        if self.cv(b) == Some(0) {
            return self.extract(a, w - 1, w - 1);
        }
        if self.cv(a) == Some(mask(w)) {
            let s = self.extract(b, w - 1, w - 1);
            return self.not1(s);
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.k == K::SExt && nb.k == K::SExt && self.w(na.a) == self.w(nb.a) {
            return self.slt(na.a, nb.a);
        }
        if let Some(r) = self.cmp_ite(a, b, Self::slt) {
            return r;
        }
        self.n2(K::Slt, 1, a, b)
    }
    pub fn sle(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return TRUE;
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return (sx(x, w) <= sx(y, w)) as Ex;
        }
        if self.nonneg(a) && self.nonneg(b) {
            return self.ule(a, b);
        }
        if let Some(y) = self.cv(b) {
            if y == mask(w) >> 1 {
                return TRUE;
            }
            let k = self.c(y.wrapping_add(1), w);
            return self.slt(a, k);
        }
        if let Some(x) = self.cv(a) {
            if x == mask(w) >> 1 {
                return self.eq(a, b);
            }
            if x == 1u128 << (w - 1) {
                return TRUE;
            }
            let k = self.c(x.wrapping_sub(1), w);
            return self.slt(k, b);
        }
        self.n2(K::Sle, 1, a, b)
    }
    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        debug_assert_eq!(self.w(a), self.w(b));
        if c == TRUE {
            return a;
        }
        if c == FALSE {
            return b;
        }
        if a == b {
            return a;
        }
        let nc = self.nodes[c as usize];
        if nc.k == K::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), _) => return self.or(c, b),
                (Some(_), _) => {
                    let n = self.not1(c);
                    return self.and(n, b);
                }
                (_, Some(1)) => {
                    let n = self.not1(c);
                    return self.or(n, a);
                }
                (_, Some(_)) => return self.and(c, a),
                _ => {}
            }
        }
        let na = self.nodes[a as usize];
        let a = if na.k == K::Ite && na.a == c { na.b } else { a };
        let nb = self.nodes[b as usize];
        let b = if nb.k == K::Ite && nb.a == c { nb.c } else { b };
        if a == b {
            return a;
        }
        // ite(c, k, x) with c = (x == k)
        if nc.k == K::Eq && ((nc.a == b && nc.b == a) || (nc.a == a && nc.b == b)) {
            return b;
        }
        // common zero high part (constants stay wide)
        if w > 1 && w <= 64 && (self.cv(a).is_none() || self.cv(b).is_none()) {
            let m = self.iv[a as usize].1.max(self.iv[b as usize].1);
            let nw = (64 - m.leading_zeros()) as u8;
            if nw < w && nw > 0 {
                let x = self.extract(a, nw - 1, 0);
                let y = self.extract(b, nw - 1, 0);
                let r = self.ite(c, x, y);
                return self.zext(r, w);
            }
        }
        // share: ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
        let nb = self.nodes[b as usize];
        if nb.k == K::Ite && nb.b == a {
            let d = self.or(c, nb.a);
            return self.ite(d, a, nb.c);
        }
        self.intern(Node { k: K::Ite, w, a: c, b: a, c: b, v: 0 })
    }

    // ---- evaluation -------------------------------------------------
    pub fn new_stamp(&mut self) {
        self.stamp += 1;
    }
    pub fn eval(&mut self, e: Ex, model: &HashMap<u32, u128>) -> u128 {
        let n = self.nodes.len();
        if self.ev_stamp.len() < n {
            self.ev_stamp.resize(n, 0);
            self.ev_val.resize(n, 0);
        }
        self.eval_rec(e, model)
    }
    fn eval_rec(&mut self, e: Ex, model: &HashMap<u32, u128>) -> u128 {
        let st = self.stamp;
        if self.ev_stamp[e as usize] == st {
            return self.ev_val[e as usize];
        }
        // iterative post-order to avoid deep recursion
        let mut stack = vec![e];
        while let Some(&t) = stack.last() {
            if self.ev_stamp[t as usize] == st {
                stack.pop();
                continue;
            }
            let n = self.nodes[t as usize];
            let kids: [Ex; 3];
            let nk;
            match n.k {
                K::Const | K::Var => {
                    kids = [0; 3];
                    nk = 0
                }
                K::Not | K::Extract | K::SExt => {
                    kids = [n.a, 0, 0];
                    nk = 1
                }
                K::Ite => {
                    kids = [n.a, n.b, n.c];
                    nk = 3
                }
                _ => {
                    kids = [n.a, n.b, 0];
                    nk = 2
                }
            }
            let mut ready = true;
            for i in 0..nk {
                if self.ev_stamp[kids[i] as usize] != st {
                    stack.push(kids[i]);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let ev = |x: Ex| self.ev_val[x as usize];
            let m = mask(n.w);
            let v = match n.k {
                K::Const => n.v,
                K::Var => model.get(&n.a).copied().unwrap_or(0) & m,
                K::Add => ev(n.a).wrapping_add(ev(n.b)) & m,
                K::Sub => ev(n.a).wrapping_sub(ev(n.b)) & m,
                K::Mul => ev(n.a).wrapping_mul(ev(n.b)) & m,
                K::UDiv => {
                    let d = ev(n.b);
                    if d == 0 {
                        m
                    } else {
                        ev(n.a) / d
                    }
                }
                K::URem => {
                    let d = ev(n.b);
                    if d == 0 {
                        ev(n.a)
                    } else {
                        ev(n.a) % d
                    }
                }
                K::SDiv => {
                    let (x, y) = (sx(ev(n.a), n.w), sx(ev(n.b), n.w));
                    if y == 0 {
                        if x < 0 {
                            1
                        } else {
                            m
                        }
                    } else {
                        x.wrapping_div(y) as u128 & m
                    }
                }
                K::SRem => {
                    let (x, y) = (sx(ev(n.a), n.w), sx(ev(n.b), n.w));
                    if y == 0 {
                        ev(n.a)
                    } else {
                        x.wrapping_rem(y) as u128 & m
                    }
                }
                K::And => ev(n.a) & ev(n.b),
                K::Or => ev(n.a) | ev(n.b),
                K::Xor => ev(n.a) ^ ev(n.b),
                K::Not => ev(n.a) ^ 1,
                K::Shl => {
                    let s = ev(n.b);
                    if s >= n.w as u128 {
                        0
                    } else {
                        (ev(n.a) << s) & m
                    }
                }
                K::LShr => {
                    let s = ev(n.b);
                    if s >= n.w as u128 {
                        0
                    } else {
                        ev(n.a) >> s
                    }
                }
                K::AShr => {
                    let s = ev(n.b).min(n.w as u128 - 1);
                    (sx(ev(n.a), n.w) >> s) as u128 & m
                }
                K::Eq => (ev(n.a) == ev(n.b)) as u128,
                K::Ult => (ev(n.a) < ev(n.b)) as u128,
                K::Ule => (ev(n.a) <= ev(n.b)) as u128,
                K::Slt => {
                    let w = self.nodes[n.a as usize].w;
                    (sx(ev(n.a), w) < sx(ev(n.b), w)) as u128
                }
                K::Sle => {
                    let w = self.nodes[n.a as usize].w;
                    (sx(ev(n.a), w) <= sx(ev(n.b), w)) as u128
                }
                K::Ite => {
                    if ev(n.a) != 0 {
                        ev(n.b)
                    } else {
                        ev(n.c)
                    }
                }
                K::Concat => (ev(n.a) << self.nodes[n.b as usize].w) | ev(n.b),
                K::Extract => (ev(n.a) >> n.b) & m,
                K::SExt => sx(ev(n.a), self.nodes[n.a as usize].w) as u128 & m,
            };
            self.ev_stamp[t as usize] = st;
            self.ev_val[t as usize] = v;
            stack.pop();
        }
        self.ev_val[e as usize]
    }
    pub fn vars_of(&mut self, e: Ex) -> std::rc::Rc<Vec<u32>> {
        if let Some(r) = self.var_cache.get(&e) {
            return r.clone();
        }
        let n = self.nodes.len();
        if self.vs_stamp.len() < n {
            self.vs_stamp.resize(n, 0);
        }
        self.vs_cur += 1;
        let st = self.vs_cur;
        let mut out = vec![];
        let mut stack = vec![e];
        while let Some(t) = stack.pop() {
            if self.vs_stamp[t as usize] == st {
                continue;
            }
            self.vs_stamp[t as usize] = st;
            let n = self.nodes[t as usize];
            match n.k {
                K::Const => {}
                K::Var => out.push(n.a),
                K::Not | K::Extract | K::SExt => stack.push(n.a),
                K::Ite => {
                    stack.push(n.a);
                    stack.push(n.b);
                    stack.push(n.c)
                }
                _ => {
                    stack.push(n.a);
                    stack.push(n.b)
                }
            }
        }
        out.sort();
        let r = std::rc::Rc::new(out);
        self.var_cache.insert(e, r.clone());
        r
    }
    pub fn show(&self, e: Ex, depth: u32) -> String {
        let n = &self.nodes[e as usize];
        if n.k == K::Const {
            return format!("{:#x}:{}", n.v, n.w);
        }
        if n.k == K::Var {
            return self.var_names[n.a as usize].0.clone();
        }
        if depth == 0 {
            return "..".into();
        }
        match n.k {
            K::Extract => format!("{}[{}+:{}]", self.show(n.a, depth - 1), n.b, n.w),
            K::Not | K::SExt => format!("{:?}({})", n.k, self.show(n.a, depth - 1)),
            K::Ite => format!("ite({},{},{})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            _ => format!("{:?}({},{})", n.k, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
