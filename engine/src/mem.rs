//! Object memory with symbolic bytes.  Addresses are `id << 32 | 0x1000_0000 + offset`.
use crate::expr::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    /// concrete scalar of at most 64 bits (masked to its width)
    I(u64),
    /// symbolic scalar, or any scalar wider than 64 bits
    E(Ex),
    A(Rc<Vec<V>>),
}

pub fn mk(e: Ex) -> V {
    let n = &cx().nodes[e as usize];
    if n.k == K::Const && n.w <= 64 {
        V::I(n.v as u64)
    } else {
        V::E(e)
    }
}
impl V {
    pub fn ex(&self, w: u32) -> Ex {
        match self {
            V::I(x) => cx().c(*x as u128, w as u8),
            V::E(e) => {
                debug_assert_eq!(cx().w(*e) as u32, w);
                *e
            }
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    pub fn conc(&self) -> Option<u64> {
        match self {
            V::I(x) => Some(*x),
            V::E(e) => cx().cv(*e).map(|v| v as u64),
            _ => None,
        }
    }
}

pub const BASE: u64 = 0x1000_0000;
pub const STACK0: u32 = 0x0100_0000;
pub fn addr_of(id: u32) -> u64 {
    ((id as u64) << 32) | BASE
}
pub fn split(a: u64) -> (u32, i64) {
    ((a >> 32) as u32, (a & 0xffff_ffff) as i64 - BASE as i64)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Heap,
    Global,
    Stack,
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: BTreeMap<u32, (Ex, u8)>,
    /// (64-bit address expression, byte expression), oldest first
    pub log: Vec<(Ex, Ex)>,
    pub ro: bool,
    pub kind: Kind,
    pub align: u32,
}

impl Obj {
    pub fn new(n: u64, kind: Kind) -> Obj {
        Obj { data: vec![0; n as usize], sym: BTreeMap::new(), log: vec![], ro: false, kind, align: 16 }
    }
    /// byte as expression without consulting the log
    fn base_byte(&self, off: u32) -> Ex {
        if let Some(&(e, i)) = self.sym.get(&off) {
            if cx().w(e) == 8 {
                e
            } else {
                cx().extract(e, i * 8 + 7, i * 8)
            }
        } else {
            cx().c(self.data[off as usize] as u128, 8)
        }
    }
    pub fn byte(&self, id: u32, off: u32) -> Ex {
        let mut r = self.base_byte(off);
        if !self.log.is_empty() {
            let a = cx().c((addr_of(id) + off as u64) as u128, 64);
            for &(la, lv) in &self.log {
                let c = cx().eq(a, la);
                r = cx().ite(c, lv, r);
            }
        }
        r
    }
    pub fn load(&self, id: u32, off: u64, n: u64) -> V {
        let o = off as u32;
        if self.log.is_empty() {
            if self.sym.is_empty() || self.sym.range(o..o + n as u32).next().is_none() {
                if n <= 8 {
                    let mut b = [0u8; 8];
                    b[..n as usize].copy_from_slice(&self.data[off as usize..(off + n) as usize]);
                    return V::I(u64::from_le_bytes(b));
                }
                let mut x = 0u128;
                for i in (0..n).rev() {
                    x = (x << 8) | self.data[(off + i) as usize] as u128;
                }
                return V::E(cx().c(x, (n * 8) as u8));
            }
            if let Some(&(e, 0)) = self.sym.get(&o) {
                if cx().w(e) as u64 == n * 8 {
                    let mut ok = true;
                    for i in 1..n {
                        match self.sym.get(&(o + i as u32)) {
                            Some(&(f, k)) if f == e && k as u64 == i => {}
                            _ => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok {
                        return mk(e);
                    }
                }
            }
        }
        let mut r = self.byte(id, o);
        for i in 1..n {
            let b = self.byte(id, o + i as u32);
            r = cx().concat(b, r);
        }
        mk(r)
    }
    fn join(&self, id: u32, c: Ex, o: &Obj) -> Option<Obj> {
        if self.data.len() != o.data.len() || self.ro || self.kind != o.kind {
            return None;
        }
        let mut r = o.clone();
        let samelog = self.log == o.log;
        if !samelog {
            if self.data.len() > 512 {
                return None;
            }
            r.log.clear();
        }
        for k in 0..self.data.len() as u32 {
            if samelog {
                if self.data[k as usize] == o.data[k as usize] && self.sym.get(&k) == o.sym.get(&k) {
                    continue;
                }
                let (x, y) = (self.base_byte(k), o.base_byte(k));
                if x == y {
                    continue;
                }
                if !self.log.is_empty() {
                    // the log stays on top of the joined base
                    let e = cx().ite(c, x, y);
                    r.put_base(k, e);
                    continue;
                }
                r.join_at(id, k, c, self, o);
            } else {
                let (x, y) = (self.byte(id, k), o.byte(id, k));
                let e = cx().ite(c, x, y);
                r.put_base(k, e);
            }
        }
        Some(r)
    }
    fn put_base(&mut self, off: u32, e: Ex) {
        match cx().cv(e) {
            Some(v) => {
                self.data[off as usize] = v as u8;
                self.sym.remove(&off);
            }
            None => {
                self.sym.insert(off, (e, 0));
            }
        }
    }
    /// join of the byte at k; whole words when both sides hold aligned words
    fn join_at(&mut self, _id: u32, k: u32, c: Ex, a: &Obj, b: &Obj) {
        if let Some(&(e, i)) = self.sym.get(&k) {
            // already written as part of a word joined before
            let w = cx().w(e) as u32 / 8;
            if i > 0 && w > 1 && cx().k(e) == K::Ite {
                let n = cx().nodes[e as usize];
                if n.a == c && k >= i as u32 {
                    let s = k - i as u32;
                    if a.word(s, w) == Some(n.b) && b.word(s, w) == Some(n.c) {
                        return;
                    }
                }
            }
        }
        for w in [8u32, 4, 2] {
            if k % w == 0 && (k + w) as usize <= a.data.len() {
                if let (Some(x), Some(y)) = (a.word(k, w), b.word(k, w)) {
                    let e = cx().ite(c, x, y);
                    if cx().k(e) == K::Ite {
                        for i in 0..w {
                            self.sym.insert(k + i, (e, i as u8));
                        }
                        return;
                    }
                }
            }
        }
        let (x, y) = (a.base_byte(k), b.base_byte(k));
        let e = cx().ite(c, x, y);
        self.put_base(k, e);
    }
    /// the w bytes at k as one expression, if they are stored as such
    fn word(&self, k: u32, w: u32) -> Option<Ex> {
        match self.sym.get(&k) {
            Some(&(e, 0)) if cx().w(e) as u32 == w * 8 => {
                for i in 1..w {
                    if self.sym.get(&(k + i)) != Some(&(e, i as u8)) {
                        return None;
                    }
                }
                Some(e)
            }
            Some(_) => None,
            None => {
                if (1..w).any(|i| self.sym.contains_key(&(k + i))) {
                    return None;
                }
                let mut v = 0u128;
                for i in (0..w).rev() {
                    v = v << 8 | self.data[(k + i) as usize] as u128;
                }
                Some(cx().c(v, (w * 8) as u8))
            }
        }
    }
    pub fn set_byte(&mut self, id: u32, off: u32, e: Ex) {
        if !self.log.is_empty() {
            let a = cx().c((addr_of(id) + off as u64) as u128, 64);
            self.log.push((a, e));
            return;
        }
        match cx().cv(e) {
            Some(v) => {
                self.data[off as usize] = v as u8;
                if !self.sym.is_empty() {
                    self.sym.remove(&off);
                }
            }
            None => {
                self.sym.insert(off, (e, 0));
            }
        }
    }
    pub fn store(&mut self, id: u32, off: u64, n: u64, v: &V) {
        match v {
            V::I(x) if self.log.is_empty() => {
                let b = x.to_le_bytes();
                if n <= 8 {
                    self.data[off as usize..(off + n) as usize].copy_from_slice(&b[..n as usize]);
                } else {
                    self.data[off as usize..(off + 8) as usize].copy_from_slice(&b);
                    for i in 8..n {
                        self.data[(off + i) as usize] = 0;
                    }
                }
                if !self.sym.is_empty() {
                    for i in off..off + n {
                        self.sym.remove(&(i as u32));
                    }
                }
            }
            _ => {
                let w = (n * 8) as u8;
                let mut e = match v {
                    V::I(x) => cx().c(*x as u128, w),
                    V::E(e) => *e,
                    _ => panic!("store aggregate"),
                };
                if cx().w(e) < w {
                    e = cx().zext(e, w);
                }
                if self.log.is_empty() && cx().cv(e).is_none() && cx().k(e) != K::Concat {
                    for i in 0..n {
                        self.sym.insert((off + i) as u32, (e, i as u8));
                    }
                    return;
                }
                // store concatenations whole too when no part is constant
                if self.log.is_empty() && cx().k(e) == K::Concat && !has_const_byte(e) {
                    for i in 0..n {
                        self.sym.insert((off + i) as u32, (e, i as u8));
                    }
                    return;
                }
                for i in 0..n {
                    let b = cx().extract(e, (i * 8 + 7) as u8, (i * 8) as u8);
                    self.set_byte(id, (off + i) as u32, b);
                }
            }
        }
    }
}

fn has_const_byte(e: Ex) -> bool {
    let n = cx().nodes[e as usize];
    if n.k == K::Concat {
        has_const_byte(n.a) || has_const_byte(n.b)
    } else {
        n.k == K::Const && n.w >= 8
    }
}

#[derive(Clone)]
struct Chunk {
    o: [Option<Rc<Obj>>; 64],
}

#[derive(Clone, Default)]
pub struct Mem {
    heap: Vec<Rc<Chunk>>,
    pub nheap: u32,
    pub stack: Vec<Option<Rc<Obj>>>,
}

impl Mem {
    pub fn alloc(&mut self, o: Obj) -> u32 {
        let id = self.nheap.max(1);
        self.nheap = id + 1;
        let (c, i) = ((id / 64) as usize, (id % 64) as usize);
        while self.heap.len() <= c {
            self.heap.push(Rc::new(Chunk { o: [const { None }; 64] }));
        }
        Rc::make_mut(&mut self.heap[c]).o[i] = Some(Rc::new(o));
        id
    }
    pub fn alloc_stack(&mut self, o: Obj) -> u32 {
        self.stack.push(Some(Rc::new(o)));
        STACK0 + self.stack.len() as u32 - 1
    }
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        if id >= STACK0 {
            self.stack.get((id - STACK0) as usize)?.as_ref()
        } else {
            self.heap.get((id / 64) as usize)?.o[(id % 64) as usize].as_ref()
        }
    }
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let r = if id >= STACK0 {
            self.stack.get_mut((id - STACK0) as usize)?.as_mut()?
        } else {
            let c = self.heap.get_mut((id / 64) as usize)?;
            if Rc::strong_count(c) > 1 && c.o[(id % 64) as usize].is_none() {
                return None;
            }
            Rc::make_mut(c).o[(id % 64) as usize].as_mut()?
        };
        Some(Rc::make_mut(r))
    }
    pub fn free(&mut self, id: u32) {
        let c = &mut self.heap[(id / 64) as usize];
        Rc::make_mut(c).o[(id % 64) as usize] = None;
    }
    /// drop all heap objects with ids in lo..hi
    pub fn free_range(&mut self, lo: u32, hi: u32) {
        for id in lo..hi {
            if self.get(id).is_some() {
                self.free(id);
            }
        }
    }
    /// ite(c, self, o) when the two hold the same objects
    pub fn join(&self, c: Ex, o: &Mem) -> Option<Mem> {
        if self.nheap != o.nheap || self.stack.len() != o.stack.len() || self.heap.len() != o.heap.len() {
            return None;
        }
        let mut r = o.clone();
        for (k, (x, y)) in self.heap.iter().zip(&o.heap).enumerate() {
            if Rc::ptr_eq(x, y) {
                continue;
            }
            for i in 0..64 {
                match (&x.o[i], &y.o[i]) {
                    (None, None) => {}
                    (Some(p), Some(q)) => {
                        if !Rc::ptr_eq(p, q) {
                            let id = (k * 64 + i) as u32;
                            let m = p.join(id, c, q)?;
                            Rc::make_mut(&mut r.heap[k]).o[i] = Some(Rc::new(m));
                        }
                    }
                    _ => return None,
                }
            }
        }
        for (k, (x, y)) in self.stack.iter().zip(&o.stack).enumerate() {
            match (x, y) {
                (None, None) => {}
                (Some(p), Some(q)) => {
                    if !Rc::ptr_eq(p, q) {
                        r.stack[k] = Some(Rc::new(p.join(STACK0 + k as u32, c, q)?));
                    }
                }
                _ => return None,
            }
        }
        Some(r)
    }
}
