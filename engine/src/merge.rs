//! Path merging: the paths that leave a branch and meet again at its immediate
//! postdominator are explored together and joined into one state whose differing
//! registers and memory bytes become if-then-else terms.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use std::collections::HashMap;
use std::rc::Rc;

pub struct Info {
    /// immediate postdominator; nblocks = function return, MAX = none
    pub ipdom: Vec<u32>,
    /// loop headers: the blocks of the loop
    pub loops: HashMap<u32, Vec<bool>>,
    /// position in reverse postorder
    pub rpo: Vec<u32>,
    live: Vec<Vec<u64>>,
    tys: Vec<Option<Ty>>,
}

fn succs(f: &Func, b: usize) -> Vec<u32> {
    let mut v = vec![];
    for i in &f.blocks[b].insts {
        match i {
            Inst::Br(t) => v.push(*t),
            Inst::CondBr(_, a, b) => {
                v.push(*a);
                v.push(*b)
            }
            Inst::Switch(_, _, d, cs) => {
                v.push(*d);
                v.extend(cs.iter().map(|c| c.1))
            }
            Inst::Call(c) => v.extend(c.next),
            _ => {}
        }
    }
    v.sort();
    v.dedup();
    v
}
fn def(i: &Inst) -> Option<u32> {
    match i {
        Inst::Bin(d, ..) | Inst::Icmp(d, ..) | Inst::FBin(d, ..) | Inst::Fcmp(d, ..) | Inst::Cast(d, ..) | Inst::Load(d, ..) | Inst::Gep(d, ..) | Inst::Alloca(d, ..) | Inst::Select(d, ..) | Inst::ExtractValue(d, ..) | Inst::InsertValue(d, ..) | Inst::ExtractElement(d, ..) | Inst::InsertElement(d, ..) | Inst::Shuffle(d, ..) | Inst::AtomicRmw(d, ..) | Inst::CmpXchg(d, ..) | Inst::Freeze(d, ..) => Some(*d),
        Inst::Call(c) => c.dst,
        _ => None,
    }
}
fn uses(i: &Inst) -> Vec<&Op> {
    match i {
        Inst::Bin(_, _, _, a, b) | Inst::Icmp(_, _, _, a, b) | Inst::FBin(_, _, _, a, b) | Inst::Fcmp(_, _, _, a, b) | Inst::Store(_, a, b) | Inst::InsertValue(_, _, a, b, _) | Inst::ExtractElement(_, a, b) | Inst::Shuffle(_, _, a, b, _) | Inst::AtomicRmw(_, _, _, a, b) => vec![a, b],
        Inst::Cast(_, _, _, a, _) | Inst::Load(_, _, a) | Inst::CondBr(a, ..) | Inst::Switch(a, ..) | Inst::ExtractValue(_, a, _) | Inst::Freeze(_, a) => vec![a],
        Inst::Gep(_, a, _, ix) => {
            let mut v = vec![a];
            v.extend(ix.iter().map(|x| &x.0));
            v
        }
        Inst::Call(c) => {
            let mut v: Vec<&Op> = c.args.iter().map(|a| &a.1).collect();
            if let Callee::Ind(o) = &c.callee {
                v.push(o);
            }
            v
        }
        Inst::Ret(Some((_, o))) => vec![o],
        Inst::Select(_, _, c, _, a, b) => vec![c, a, b],
        Inst::InsertElement(_, _, a, b, c) | Inst::CmpXchg(_, _, a, b, c) => vec![a, b, c],
        _ => vec![],
    }
}

pub fn analyse(f: &Func) -> Info {
    let n = f.blocks.len();
    let sc: Vec<Vec<u32>> = (0..n).map(|b| succs(f, b)).collect();
    // edges of the reversed graph: n is the exit
    let mut sx: Vec<Vec<usize>> = sc.iter().map(|v| v.iter().map(|&x| x as usize).collect()).collect();
    for b in 0..n {
        if f.blocks[b].insts.iter().any(|i| matches!(i, Inst::Ret(_))) {
            sx[b].push(n);
        }
    }
    sx.push(vec![]);
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for b in 0..n {
        for &s in &sx[b] {
            preds[s].push(b);
        }
    }
    // postorder of the reversed graph from the exit
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut stack = vec![(n, 0usize)];
    seen[n] = true;
    while let Some((b, i)) = stack.pop() {
        if i < preds[b].len() {
            stack.push((b, i + 1));
            let p = preds[b][i];
            if !seen[p] {
                seen[p] = true;
                stack.push((p, 0));
            }
        } else {
            order.push(b);
        }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, &b) in order.iter().enumerate() {
        num[b] = i;
    }
    let mut idom = vec![usize::MAX; n + 1];
    idom[n] = n;
    loop {
        let mut ch = false;
        for &b in order.iter().rev() {
            if b == n {
                continue;
            }
            let mut d = usize::MAX;
            for &s in &sx[b] {
                if !seen[s] || idom[s] == usize::MAX {
                    continue;
                }
                if d == usize::MAX {
                    d = s;
                } else {
                    let (mut x, mut y) = (d, s);
                    while x != y {
                        while num[x] < num[y] {
                            x = idom[x];
                        }
                        while num[y] < num[x] {
                            y = idom[y];
                        }
                    }
                    d = x;
                }
            }
            if d != idom[b] {
                idom[b] = d;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let ipdom = (0..n).map(|b| if idom[b] == usize::MAX { u32::MAX } else { idom[b] as u32 }).collect();
    // live registers at block starts (after the phis)
    let words = (f.nregs as usize + 63) / 64;
    let mut live = vec![vec![0u64; words]; n];
    let mut out = vec![vec![0u64; words]; n];
    let bit = |v: &mut Vec<u64>, r: u32| v[r as usize / 64] |= 1 << (r % 64);
    loop {
        let mut ch = false;
        for b in (0..n).rev() {
            let mut l = vec![0u64; words];
            for &s in &sc[b] {
                let sb = &f.blocks[s as usize];
                let mut x = live[s as usize].clone();
                for (r, _) in &sb.phis {
                    x[*r as usize / 64] &= !(1 << (r % 64));
                }
                if let Some(ops) = sb.incoming.get(&(b as u32)) {
                    for o in ops {
                        if let Op::Reg(r) = o {
                            bit(&mut x, *r);
                        }
                    }
                }
                for (a, c) in l.iter_mut().zip(&x) {
                    *a |= c;
                }
            }
            out[b] = l.clone();
            for i in f.blocks[b].insts.iter().rev() {
                if let Some(d) = def(i) {
                    l[d as usize / 64] &= !(1 << (d % 64));
                }
                for o in uses(i) {
                    if let Op::Reg(r) = o {
                        bit(&mut l, *r);
                    }
                }
            }
            if l != live[b] {
                live[b] = l;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    // register types
    let mut tys: Vec<Option<Ty>> = vec![None; f.nregs as usize];
    for (t, r) in &f.params {
        tys[*r as usize] = Some(t.clone());
    }
    for _ in 0..2 {
        for b in &f.blocks {
            for (r, t) in &b.phis {
                tys[*r as usize] = Some(t.clone());
            }
            for i in &b.insts {
                let op_ty = |o: &Op, tys: &Vec<Option<Ty>>| match o {
                    Op::Reg(r) => tys[*r as usize].clone(),
                    Op::C(c) => Some(c.1.clone()),
                    _ => None,
                };
                let (d, t) = match i {
                    Inst::Bin(d, _, t, ..) | Inst::Load(d, t, _) | Inst::Select(d, _, _, t, ..) | Inst::Cast(d, _, _, _, t) => (*d, Some(t.clone())),
                    Inst::Icmp(d, _, t, ..) if !matches!(t, Ty::Vec(..)) => (*d, Some(Ty::Int(1))),
                    Inst::Gep(d, ..) | Inst::Alloca(d, ..) => (*d, Some(Ty::Ptr)),
                    Inst::Call(c) if c.dst.is_some() => (c.dst.unwrap(), Some(c.ret.clone())),
                    Inst::Freeze(d, o) => (*d, op_ty(o, &tys)),
                    Inst::InsertValue(d, t, ..) => (*d, Some(t.clone())),
                    Inst::ExtractValue(d, o, ix) => {
                        let mut t = op_ty(o, &tys);
                        for &k in ix {
                            t = t.map(|t| t.field_ty(k as usize));
                        }
                        (*d, t)
                    }
                    _ => continue,
                };
                tys[d as usize] = t;
            }
        }
    }
    let (loops, rpo) = find_loops(n, &sc);
    Info { ipdom, loops, rpo, live, tys }
}

fn find_loops(n: usize, sc: &[Vec<u32>]) -> (HashMap<u32, Vec<bool>>, Vec<u32>) {
    // depth-first search: retreating edges go to a block still on the stack
    let mut state = vec![0u8; n];
    let mut post = vec![];
    let mut back: Vec<(u32, u32)> = vec![];
    if n > 0 {
        let mut stack = vec![(0usize, 0usize)];
        state[0] = 1;
        while let Some((b, i)) = stack.pop() {
            if i < sc[b].len() {
                stack.push((b, i + 1));
                let s = sc[b][i] as usize;
                if state[s] == 0 {
                    state[s] = 1;
                    stack.push((s, 0));
                } else if state[s] == 1 {
                    back.push((b as u32, s as u32));
                }
            } else {
                state[b] = 2;
                post.push(b);
            }
        }
    }
    let mut rpo = vec![u32::MAX; n];
    for (i, &b) in post.iter().rev().enumerate() {
        rpo[b] = i as u32;
    }
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n];
    for b in 0..n {
        for &s in &sc[b] {
            preds[s as usize].push(b);
        }
    }
    let mut loops: HashMap<u32, Vec<bool>> = HashMap::new();
    for (t, h) in back {
        let m = loops.entry(h).or_insert_with(|| vec![false; n]);
        m[h as usize] = true;
        let mut w = vec![t as usize];
        while let Some(b) = w.pop() {
            if !m[b] {
                m[b] = true;
                w.extend(preds[b].iter().copied());
            }
        }
    }
    (loops, rpo)
}
impl Info {
    /// which of two loop headers to go on from first
    fn before(&self, a: u32, b: u32) -> bool {
        if self.loops[&b][a as usize] {
            return !self.loops[&a][b as usize] || self.rpo[a as usize] > self.rpo[b as usize];
        }
        !self.loops[&a][b as usize] && self.rpo[a as usize] < self.rpo[b as usize]
    }
}

fn same_v(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::I(x), V::I(y)) => x == y,
        (V::E(x), V::E(y)) => x == y,
        (V::A(x), V::A(y)) => Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same_v(p, q))),
        _ => false,
    }
}

impl Engine {
    pub fn info(&mut self, f: &'static Func) -> &'static Info {
        let k = f as *const Func as usize;
        if let Some(i) = self.infos.get(&k) {
            return i;
        }
        let i: &'static Info = Box::leak(Box::new(analyse(f)));
        self.infos.insert(k, i);
        i
    }

    /// Called with `st` at a branch whose alternatives were just pushed to
    /// `self.work` beyond `mark`.  Returns true when `st` was replaced.
    pub fn region(&mut self, st: &mut State, base: State, saved: Vec<State>) -> R<()> {
        let depth = st.frames.len();
        let fr = st.frames.last().unwrap();
        let f = fr.f;
        let start = fr.block;
        let info = self.info(f);
        let j = info.ipdom[start as usize];
        let exit = j as usize == f.blocks.len();
        let limit = self.merge_max;
        self.regions.push((depth, j));
        let r = self.region_in(st, base, saved, info, f, depth, j, exit, limit);
        self.regions.pop();
        r
    }
    /// the region around already joins at the same place
    pub fn in_region(&mut self, st: &State) -> bool {
        let fr = st.frames.last().unwrap();
        match self.regions.last() {
            Some(&(d, j)) if d == st.frames.len() => {
                let (f, b) = (fr.f, fr.block as usize);
                self.info(f).ipdom[b] == j
            }
            _ => false,
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn region_in(&mut self, st: &mut State, base: State, saved: Vec<State>, info: &'static Info, _f: &'static Func, depth: usize, j: u32, exit: bool, limit: usize) -> R<()> {
        let fr = st.frames.last().unwrap();
        let mut todo = std::mem::take(&mut self.work);
        todo.push(st.clone());
        let mut done: Vec<State> = vec![];
        let mut ended = false;
        let narrowed = self.narrowed;
        let mut steps = 0u64;
        let mut over = j == u32::MAX || (exit && (depth < 2 || fr.tool));
        // states waiting at a loop header in this frame for the others to get there
        let mut parked: Vec<State> = vec![];
        let mut ready: Vec<State> = vec![];
        'outer: while !over {
            let mut fresh = false;
            let mut s = match todo.pop() {
                Some(s) => s,
                None => {
                    if ready.is_empty() {
                        // the first of the headers
                        let Some(mut h) = parked.first().map(|s| s.frames.last().unwrap().block) else { break };
                        for s in &parked {
                            let b = s.frames.last().unwrap().block;
                            if b != h && info.before(b, h) {
                                h = b;
                            }
                        }
                        let (go, stay): (Vec<State>, Vec<State>) = std::mem::take(&mut parked).into_iter().partition(|s| s.frames.last().unwrap().block == h);
                        parked = stay;
                        for (mut s, cs) in self.groups(go, &base) {
                            if cs.len() > 1 {
                                self.widen(&mut s, &base, &cs);
                            }
                            ready.push(s);
                        }
                    }
                    fresh = true;
                    ready.pop().unwrap()
                }
            };
            loop {
                // a state another region left at our join point must not run past it
                let at = if exit { s.frames.len() == depth - 1 } else { s.frames.len() == depth && { let t = s.frames.last().unwrap(); t.block == j && t.pc == 0 } };
                if at {
                    done.push(s);
                    break;
                }
                if s.frames.len() < depth {
                    // left the function without passing the join point
                    todo.push(s);
                    over = true;
                    break 'outer;
                }
                if !fresh && s.frames.len() == depth && {
                    let t = s.frames.last().unwrap();
                    t.pc == 0 && info.loops.contains_key(&t.block)
                } {
                    parked.push(s);
                    break;
                }
                fresh = false;
                steps += 1;
                s.steps += 1;
                self.stats.steps += 1;
                if steps > 400_000 || (steps & 0xff == 0 && self.stopped()) || todo.len() + done.len() + parked.len() + ready.len() > limit {
                    todo.push(s);
                    over = true;
                    break 'outer;
                }
                match self.step(&mut s) {
                    Ok(()) => {}
                    Err(e) => {
                        ended = true;
                        let w = std::mem::take(&mut self.work);
                        self.finish_path(s, e);
                        todo.extend(w);
                        break;
                    }
                }
                if !self.work.is_empty() {
                    todo.append(&mut self.work);
                }
            }
        }
        self.work = saved;
        if over {
            self.work.extend(todo);
            self.work.extend(done);
            self.work.extend(parked);
            self.work.extend(ready);
            return match self.work.pop() {
                Some(s) => {
                    *st = s;
                    Ok(())
                }
                None => Err(Ev::Gone),
            };
        }
        if done.is_empty() {
            return Err(Ev::Gone);
        }
        let groups = self.groups(done, &base);
        let single = groups.len() == 1 && !ended && self.narrowed == narrowed;
        let mut out = vec![];
        for (mut s, cs) in groups {
            if cs.len() > 1 {
                if single {
                    s.pc = base.pc.clone();
                    s.known = base.known.clone();
                    s.eqs = base.eqs.clone();
                } else {
                    self.widen(&mut s, &base, &cs);
                }
            }
            out.push(s);
        }
        *st = out.pop().unwrap();
        self.work.extend(out);
        Ok(())
    }

    /// a joined state holds where one of its parts does
    fn widen(&mut self, s: &mut State, base: &State, cs: &[Ex]) {
        s.pc = base.pc.clone();
        s.known = base.known.clone();
        s.eqs = base.eqs.clone();
        let mut c = FALSE;
        for &x in cs {
            c = cx().or(c, x);
        }
        self.assume_true(s, c);
    }
    /// joins what can be joined; the conditions of the parts
    fn groups(&mut self, states: Vec<State>, base: &State) -> Vec<(State, Vec<Ex>)> {
        let n0 = base.pc.len();
        let mut groups: Vec<(State, Vec<Ex>)> = vec![];
        'next: for s in states {
            let mut c = TRUE;
            for &e in &s.pc[n0..] {
                c = cx().and(c, e);
            }
            for g in groups.iter_mut() {
                if let Some(m) = self.join(&s, c, &g.0, base) {
                    self.stats.merges += 1;
                    g.0 = m;
                    g.1.push(c);
                    continue 'next;
                }
            }
            groups.push((s, vec![c]));
        }
        groups
    }

    /// ite(c, a, b); both descend from base
    fn join(&mut self, a: &State, c: Ex, b: &State, base: &State) -> Option<State> {
        if a.frames.len() != b.frames.len() || a.inputs.len() != b.inputs.len() || !Rc::ptr_eq(&a.inputs, &b.inputs) {
            return None;
        }
        if a.arrs.len() != b.arrs.len() || a.bases.len() != b.bases.len() || a.insts.len() != b.insts.len() {
            return None;
        }
        for (x, y) in a.arrs.iter().zip(&b.arrs) {
            if x.base != y.base || !(Rc::ptr_eq(&x.log, &y.log) || x.log == y.log) {
                return None;
            }
        }
        for (x, y) in a.bases.iter().zip(&b.bases) {
            if !Rc::ptr_eq(x, y) {
                return None;
            }
        }
        for (x, y) in a.insts.iter().zip(&b.insts) {
            if !Rc::ptr_eq(&x.globals, &y.globals) || x.stdin_pos != y.stdin_pos || x.calls != y.calls {
                return None;
            }
        }
        if !(Rc::ptr_eq(&a.trace, &b.trace) || a.trace == b.trace) || !(Rc::ptr_eq(&a.covers, &b.covers) || a.covers == b.covers) {
            return None;
        }
        if a.fs.inodes.len() != b.fs.inodes.len() || a.fs.fds.len() != b.fs.fds.len() || a.fs.names.len() != b.fs.names.len() {
            return None;
        }
        if !a.fs.inodes.iter().zip(&b.fs.inodes).all(|(x, y)| Rc::ptr_eq(x, y)) {
            return None;
        }
        for (x, y) in a.fs.fds.iter().zip(&b.fs.fds) {
            match (x, y) {
                (None, None) => {}
                (Some(x), Some(y)) if x.inode == y.inode && x.pos == y.pos => {}
                _ => return None,
            }
        }
        let (fa, fb) = (a.frames.last().unwrap(), b.frames.last().unwrap());
        if !std::ptr::eq(fa.f, fb.f) || fa.block != fb.block || fa.pc != fb.pc || fa.nstack != fb.nstack {
            return None;
        }
        if !a.frames.iter().zip(&b.frames).all(|(x, y)| std::ptr::eq(x.f, y.f) && x.block == y.block && x.pc == y.pc) {
            return None;
        }
        let info = self.info(fa.f);
        let mut regs = fb.regs.clone();
        for r in 0..regs.len() {
            if same_v(&fa.regs[r], &fb.regs[r]) {
                continue;
            }
            if fa.pc == 0 && info.live[fa.block as usize][r / 64] >> (r % 64) & 1 == 0 {
                continue;
            }
            let t = info.tys[r].as_ref()?;
            regs[r] = self.merge(c, t, &fa.regs[r], &fb.regs[r])?;
        }
        let mem = a.mem.join(c, &b.mem)?;
        let _ = base;
        let mut s = b.clone();
        s.mem = mem;
        s.frames.last_mut().unwrap().regs = regs;
        s.steps = s.steps.max(a.steps);
        Some(s)
    }
}

pub type Infos = HashMap<usize, &'static Info>;
