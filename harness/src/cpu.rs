//! Processor harnesses.
use crate::spec::{self, *};
use crate::sym::*;
use telda2::blf4::{Blf4, Blf4Flags, ByteRegister, TrapMode, WideRegister};
use telda2::machine::Cpu;
use telda2::mem::MainMemory;
use telda2::{align_end, align_start, U4};

pub fn wr(n: u64) -> WideRegister {
    WideRegister(U4::new_unchecked(n as u8))
}
pub fn br(n: u64) -> ByteRegister {
    ByteRegister(U4::new_unchecked(n as u8))
}

/// Main memory with arbitrary contents.
pub struct SymMem {
    pub arr: Arr,
    pub reads: Vec<u32>,
    pub writes: u32,
}
impl SymMem {
    pub fn new() -> Self {
        SymMem { arr: Arr::new(), reads: Vec::with_capacity(64), writes: 0 }
    }
}
impl MainMemory for SymMem {
    fn read(&mut self, addr: u32) -> u8 {
        self.reads.push(addr);
        self.arr.get(addr)
    }
    fn write(&mut self, addr: u32, byte: u8) {
        self.writes += 1;
        self.arr.set(addr, byte)
    }
}
pub struct ModelMem(pub Arr, pub Vec<u64>);
impl SpecMem for ModelMem {
    fn rd(&mut self, a: u64) -> u64 {
        self.1.push(a);
        self.0.get(a as u32) as u64
    }
    fn wr(&mut self, a: u64, v: u64) {
        self.0.set(a as u32, v as u8)
    }
}

/// Processor and model in the same arbitrary state.
pub fn any_cpu(vm: Option<bool>, user: Option<bool>) -> (Blf4, Mach) {
    let mut c = Blf4::new();
    c.flags = Blf4Flags::default();
    let mut g = [0u64; 16];
    for k in 1..=10 {
        let v = any_u16();
        g[k] = v as u64;
        let _ = c.write_wr(wr(k as u64), v);
    }
    c.stack = any_u16();
    c.link = any_u16();
    c.frame = any_u16();
    c.page = any_u16();
    c.trap_handler = any_u16();
    c.program_counter = any_u16();
    g[11] = c.stack as u64;
    g[12] = c.link as u64;
    g[13] = c.frame as u64;
    g[14] = c.page as u64;
    g[15] = c.trap_handler as u64;
    c.flags.user_mode = match user {
        Some(b) => b,
        None => any_bool(),
    };
    c.flags.virtual_mode = match vm {
        Some(b) => b,
        None => any_bool(),
    };
    c.flags.trap = any_bool();
    c.flags.reserved = any_bool();
    c.flags.carry = any_bool();
    c.flags.sign = any_bool();
    c.flags.overflow = any_bool();
    c.flags.zero = any_bool();
    let f = c.flags;
    let m = Mach {
        g,
        pc: c.program_counter as u64,
        user: f.user_mode,
        trap: f.trap,
        vm: f.virtual_mode,
        res: f.reserved,
        z: f.zero,
        s: f.sign,
        o: f.overflow,
        c: f.carry,
    };
    (c, m)
}

/// register k of the processor, read without privilege checks
pub fn reg(c: &Blf4, k: usize) -> u64 {
    (match k {
        11 => c.stack,
        12 => c.link,
        13 => c.frame,
        14 => c.page,
        15 => c.trap_handler,
        _ => match c.read_wr(wr(k as u64)) {
            Ok(v) => v,
            Err(_) => 0,
        },
    }) as u64
}
pub fn same_regs(c: &Blf4, m: &Mach) -> bool {
    let mut ok = true;
    for k in 0..16 {
        ok = and(ok, reg(c, k) == m.g[k]);
    }
    ok
}
pub fn same_arith(c: &Blf4, m: &Mach) -> bool {
    let f = &c.flags;
    and(and(f.zero == m.z, f.sign == m.s), and(f.overflow == m.o, f.carry == m.c))
}
pub fn same_mode(c: &Blf4, m: &Mach) -> bool {
    let f = &c.flags;
    and(and(f.user_mode == m.user, f.trap == m.trap), and(f.virtual_mode == m.vm, f.reserved == m.res))
}
pub fn same_mem(a: Arr, b: Arr) -> bool {
    let x = int(32) as u32;
    a.get(x) == b.get(x)
}
pub fn trace_cpu(c: &Blf4) {
    for k in 0..16 {
        trace(reg(c, k));
    }
    trace(c.program_counter as u64);
    trace(u16::from(c.flags) as u64);
}

// ------------------------------------------------------------- C29
pub fn align() {
    let k = choice(16);
    let al = 1u16 << k;
    let a = any_u16();
    let s = align_start(a, al);
    trace(s as u64);
    check("align_start-aligned", s & (al - 1) == 0);
    check("align_start-nearest", and(s <= a, a - s < al));
    // the value rounded up must be representable
    let top = !(al - 1);
    assume(a <= top);
    let e = align_end(a, al);
    trace(e as u64);
    check("align_end-aligned", e & (al - 1) == 0);
    check("align_end-nearest", and(e >= a, e.wrapping_sub(a) < al));
    let b = any_u8();
    let (h, l) = U4::paired(b);
    check("unpack-high-first", and(u8::from(h) == b >> 4, u8::from(l) == b & 15));
    check("pack-unpack", h.pair(l) == b);
    let (x, y) = (any_u8(), any_u8());
    assume(and(x < 16, y < 16));
    let p = U4::new_unchecked(x).pair(U4::new_unchecked(y));
    let (x2, y2) = U4::paired(p);
    trace(p as u64);
    check("unpack-pack", and(u8::from(x2) == x, u8::from(y2) == y));
    let n = U4::new(x);
    check("new", u8::from(n) == x);
}

// ------------------------------------------------------------- C01
pub fn regfile() {
    let (mut c, mut m) = any_cpu(None, Some(false));
    for n in 0..16 {
        check("initial-wide", c.read_wr(wr(n)).map(|v| v as u64 == m.g[n as usize]).unwrap_or(false));
    }
    let which = choice(2);
    let n = int(4);
    let f = c.flags;
    if which == 0 {
        let v = any_u16();
        let r = c.write_wr(wr(n), v);
        check("wide-write-ok", r.is_ok());
        m.wr_w(n, v as u64);
    } else {
        let v = any_u8();
        c.write_br(br(n), v);
        m.wr_b(n, v as u64);
    }
    // any register, read in either view
    let k = int(4);
    match c.read_wr(wr(k)) {
        Ok(v) => {
            trace(v as u64);
            check("wide-view", v as u64 == m.rd_w(k))
        }
        Err(_) => check("wide-read-ok", false),
    }
    let b = c.read_br(br(k));
    trace(b as u64);
    check("byte-view", b as u64 == m.rd_b(k));
    check("special-registers", same_regs(&c, &m));
    check("pc-and-flags", and(c.program_counter as u64 == m.pc, u16::from(c.flags) == u16::from(f)));
    trace_cpu(&c);
}

// ------------------------------------------------------------- C02..C06
const ALU: &[u64] = &[0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f, 0x50];
const MULDIV: &[u64] = &[0x51, 0x52, 0x53, 0x54];
const FLOW: &[u64] = &[0x20, 0x25, 0x26, 0x2f, 0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x40];
const MOVE: &[u64] = &[0x21, 0x22, 0x23, 0x24, 0x27, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x3f, 0x40];

/// One instruction of a group in direct mode from an arbitrary state.
pub fn step(group: u64) {
    let op = match group {
        2 => ALU[choice(ALU.len() as u64) as usize],
        3 => MULDIV[choice(MULDIV.len() as u64) as usize],
        4 => FLOW[choice(FLOW.len() as u64) as usize],
        5 => MOVE[choice(MOVE.len() as u64) as usize],
        _ => choice(256),
    };
    let (mut c, mut m) = any_cpu(Some(false), None);
    c.trap_handler = 0;
    m.g[RH] = 0;
    let m0 = m.clone();
    let mut mem = SymMem::new();
    let pc = m.pc;
    let at = |k: u64| mem.arr.get(w16(pc + k) as u32);
    assume(at(0) as u64 == op);
    let b = [at(1) as u64, at(2) as u64, at(3) as u64];
    let before = mem.arr.snapshot();
    let mut sm = ModelMem(mem.arr.snapshot(), vec![]);

    let res = c.execute_instruction(&mut mem);

    let out = spec::exec(&mut m, &mut sm, op, b);
    let same = |c: &Blf4, m: &Mach| and(same_regs(c, m), same_arith(c, m));
    match res {
        Ok(()) => {
            match out {
                Out::Done => {
                    check("registers", same_regs(&c, &m));
                    check("flags", same_arith(&c, &m));
                    check("mode", same_mode(&c, &m));
                    check("pc", c.program_counter as u64 == m.pc);
                    check("memory", same_mem(mem.arr, sm.0));
                    let mut ok = true;
                    let len = length(op);
                    for &a in &mem.reads {
                        let mut hit = false;
                        for k in 0..len {
                            hit = or(hit, a as u64 == w16(pc + k));
                        }
                        for &d in &sm.1 {
                            hit = or(hit, a as u64 == d);
                        }
                        ok = and(ok, hit);
                    }
                    check("reads-only-its-bytes", ok);
                    cover("done");
                }
                Out::DoneLoose => {
                    check("pc", c.program_counter as u64 == m.pc);
                    check("memory", same_mem(mem.arr, before));
                    check("mode", same_mode(&c, &m0));
                }
                Out::Reth => (),
                _ => check("must-trap", false),
            }
        }
        Err(tm) => {
            let code = tm as u8 as u64;
            trace(code);
            match out {
                Out::Trap(t) => {
                    check("trap-kind", code == t);
                    check("trap-no-effect", same(&c, &m0));
                    if t == T_HALT || t == T_SYSCALL {
                        check("trap-pc", c.program_counter as u64 == w16(pc + 1));
                    }
                    cover("trap");
                }
                Out::Illegal => check("trap-kind", code == T_ILLEGAL),
                Out::AnyTrap => (),
                Out::Reth => check("unexpected-trap", false),
                _ => check("unexpected-trap", false),
            }
            check("trap-memory", same_mem(mem.arr, before));
            check("trap-mode", and(!c.flags.user_mode, c.flags.trap));
            let mut ok = true;
            for &a in &mem.reads {
                let mut hit = false;
                for k in 0..4 {
                    hit = or(hit, a as u64 == w16(pc + k));
                }
                ok = and(ok, hit);
            }
            if out != Out::Illegal && out != Out::AnyTrap {
                check("trap-reads-only-its-bytes", ok);
            }
        }
    }
    trace_cpu(&c);
}

// ------------------------------------------------------------- C09
pub const T_FAULT1: u64 = 0xe;
pub const T_FAULT2: u64 = 0xf;
pub const OK: u64 = 0xff;
pub struct Walk {
    /// OK or the trap
    pub code: u64,
    pub phys: u64,
    pub a1: u64,
    pub a2: u64,
}
/// The documented two-level walk over memory `m`; kind 0 read, 1 write, 2 execute.
pub fn walk(m: Arr, rp: u64, user: bool, v: u64, kind: u64) -> Walk {
    let rd4 = |a: u64| -> u64 {
        let b = |k: u64| m.get((a + k) as u32) as u64;
        b(0) | b(1) << 8 | b(2) << 16 | b(3) << 24
    };
    let a1 = rp + (v >> 12) * 4;
    let e1 = rd4(a1);
    let t2 = (e1 >> 15) << 7;
    let a2 = t2 + ((v >> 7) & 31) * 4;
    let e2 = rd4(a2);
    let phys = (e2 >> 15) << 7 | (v & 127);
    let (need, t) = [(2u64, 0x11u64), (4, 0x12), (8, 0x13)][kind as usize];
    let level = |e: u64, fault: u64, ok: u64| -> u64 {
        let r = ite(e & need == 0, t, ok);
        let r = ite(and(user, e & 0x20 == 0), T_ILLEGAL, r);
        ite(e & 1 == 0, fault, r)
    };
    let code = level(e1, T_FAULT1, level(e2, T_FAULT2, OK));
    Walk { code, phys, a1, a2 }
}
/// One memory access through any page tables.
pub fn vaccess(kind: u64) {
    let (mut c, m) = any_cpu(None, None);
    let mut mem = SymMem::new();
    let before = mem.arr.snapshot();
    let v = any_u16();
    let x = any_u8();
    let w = walk(before, m.g[RP], m.user, v as u64, kind);
    let code = ite(m.vm, w.code, OK);
    let phys = ite(m.vm, w.phys, v as u64);
    let (vm, u) = (c.flags.virtual_mode, c.clone());
    let mut got = 0u64;
    let res = {
        let mut cx = c.context(&mut mem);
        match kind {
            0 => cx.read(v).map(|b| got = b as u64),
            1 => cx.write(v, x),
            _ => {
                cx.cpu.program_counter = v;
                cx.fetch().map(|b| got = b as u64)
            }
        }
    };
    let expect = before.snapshot();
    match res {
        Ok(()) => {
            check("allowed", code == OK);
            trace(got);
            if kind == 1 {
                // dirty flags, then the byte
                let d1 = ite(vm, before.get(w.a1 as u32) as u64 | 0x10, 0);
                let d2 = ite(vm, before.get(w.a2 as u32) as u64 | 0x10, 0);
                if vm {
                    expect.set(w.a1 as u32, d1 as u8);
                    expect.set(w.a2 as u32, d2 as u8);
                }
                expect.set(phys as u32, x);
                cover("written");
            } else {
                check("value", got == before.get(phys as u32) as u64);
                cover("read");
            }
        }
        Err(t) => {
            trace(t as u8 as u64);
            check("trap", t as u8 as u64 == code);
            cover("trapped");
        }
    }
    check("memory", same_mem(mem.arr, expect));
    let mut m2 = m.clone();
    if kind == 2 {
        m2.pc = w16(v as u64 + 1);
        check("pc", c.program_counter as u64 == m2.pc);
    } else {
        check("pc", c.program_counter == u.program_counter);
    }
    check("registers", and(same_regs(&c, &m), and(same_arith(&c, &m), same_mode(&c, &m))));
    // every byte looked at is an entry byte or the target
    let mut ok = true;
    for &a in &mem.reads {
        let a = a as u64;
        let e = and(m.vm, or(and(a >= w.a1, a < w.a1 + 4), and(a >= w.a2, a < w.a2 + 4)));
        ok = and(ok, or(e, a == phys));
    }
    check("reads", ok);
}

/// Page tables of a fixed shape with arbitrary flag bytes: the first level at
/// RP0, second level tables at T2, page v mapped to DATA + v. Physical memory
/// outside those is not to be touched.
pub const RP0: u64 = 0x8000;
pub const T2: u64 = 0x20000;
pub const DATA: u64 = 0x100000;
#[derive(Clone, Copy)]
pub struct Pt {
    pub f1: Arr,
    pub f2: Arr,
    pub data: Arr,
}
impl Pt {
    pub fn new() -> Self {
        Pt { f1: Arr::new(), f2: Arr::new(), data: Arr::new() }
    }
    pub fn snapshot(self) -> Self {
        Pt { f1: self.f1.snapshot(), f2: self.f2.snapshot(), data: self.data.snapshot() }
    }
    pub fn same(self, o: Pt) -> bool {
        let (x, y, z) = (int(4) as u32, int(9) as u32, int(16) as u32);
        and(and(self.f1.get(x) == o.f1.get(x), self.f2.get(y) == o.f2.get(y)), self.data.get(z) == o.data.get(z))
    }
}
pub struct PtMem {
    pub p: Pt,
    pub stray: bool,
}
impl PtMem {
    fn entry(k: u64, flags: u64, page: u64) -> u8 {
        let v = ite(k == 0, flags, ite(k == 1, page & 0xff, ite(k == 2, page >> 8 & 0xff, page >> 16)));
        v as u8
    }
}
impl MainMemory for PtMem {
    fn read(&mut self, addr: u32) -> u8 {
        let a = addr as u64;
        if a >= DATA && a < DATA + 0x10000 {
            return self.p.data.get((a - DATA) as u32);
        }
        if a >= T2 && a < T2 + 0x800 {
            let v = (a - T2) >> 2;
            return Self::entry(a & 3, self.p.f2.get(v as u32) as u64, DATA + (v << 7));
        }
        if a >= RP0 && a < RP0 + 64 {
            let v = (a - RP0) >> 2;
            return Self::entry(a & 3, self.p.f1.get(v as u32) as u64, T2 + (v << 7));
        }
        self.stray = true;
        0
    }
    fn write(&mut self, addr: u32, byte: u8) {
        let a = addr as u64;
        if a >= DATA && a < DATA + 0x10000 {
            self.p.data.set((a - DATA) as u32, byte);
            return;
        }
        if a & 3 == 0 && a >= T2 && a < T2 + 0x800 {
            self.p.f2.set(((a - T2) >> 2) as u32, byte);
            return;
        }
        if a & 3 == 0 && a >= RP0 && a < RP0 + 64 {
            self.p.f1.set(((a - RP0) >> 2) as u32, byte);
            return;
        }
        self.stray = true;
    }
}
/// The model's view of the same; `code` is the first trap met.
pub struct VMem {
    pub p: Pt,
    pub user: bool,
    pub code: u64,
}
impl VMem {
    fn go(&mut self, v: u64, kind: u64) -> bool {
        let (need, t) = [(2u64, 0x11u64), (4, 0x12), (8, 0x13)][kind as usize];
        let user = self.user;
        let level = |e: u64, fault: u64, ok: u64| -> u64 {
            let r = ite(e & need == 0, t, ok);
            let r = ite(and(user, e & 0x20 == 0), T_ILLEGAL, r);
            ite(e & 1 == 0, fault, r)
        };
        let e1 = self.p.f1.get((v >> 12) as u32) as u64;
        let e2 = self.p.f2.get((v >> 7) as u32) as u64;
        let code = level(e1, T_FAULT1, level(e2, T_FAULT2, OK));
        self.code = ite(self.code == OK, code, self.code);
        self.code == OK
    }
    fn put(ok: bool, m: Arr, a: u64, v: u64) {
        let old = m.get(a as u32) as u64;
        m.set(a as u32, ite(ok, v, old) as u8);
    }
    pub fn fetch(&mut self, v: u64) -> u64 {
        self.go(v, 2);
        self.p.data.get(v as u32) as u64
    }
}
impl SpecMem for VMem {
    fn rd(&mut self, v: u64) -> u64 {
        self.go(v, 0);
        self.p.data.get(v as u32) as u64
    }
    fn wr(&mut self, v: u64, x: u64) {
        let ok = self.go(v, 1);
        let d1 = self.p.f1.get((v >> 12) as u32) as u64 | 0x10;
        let d2 = self.p.f2.get((v >> 7) as u32) as u64 | 0x10;
        Self::put(ok, self.p.f1, v >> 12, d1);
        Self::put(ok, self.p.f2, v >> 7, d2);
        Self::put(ok, self.p.data, v, x);
    }
}
/// One instruction in virtual mode through arbitrary page tables.
pub fn vstep(user: u64, from: u64, to: u64) {
    let op = from + choice(to - from);
    if user == 0 && (op == 0x13 || op == 0x14) {
        return;
    }
    let (mut c, mut m) = any_cpu(Some(true), Some(user != 0));
    c.trap_handler = 0;
    m.g[RH] = 0;
    c.page = RP0 as u16;
    m.g[RP] = RP0;
    let m0 = m.clone();
    let mut mem = PtMem { p: Pt::new(), stray: false };
    let before = mem.p.snapshot();
    let mut vm = VMem { p: mem.p.snapshot(), user: m.user, code: OK };
    let b0 = vm.fetch(m.pc);
    let fault0 = vm.code;
    assume(or(fault0 != OK, b0 == op));
    let mut b = [0u64; 3];
    for k in 1..length(op).max(1) {
        b[k as usize - 1] = vm.fetch(w16(m.pc + k));
    }
    let fault = vm.code;

    let res = c.execute_instruction(&mut mem);

    check("nothing-outside-the-mapping", !mem.stray);
    match res {
        Ok(()) => {
            check("fetched", fault == OK);
            let out = spec::exec(&mut m, &mut vm, op, b);
            match out {
                Out::Done => {
                    check("accesses-allowed", vm.code == OK);
                    if op < 0x41 {
                        check("registers", same_regs(&c, &m));
                        check("flags", same_arith(&c, &m));
                    }
                    check("mode", same_mode(&c, &m));
                    check("pc", c.program_counter as u64 == m.pc);
                    check("memory", mem.p.same(vm.p));
                    cover("done");
                }
                Out::DoneLoose => {
                    check("mode", same_mode(&c, &m0));
                    check("memory", mem.p.same(before));
                }
                Out::Reth => check("no-user-return", user == 0),
                _ => check("must-trap", false),
            }
            if user != 0 {
                check("still-user", c.flags.user_mode);
                check("privileged-registers", and(c.page as u64 == m0.g[RP], c.trap_handler as u64 == m0.g[RH]));
                check("virtual-mode-kept", c.flags.virtual_mode);
            }
        }
        Err(tm) => {
            let code = tm as u8 as u64;
            trace(code);
            check("trap-mode", and(!c.flags.user_mode, c.flags.trap));
            let kept = || {
                let mut ok = true;
                for k in 0..16 {
                    if k != RS {
                        ok = and(ok, reg(&c, k) == m0.g[k]);
                    }
                }
                check("trap-registers", and(ok, same_arith(&c, &m0)));
            };
            if fault != OK {
                check("fetch-trap", or(code == fault, and(fault0 == OK, or(code == T_ILLEGAL, code == T_INVALID))));
                check("fetch-trap-memory", mem.p.same(before));
                check("fetch-trap-rs", c.stack as u64 == m0.g[RS]);
                kept();
                cover("fetch-trap");
                return;
            }
            let out = spec::exec(&mut m, &mut vm, op, b);
            match out {
                Out::Trap(t) => {
                    check("trap-kind", code == t);
                    check("trap-memory", mem.p.same(before));
                    kept();
                    cover("trap");
                }
                Out::Illegal => {
                    // the stack may be looked at first
                    let may_read = op == 0x24 || op == 0x0d || (0x2b..=0x2e).contains(&op);
                    check("trap-kind", or(code == T_ILLEGAL, and(may_read, or(code == T_FAULT1, or(code == T_FAULT2, code == 0x11)))));
                    check("trap-memory", mem.p.same(before));
                    cover("illegal");
                }
                Out::AnyTrap => check("trap-memory", mem.p.same(before)),
                Out::Done | Out::DoneLoose => {
                    check("data-trap", code == vm.code);
                    check("data-trap-memory", mem.p.same(vm.p));
                    kept();
                    cover("data-trap");
                }
                Out::Reth => (),
            }
        }
    }
    trace_cpu(&c);
}

/// User mode keeps its bounds whatever the memory answers.
pub fn userstep() {
    let (mut c, m) = any_cpu(None, Some(true));
    c.trap_handler = 0;
    let mut mem = HavocMem { last: 0 };
    let r = c.execute_instruction(&mut mem);
    match r {
        Ok(()) => {
            check("still-user", c.flags.user_mode);
            check("virtual-mode-kept", c.flags.virtual_mode == m.vm);
            check("privileged-registers", and(c.page as u64 == m.g[RP], c.trap_handler == 0));
            check("trap-flag-not-raised", or(!c.flags.trap, m.trap));
            check("direct-stays-low", or(m.vm, mem.last < 0x10000));
            cover("ok");
        }
        Err(_) => {
            check("privileged-registers", and(c.page as u64 == m.g[RP], c.trap_handler == 0));
            check("virtual-mode-kept", c.flags.virtual_mode == m.vm);
            cover("trap");
        }
    }
}

// ------------------------------------------------------------- C10
/// What the handler may do to the registers before it returns.
fn handler_body(c: &mut Blf4) {
    for k in 1..=10 {
        let v = any_u16();
        let _ = c.write_wr(wr(k), v);
    }
    c.link = any_u16();
    c.frame = any_u16();
    c.flags.zero = any_bool();
    c.flags.sign = any_bool();
    c.flags.carry = any_bool();
    c.flags.overflow = any_bool();
}
fn restored(c: &Blf4, m: &Mach, pc_to: u64) {
    check("restored-registers", same_regs(c, m));
    check("restored-flags", same_arith(c, m));
    check("restored-mode", and(c.flags.user_mode == m.user, and(c.flags.virtual_mode == m.vm, and(c.flags.reserved == m.res, !c.flags.trap))));
    let d = w16((c.program_counter as u64).wrapping_sub(m.pc));
    check("restored-pc", and(d >= 1, d <= pc_to));
}
/// A trap of the instruction `op` with a handler installed, then reth.
pub fn deliver() {
    let op = [0x01u64, 0x0a, 0x0c, 0x0d, 0x10, 0x51][choice(6) as usize];
    let (mut c, mut m) = any_cpu(Some(false), None);
    assume(m.g[RH] != 0);
    let m0 = m.clone();
    let mut mem = SymMem::new();
    let pc = m.pc;
    let at = |k: u64| mem.arr.get(w16(pc + k) as u32);
    assume(at(0) as u64 == op);
    let b = [at(1) as u64, at(2) as u64, at(3) as u64];
    let before = mem.arr.snapshot();
    let mut sm = ModelMem(mem.arr.snapshot(), vec![]);
    let res = c.execute_instruction(&mut mem);
    let out = spec::exec(&mut m, &mut sm, op, b);
    let (t, exact) = match out {
        Out::Done | Out::DoneLoose => {
            // no trap: nothing of this happens
            check("no-trap", res.is_ok());
            check("no-trap-pc", or(c.program_counter as u64 == m.pc, out == Out::DoneLoose));
            check("no-trap-flag", c.flags.trap == m.trap);
            return;
        }
        Out::Reth => return,
        Out::Trap(t) => (t, t != T_INVALID && t != T_ZERODIV),
        Out::Illegal if op == 0x0d => return,
        Out::Illegal => (T_ILLEGAL, false),
        Out::AnyTrap => (256, false),
    };
    check("handled", res.is_ok());
    check("at-handler", c.program_counter as u64 == m0.g[RH]);
    check("supervisor", and(!c.flags.user_mode, c.flags.trap));
    check("addressing-kept", !c.flags.virtual_mode);
    if t < 256 {
        check("code", reg(&c, 1) == t);
    }
    let s1 = c.stack as u64;
    let d = w16(m0.g[RS].wrapping_sub(s1));
    trace(d);
    check("stack-down", and(d >= 32, d < 128));
    let mut ok = true;
    for k in 2..16 {
        if k != RS {
            ok = and(ok, reg(&c, k) == m0.g[k]);
        }
    }
    check("others-kept", ok);
    let x = any_u16() as u64;
    let inside = w16(x.wrapping_sub(s1)) < d;
    check("memory-below-only", or(inside, mem.arr.get(x as u32) == before.get(x as u32)));
    let hi = int(24) as u32;
    check("memory-elsewhere", implies(hi >= 0x10000, mem.arr.get(hi) == before.get(hi)));
    cover("delivered");
    // the handler runs, then returns
    assume(mem.arr.get(m0.g[RH] as u32) == 0x0d);
    handler_body(&mut c);
    c.page = any_u16();
    c.trap_handler = any_u16();
    c.program_counter = m0.g[RH] as u16;
    let r = c.execute_instruction(&mut mem);
    check("returns", r.is_ok());
    restored(&c, &m0, if exact { 1 } else { 4 });
    cover("returned");
    trace_cpu(&c);
}
/// The same in virtual mode, including faults while fetching, with the stack
/// at a few places (including across pages and the end of the address space).
pub fn vdeliver(user: u64) {
    let s = [0x4100u64, 0x2010, 0x0007, 0xffff][choice(4) as usize];
    let (mut c, mut m) = any_cpu(Some(true), Some(user != 0));
    c.page = RP0 as u16;
    m.g[RP] = RP0;
    c.stack = s as u16;
    m.g[RS] = s;
    assume(m.g[RH] != 0);
    let mut mem = PtMem { p: Pt::new(), stray: false };
    // the stack is mapped, writable and readable in supervisor mode
    for v in [s >> 7, w16(s.wrapping_sub(64)) >> 7] {
        let f = mem.p.f2.get(v as u32) & 0x07;
        assume(f == 7);
        let f = mem.p.f1.get((v >> 5) as u32) & 0x07;
        assume(f == 7);
    }
    let mut vm = VMem { p: mem.p.snapshot(), user: m.user, code: OK };
    let b0 = vm.fetch(m.pc);
    let how = choice(3);
    match how {
        0 => assume(vm.code != OK),
        1 => assume(and(vm.code == OK, b0 == 0x0c)),
        _ => assume(and(vm.code == OK, b0 == 0x01)),
    }
    let t = match how {
        0 => vm.code,
        1 => T_SYSCALL,
        _ => T_INVALID,
    };
    let r = c.execute_instruction(&mut mem);
    check("handled", r.is_ok());
    check("at-handler", c.program_counter as u64 == m.g[RH]);
    check("supervisor", and(!c.flags.user_mode, c.flags.trap));
    check("addressing-kept", c.flags.virtual_mode);
    check("code", reg(&c, 1) == t);
    cover(["fetch", "syscall", "invalid"][how as usize]);
    handler_body(&mut c);
    // enter the return instruction at the handler's first byte
    let mut hv = VMem { p: mem.p.snapshot(), user: false, code: OK };
    let hb = hv.fetch(m.g[RH]);
    assume(and(hv.code == OK, hb == 0x0d));
    let r = c.execute_instruction(&mut mem);
    check("returns", r.is_ok());
    restored(&c, &m, 4);
    cover("returned");
    check("nothing-outside-the-mapping", !mem.stray);
    trace_cpu(&c);
}

// ------------------------------------------------------------- C07
/// Memory that returns anything on every read (as I/O may).
pub struct HavocMem {
    pub last: u32,
}
impl MainMemory for HavocMem {
    fn read(&mut self, addr: u32) -> u8 {
        self.last = addr;
        any_u8()
    }
    fn write(&mut self, addr: u32, _byte: u8) {
        self.last = addr;
    }
}
/// One instruction from any state whatsoever only completes or reports a trap.
pub fn total(vm: u64) {
    let (mut c, _m) = any_cpu(Some(vm != 0), None);
    let before = c.clone();
    let mut mem = HavocMem { last: 0 };
    let r = c.execute_instruction(&mut mem);
    match r {
        Ok(()) => {
            cover("completes-or-handled");
            check("alive", true);
        }
        Err(t) => {
            let t = t as u8;
            let mut known = false;
            for k in [0u8, 5, 8, 0xa, 0xe, 0xf, 0x10, 0x11, 0x12, 0x13, 0x1f] {
                known = or(known, t == k);
            }
            check("known-trap", known);
            cover("reported");
            if before.trap_handler == 0 {
                check("reported-in-supervisor", and(!c.flags.user_mode, c.flags.trap));
            }
        }
    }
}

pub fn trap_code(t: TrapMode) -> u64 {
    t as u8 as u64
}
