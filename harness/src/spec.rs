//! Reference model of the documented machine, written without branches on
//! machine values (selections are single expressions).
use crate::sym::*;

#[derive(Clone)]
pub struct Mach {
    /// r0..r10, rs, rl, rf, rp, rh
    pub g: [u64; 16],
    pub pc: u64,
    pub user: bool,
    pub trap: bool,
    pub vm: bool,
    pub res: bool,
    pub z: bool,
    pub s: bool,
    pub o: bool,
    pub c: bool,
}

pub const RS: usize = 11;
pub const RL: usize = 12;
pub const RP: usize = 14;
pub const RH: usize = 15;

pub const T_INVALID: u64 = 0;
pub const T_SYSCALL: u64 = 5;
pub const T_ZERODIV: u64 = 8;
pub const T_HALT: u64 = 0xa;
pub const T_ILLEGAL: u64 = 0x10;
pub const T_RETH: u64 = 0x1f;

pub fn w16(x: u64) -> u64 {
    x & 0xffff
}

impl Mach {
    pub fn rd_w(&self, n: u64) -> u64 {
        let mut v = 0;
        for k in 1..16 {
            v = ite(n == k as u64, self.g[k], v);
        }
        v
    }
    pub fn wr_w(&mut self, n: u64, x: u64) {
        for k in 1..16 {
            self.g[k] = ite(n == k as u64, x, self.g[k]);
        }
    }
    pub fn rd_b(&self, n: u64) -> u64 {
        let mut v = 0;
        for k in 1..=5usize {
            v = ite(n == 2 * k as u64 - 1, self.g[k] & 0xff, v);
            v = ite(n == 2 * k as u64, self.g[k] >> 8, v);
            v = ite(n == k as u64 + 10, self.g[k + 5] & 0xff, v);
        }
        v
    }
    pub fn wr_b(&mut self, n: u64, x: u64) {
        for k in 1..=5usize {
            let g = self.g[k];
            let g = ite(n == 2 * k as u64 - 1, (g & 0xff00) | x, g);
            let g = ite(n == 2 * k as u64, (g & 0xff) | (x << 8), g);
            self.g[k] = g;
            self.g[k + 5] = ite(n == k as u64 + 10, x, self.g[k + 5]);
        }
    }
    /// rflags as pushed by trap delivery
    pub fn flag_word(&self) -> u64 {
        (self.z as u64) << 7
            | (self.o as u64) << 6
            | (self.s as u64) << 5
            | (self.c as u64) << 4
            | (self.vm as u64) << 3
            | (self.res as u64) << 2
            | (self.trap as u64) << 1
            | self.user as u64
    }
}

/// Memory as the instruction sees it, for the model.
pub trait SpecMem {
    fn rd(&mut self, a: u64) -> u64;
    fn wr(&mut self, a: u64, v: u64);
}

#[derive(Clone, Copy, PartialEq)]
pub enum Out {
    /// completes; the model's state is the expected one
    Done,
    /// completes, but result and flags of the destination are not specified (huge shift)
    DoneLoose,
    /// raises this trap, nothing changed (Invalid, ZeroDiv, Halt, SysCall)
    Trap(u64),
    /// raises the illegal-operation trap, memory unchanged
    Illegal,
    /// one of several traps (several causes at once), memory unchanged
    AnyTrap,
    /// reth inside a trap: pops everything
    Reth,
}

/// documented instruction length, 0 for opcodes not in the instruction set
pub fn length(op: u64) -> u64 {
    match op {
        0x0a | 0x0b | 0x0c | 0x0d | 0x10 | 0x11 | 0x12 | 0x20 => 1,
        0x13 | 0x14 => 3,
        0x21..=0x24 => 2,
        0x25 => 3,
        0x26 => 2,
        0x27 | 0x28 | 0x2b | 0x2c => 4,
        0x29 | 0x2a | 0x2d | 0x2e => 3,
        0x2f..=0x3a => 3,
        0x3f => 3,
        0x40 => 4,
        0x41..=0x54 => 3,
        _ => 0,
    }
}

/// Executes the documented instruction `op` with operand bytes b on `m`
/// (m.pc still at the opcode).
pub fn exec<M: SpecMem>(m: &mut Mach, mem: &mut M, op: u64, b: [u64; 3]) -> Out {
    let len = length(op);
    if len == 0 {
        return Out::Trap(T_INVALID);
    }
    let n = [b[0] >> 4, b[0] & 15, b[1] >> 4, b[1] & 15];
    let user = m.user;
    let privileged = |k: u64| and(user, or(k == 14, k == 15));
    let imm12 = b[1] | b[2] << 8; // after one register byte
    let imm01 = b[0] | b[1] << 8; // no register byte
    let next = w16(m.pc + len);
    match op {
        0x0a => return Out::Trap(T_HALT),
        0x0c => return Out::Trap(T_SYSCALL),
        0x0b => m.trap = false,
        0x0d => {
            if m.trap {
                if user {
                    return Out::Illegal;
                }
                return Out::Reth;
            }
            return Out::Trap(T_RETH);
        }
        0x10 | 0x11 | 0x12 => {
            if user {
                return Out::Illegal;
            }
            match op {
                0x10 => m.user = true,
                0x11 => m.vm = true,
                _ => m.vm = false,
            }
        }
        0x13 => {
            if user {
                return Out::Illegal;
            }
            if n[3] != 0 {
                return Out::Trap(T_INVALID);
            }
            let a = m.rd_b(n[0]) << 16 | m.rd_w(n[1]);
            let v = m.rd_b(n[2]);
            mem.wr(a, v);
        }
        0x14 => {
            if user {
                return Out::Illegal;
            }
            if n[3] != 0 {
                return Out::Trap(T_INVALID);
            }
            let a = m.rd_b(n[1]) << 16 | m.rd_w(n[2]);
            let v = mem.rd(a);
            m.wr_b(n[0], v);
        }
        0x20 => (),
        0x21 | 0x22 => {
            if op == 0x22 && privileged(n[0]) {
                return if n[1] != 0 { Out::AnyTrap } else { Out::Illegal };
            }
            if n[1] != 0 {
                return Out::Trap(T_INVALID);
            }
            if op == 0x21 {
                let v = m.rd_b(n[0]);
                m.g[RS] = w16(m.g[RS].wrapping_sub(1));
                mem.wr(m.g[RS], v);
            } else {
                let v = m.rd_w(n[0]);
                m.g[RS] = w16(m.g[RS].wrapping_sub(2));
                mem.wr(m.g[RS], v & 0xff);
                mem.wr(w16(m.g[RS] + 1), v >> 8);
            }
        }
        0x23 | 0x24 => {
            if n[1] != 0 {
                return if op == 0x24 && privileged(n[0]) { Out::AnyTrap } else { Out::Trap(T_INVALID) };
            }
            if op == 0x24 && privileged(n[0]) {
                return Out::Illegal;
            }
            if op == 0x23 {
                let v = mem.rd(m.g[RS]);
                m.g[RS] = w16(m.g[RS] + 1);
                m.wr_b(n[0], v);
            } else {
                let v = mem.rd(m.g[RS]) | mem.rd(w16(m.g[RS] + 1)) << 8;
                m.g[RS] = w16(m.g[RS] + 2);
                m.wr_w(n[0], v);
            }
        }
        0x25 => {
            m.g[RL] = next;
            m.pc = imm01;
            return Out::Done;
        }
        0x26 => {
            m.g[RS] = w16(m.g[RS] + b[0]);
            m.pc = m.g[RL];
            return Out::Done;
        }
        0x27..=0x2a => {
            let byte = op & 1 == 1;
            let imm = op <= 0x28;
            let (src, reserved) = if imm { (n[1], 0) } else { (n[2], n[3]) };
            let priv_ = or(privileged(n[0]), or(and(!imm, privileged(n[1])), and(!byte, privileged(src))));
            if priv_ {
                return if reserved != 0 { Out::AnyTrap } else { Out::Illegal };
            }
            if reserved != 0 {
                return Out::Trap(T_INVALID);
            }
            let off = if imm { imm12 } else { m.rd_w(n[1]) };
            let a = w16(m.rd_w(n[0]) + off);
            if byte {
                let v = m.rd_b(src);
                mem.wr(a, v);
            } else {
                let v = m.rd_w(src);
                mem.wr(a, v & 0xff);
                mem.wr(w16(a + 1), v >> 8);
            }
        }
        0x2b..=0x2e => {
            let byte = op & 1 == 1;
            let imm = op <= 0x2c;
            let reserved = if imm { 0 } else { n[3] };
            let priv_ = or(privileged(n[1]), or(and(!imm, privileged(n[2])), and(!byte, privileged(n[0]))));
            if priv_ {
                return if reserved != 0 { Out::AnyTrap } else { Out::Illegal };
            }
            if reserved != 0 {
                return Out::Trap(T_INVALID);
            }
            let off = if imm { imm12 } else { m.rd_w(n[2]) };
            let a = w16(m.rd_w(n[1]) + off);
            if byte {
                let v = mem.rd(a);
                m.wr_b(n[0], v);
            } else {
                let v = mem.rd(a) | mem.rd(w16(a + 1)) << 8;
                m.wr_w(n[0], v);
            }
        }
        0x2f..=0x3a => {
            let lt = m.s != m.o;
            let cond = match op {
                0x2f => m.z,
                0x30 => lt,
                0x31 => and(lt, m.z),
                0x32 => and(!lt, !m.z),
                0x33 => !lt,
                0x34 => !m.z,
                0x35 => m.o,
                0x36 => !m.o,
                0x37 => and(!m.c, !m.z),
                0x38 => !m.c,
                0x39 => m.c,
                _ => or(m.c, m.z),
            };
            m.pc = ite(cond, imm01, next);
            return Out::Done;
        }
        0x3f => {
            if n[1] != 0 {
                return Out::Trap(T_INVALID);
            }
            m.wr_b(n[0], b[1]);
        }
        0x40 => {
            if or(n[1] == 0, n[1] == 1) {
                if privileged(n[0]) {
                    return Out::Illegal;
                }
                if n[1] == 0 {
                    m.wr_w(n[0], imm12);
                } else {
                    m.pc = ite(n[0] == 0, imm12, m.rd_w(n[0]));
                    return Out::Done;
                }
            } else {
                return if privileged(n[0]) { Out::AnyTrap } else { Out::Trap(T_INVALID) };
            }
        }
        0x41..=0x50 => {
            let byte = op & 1 == 1;
            if !byte && or(privileged(n[0]), or(privileged(n[1]), privileged(n[2]))) {
                return if n[3] != 0 { Out::AnyTrap } else { Out::Illegal };
            }
            if n[3] != 0 {
                return Out::Trap(T_INVALID);
            }
            let (x, y) = if byte { (m.rd_b(n[1]), m.rd_b(n[2])) } else { (m.rd_w(n[1]), m.rd_w(n[2])) };
            let (bits, mask) = if byte { (8u64, 0xffu64) } else { (16, 0xffff) };
            let sx = x >> (bits - 1) & 1;
            let sy = y >> (bits - 1) & 1;
            let mut loose = false;
            let (r, c, o) = match (op - 0x41) / 2 {
                0 => {
                    let r = x + y;
                    (r & mask, r > mask, and(sx == sy, (r >> (bits - 1)) & 1 != sx))
                }
                1 => {
                    let r = x.wrapping_sub(y) & mask;
                    (r, x < y, and(sx != sy, (r >> (bits - 1)) & 1 != sx))
                }
                2 => (x & y, false, false),
                3 => (x | y, false, false),
                4 => (x ^ y, false, false),
                k => {
                    if y >= bits {
                        loose = true;
                        (0, false, false)
                    } else {
                        let mut r = 0;
                        for t in 0..bits {
                            let v = match k {
                                5 => (x << t) & mask,
                                6 => ((x | ite(sx != 0, !mask, 0)) >> t) & mask,
                                _ => x >> t,
                            };
                            r = ite(y == t, v, r);
                        }
                        (r, false, false)
                    }
                }
            };
            if loose {
                m.pc = next;
                return Out::DoneLoose;
            }
            m.c = c;
            m.o = o;
            m.z = r == 0;
            m.s = (r >> (bits - 1)) & 1 != 0;
            if byte {
                m.wr_b(n[0], r);
            } else {
                m.wr_w(n[0], r);
            }
        }
        _ => {
            // 51..54
            let byte = op & 1 == 1;
            if !byte && or(or(privileged(n[0]), privileged(n[1])), or(privileged(n[2]), privileged(n[3]))) {
                // division by zero may be noticed first
                return Out::AnyTrap;
            }
            let div = op <= 0x52;
            let (hi, lo);
            if byte {
                let (x, y) = (m.rd_b(n[2]) as u8, m.rd_b(n[3]) as u8);
                if div {
                    if y == 0 {
                        return Out::Trap(T_ZERODIV);
                    }
                    hi = (x / y) as u64;
                    lo = (x % y) as u64;
                } else {
                    let r = x as u16 * y as u16;
                    hi = (r >> 8) as u64;
                    lo = (r & 0xff) as u64;
                }
            } else {
                let (x, y) = (m.rd_w(n[2]) as u16, m.rd_w(n[3]) as u16);
                if div {
                    if y == 0 {
                        return Out::Trap(T_ZERODIV);
                    }
                    hi = (x / y) as u64;
                    lo = (x % y) as u64;
                } else {
                    let r = x as u32 * y as u32;
                    hi = (r >> 16) as u64;
                    lo = (r & 0xffff) as u64;
                }
            }
            if !div {
                m.c = hi != 0;
                m.o = hi != 0;
                m.z = lo == 0;
                m.s = lo >> (if byte { 7 } else { 15 }) != 0;
            }
            if byte {
                m.wr_b(n[0], hi);
                m.wr_b(n[1], lo);
            } else {
                m.wr_w(n[0], hi);
                m.wr_w(n[1], lo);
            }
        }
    }
    m.pc = next;
    Out::Done
}
