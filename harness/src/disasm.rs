//! The disassembler.
use crate::asm::{emit, parse, FORMS};
use crate::cpu::*;
use crate::spec;
use crate::sym::*;
use telda2::aalv::obj::SegmentType;
use telda2::blf4::{Blf4, Blf4Flags};
use telda2::disassemble::disassemble_instruction;
use telda2::machine::Machine;
use telda2::mem::MainMemory;

struct Mem {
    arr: Arr,
    writes: u32,
}
impl MainMemory for Mem {
    fn read(&mut self, addr: u32) -> u8 {
        self.arr.get(addr)
    }
    fn write(&mut self, addr: u32, byte: u8) {
        self.writes += 1;
        self.arr.set(addr, byte)
    }
}
fn hexval(c: u8) -> u8 {
    ite(c <= b'9', c.wrapping_sub(b'0') as u64, c.wrapping_sub(b'a' - 10) as u64) as u8
}
/// The addresses, bytes and text of a line of disassembly.
fn split(s: &[u8]) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
    let colon = s.iter().position(|&c| c == b':').unwrap_or(s.len());
    let addr: Vec<u8> = s[..colon].iter().copied().filter(|&c| c != b' ').collect();
    let mut bytes = Vec::with_capacity(8);
    let mut i = (colon + 1).min(s.len());
    loop {
        let mut k = i;
        while k < s.len() && s[k] == b' ' {
            k += 1;
        }
        // two hexadecimal digits alone
        let two = k + 2 <= s.len() && (k + 2 == s.len() || s[k + 2] == b' ');
        let hex = |c: u8| or(and(c >= b'0', c <= b'9'), and(c >= b'a', c <= b'f'));
        if two && and(hex(s[k]), hex(s[k + 1])) {
            bytes.push(hexval(s[k]) << 4 | hexval(s[k + 1]));
            i = k + 2;
        } else {
            return (addr, bytes, s[k..].to_vec());
        }
    }
}
/// One instruction with well-formed operands: opcodes from..to. `label`: wide
/// operands are looked up.
pub fn one(from: u64, to: u64, label: u64) {
    let op = from + choice(to - from);
    let forms: Vec<_> = FORMS.iter().filter(|f| f.2 as u64 == op).collect();
    if forms.is_empty() {
        end();
    }
    let kinds = forms[0].1;
    let pc = any_u16();
    let n = spec::length(op).max(1) as usize;
    assume(and(pc >= 0x80, pc <= (0xffff - n + 1) as u16));
    let mut b = [op as u8, 0, 0, 0];
    let regs = kinds.bytes().filter(|&k| k == b'b' || k == b'w').count();
    let wide = kinds.contains('n') || op == 0x40;
    // register nibbles: two at a time are arbitrary
    let mut nib = [0u8; 4];
    let pair = if regs > 2 { choice(if regs == 3 { 3 } else { 6 }) as usize } else { 0 };
    let (mut p, mut q) = [(0, 1), (0, 2), (1, 2), (0, 3), (1, 3), (2, 3)][pair];
    if wide && regs == 2 {
        // one at a time
        p = choice(2) as usize;
        q = p;
    }
    for i in 0..regs {
        nib[i] = if i == p || i == q { int(4) as u8 } else { [5, 11][pair & 1] };
    }
    let mut k = 1;
    if op == 0x40 {
        let jump = choice(2) as u8;
        b[1] = (int(4) as u8) << 4 | jump;
        k = 2;
    } else {
        for c in 0..(regs + 1) / 2 {
            b[k] = nib[2 * c] << 4 | nib[2 * c + 1];
            k += 1;
        }
    }
    while k < n {
        b[k] = any_u8();
        k += 1;
    }
    let imm = if wide { (b[n - 2] as u16) | (b[n - 1] as u16) << 8 } else { 0 };
    let mut jump_reg = false;
    if op == 0x40 && b[1] & 1 == 1 {
        if b[1] >> 4 != 0 {
            // a jump through a register has no immediate
            assume(imm == 0);
            jump_reg = true;
        }
    }
    let (cpu, before) = any_cpu(Some(false), None);
    let mut m = Machine::new(Mem { arr: Arr::new(), writes: 0 }, cpu);
    m.cpu.program_counter = pc;
    let mut before = before;
    before.pc = pc as u64;
    for i in 0..n {
        m.memory.arr.set(pc as u32 + i as u32, b[i]);
    }
    let snap = m.memory.arr.snapshot();
    let asked = std::cell::Cell::new(None);
    let r = disassemble_instruction(&mut m, |w| {
        asked.set(Some(w));
        if label != 0 { Some("far") } else { None }
    });
    let d = match r {
        Ok(d) => d,
        Err(_) => {
            check("disassembles", false);
            return;
        }
    };
    check("state-unchanged", and(same_regs(&m.cpu, &before), and(same_arith(&m.cpu, &before), same_mode(&m.cpu, &before))));
    check("program-counter-unchanged", m.cpu.program_counter == pc);
    check("memory-unchanged", m.memory.writes == 0 && same_mem(m.memory.arr, snap));
    check("length", d.next_instruction_location == pc.wrapping_add(n as u16));
    let ends = op == 0 || op == 0x0a || op == 0x0d || op == 0x26 || op == 0x40 && b[1] & 1 == 1;
    check("block-end", d.ends_block == ends);
    check("nesting", d.nesting_difference == if op == 0x25 { 1 } else if op == 0x26 { -1 } else { 0 });
    let (addr, bytes, text) = split(d.annotated_source.as_bytes());
    let mut a = 0u16;
    for &c in &addr {
        a = a << 4 | hexval(c) as u16;
    }
    check("address", and(addr.len() <= 4, a == pc));
    check("bytes", same(&bytes, &b[..n]));
    if wide && !jump_reg {
        check("operand-looked-up", asked.get() == Some(imm));
        if label != 0 {
            check("label-shown", text.windows(3).any(|w| w == b"far"));
        }
    }
    // back through the assembler
    let mut src: Vec<u8> = Vec::with_capacity(64);
    src.extend_from_slice(b".ref far\n.seg text\n");
    src.extend_from_slice(&text);
    src.push(b'\n');
    match parse(&src) {
        Ok(p) => {
            let e = emit(&p, SegmentType::Text);
            let k = if label != 0 && wide && !jump_reg { n - 2 } else { n };
            check("reassembled-length", e.len() == n);
            check("reassembled", same(&e[..k.min(e.len())], &b[..k]));
            cover("reassembled");
            std::mem::forget(p);
        }
        Err(()) => check("assembles", false),
    }
    std::mem::forget((d, m));
}
/// Any bytes at any address, also in virtual mode and across the end of the
/// address space: an answer, and nothing changes.
pub fn any(vm: u64, all: u64) {
    let mut c = Blf4::new();
    c.flags = Blf4Flags::default();
    c.flags.virtual_mode = vm != 0;
    c.flags.user_mode = vm != 0 && choice(2) == 1;
    c.flags.carry = any_bool();
    c.flags.zero = any_bool();
    for k in 1..=5 {
        let _ = c.write_wr(wr(k), any_u16());
    }
    c.stack = any_u16();
    let mut m = Machine::new(Mem { arr: Arr::new(), writes: 0 }, c);
    let pc;
    if vm != 0 {
        // three pages, one of them the last and one the first
        pc = [0xff80u16, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x7c, 0x7f, 0xfd][choice(8) as usize];
        m.cpu.page = 0x8000;
        let f = |m: &mut Machine<Mem, Blf4>, e: u32, to: u32, fl: u8| {
            for (i, x) in [fl, (to & 0xff) as u8, (to >> 8) as u8, (to >> 16) as u8].into_iter().enumerate() {
                m.memory.arr.set(e + i as u32, x);
            }
        };
        f(&mut m, 0x8000, 0x9000, 0x2b);
        f(&mut m, 0x803c, 0x9080, 0x2b);
        m.memory.arr.set(0x9008, 0);
        for (e, to, page) in [(0x9000u32, 0xa000u32, 0u16), (0x9004, 0xa080, 0x80), (0x90fc, 0xa100, 0xff80)] {
            // the page it starts in and the next one
            let here = pc & 0xff80;
            if page != here && page != here.wrapping_add(0x80) {
                continue;
            }
            let fl = [0x2bu8, 0, 0x23, 0x0b][choice(4) as usize];
            f(&mut m, e, to, fl);
        }
    } else {
        pc = any_u16();
        assume(and(pc >= 0x80, pc <= 0xfffc));
    }
    m.cpu.program_counter = pc;
    let op = if all != 0 { choice(256) as u8 } else { SOME[choice(SOME.len() as u64) as usize] };
    let fill = [0u8, 0x37, 0xff][choice(3) as usize];
    for i in 0..4u16 {
        let v = pc.wrapping_add(i);
        let p = match (vm, v >> 7) {
            (0, _) => v as u32,
            (_, 0) => 0xa000 + v as u32,
            (_, 1) => 0xa080 + (v & 0x7f) as u32,
            (_, 0x1ff) => 0xa100 + (v & 0x7f) as u32,
            _ => continue,
        };
        m.memory.arr.set(p, if i == 0 { op } else { fill });
    }
    let snap = m.memory.arr.snapshot();
    let regs: Vec<u64> = (0..16).map(|k| reg(&m.cpu, k)).collect();
    let fl = u16::from(m.cpu.flags);
    let r = disassemble_instruction(&mut m, |_| None);
    check("program-counter-unchanged", m.cpu.program_counter == pc);
    let mut eq = u16::from(m.cpu.flags) == fl;
    for k in 0..16 {
        eq = and(eq, reg(&m.cpu, k) == regs[k]);
    }
    check("state-unchanged", eq);
    check("memory-unchanged", m.memory.writes == 0 && same_mem(m.memory.arr, snap));
    match r {
        Ok(d) => {
            let n = d.next_instruction_location.wrapping_sub(pc);
            check("length", and(n >= 1, n <= 4));
            let (_, bytes, _) = split(d.annotated_source.as_bytes());
            check("byte-count", bytes.len() == n as usize);
            for (i, b) in bytes.iter().enumerate() {
                check("bytes", *b == if i == 0 { op } else { fill });
            }
            let known = FORMS.iter().any(|f| f.2 == op);
            if known {
                check("documented-length", n as u64 == if op == 0 { 1 } else { spec::length(op as u64) });
            }
            cover("shown");
            std::mem::forget(d);
        }
        Err(_) => cover("fault"),
    }
    std::mem::forget(m);
}
const SOME: [u8; 20] = [0, 6, 0x0a, 0x0d, 0x20, 0x21, 0x22, 0x25, 0x26, 0x27, 0x29, 0x2b, 0x2d, 0x2f, 0x3f, 0x40, 0x41, 0x51, 0x60, 0xff];
