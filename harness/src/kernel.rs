//! Physical memory, page allocator, program loader and emulated kernel.
use crate::cpu::*;
use crate::spec::{self, *};
use crate::sym::*;
use telda2::aalv::obj::{Entry, Flags, HeapSize, Object, SegmentType, StackSize};
use telda2::blf4::std_kernel::EKernel;
use telda2::blf4::{Blf4, TrapMode};
use telda2::machine::{Cpu, Machine};
use telda2::mem::{Io, LazyMain, MainMemory, HALF_CELL, ROM_SIZE};

/// Device that records what it is asked and answers with arbitrary bytes.
pub struct RecIo {
    pub log: Vec<(bool, u8, u8)>,
}
impl RecIo {
    pub fn new() -> Self {
        RecIo { log: Vec::with_capacity(16) }
    }
}
impl Io for RecIo {
    fn read(&mut self, addr: u8) -> u8 {
        let v = any_u8();
        self.log.push((false, addr, v));
        v
    }
    fn write(&mut self, addr: u8, val: u8) {
        self.log.push((true, addr, val));
    }
}
#[derive(Clone)]
struct Shared(std::rc::Rc<std::cell::RefCell<RecIo>>);
impl Io for Shared {
    fn read(&mut self, addr: u8) -> u8 {
        self.0.borrow_mut().read(addr)
    }
    fn write(&mut self, addr: u8, val: u8) {
        self.0.borrow_mut().write(addr, val)
    }
}

// ------------------------------------------------------------- C11
/// `n` writes anywhere, then a read anywhere.
pub fn physmem(n: u64) {
    let rom = choice(4);
    let len = [0, 1, ROM_SIZE - 1, ROM_SIZE][choice(4) as usize];
    let mut image = vec![0x55u8; len];
    let marks = [0usize, 1, 77, 0x4000, ROM_SIZE - 2, ROM_SIZE - 1];
    for &k in &marks {
        if k < len {
            image[k] = any_u8();
        }
    }
    let dev = Shared(std::rc::Rc::new(std::cell::RefCell::new(RecIo::new())));
    let mut mem = std::mem::ManuallyDrop::new(LazyMain::new(dev.clone()));
    let has_rom = rom != 0;
    if has_rom {
        if rom > 1 {
            end();
        }
        mem = std::mem::ManuallyDrop::new(std::mem::ManuallyDrop::into_inner(mem).with_rom(&image));
    } else if len != 0 {
        end();
    }
    let mut ws: Vec<(u32, u8)> = Vec::with_capacity(8);
    let mut io = 0usize;
    for _ in 0..n {
        let a = (int(24)) as u32;
        let v = any_u8();
        mem.write(a, v);
        if a < 128 {
            io += 1;
            let d = dev.0.borrow();
            check("device-write", d.log.len() == io && d.log[io - 1].0);
            check("device-write-exact", and(d.log[io - 1].1 as u32 == a, d.log[io - 1].2 == v));
            cover("device-write");
        } else {
            check("no-stray-device-access", dev.0.borrow().log.len() == io);
        }
        ws.push((a, v));
    }
    let a = int(24) as u32;
    let v = mem.read(a);
    trace(v as u64);
    if a < 128 {
        let d = dev.0.borrow();
        check("device-read", d.log.len() == io + 1 && !d.log[io].0);
        check("device-read-exact", and(d.log[io].1 as u32 == a, d.log[io].2 == v));
        cover("device-read");
        return;
    }
    check("no-stray-device-access", dev.0.borrow().log.len() == io);
    if a < HALF_CELL as u32 {
        let mut e = ite(and(has_rom, a - 128 < len as u32), 0x55, 0);
        if has_rom {
            for &k in &marks {
                if k < len {
                    e = ite(a - 128 == k as u32, image[k] as u64, e);
                }
            }
        }
        check("rom", v as u64 == e);
        cover("rom");
    } else {
        let mut e = 0;
        for &(w, x) in &ws {
            e = ite(w == a, x as u64, e);
        }
        check("ram", v as u64 == e);
        cover("ram");
    }
}

// ------------------------------------------------------------- C28
/// Every sequence of `n` allocations and frees.
pub fn pages(n: u64) {
    let mut mem = SymMem::new();
    // memory starts out as zeros, as LazyMain's does
    let mut zeroed: Vec<u32> = vec![];
    let mut k = EKernel::new();
    let mut held: Vec<(u32, u8, u32)> = vec![];
    for _ in 0..n {
        if choice(2) == 0 {
            let p = k.allocate_page(&mut mem);
            trace(p as u64);
            check("aligned", p & 127 == 0);
            check("ram", p >= HALF_CELL as u32 && p <= (1 << 24) - 128);
            for h in &held {
                check("not-in-use", p != h.0);
            }
            if zeroed.contains(&p) {
                let o = int(7) as u32;
                check("zero-filled", mem.read(p + o) == 0);
                cover("reused");
            }
            // the owner fills the page
            let base = mem.arr;
            let fill = Arr::new();
            for i in 0..128 {
                base.set(p + i, fill.get(i));
            }
            let o = int(7) as u32;
            held.push((p, fill.get(o), o));
        } else {
            if held.is_empty() {
                end();
            }
            let i = choice(held.len() as u64) as usize;
            let (p, _, _) = held.remove(i);
            k.free_page(p, &mut mem);
            zeroed.push(p);
        }
        for h in &held {
            check("pages-in-use-untouched", mem.arr.get(h.0 + h.2) == h.1);
        }
    }
}

// ------------------------------------------------------------- C12
/// The real memory with a recording device.
type Real = LazyMain<Shared>;
fn machine() -> (Machine<Real, Blf4>, Shared) {
    let dev = Shared(std::rc::Rc::new(std::cell::RefCell::new(RecIo::new())));
    (Machine::new(LazyMain::new(dev.clone()), Blf4::new()), dev)
}
#[derive(Clone)]
struct Page {
    perm: u8,
    bytes: Vec<Option<u8>>,
}
/// Loads an object with the given segments and compares the whole address space.
fn load_and_compare(obj: &Object, heap: Option<(u16, u16)>) {
    let (mut m, dev) = machine();
    m.load_user_binary(obj);
    check("user-mode", and(m.cpu.flags.user_mode, m.cpu.flags.virtual_mode));
    check("stack-top", m.cpu.stack == 0xffff);
    if let Some(e) = &obj.entry {
        check("entry", m.cpu.program_counter == e.1);
    }
    check("no-device-access", dev.0.borrow().log.is_empty());
    // expected pages
    let mut pages: Vec<Option<Page>> = vec![None; 512];
    fn page(pages: &mut Vec<Option<Page>>, p: usize, perm: u8) -> &mut Page {
        if pages[p].is_none() {
            pages[p] = Some(Page { perm: 0, bytes: vec![None; 128] });
        }
        let q = pages[p].as_mut().unwrap();
        q.perm |= perm;
        q
    }
    let readable_text = obj.flags.as_ref().is_some_and(|f| f.readable_text);
    for (ty, (off, bytes)) in &obj.segs {
        let perm = match ty {
            SegmentType::Text => 8 | if readable_text { 2 } else { 0 },
            SegmentType::RoData => 2,
            SegmentType::Data | SegmentType::Heap => 6,
            _ => 14,
        };
        for (i, &b) in bytes.iter().enumerate() {
            let a = *off as usize + i;
            page(&mut pages, a / 128, perm).bytes[a % 128] = Some(b);
        }
    }
    if let Some((from, to)) = heap {
        let mut a = from as usize;
        while a < to as usize {
            page(&mut pages, a / 128, 6);
            a += 1;
        }
    }
    let stack = obj.stack_size.as_ref().map(|s| s.0).unwrap_or(StackSize::default().0) as usize;
    let mut a = 0x10000 - stack;
    while a < 0x10000 {
        page(&mut pages, a / 128, 6);
        a += 1;
    }
    let cpu = m.cpu.clone();
    for p in 0..512usize {
        let base = (p * 128) as u16;
        match &pages[p] {
            None => {
                for o in [0u16, 127] {
                    let mut c = cpu.clone();
                    let mut cx = c.context(&mut m.memory);
                    check("unmapped-read", cx.read(base + o).is_err());
                    check("unmapped-write", cx.write(base + o, 1).is_err());
                    cx.cpu.program_counter = base + o;
                    check("unmapped-fetch", cx.fetch().is_err());
                }
            }
            Some(q) => {
                // any byte of the page
                let o = int(7) as u16;
                let mut expect = 0u64;
                for k in 0..128u16 {
                    if let Some(b) = q.bytes[k as usize] {
                        expect = ite(o == k, b as u64, expect);
                    }
                }
                {
                    let mut c = cpu.clone();
                    // contents, as the kernel sees them through the tables
                    let phys = phys_of(&mut m.memory, cpu.page, base) + o as u32;
                    check("mapped-to-ram", phys >= HALF_CELL as u32);
                    let x = m.memory.read(phys);
                    check("contents", x as u64 == expect);
                    let mut cx = c.context(&mut m.memory);
                    let r = cx.read(base + o);
                    check("read-permission", r.is_ok() == (q.perm & 2 != 0));
                    if let Ok(v) = r {
                        check("read-value", v == x);
                    }
                    cx.cpu.program_counter = base + o;
                    let r = cx.fetch();
                    check("execute-permission", r.is_ok() == (q.perm & 8 != 0));
                    if let Ok(v) = r {
                        check("fetch-value", v == x);
                    }
                    let r = cx.write(base + o, x);
                    check("write-permission", r.is_ok() == (q.perm & 4 != 0));
                }
            }
        }
    }
}
fn phys_of(m: &mut Real, table: u16, v: u16) -> u32 {
    let mut e = |a: u32| u32::from_le_bytes([m.read(a), m.read(a + 1), m.read(a + 2), m.read(a + 3)]);
    let e1 = e(table as u32 + ((v >> 12) as u32) * 4);
    check("level-1-present", e1 & 1 == 1);
    let e2 = e(((e1 >> 15) << 7) + ((v >> 7) & 31) as u32 * 4);
    check("level-2-present", e2 & 1 == 1);
    ((e2 >> 15) << 7) | (v & 127) as u32
}
fn any_bytes(n: usize) -> Vec<u8> {
    (0..n).map(|_| any_u8()).collect()
}
/// One segment of a type anywhere near a page or table boundary.
pub fn load_one(kind: u64) {
    let ty = [SegmentType::Text, SegmentType::Data, SegmentType::RoData, SegmentType::Heap, SegmentType::Zero, SegmentType::Unknown][kind as usize];
    let base = [0x80usize, 0x1000, 0x7f80][choice(3) as usize];
    let at = [0usize, 1, 60, 126, 127][choice(5) as usize];
    let n = [0usize, 1, 2, 127, 128, 129, 255, 257][choice(8) as usize];
    if n == 0 && at != 0 {
        end();
    }
    let off = base + at;
    let mut obj = Object::default();
    obj.segs.insert(ty, (off as u16, any_bytes(n)));
    obj.entry = Some(Entry(SegmentType::Text, any_u16()));
    obj.stack_size = Some(StackSize([0u16, 1, 128, 300][choice(4) as usize]));
    let mut heap = None;
    match ty {
        SegmentType::Text => {
            let f = choice(3);
            if f > 0 {
                obj.flags = Some(Flags { readable_text: f == 2 });
            }
        }
        SegmentType::Heap => {
            let h = [0u16, 1, 100, 128, 129, 400][choice(6) as usize];
            obj.heap_size = Some(HeapSize(h));
            if h as usize > n {
                heap = Some((off as u16, (off + h as usize) as u16));
            }
        }
        _ => (),
    }
    load_and_compare(&obj, heap);
}
/// Several segments sharing pages and page tables.
pub fn load_many() {
    let t = [0x80usize, 0xfe0][choice(2) as usize];
    let tn = [1usize, 20, 130][choice(3) as usize];
    let gap = [0usize, 1, 100][choice(3) as usize];
    let dn = [1usize, 40, 128][choice(3) as usize];
    let mut obj = Object::default();
    let d = t + tn + gap;
    let r = d + dn;
    let h = (r + 30 + 127) & !127;
    obj.segs.insert(SegmentType::Text, (t as u16, any_bytes(tn)));
    obj.segs.insert(SegmentType::Data, (d as u16, any_bytes(dn)));
    obj.segs.insert(SegmentType::RoData, (r as u16, any_bytes(30)));
    obj.flags = Some(Flags { readable_text: choice(2) == 1 });
    obj.entry = Some(Entry(SegmentType::Text, any_u16()));
    let hs = choice(2) == 1;
    if hs {
        obj.segs.insert(SegmentType::Heap, (h as u16, any_bytes(3)));
    }
    load_and_compare(&obj, hs.then_some((h as u16, (h + 0x400) as u16)));
}
/// A segment reaching the end of the address space, under the stack.
pub fn load_top() {
    let n = [1usize, 128, 130][choice(3) as usize];
    let mut obj = Object::default();
    obj.segs.insert(SegmentType::Data, ((0x10000 - n) as u16, any_bytes(n)));
    obj.stack_size = Some(StackSize([0, 1, 256][choice(3) as usize]));
    load_and_compare(&obj, None);
}

// ------------------------------------------------------------- C13
const KOPS: [u64; 18] = [0x0c, 0x0a, 0x0d, 0x00, 0xff, 0x0b, 0x10, 0x11, 0x13, 0x14, 0x20, 0x22, 0x40, 0x41, 0x42, 0x51, 0x52, 0x2c];
/// One instruction of a user program under the emulated kernel, optionally
/// after a system call that sets the error handler.
pub fn kernel() {
    let mut ma = Machine::new(SymMem::new(), Blf4::new());
    let mut empty = Object::default();
    empty.stack_size = Some(StackSize(0));
    ma.load_user_binary(&empty);
    let mut handler = 0u64;
    // what happened before: nothing, one or two calls setting the handler, a
    // handled trap or another system call in between
    let past = choice(5);
    let sets = [0, 1, 2, 1, 1][past as usize];
    for _ in 0..sets {
        let (c, mut m) = any_cpu(Some(false), Some(true));
        ma.cpu = c;
        ma.cpu.trap_handler = 0;
        m.g[RH] = 0;
        assume(m.g[1] == 15);
        assume(ma.memory.arr.get(m.pc as u32) == 0x0c);
        let before = ma.memory.arr.snapshot();
        let r = ma.execute_once();
        check("set-handler", r.is_ok());
        m.pc = w16(m.pc + 1);
        m.trap = false;
        check("set-handler-state", and(and(same_regs(&ma.cpu, &m), same_arith(&ma.cpu, &m)), and(same_mode(&ma.cpu, &m), ma.cpu.program_counter as u64 == m.pc)));
        check("set-handler-memory", same_mem(before, ma.memory.arr));
        handler = m.g[2];
        ma.memory.reads.clear();
    }
    if past > 2 {
        let (c, m) = any_cpu(Some(false), Some(true));
        ma.cpu = c;
        ma.cpu.trap_handler = 0;
        if past == 4 {
            assume(or(m.g[1] == 3, m.g[1] == 4));
        }
        assume(ma.memory.arr.get(m.pc as u32) == if past == 4 { 0x0c } else { 0 });
        let r = ma.execute_once();
        check("earlier-trap", r.is_ok() == if past == 4 { true } else { handler != 0 });
        ma.memory.reads.clear();
    }
    let ops: &[u64] = if past < 2 { &KOPS } else { &[0x0c, 0x0a, 0x00, 0x14] };
    let op = ops[choice(ops.len() as u64) as usize];
    let (c, mut m) = any_cpu(Some(false), Some(true));
    ma.cpu = c;
    ma.cpu.trap_handler = 0;
    m.g[RH] = 0;
    let pc = m.pc;
    let at = |k: u64| ma.memory.arr.get(w16(pc + k) as u32);
    assume(at(0) as u64 == op);
    let b = [at(1) as u64, at(2) as u64, at(3) as u64];
    let m0 = m.clone();
    let before = ma.memory.arr.snapshot();
    let mut sm = ModelMem(before.snapshot(), vec![]);
    let res = ma.execute_once();
    let out = spec::exec(&mut m, &mut sm, op, b);
    let code = match res {
        Ok(()) => 0xff,
        Err(t) => t as u8 as u64,
    };
    trace(code);
    trace_cpu(&ma.cpu);
    let all = |m: &Mach, c: &Blf4| and(and(same_regs(c, m), same_arith(c, m)), and(same_mode(c, m), c.program_counter as u64 == m.pc));
    match out {
        Out::Done => {
            check("done", code == 0xff);
            check("done-state", all(&m, &ma.cpu));
            check("done-memory", same_mem(sm.0, ma.memory.arr));
            cover("done");
        }
        Out::Trap(T_SYSCALL) => {
            let mut e = m0.clone();
            e.trap = false;
            e.user = true;
            e.pc = w16(pc + 1);
            let n = e.g[1];
            let exp = before.snapshot();
            if n == 3 {
                e.g[1] = (n & 0xff00) | before.get(1) as u64;
                cover("read");
            } else if n == 4 {
                exp.set(1, e.g[2] as u8);
                cover("write");
            } else if n != 15 && n != 0 {
                check("unknown-call-reported", code == T_SYSCALL);
                check("unknown-call-memory", same_mem(exp, ma.memory.arr));
                cover("unknown");
                return;
            }
            check("call-done", code == 0xff);
            check("call-registers", same_regs(&ma.cpu, &e));
            check("call-state", all(&e, &ma.cpu));
            check("call-memory", same_mem(exp, ma.memory.arr));
        }
        Out::Trap(T_HALT) => {
            check("halt", code == T_HALT);
            cover("halt");
        }
        Out::Trap(_) | Out::Illegal | Out::AnyTrap => {
            check("trap-memory", same_mem(before, ma.memory.arr));
            if handler == 0 {
                match out {
                    Out::Trap(t) => check("unhandled-reported", code == t),
                    Out::Illegal => check("unhandled-reported", code == T_ILLEGAL),
                    _ => check("unhandled-reported", code != 0xff),
                }
                cover("unhandled");
                return;
            }
            check("handled", code == 0xff);
            check("resumes-at-handler", ma.cpu.program_counter as u64 == handler);
            check("back-in-user-mode", and(ma.cpu.flags.user_mode, !ma.cpu.flags.trap));
            cover("handled");
            let r1 = reg(&ma.cpu, 1);
            match out {
                Out::Trap(t) => {
                    check("trap-code", r1 == t);
                    let mut e = m0.clone();
                    e.g[1] = t;
                    e.trap = false;
                    e.pc = handler;
                    check("other-registers", all(&e, &ma.cpu));
                }
                Out::Illegal => check("trap-code", r1 == T_ILLEGAL),
                _ => (),
            }
        }
        _ => (),
    }
}
/// System calls of a program in virtual memory reach the physical device.
pub fn kernel_vm() {
    let mut ma = Machine::new(SymMem::new(), Blf4::new());
    let mut empty = Object::default();
    empty.stack_size = Some(StackSize(0));
    ma.load_user_binary(&empty);
    let (c, mut m) = any_cpu(Some(true), Some(true));
    ma.cpu = c;
    ma.cpu.trap_handler = 0;
    m.g[RH] = 0;
    ma.cpu.page = 0x8000;
    m.g[RP] = 0x8000;
    ma.cpu.program_counter = 0x100;
    m.pc = 0x101;
    let put = |a: u32, e: u32| {
        for i in 0..4 {
            ma.memory.arr.set(a + i, (e >> (8 * i)) as u8);
        }
    };
    put(0x8000, (0x9000 << 8) | 0x2f);
    put(0x9008, (0xa000 << 8) | 0x29);
    ma.memory.arr.set(0xa000, 0x0c);
    assume(m.g[1] != 0);
    let before = ma.memory.arr.snapshot();
    let exp = before.snapshot();
    let code = match ma.execute_once() {
        Ok(()) => 0xff,
        Err(t) => t as u8 as u64,
    };
    trace(code);
    trace_cpu(&ma.cpu);
    let n = m.g[1];
    if n == 3 {
        m.g[1] = (n & 0xff00) | before.get(1) as u64;
        cover("read");
    } else if n == 4 {
        exp.set(1, m.g[2] as u8);
        cover("write");
    } else if n != 15 {
        check("unknown-call-reported", code == T_SYSCALL);
        return;
    }
    m.trap = false;
    check("call-done", code == 0xff);
    check("call-state", and(and(same_regs(&ma.cpu, &m), same_arith(&ma.cpu, &m)), and(same_mode(&ma.cpu, &m), ma.cpu.program_counter as u64 == m.pc)));
    check("call-memory", same_mem(exp, ma.memory.arr));
}
