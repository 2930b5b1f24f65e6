//! The emulator tool and the object dump.
use crate::obj::*;
use crate::sym::{self, *};
use telda2::aalv::obj::*;

fn contains(s: &[u8], x: &[u8]) -> bool {
    let mut r = x.is_empty();
    for w in s.windows(x.len().max(1)) {
        r = or(r, same(w, x));
    }
    r
}
struct Prog {
    code: Vec<u8>,
    out: Vec<u8>,
    input: Vec<u8>,
    used: usize,
    /// what the program ends with
    halts: bool,
    /// more was read than there is
    starved: bool,
    raw: bool,
}
impl Prog {
    fn put(&mut self, b: u8) {
        if self.raw {
            self.code.extend_from_slice(&[0x3f, 0x30, b, 0x27, 0x03, 1, 0]);
        } else {
            self.code.extend_from_slice(&[0x40, 0x10, 4, 0, 0x3f, 0x30, b, 0x0c]);
        }
        if !self.starved {
            self.out.push(b);
        }
    }
    fn echo(&mut self) {
        if self.raw {
            self.code.extend_from_slice(&[0x2b, 0x30, 1, 0, 0x27, 0x03, 1, 0]);
        } else {
            self.code.extend_from_slice(&[0x40, 0x10, 3, 0, 0x0c, 0x41, 0x31, 0x00, 0x40, 0x10, 4, 0, 0x0c]);
        }
        if self.used < self.input.len() && !self.starved {
            self.out.push(self.input[self.used]);
            self.used += 1;
        } else {
            self.starved = true;
        }
    }
    fn end(&mut self, k: u64) {
        match k {
            0 => self.code.push(0x0a),
            1 => self.code.push(0x00),
            2 => self.code.push(0x60),
            3 => self.code.extend_from_slice(&[0x52, 0x12, 0x30, 0x00]), // div by zero, if the encoding is complete
            4 => {
                // unknown system call
                if self.raw {
                    self.code.push(0x0c)
                } else {
                    self.code.extend_from_slice(&[0x40, 0x10, 99, 0, 0x0c])
                }
            }
            _ => {
                if self.raw {
                    self.code.push(0x0d)
                } else {
                    // nothing is mapped there
                    self.code.extend_from_slice(&[0x40, 0x01, 0x00, 0x60])
                }
            }
        }
        self.halts = k == 0;
    }
}
const ENDS: [&str; 6] = ["Halt", "Invalid", "Invalid", "ZeroDiv", "SysCall", ""];
/// A program of n steps run by the emulator.
pub fn run(n: u64, raw: u64) {
    let mut p = Prog { code: vec![], out: vec![], input: vec![], used: 0, halts: false, starved: false, raw: raw != 0 };
    p.input = any_bytes(choice(3) as usize);
    sym::stdin(&p.input);
    for _ in 0..choice(n + 1) {
        if choice(2) == 0 {
            p.put(any_u8());
        } else {
            p.echo();
        }
    }
    let e = choice(6);
    p.end(e);
    let mut args = vec!["t"];
    let show = choice(2) == 1;
    if show {
        args.push("-t");
    }
    let name = "prog";
    if raw != 0 {
        args.push("-r");
        sym::fs_write(name, &p.code);
    } else {
        let mut o = Object::default();
        let before = choice(3) as usize;
        let mut code = vec![0u8; before];
        code.extend_from_slice(&p.code);
        o.segs.insert(SegmentType::Text, (0x80, code));
        o.entry = Some(Entry(SegmentType::Text, 0x80 + before as u16));
        if choice(2) == 1 {
            sym::fs_write(name, b"#!/bin/env t\n");
            o.file_offset = 13;
        }
        if choice(2) == 1 {
            o.symbols.0.push(SymbolDefinition { name: "start".into(), is_global: true, segment_type: SegmentType::Text, location: 0x80 });
        }
        check("input-written", o.write_to_file(name).is_ok());
        std::mem::forget(o);
    }
    args.push(name);
    let rc = sym::run(&args);
    let out = sym::tool_out(1);
    if p.starved {
        check("starved-program-fails", rc != 0);
        // what is still buffered when the tool gives up may be missing in the model
        let m = p.out.len().min(out.len());
        check("output-before-failure", same(&out[..m], &p.out[..m]));
        cover("starved");
    } else if show {
        check("termination-point-is-success", rc == 0);
        check("output-in-order", out.len() > p.out.len() && same(&out[..p.out.len()], &p.out));
        if out.len() > p.out.len() {
            let rest = &out[p.out.len()..];
            check("outcome-named", rest.starts_with(b"Ended with ") && contains(rest, ENDS[e as usize].as_bytes()));
        }
        cover("shown");
    } else {
        check("success-iff-halted", (rc == 0) == p.halts);
        check("output-exact", same(&out, &p.out));
        if !p.halts {
            check("outcome-named", contains(&sym::tool_out(2), ENDS[e as usize].as_bytes()));
        }
        cover(if p.halts { "halted" } else { "trapped" });
    }
    std::mem::forget(p);
}
/// Files that cannot be run.
pub fn refuse() {
    let name = "prog";
    sym::stdin(b"");
    match choice(4) {
        0 => {
            let mut o = any_object(0);
            o.entry = None;
            o.segs.insert(SegmentType::Text, (0x80, vec![0x40, 0x10, 4, 0, 0x0c, 0x0a]));
            check("input-written", o.write_to_file(name).is_ok());
            std::mem::forget(o);
        }
        1 => sym::fs_write(name, &any_bytes(3)),
        2 => {
            let mut o = Object::default();
            o.entry = Some(Entry(SegmentType::Text, 0x80));
            o.segs.insert(SegmentType::Text, (0x80, vec![0x40, 0x10, 4, 0, 0x0c, 0x0a]));
            check("input-written", o.write_to_file(name).is_ok());
            std::mem::forget(o);
            let mut f = sym::fs_read(name).unwrap_or_default();
            let n = choice(f.len() as u64) as usize;
            f.truncate(n);
            sym::fs_write(name, &f);
        }
        _ => {}
    }
    let mut a = vec!["t"];
    if choice(2) == 1 {
        a.push("-t");
    }
    a.push(name);
    check("refused", sym::run(&a) != 0);
    check("nothing-run", sym::tool_out(1).is_empty());
}

fn line_of<'a>(lines: &[&'a [u8]], name: &[u8], used: &mut Vec<usize>) -> Option<&'a [u8]> {
    for (i, l) in lines.iter().enumerate() {
        if !used.contains(&i) && l.split(|&c| c == b' ').any(|w| w == name) {
            used.push(i);
            return Some(l);
        }
    }
    None
}
fn seg_name(t: SegmentType) -> &'static str {
    match t {
        SegmentType::Unknown => "UNDEFINED",
        SegmentType::Zero => "zero",
        SegmentType::Data => "data",
        SegmentType::RoData => "rodata",
        SegmentType::Text => "text",
        SegmentType::Heap => "heap",
    }
}
/// The symbols of any object with distinct names.
pub fn dump_symbols(n: u64) {
    const N: [&str; 3] = ["one", "b", "third_name"];
    let mut o = Object::default();
    for i in 0..choice(n + 1) as usize {
        o.symbols.0.push(SymbolDefinition {
            name: if choice(2) == 1 { "".into() } else { N[i].into() },
            is_global: choice(2) == 1,
            segment_type: TYPES[choice(6) as usize],
            location: any_u16(),
        });
    }
    if choice(2) == 1 {
        o.segs.insert(SegmentType::Data, (any_u16(), any_bytes(2)));
    }
    let arch = choice(2) == 1;
    check("input-written", o.write_to_file("f.to").is_ok());
    let name = if arch {
        check("archived", sym::run(&["tar", "-o", "f.tar", "f.to"]) == 0);
        "f.tar"
    } else {
        "f.to"
    };
    let before = sym::fs_read(name).unwrap_or_default();
    let rc = sym::run(&["tobjdump", "-t", name]);
    check("success", rc == 0);
    check("file-kept", same(&sym::fs_read(name).unwrap_or_default(), &before));
    let out = sym::tool_out(1);
    let lines: Vec<&[u8]> = out.split(|&c| c == b'\n').collect();
    let entry = |l: &[u8]| l.split(|&c| c == b' ').any(|w| w == b"GLOBAL" || w == b"local");
    check("symbol-count", lines.iter().filter(|l| entry(l)).count() == o.symbols.0.len());
    let mut used = vec![];
    // those without a name are what remains
    let (named, nameless): (Vec<_>, Vec<_>) = o.symbols.0.iter().partition(|s| !s.name.is_empty());
    for s in named.into_iter().chain(nameless) {
        let line = if s.name.is_empty() {
            let i = (0..lines.len()).find(|i| entry(lines[*i]) && !used.contains(i));
            used.extend(i);
            i.map(|i| lines[i])
        } else {
            line_of(&lines, s.name.as_bytes(), &mut used)
        };
        let Some(l) = line else {
            check("symbol-listed", false);
            continue;
        };
        let has = |x: &str| contains(l, x.as_bytes());
        check("visibility-shown", if s.is_global { has("GLOBAL") } else { has("local") });
        check("segment-shown", l.split(|&c| c == b' ').any(|w| w == seg_name(s.segment_type).as_bytes()));
        let mut hex = *b"0x0000";
        for i in 0..4 {
            let d = (s.location >> (12 - 4 * i) & 15) as u8;
            hex[2 + i] = ite(d < 10, (d + b'0') as u64, (d + (b'a' - 10)) as u64) as u8;
        }
        check("location-shown", contains(l, &hex));
        cover("listed");
    }
    std::mem::forget(o);
}
/// A disassembly with relocations of objects at several places.
pub fn dump_code() {
    // pieces of code; the last ends the block
    const CODE: [(&[u8], &str); 6] = [(&[0x20], "nop"), (&[0x25, 0x05, 0x80], "call"), (&[0x3f, 0x10, 0x07], "ldi"), (&[0x27, 0x12, 0x34, 0x12], "store"), (&[0x41, 0x12, 0x30], "add"), (&[0x0c], "syscall")];
    const LAST: [(&[u8], &str); 4] = [(&[0x26, 0x00], "ret"), (&[0x0a], "halt"), (&[0x40, 0x01, 0x80, 0x00], "jmp"), (&[0x00], "null")];
    let k = choice(6) as usize;
    let j = choice(4) as usize;
    let code = [CODE[k].0, LAST[j].0].concat();
    let end = code.len();
    let at: u16 = [0x80u16, 0x0ffe, 0x8000, (0xffff - end + 1) as u16, (0xffff - end) as u16][choice(5) as usize];
    let mut o = Object::default();
    o.segs.insert(SegmentType::Text, (at, code.clone()));
    let has_entry = choice(2) == 1;
    if has_entry {
        o.entry = Some(Entry(SegmentType::Text, at));
    }
    o.symbols.0.push(SymbolDefinition { name: "start".into(), is_global: true, segment_type: SegmentType::Text, location: at });
    o.symbols.0.push(SymbolDefinition { name: "other".into(), is_global: choice(2) == 1, segment_type: SegmentType::Unknown, location: 0xfaff });
    let r = choice(4) as usize;
    if r > 0 {
        let loc = [1, 2.min(CODE[k].0.len() - 1), CODE[k].0.len()][r - 1];
        o.relocation_table.0.push(RelocationEntry { reference_segment: SegmentType::Text, reference_location: at + loc as u16, symbol_index: 1 });
    }
    check("input-written", o.write_to_file("f.to").is_ok());
    let before = sym::fs_read("f.to").unwrap_or_default();
    let rel = choice(2) == 1;
    let mut a = vec!["tobjdump", "-d"];
    if rel {
        a.push("-R");
    }
    a.push("f.to");
    let rc = sym::run(&a);
    check("success", rc == 0);
    check("file-kept", same(&sym::fs_read("f.to").unwrap_or_default(), &before));
    let out = sym::tool_out(1);
    let lines: Vec<&[u8]> = out.split(|&c| c == b'\n').collect();
    if rc == 0 {
        for (b, name, addr) in [(CODE[k].0, CODE[k].1, at), (LAST[j].0, LAST[j].1, at + CODE[k].0.len() as u16)] {
            let mut hex: Vec<u8> = Vec::with_capacity(16);
            for x in b {
                hex.push(b' ');
                for d in [x >> 4, x & 15] {
                    hex.push(if d < 10 { b'0' + d } else { b'a' + d - 10 });
                }
            }
            let mut pos: Vec<u8> = Vec::with_capacity(8);
            for i in 0..4 {
                let d = (addr >> (12 - 4 * i) & 15) as u8;
                pos.push(if d < 10 { b'0' + d } else { b'a' + d - 10 });
            }
            check("instruction-shown", lines.iter().any(|l| contains(l, &pos) && contains(l, &hex) && contains(l, name.as_bytes())));
        }
        let want = r == 1 && CODE[k].0.len() > 1 || r == 2 && CODE[k].0.len() > 1 || r > 0;
        let shown = lines.iter().any(|l| contains(l, b"RELOC") && contains(l, b"other"));
        check("relocation-shown", shown == (rel && want));
        cover("disassembled");
    }
    std::mem::forget(o);
}
/// Several files, some unreadable.
pub fn dump_several() {
    const F: [&str; 3] = ["1", "2", "3"];
    let mut args = vec!["tobjdump", "-t"];
    let mut good = true;
    let mut shown = vec![];
    for i in 0..3 {
        let mut o = Object::default();
        let name = ["na", "nb", "nc"][i];
        o.symbols.0.push(SymbolDefinition { name: name.into(), is_global: true, segment_type: SegmentType::Text, location: 0x80 });
        check("input-written", o.write_to_file(F[i]).is_ok());
        std::mem::forget(o);
        match choice(3) {
            0 => shown.push(name),
            1 => {
                let mut f = sym::fs_read(F[i]).unwrap_or_default();
                let n = f.len() - 1 - choice(2) as usize;
                f.truncate(n);
                sym::fs_write(F[i], &f);
                good = false;
            }
            _ => {
                sym::fs_remove(F[i]);
                good = false;
            }
        }
        args.push(F[i]);
    }
    let rc = sym::run(&args);
    check("success-iff-all-readable", (rc == 0) == good);
    let out = sym::tool_out(1);
    for n in shown {
        check("readable-shown", contains(&out, n.as_bytes()));
    }
}
