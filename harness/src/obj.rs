//! Object files and archives.
use crate::sym::{self, *};
use telda2::aalv::obj::*;
use telda2::aalv::read_archive;

pub const TYPES: [SegmentType; 6] = [
    SegmentType::Zero,
    SegmentType::Data,
    SegmentType::RoData,
    SegmentType::Text,
    SegmentType::Heap,
    SegmentType::Unknown,
];
pub const CODES: [u8; 6] = [0, 0x10, 0x18, 0x20, 0x70, 0xff];
pub const MAGIC: &[u8] = "álvur2\n".as_bytes();
const SAVN: &[u8] = "álvasavn\n".as_bytes();

pub fn any_bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 8);
    for _ in 0..n {
        v.push(any_u8());
    }
    v
}
fn some_type() -> SegmentType {
    TYPES[choice(6) as usize]
}
/// A name of up to n ASCII characters, NUL and space among them.
fn any_name(n: u64) -> Box<str> {
    let k = choice(n + 1) as usize;
    let mut s = String::with_capacity(8);
    for _ in 0..k {
        let c = any_u8();
        assume(c < 0x80);
        // one byte per character without the encoder's branches
        unsafe { s.as_mut_vec().push(c) };
    }
    s.into()
}
pub fn representable(name: &str, global: bool) -> bool {
    let mut nul = false;
    for &c in name.as_bytes() {
        nul = or(nul, c == 0);
    }
    let sp = name.len() > 0 && name.as_bytes()[0] == b' ';
    !or(nul, and(global, sp))
}
pub fn same_object(a: &Object, b: &Object) {
    check("entry", match (a.entry, b.entry) {
        (None, None) => true,
        (Some(x), Some(y)) => and(x.0 == y.0, x.1 == y.1),
        _ => false,
    });
    check("flags", match (a.flags, b.flags) {
        (None, None) => true,
        (Some(x), Some(y)) => x.readable_text == y.readable_text,
        _ => false,
    });
    check("stack-size", match (a.stack_size, b.stack_size) {
        (None, None) => true,
        (Some(x), Some(y)) => x.0 == y.0,
        _ => false,
    });
    check("heap-size", match (a.heap_size, b.heap_size) {
        (None, None) => true,
        (Some(x), Some(y)) => x.0 == y.0,
        _ => false,
    });
    check("segment-count", a.segs.len() == b.segs.len());
    for (t, (o, v)) in &a.segs {
        match b.segs.get(t) {
            Some((p, w)) => {
                check("segment-offset", o == p);
                check("segment-bytes", same(v, w));
            }
            None => check("segment-kept", false),
        }
    }
    check("symbol-count", a.symbols.0.len() == b.symbols.0.len());
    for (x, y) in a.symbols.0.iter().zip(&b.symbols.0) {
        check("symbol-name", same(x.name.as_bytes(), y.name.as_bytes()));
        check("symbol-visibility", x.is_global == y.is_global);
        check("symbol-segment", x.segment_type == y.segment_type);
        check("symbol-location", x.location == y.location);
    }
    check("relocation-count", a.relocation_table.0.len() == b.relocation_table.0.len());
    for (x, y) in a.relocation_table.0.iter().zip(&b.relocation_table.0) {
        check("relocation-segment", x.reference_segment == y.reference_segment);
        check("relocation-location", x.reference_location == y.reference_location);
        check("relocation-symbol", x.symbol_index == y.symbol_index);
    }
}
fn any_segments(n: u64, o: &mut Object, len: u64) {
    for _ in 0..n {
        let t = some_type();
        assume(!o.segs.contains_key(&t));
        let v = any_bytes(choice(len + 1) as usize);
        o.segs.insert(t, (int(16) as u16, v));
    }
}
fn any_symbols(n: u64, o: &mut Object, len: u64) {
    for _ in 0..n {
        o.symbols.0.push(SymbolDefinition {
            name: any_name(len),
            is_global: choice(2) == 1,
            segment_type: some_type(),
            location: int(16) as u16,
        });
    }
}
fn any_relocs(n: u64, o: &mut Object) {
    for _ in 0..n {
        o.relocation_table.0.push(RelocationEntry {
            reference_segment: some_type(),
            reference_location: int(16) as u16,
            symbol_index: int(16) as u16,
        });
    }
}
/// Objects concentrating on one kind of part.
pub fn any_object(part: u64) -> Object {
    let mut o = Object::default();
    if part == 0 || part == 4 && choice(2) == 1 {
        if choice(2) == 1 {
            let t = if part == 0 { some_type() } else { SegmentType::Text };
            o.entry = Some(Entry(t, int(16) as u16));
        }
        if choice(2) == 1 {
            o.flags = Some(Flags { readable_text: choice(2) == 1 });
        }
        if choice(2) == 1 {
            o.stack_size = Some(StackSize(int(16) as u16));
        }
        if choice(2) == 1 {
            o.heap_size = Some(HeapSize(int(16) as u16));
        }
    }
    match part {
        0 => {}
        1 => any_segments(choice(3), &mut o, 2),
        2 => any_symbols(1 + choice(2), &mut o, 2),
        3 => any_relocs(1 + choice(3), &mut o),
        _ => {
            if choice(2) == 1 {
                o.segs.insert(SegmentType::Text, (int(16) as u16, any_bytes(3)));
            }
            if choice(2) == 1 {
                o.segs.insert(SegmentType::Data, (int(16) as u16, any_bytes(1)));
            }
            for _ in 0..choice(3) {
                let c = any_u8();
                assume(and(c > b' ', c < 0x7f));
                o.symbols.0.push(SymbolDefinition {
                    name: core::str::from_utf8(&[c]).unwrap_or("").into(),
                    is_global: any_bool(),
                    segment_type: SegmentType::Text,
                    location: int(16) as u16,
                });
            }
            for _ in 0..choice(3) {
                o.relocation_table.0.push(RelocationEntry {
                    reference_segment: SegmentType::Data,
                    reference_location: int(16) as u16,
                    symbol_index: int(16) as u16,
                });
            }
        }
    }
    o
}
pub fn any_prefix() -> Vec<u8> {
    let n = [0usize, 1, 7, 9][choice(4) as usize];
    let v = any_bytes(n);
    for i in 0..(n + 1).saturating_sub(MAGIC.len()) {
        assume(!same(&v[i..i + MAGIC.len()], MAGIC));
    }
    v
}
/// Writing and reading back.
pub fn roundtrip(part: u64) {
    let mut o = any_object(part);
    let old = if part == 0 || part == 4 { any_prefix() } else { vec![] };
    o.file_offset = old.len() as u64;
    let mut file = old.clone();
    // what an earlier object in the same place left
    if choice(2) == 1 {
        file.extend_from_slice(&any_bytes(5));
    }
    sym::fs_write("o.to", &file);
    let mut ok = true;
    for s in &o.symbols.0 {
        ok = and(ok, representable(&s.name, s.is_global));
    }
    let w = o.write_to_file("o.to");
    match w {
        Ok(()) => {
            check("unrepresentable-refused", ok);
            cover("written");
        }
        Err(e) => {
            std::mem::forget(e);
            check("representable-written", !ok);
            let now = sym::fs_read("o.to");
            check("refusal-keeps-file", now.map_or(false, |v| same(&v, &file)));
            cover("refused");
            return;
        }
    }
    match Object::from_file("o.to") {
        Ok(r) => {
            check("file-offset", r.file_offset == o.file_offset);
            same_object(&o, &r);
            let now = sym::fs_read("o.to").unwrap_or_default();
            check("prefix-kept", now.len() >= old.len() && same(&now[..old.len()], &old));
            std::mem::forget(r);
        }
        Err(e) => {
            std::mem::forget(e);
            check("read-back", false)
        }
    }
    std::mem::forget(o);
}
/// Sections around the largest size.
pub fn large() {
    let mut o = Object::default();
    let d = choice(3) as usize;
    let fits = match choice(3) {
        0 => {
            let n = 0xffff - 3 + d;
            let mut v = vec![7u8; n];
            v[0] = any_u8();
            v[n - 1] = any_u8();
            o.segs.insert(SegmentType::Data, (int(16) as u16, v));
            n + 3 <= 0xffff
        }
        1 => {
            // 13107 entries of 5 bytes fill 65535
            let n = 13106 + d;
            for i in 0..n {
                o.relocation_table.0.push(RelocationEntry { reference_segment: SegmentType::Text, reference_location: i as u16, symbol_index: 1 });
            }
            n * 5 <= 0xffff
        }
        _ => {
            let n = 0xffff - 1 - 4 - 4 + d;
            let name = "x".repeat(n);
            o.symbols.0.push(SymbolDefinition { name: "".into(), is_global: true, segment_type: SegmentType::Text, location: int(16) as u16 });
            o.symbols.0.push(SymbolDefinition { name: name.into(), is_global: false, segment_type: SegmentType::Text, location: int(16) as u16 });
            n + 4 + 1 + 4 <= 0xffff
        }
    };
    sym::fs_write("o.to", b"old");
    match o.write_to_file("o.to") {
        Ok(()) => {
            check("too-big-refused", fits);
            match Object::from_file("o.to") {
                Ok(r) => {
                    same_object(&o, &r);
                    cover("largest");
                }
                Err(_) => check("largest-read-back", false),
            }
        }
        Err(_) => {
            check("largest-written", !fits);
            check("refusal-keeps-file", sym::fs_read("o.to").map_or(false, |v| same(&v, b"old")));
            cover("refused");
        }
    }
    std::mem::forget(o);
}

fn read() -> Result<Object, ()> {
    Object::from_file("f.to").map_err(|e| std::mem::forget(e))
}
fn section(file: &mut Vec<u8>, name: &str, data: &[u8]) {
    file.extend_from_slice(name.as_bytes());
    file.extend_from_slice(&[0, data.len() as u8, (data.len() >> 8) as u8]);
    file.extend_from_slice(data);
}
const LENGTHS: [u16; 12] = [0, 1, 2, 3, 4, 5, 6, 9, 255, 256, 0x8000, 0xffff];
/// Any bytes: alone, after the magic, or after a section's name with some length.
pub fn read_any(with: u64, n: u64) {
    let mut f = Vec::with_capacity(64);
    let mut k = n;
    if with > 0 {
        f.extend_from_slice(MAGIC);
    }
    if with == 2 {
        let l = LENGTHS[choice(12) as usize];
        f.extend_from_slice(NAMES[choice(7) as usize].as_bytes());
        f.push(0);
        f.extend_from_slice(&l.to_le_bytes());
        // no second length among the bytes
        k = (l as u64).min(n) + 3;
    }
    let mut v = any_bytes(choice(k + 1) as usize);
    f.append(&mut v);
    sym::fs_write("f.to", &f);
    match read() {
        Ok(o) => {
            check("not-without-magic", with > 0);
            // the last thing read is the zero that ends the object
            check("not-without-end", f.len() > MAGIC.len());
            cover("read");
            std::mem::forget(o);
        }
        Err(()) => {
            check("error-reported", true);
            cover("error");
        }
    }
}
fn valid_type(t: u8) -> bool {
    let mut r = false;
    for c in CODES {
        r = or(r, t == c);
    }
    r
}
fn code(t: SegmentType) -> u8 {
    t as u8
}
const NAMES: [&str; 7] = ["_entry", "_flags", "_stack_size", "_heap_size", "_seg", "_syms", "_reloc"];
/// One section with any contents.
pub fn read_section(kind: u64, n: u64) {
    let d = any_bytes(choice(n + 1) as usize);
    let mut f = Vec::with_capacity(64);
    f.extend_from_slice(MAGIC);
    section(&mut f, NAMES[kind as usize], &d);
    f.push(0);
    sym::fs_write("f.to", &f);
    let r = read();
    let ok = r.is_ok();
    if ok {
        cover("read");
    } else {
        cover("error");
    }
    let le = |i: usize| d[i] as u16 | (d[i + 1] as u16) << 8;
    match kind {
        0 => {
            check("entry-accepted-iff-well-formed", ok == (d.len() == 3 && valid_type(d[0])));
            if let (Ok(o), 3) = (&r, d.len()) {
                check("entry-value", o.entry.map_or(false, |e| and(code(e.0) == d[0], e.1 == le(1))));
            }
        }
        1 => {
            let mut good = true;
            for &c in &d {
                good = and(good, c == b'R');
            }
            check("flags-accepted-iff-well-formed", ok == good);
            if let Ok(o) = &r {
                check("flags-value", o.flags.map_or(false, |f| f.readable_text == (d.len() > 0)));
            }
        }
        2 | 3 => {
            check("size-accepted-iff-well-formed", ok == (d.len() == 2));
            if let Ok(o) = &r {
                let v = if kind == 2 { o.stack_size.map(|s| s.0) } else { o.heap_size.map(|s| s.0) };
                check("size-value", v.map_or(false, |v| v == le(0)));
            }
        }
        4 => {
            check("segment-accepted-iff-well-formed", ok == (d.len() >= 3 && valid_type(d[2])));
            if let (Ok(o), true) = (&r, d.len() >= 3) {
                let s = o.segs.iter().next();
                check("segment-value", s.map_or(false, |(t, (off, b))| code(*t) == d[2] && *off == le(0) && same(b, &d[3..])));
            }
        }
        5 => {
            // name, NUL, type, location
            let mut i = 0;
            let mut good = true;
            let mut syms: Vec<(usize, usize, usize)> = vec![];
            while good && i < d.len() {
                let mut e = i;
                while e < d.len() && d[e] != 0 {
                    e += 1;
                }
                good = e + 4 <= d.len() && valid_type(d[e + 1]);
                let b = if e > i && d[i] == b' ' { i + 1 } else { i };
                good = good && core::str::from_utf8(&d[b..e]).is_ok();
                syms.push((i, b, e));
                i = e + 4;
            }
            check("symbols-accepted-iff-well-formed", ok == good);
            if let (Ok(o), true) = (&r, good) {
                check("symbol-count", o.symbols.0.len() == syms.len());
                for (s, (i, b, e)) in o.symbols.0.iter().zip(syms) {
                    check("symbol-value", same(s.name.as_bytes(), &d[b..e]) && s.is_global == (i == b) && code(s.segment_type) == d[e + 1] && s.location == le(e + 2));
                }
            }
        }
        _ => {
            let mut good = d.len() % 5 == 0;
            for c in d.chunks(5) {
                good = and(good, valid_type(c[0]));
            }
            check("relocations-accepted-iff-well-formed", ok == good);
            if let (Ok(o), true) = (&r, good) {
                check("relocation-count", o.relocation_table.0.len() == d.len() / 5);
                for (i, s) in o.relocation_table.0.iter().enumerate() {
                    check("relocation-value", and(code(s.reference_segment) == d[i * 5], and(s.reference_location == le(i * 5 + 1), s.symbol_index == le(i * 5 + 3))));
                }
            }
        }
    }
    std::mem::forget(r);
}
const GOOD: [(&str, &[u8]); 7] = [
    ("_entry", &[0x20, 1, 2]),
    ("_flags", b"R"),
    ("_stack_size", &[3, 4]),
    ("_heap_size", &[5, 6]),
    ("_seg", &[7, 8, 0x20, 9]),
    ("_syms", b"a\0\x20\x01\x02 b\0\x10\x03\x04"),
    ("_reloc", &[0x20, 1, 0, 0, 0]),
];
fn whole(order: usize) -> Vec<u8> {
    let mut f = Vec::with_capacity(256);
    f.extend_from_slice(MAGIC);
    for i in 0..7 {
        let (n, d) = GOOD[(i + order) % 7];
        section(&mut f, n, d);
    }
    f
}
/// Cut short, duplicate, unknown sections; lengths that do not fit.
pub fn damaged(kind: u64) {
    let order = choice(7) as usize;
    let mut f = whole(order);
    let expect;
    match kind {
        0 => {
            f.push(0);
            let n = choice(f.len() as u64) as usize;
            f.truncate(n);
            expect = Some(false);
        }
        1 => {
            // any section a second time, with any other contents
            let (n, d) = GOOD[choice(7) as usize];
            let mut d = d.to_vec();
            if n == "_seg" {
                d = vec![any_u8(), any_u8(), [0x20, 0x10][choice(2) as usize], any_u8()];
            }
            section(&mut f, n, &d);
            f.push(0);
            expect = Some(n == "_seg" && d[2] == 0x10);
        }
        2 => {
            // a name of two characters
            let (a, b) = (any_u8(), any_u8());
            assume(and(and(a != 0, b != 0), and(a < 0x80, b < 0x80)));
            let d = any_bytes(choice(3) as usize);
            f.extend_from_slice(&[a, b, 0, d.len() as u8, 0]);
            f.extend_from_slice(&d);
            f.push(0);
            expect = Some(a != b'_');
        }
        3 => {
            // the last section claims another length
            f.truncate(MAGIC.len());
            let (n, d) = GOOD[choice(7) as usize];
            f.extend_from_slice(n.as_bytes());
            let len = [0u16, 1, 2, 3, 4, 5, 6, 7, 12, 13, 255, 256, 0x7fff, 0x8000, 0xffff][choice(15) as usize];
            f.push(0);
            f.extend_from_slice(&len.to_le_bytes());
            f.extend_from_slice(d);
            f.push(0);
            expect = if len as usize == d.len() { Some(true) } else if len as usize > d.len() { Some(false) } else { None };
        }
        _ => {
            // something before and after
            let v = any_bytes(choice(10) as usize);
            for i in 0..(v.len() + 1).saturating_sub(MAGIC.len()) {
                assume(!same(&v[i..i + MAGIC.len()], MAGIC));
            }
            let mut g = v;
            g.extend_from_slice(&f);
            g.push(0);
            g.extend_from_slice(&any_bytes(2));
            f = g;
            expect = Some(true);
        }
    }
    sym::fs_write("f.to", &f);
    let r = read();
    cover(if r.is_ok() { "read" } else { "error" });
    match expect {
        Some(e) => check("accepted-iff-well-formed", r.is_ok() == e),
        None => check("finished", true),
    }
    if let (Ok(o), true) = (&r, kind != 3) {
        check("values", o.entry.map_or(false, |e| code(e.0) == 0x20 && e.1 == 0x201)
            && o.flags.map_or(false, |f| f.readable_text)
            && o.stack_size.map_or(false, |s| s.0 == 0x403)
            && o.heap_size.map_or(false, |s| s.0 == 0x605)
            && o.segs.get(&SegmentType::Text).map_or(false, |s| s.0 == 0x807 && s.1 == [9])
            && o.symbols.0.len() == 2 && &*o.symbols.0[1].name == "b" && !o.symbols.0[1].is_global && o.symbols.0[0].is_global
            && o.relocation_table.0.len() == 1);
    }
    std::mem::forget(r);
}
/// An archive of up to n members.
pub fn archive(n: u64) {
    let k = choice(n + 1) as usize;
    let mut members: Vec<Object> = Vec::with_capacity(8);
    let mut f = Vec::with_capacity(256);
    let mut ends: Vec<usize> = vec![];
    f.extend_from_slice(SAVN);
    for _ in 0..k {
        let o = small_object();
        sym::fs_write("m.to", b"");
        check("member-written", o.write_to_file("m.to").is_ok());
        f.extend_from_slice(&sym::fs_read("m.to").unwrap_or_default());
        ends.push(f.len());
        members.push(o);
    }
    // damage: none, another first byte, cut short
    let dmg = choice(3);
    let mut keep = if k == 0 { None } else { Some(k) };
    match dmg {
        1 => {
            let i = choice(SAVN.len() as u64) as usize;
            let b = any_u8();
            assume(b != SAVN[i]);
            f[i] = b;
        }
        2 => {
            let m = choice(f.len() as u64) as usize;
            f.truncate(m);
            keep = ends.iter().position(|&e| e == m).map(|i| i + 1);
        }
        _ => {}
    }
    sym::fs_write("a.tar", &f);
    read_members(&members, dmg == 1 || f.len() < SAVN.len(), keep);
    std::mem::forget(members);
}
pub fn small_object() -> Object {
    let mut o = Object::default();
    match choice(3) {
        0 => {}
        1 => {
            o.segs.insert(SegmentType::Text, (int(16) as u16, any_bytes(2)));
        }
        _ => {
            o.entry = Some(Entry(SegmentType::Text, int(16) as u16));
            o.segs.insert(SegmentType::Data, (int(16) as u16, any_bytes(1)));
            let c = any_u8();
            assume(and(c > b' ', c < 0x7f));
            o.symbols.0.push(SymbolDefinition {
                name: core::str::from_utf8(&[c]).unwrap_or("").into(),
                is_global: any_bool(),
                segment_type: SegmentType::Text,
                location: int(16) as u16,
            });
        }
    }
    o
}
/// Reads a.tar: these objects in order, then the end (`end` of them) or an error (none).
pub fn read_members(members: &[Object], no_magic: bool, end: Option<usize>) {
    let mut it = match read_archive("a.tar") {
        Ok(i) => {
            check("damaged-magic-refused", !no_magic);
            i
        }
        Err(e) => {
            std::mem::forget(e);
            check("archive-read", no_magic);
            cover("not-an-archive");
            return;
        }
    };
    let mut i = 0;
    loop {
        match it.next(|r| Object::from_aalv_reader(r)) {
            Ok(Some(o)) => {
                check("no-extra-member", i < members.len());
                if i < members.len() {
                    same_object(&members[i], &o);
                }
                i += 1;
                std::mem::forget(o);
            }
            Ok(None) => {
                check("ends-after-last-member", end == Some(i) || members.is_empty());
                cover("end");
                break;
            }
            Err(e) => {
                std::mem::forget(e);
                check("members-readable", end.is_none());
                cover("damaged-member");
                break;
            }
        }
    }
    std::mem::forget(it);
}
/// An archive made by the archive tool.
pub fn archive_tool(n: u64) {
    let k = 1 + choice(n) as usize;
    let mut members: Vec<Object> = Vec::with_capacity(8);
    const NAMES: [&str; 3] = ["1.to", "2.to", "3.to"];
    for i in 0..k {
        let o = small_object();
        check("member-written", o.write_to_file(NAMES[i]).is_ok());
        members.push(o);
    }
    if choice(2) == 1 {
        sym::fs_write("a.tar", &any_bytes(12));
    }
    let mut args = vec!["tar", "-o", "a.tar"];
    args.extend_from_slice(&NAMES[..k]);
    if choice(2) == 1 {
        args.push("none.to");
        check("missing-member-reported", sym::run(&args) != 0);
        return;
    }
    check("archive-made", sym::run(&args) == 0);
    read_members(&members, false, Some(k));
    std::mem::forget(members);
}
