//! The linker: objects are built here, linked by the tool and compared with
//! an independent account of what linking means.
use crate::obj::{any_bytes, same_object};
use crate::sym::{self, *};
use telda2::aalv::obj::*;

const SEGS: [SegmentType; 4] = [SegmentType::Data, SegmentType::RoData, SegmentType::Text, SegmentType::Heap];
pub const TEXT: usize = 2;

#[derive(Clone)]
pub struct Sy {
    pub name: &'static str,
    pub global: bool,
    /// None: undefined
    pub seg: Option<usize>,
    pub off: u16,
}
#[derive(Clone)]
pub struct In {
    pub segs: Vec<(usize, u16, Vec<u8>)>,
    pub syms: Vec<Sy>,
    pub rels: Vec<(usize, usize, usize)>,
    pub entry: Option<(usize, u16)>,
}
impl In {
    pub fn new() -> Self {
        In { segs: Vec::with_capacity(4), syms: Vec::with_capacity(8), rels: Vec::with_capacity(8), entry: None }
    }
    pub fn start(&self, t: usize) -> u16 {
        self.segs.iter().find(|s| s.0 == t).map_or(0, |s| s.1)
    }
    pub fn len(&self, t: usize) -> usize {
        self.segs.iter().find(|s| s.0 == t).map_or(0, |s| s.2.len())
    }
    pub fn object(&self) -> Object {
        let mut o = Object::default();
        for (t, s, b) in &self.segs {
            o.segs.insert(SEGS[*t], (*s, b.clone()));
        }
        for s in &self.syms {
            let (segment_type, location) = match s.seg {
                Some(t) => (SEGS[t], self.start(t).wrapping_add(s.off)),
                None => (SegmentType::Unknown, 0xfaff),
            };
            o.symbols.0.push(SymbolDefinition { name: s.name.into(), is_global: s.global, segment_type, location });
        }
        for &(t, k, i) in &self.rels {
            o.relocation_table.0.push(RelocationEntry {
                reference_segment: SEGS[t],
                reference_location: self.start(t).wrapping_add(k as u16),
                symbol_index: i as u16,
            });
        }
        o.entry = self.entry.map(|(t, off)| Entry(SEGS[t], self.start(t).wrapping_add(off)));
        o
    }
    pub fn save(&self, name: &str) {
        let o = self.object();
        check("input-written", o.write_to_file(name).is_ok());
        std::mem::forget(o);
    }
}
/// Where a symbol is: segment type, offset in the output's segment.
type Place = Option<(usize, u16)>;
pub struct Linked<'a> {
    ins: Vec<&'a In>,
    align: u16,
    strip: bool,
}
impl<'a> Linked<'a> {
    pub fn new(ins: Vec<&'a In>, align: u16, strip: bool) -> Self {
        Linked { ins, align, strip }
    }
    fn base(&self, i: usize, t: usize) -> usize {
        self.ins[..i].iter().map(|o| o.len(t)).sum()
    }
    fn size(&self, t: usize) -> usize {
        self.base(self.ins.len(), t)
    }
    fn own(&self, i: usize, s: &Sy) -> Place {
        s.seg.map(|t| (t, (self.base(i, t) as u16).wrapping_add(s.off)))
    }
    fn global(&self, name: &str) -> Place {
        for (i, o) in self.ins.iter().enumerate() {
            for s in &o.syms {
                if s.global && s.name == name && s.seg.is_some() {
                    return self.own(i, s);
                }
            }
        }
        None
    }
    fn place(&self, i: usize, s: &Sy) -> Place {
        if s.global {
            self.global(s.name)
        } else {
            self.own(i, s)
        }
    }
    /// One global symbol is defined twice.
    pub fn duplicate(&self) -> bool {
        let mut d: Vec<&str> = vec![];
        for s in self.ins.iter().flat_map(|o| &o.syms) {
            if s.global && s.seg.is_some() {
                if d.iter().any(|n| *n == s.name) {
                    return true;
                }
                d.push(s.name);
            }
        }
        false
    }
    /// Some reference has no definition.
    pub fn undefined(&self) -> bool {
        self.ins.iter().enumerate().any(|(i, o)| o.rels.iter().any(|r| self.place(i, &o.syms[r.2]).is_none()))
    }
    pub fn entry(&self) -> Place {
        for (i, o) in self.ins.iter().enumerate() {
            if let Some((t, off)) = o.entry {
                return Some((t, (self.base(i, t) as u16).wrapping_add(off)));
            }
        }
        None
    }
    pub fn has_global(&self, name: &str) -> Place {
        self.global(name)
    }
    /// The output is what these inputs linked in this order have to give.
    pub fn check(&self, out: &Object, entry: Place) {
        let mut start = [0u16; 4];
        let mut ends: Vec<(u32, u32)> = vec![];
        for t in 0..4 {
            match out.segs.get(&SEGS[t]) {
                None => check("segment-present", self.size(t) == 0),
                Some((s, b)) => {
                    start[t] = *s;
                    check("segment-aligned", *s & (self.align - 1) == 0);
                    check("segment-after-first-page", *s >= 0x80);
                    check("segment-size", b.len() == self.size(t));
                    let (a, e) = (*s as u32, *s as u32 + b.len() as u32);
                    check("segment-in-memory", e <= 0x10000);
                    for &(x, y) in &ends {
                        check("segments-apart", or(or(y <= a, e <= x), or(a == e, x == y)));
                    }
                    ends.push((a, e));
                }
            }
        }
        check("no-other-segment", out.segs.keys().all(|k| SEGS.iter().any(|s| s == k)));
        let at = |p: (usize, u16)| start[p.0].wrapping_add(p.1);
        // contents
        for t in 0..4 {
            let Some((_, got)) = out.segs.get(&SEGS[t]) else { continue };
            if got.len() != self.size(t) {
                continue;
            }
            let mut want: Vec<u8> = Vec::with_capacity(got.len() + 1);
            for (i, o) in self.ins.iter().enumerate() {
                for s in o.segs.iter().filter(|s| s.0 == t) {
                    let b = want.len();
                    want.extend_from_slice(&s.2);
                    for &(rt, k, y) in &o.rels {
                        if rt == t {
                            let w = match self.place(i, &o.syms[y]) {
                                Some(p) => at(p).to_le_bytes(),
                                None => [got[b + k], got[b + k + 1]],
                            };
                            want[b + k] = w[0];
                            want[b + k + 1] = w[1];
                        }
                    }
                }
            }
            check("contents", same(got, &want));
        }
        // symbols
        let is = |s: &SymbolDefinition, name: &str, global: bool, p: Place| {
            s.is_global == global && same(s.name.as_bytes(), name.as_bytes()) && match p {
                Some(p) => and(s.segment_type == SEGS[p.0], s.location == at(p)),
                None => s.segment_type == SegmentType::Unknown,
            }
        };
        let syms = &out.symbols.0;
        let mut names: Vec<&str> = vec![];
        let mut internal = 0;
        for (i, o) in self.ins.iter().enumerate() {
            for s in &o.syms {
                if s.global {
                    if names.iter().any(|n| *n == s.name) {
                        continue;
                    }
                    names.push(s.name);
                    check("global-once", syms.iter().filter(|x| x.is_global && &*x.name == s.name).count() == 1);
                    check("global-designates-same-byte", syms.iter().fold(false, |r, x| or(r, is(x, s.name, true, self.global(s.name)))));
                } else {
                    internal += 1;
                    let n = if self.strip { "" } else { s.name };
                    check("internal-designates-same-byte", syms.iter().fold(false, |r, x| or(r, is(x, n, false, self.own(i, s)))));
                }
            }
        }
        check("symbol-count", syms.len() == names.len() + internal);
        // relocations
        let mut count = 0;
        for (i, o) in self.ins.iter().enumerate() {
            for &(t, k, y) in &o.rels {
                count += 1;
                let s = &o.syms[y];
                let n = if self.strip && !s.global { "" } else { s.name };
                let loc = at((t, (self.base(i, t) + k) as u16));
                let found = out.relocation_table.0.iter().fold(false, |r, e| {
                    let ok = match syms.get(e.symbol_index as usize) {
                        Some(x) => is(x, n, s.global, self.place(i, s)),
                        None => false,
                    };
                    or(r, and(ok, and(e.reference_segment == SEGS[t], e.reference_location == loc)))
                });
                check("relocation-kept", found);
            }
        }
        check("relocation-count", out.relocation_table.0.len() == count);
        match (entry, &out.entry) {
            (None, None) => {}
            (Some(p), Some(e)) => {
                check("entry-designates-same-instruction", and(e.0 == SEGS[p.0], e.1 == at(p)));
                cover("entry");
            }
            _ => check("entry-present", false),
        }
    }
}
const FILES: [&str; 4] = ["0.to", "1.to", "2.to", "3.to"];
fn any_start(len: usize) -> u16 {
    let s = any_u16();
    assume(s <= (0xffff - len) as u16);
    s
}
fn any_off(len: usize) -> u16 {
    let s = any_u16();
    assume(s <= len as u16);
    s
}
const PAIRS: [(usize, usize); 6] = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
/// Segments of two types in n objects.
pub fn layout(n: u64) {
    let n = n as usize;
    let (t1, t2) = PAIRS[choice(6) as usize];
    let (align, aname) = [(128u16, ""), (1, "1"), (2, "2"), (0x1000, "4096")][choice(4) as usize];
    let mut ins: Vec<In> = Vec::with_capacity(4);
    for i in 0..n {
        let mut o = In::new();
        for t in [t1, t2] {
            let len = match choice(4) {
                0 => continue,
                k => [0usize, 1, 3][k as usize - 1],
            };
            o.segs.push((t, any_start(len), any_bytes(len)));
            o.syms.push(Sy { name: [["a", "b"], ["c", "d"], ["e", "f"]][i][(t == t2) as usize], global: i == 0, seg: Some(t), off: any_off(len) });
        }
        if i == 1 {
            o.syms.push(Sy { name: "a", global: true, seg: None, off: 0 });
        }
        for s in 0..o.segs.len() {
            if o.segs[s].2.len() == 3 {
                o.rels.push((o.segs[s].0, s, if s == 0 { o.syms.len() - 1 } else { 0 }));
            }
        }
        if i > 0 && o.segs.len() > 0 {
            let (t, _, b) = &o.segs[0];
            o.entry = Some((*t, any_off(b.len())));
        }
        o.save(FILES[i]);
        ins.push(o);
    }
    let mut args = vec!["tl", "-o", "out.to"];
    if aname != "" {
        args.extend_from_slice(&["-A", aname]);
    }
    args.extend_from_slice(&FILES[..n]);
    link(&args, &Linked::new(ins.iter().collect(), align, false), "out.to", false, None);
    std::mem::forget(ins);
}
/// `want_entry`: the symbol set as the entry point by -E.
fn link(args: &[&str], l: &Linked, out: &str, exec: bool, want_entry: Option<&str>) {
    let rc = sym::run(args);
    let entry = match want_entry {
        None => l.entry(),
        Some(n) => l.has_global(n),
    };
    let bad = l.duplicate() || exec && (l.undefined() || entry.is_none());
    if bad {
        check("failure-reported", rc != 0);
        cover(if l.duplicate() { "duplicate" } else if entry.is_none() { "no-entry" } else { "undefined" });
        return;
    }
    check("linked", rc == 0);
    match Object::from_file(out) {
        Ok(o) => {
            l.check(&o, entry);
            if exec {
                let f = sym::fs_read(out).unwrap_or_default();
                check("executable-starts-the-emulator", f.len() > 3 && f[0] == b'#' && f[1] == b'!');
                check("object-after-first-line", o.file_offset > 0 && f[o.file_offset as usize - 1] == b'\n');
            }
            cover("linked");
            if l.undefined() {
                cover("undefined-kept");
            }
            std::mem::forget(o);
        }
        Err(e) => {
            std::mem::forget(e);
            check("output-readable", false);
        }
    }
}
/// Names x and y in n objects: absent, defined, referenced, internal.
pub fn names(n: u64, opts: u64) {
    let n = n as usize;
    let mut ins: Vec<In> = Vec::with_capacity(4);
    for i in 0..n {
        let mut o = In::new();
        o.segs.push((TEXT, any_start(6), any_bytes(6)));
        o.segs.push((0, any_start(1), any_bytes(1)));
        for j in 0..2 {
            // the second object's table is in the other order
            let j = if i == 1 { 1 - j } else { j };
            let name = ["x", "y"][j];
            let k = if opts & 16 != 0 { [0, 1, 2, 4][choice(4) as usize] } else { choice(6) };
            let (global, seg, refd) = match k {
                0 => continue,
                1 => (true, Some(TEXT), true),
                2 => (true, None, true),
                3 => (true, None, false),
                4 => (false, Some(TEXT), true),
                _ => (true, Some(0), false),
            };
            let len = seg.map_or(0, |t| if t == TEXT { 6 } else { 1 });
            o.syms.push(Sy { name, global, seg, off: any_off(len) });
            if refd {
                o.rels.push((TEXT, 3 * j + i % 2, o.syms.len() - 1));
            }
        }
        if opts & 1 != 0 && i == 1 {
            o.entry = Some((TEXT, any_off(6)));
        }
        o.save(FILES[i]);
        ins.push(o);
    }
    let exec = opts & 2 != 0;
    let strip = opts & 4 != 0;
    let mut args = vec!["tl", "-o", "out.to"];
    if strip {
        args.push("-S");
    }
    if exec {
        args.push("-e");
    }
    let mut set = None;
    if opts & 8 != 0 {
        args.extend_from_slice(&["-E", "x"]);
        set = Some("x");
    }
    args.extend_from_slice(&FILES[..n]);
    link(&args, &Linked::new(ins.iter().collect(), 128, strip), "out.to", exec, set);
    std::mem::forget(ins);
}
/// Sizes around the end of the address space.
pub fn big() {
    const FULL: usize = 0xffff - 0x80;
    let d = choice(5) as usize;
    let k = choice(3);
    let mut ins = vec![In::new(), In::new()];
    // two segments of one type, or two types
    let t2 = if k == 0 { TEXT } else { 3 };
    let first = if k == 2 { 0x1000 } else { 0x7f80 };
    let second = FULL - first - 2 + d;
    for (i, (t, n)) in [(TEXT, first), (t2, second)].into_iter().enumerate() {
        let mut v = vec![0x55u8; n];
        v[0] = any_u8();
        v[n - 1] = any_u8();
        ins[i].segs.push((t, 0x80, v));
        ins[i].syms.push(Sy { name: ["x", "y"][i], global: true, seg: Some(t), off: (n - 1) as u16 });
        ins[i].syms.push(Sy { name: ["y", "x"][i], global: true, seg: None, off: 0 });
        ins[i].rels.push((t, n - 3, 1));
        ins[i].save(FILES[i]);
    }
    let l = Linked::new(ins.iter().collect(), 128, false);
    let rc = sym::run(&["tl", "-o", "out.to", "0.to", "1.to"]);
    if d <= 2 {
        check("fitting-linked", rc == 0);
    }
    if d >= 4 {
        check("too-big-reported", rc != 0);
        cover("too-big");
    }
    if rc == 0 {
        match Object::from_file("out.to") {
            Ok(o) => {
                l.check(&o, None);
                cover("full");
                std::mem::forget(o);
            }
            Err(_) => check("output-readable", false),
        }
    }
    std::mem::forget(ins);
}

/// Inputs that cannot be linked.
pub fn failures() {
    let mut o = In::new();
    o.segs.push((TEXT, 0x80, any_bytes(2)));
    o.entry = Some((TEXT, 0));
    o.save("0.to");
    let mut args = vec!["tl", "-o", "out.to"];
    match choice(6) {
        0 => args.extend_from_slice(&["0.to", "none.to"]),
        1 => {
            sym::fs_write("1.to", &any_bytes(3));
            args.extend_from_slice(&["0.to", "1.to"])
        }
        2 => args.extend_from_slice(&["0.to", "-l", "none.tar"]),
        3 => {
            // an object is no archive
            args.extend_from_slice(&["0.to", "-l", "0.to"])
        }
        4 => {
            let mut f = sym::fs_read("0.to").unwrap_or_default();
            let n = choice(f.len() as u64) as usize;
            f.truncate(n);
            sym::fs_write("1.to", &f);
            args.extend_from_slice(&["0.to", "1.to"])
        }
        _ => {
            // cannot be written there
            args = vec!["tl", "-o", "none/out.to", "0.to"];
            if choice(2) == 1 {
                args.push("-e");
            }
        }
    }
    check("failure-reported", sym::run(&args) != 0);
    check("no-output", sym::fs_read("out.to").is_none());
}
const DEFS: [&str; 3] = ["a", "b", "c"];
/// n archive members, one defining each of a, b, ..; the first k in one archive.
pub fn archives(n: u64, k: u64, exec: u64) {
    let n = n as usize;
    let mut ms: Vec<In> = Vec::with_capacity(4);
    // what the members refer to: the others, m (defined by the inputs) and u (by nobody)
    let mut refs: Vec<Vec<&'static str>> = vec![];
    for i in 0..n {
        let mut o = In::new();
        o.segs.push((TEXT, any_start(4), vec![0xa0 + i as u8, 0, 0, any_u8()]));
        o.segs.push((0, any_start(1), vec![0xb0 + i as u8]));
        o.syms.push(Sy { name: DEFS[i], global: true, seg: Some(0), off: 0 });
        o.syms.push(Sy { name: "i", global: false, seg: Some(TEXT), off: 0 });
        let mut r = vec![];
        for &d in DEFS[..n].iter().chain(["m", "u"].iter()) {
            if d != DEFS[i] && (n < 3 || d != "u" || i == 0) && choice(2) == 1 {
                if r.is_empty() {
                    o.rels.push((TEXT, 1, o.syms.len()));
                }
                o.syms.push(Sy { name: d, global: true, seg: None, off: 0 });
                r.push(d);
            }
        }
        refs.push(r);
        ms.push(o);
    }
    let mut main = In::new();
    main.segs.push((TEXT, any_start(5), any_bytes(5)));
    main.entry = Some((TEXT, any_off(5)));
    let has_m = choice(2) == 1;
    if has_m {
        main.syms.push(Sy { name: "m", global: true, seg: Some(TEXT), off: any_off(5) });
    }
    let mut wanted: Vec<&'static str> = vec![];
    for d in &DEFS[..n] {
        if choice(2) == 1 {
            if wanted.is_empty() {
                main.rels.push((TEXT, 2, main.syms.len()));
            }
            main.syms.push(Sy { name: d, global: true, seg: None, off: 0 });
            wanted.push(d);
        }
    }
    // the same names inside are nobody's business
    main.syms.push(Sy { name: ["a", "u"][choice(2) as usize], global: false, seg: Some(TEXT), off: 1 });
    main.save("0.to");
    let mut args = vec!["tl", "0.to", "-o", "out.to"];
    if exec != 0 {
        args.push("-e");
    }
    const MF: [&str; 3] = ["m1.to", "m2.to", "m3.to"];
    for i in 0..n {
        ms[i].save(MF[i]);
    }
    let mut f = vec!["tar", "-o", "x.tar"];
    f.extend_from_slice(&MF[..k as usize]);
    check("archive-made", sym::run(&f) == 0);
    args.extend_from_slice(&["-l", "x.tar"]);
    if (k as usize) < n {
        let mut f = vec!["tar", "-o", "y.tar"];
        f.extend_from_slice(&MF[k as usize..n]);
        check("archive-made", sym::run(&f) == 0);
        args.extend_from_slice(&["-l", "y.tar"]);
    }
    let rc = sym::run(&args);
    // the members needed: a chain of undefined references leads there
    let mut need = [false; 3];
    loop {
        let mut more = false;
        for i in 0..n {
            if !need[i] && (wanted.contains(&DEFS[i])
                || (0..n).any(|j| need[j] && refs[j].contains(&DEFS[i]))
                || has_m && refs[i].contains(&"m"))
            {
                need[i] = true;
                more = true;
            }
        }
        if !more {
            break;
        }
    }
    let mut ins = vec![&main];
    for i in 0..n {
        if need[i] {
            ins.push(&ms[i]);
        }
    }
    let undefined = Linked::new(ins.clone(), 128, false).undefined();
    if exec != 0 && undefined {
        check("undefined-reported", rc != 0);
        cover("undefined");
        return;
    }
    check("linked", rc == 0);
    let Ok(o) = Object::from_file("out.to").map_err(std::mem::forget) else {
        check("output-readable", false);
        return;
    };
    // members come after the inputs in whatever order
    let empty: (u16, Vec<u8>) = (0, vec![]);
    let d = &o.segs.get(&SEGS[0]).unwrap_or(&empty).1;
    let total = need.iter().filter(|x| **x).count();
    check("exactly-the-needed-members", d.len() == total);
    let mut order: Vec<&In> = vec![&main];
    for b in d {
        let i = b.wrapping_sub(0xb0) as usize;
        check("member-needed", i < n && need[i]);
        if i < n {
            order.push(&ms[i]);
        }
    }
    let l = Linked::new(order, 128, false);
    check("member-once", !l.duplicate());
    if !l.duplicate() {
        l.check(&o, l.entry());
    }
    cover(if total == n { "all" } else if total == 0 { "none" } else { "some" });
    std::mem::forget(o);
    std::mem::forget((ms, main));
}
fn any_name(max: u64) -> &'static str {
    let n = 1 + choice(max) as usize;
    let v: Vec<u8> = (0..n)
        .map(|_| {
            let c = any_u8();
            assume(and(c > b' ', c < 0x7f));
            c
        })
        .collect();
    String::from_utf8(v).unwrap_or_default().leak()
}
/// Names of up to `max` printable characters.
pub fn words(max: u64, exec: u64) {
    let eq = |a: &str, b: &str| sym::same(a.as_bytes(), b.as_bytes());
    let mut main = In::new();
    main.segs.push((TEXT, any_start(5), any_bytes(5)));
    main.entry = Some((TEXT, 0));
    let mut lib = In::new();
    lib.segs.push((TEXT, any_start(4), any_bytes(4)));
    let mut other = In::new();
    other.segs.push((TEXT, any_start(1), any_bytes(1)));
    let (u, i) = (any_name(max), any_name(max));
    assume(!eq(u, i));
    main.syms.push(Sy { name: u, global: true, seg: None, off: 0 });
    main.syms.push(Sy { name: i, global: false, seg: Some(TEXT), off: 4 });
    main.rels.push((TEXT, 1, 0));
    main.rels.push((TEXT, 3, 1));
    let (d, e) = (any_name(max), any_name(max));
    lib.syms.push(Sy { name: d, global: true, seg: Some(TEXT), off: 3 });
    other.syms.push(Sy { name: e, global: choice(2) == 0, seg: Some(TEXT), off: 0 });
    main.save("0.to");
    lib.save("1.to");
    other.save("2.to");
    let mut args = vec!["tl", "-o", "out.to"];
    if exec != 0 {
        args.push("-e");
    }
    args.extend_from_slice(&FILES[..3]);
    let ins = vec![main, lib, other];
    link(&args, &Linked::new(ins.iter().collect(), 128, false), "out.to", exec != 0, None);
    std::mem::forget(ins);
}
/// Names of up to `max` printable characters, two definitions in an archive.
pub fn words_archive(max: u64, exec: u64) {
    let eq = |a: &str, b: &str| sym::same(a.as_bytes(), b.as_bytes());
    let mut main = In::new();
    main.segs.push((TEXT, 0x80, any_bytes(5)));
    main.entry = Some((TEXT, 0));
    let mut ms = vec![In::new(), In::new()];
    let (u, i, w, d, e) = (any_name(max), any_name(1), any_name(1), any_name(max), any_name(max));
    assume(and(!eq(u, i), and(!eq(d, e), and(!eq(w, d), !eq(w, u)))));
    main.syms.push(Sy { name: i, global: false, seg: Some(TEXT), off: 4 });
    main.syms.push(Sy { name: u, global: true, seg: None, off: 0 });
    main.rels.push((TEXT, 1, 1));
    for k in 0..2 {
        ms[k].segs.push((TEXT, 0x80, any_bytes(4)));
        ms[k].segs.push((0, 0x100, vec![0xb0 + k as u8]));
        ms[k].syms.push(Sy { name: [d, e][k], global: true, seg: Some(0), off: 0 });
    }
    ms[0].syms.push(Sy { name: w, global: true, seg: None, off: 0 });
    ms[0].rels.push((TEXT, 1, 1));
    main.save("0.to");
    ms[0].save("1.to");
    ms[1].save("2.to");
    let swap = choice(2) == 1;
    let m = if swap { ["2.to", "1.to"] } else { ["1.to", "2.to"] };
    check("archive-made", sym::run(&["tar", "-o", "x.tar", m[0], m[1]]) == 0);
    let mut args = vec!["tl", "0.to", "-l", "x.tar", "-o", "out.to"];
    if exec != 0 {
        args.push("-e");
    }
    let rc = sym::run(&args);
    let first = eq(u, d);
    let second = eq(u, e) || first && eq(w, e);
    let mut ins = vec![&main];
    if first {
        ins.push(&ms[0]);
    }
    if second {
        ins.push(&ms[1]);
    }
    if exec != 0 && Linked::new(ins.clone(), 128, false).undefined() {
        check("undefined-reported", rc != 0);
        cover("undefined");
    } else {
        check("linked", rc == 0);
        let Ok(o) = Object::from_file("out.to").map_err(std::mem::forget) else {
            check("output-readable", false);
            return;
        };
        let empty: (u16, Vec<u8>) = (0, vec![]);
        let got = &o.segs.get(&SEGS[0]).unwrap_or(&empty).1;
        check("exactly-the-needed-members", got.len() == first as usize + second as usize);
        let mut order: Vec<&In> = vec![&main];
        for b in got {
            let i = b.wrapping_sub(0xb0) as usize;
            check("member-needed", i == 0 && first || i == 1 && second);
            if i < 2 {
                order.push(&ms[i]);
            }
        }
        let l = Linked::new(order, 128, false);
        check("member-once", !l.duplicate());
        if !l.duplicate() {
            l.check(&o, l.entry());
        }
        cover(match (first, second) { (true, true) => "both", (false, false) => "none", _ => "one" });
        std::mem::forget(o);
    }
    std::mem::forget((ms, main));
}
