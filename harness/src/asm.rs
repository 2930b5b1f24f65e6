//! The assembler, as a library.
use crate::sym::{self, *};
use telda2::aalv::obj::SegmentType;
use telda2::aalv::obj::Object;
use telda2::source::{process, SymbolType, write_data_operand, DataLine, ProcessedSource, SourceLines, Wide};

pub const BREGS: [&str; 16] = ["r0b", "r1l", "r1h", "r2l", "r2h", "r3l", "r3h", "r4l", "r4h", "r5l", "r5h", "r6b", "r7b", "r8b", "r9b", "r10b"];
pub const WREGS: [&str; 16] = ["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "rs", "rl", "rf", "rp", "rh"];

/// mnemonic, operand kinds, opcode. b, w: registers; i: byte immediate; n: wide immediate or label
pub const FORMS: &[(&str, &str, u8)] = &[
    ("null", "", 0x00),
    ("halt", "", 0x0a),
    ("ctf", "", 0x0b),
    ("syscall", "", 0x0c),
    ("reth", "", 0x0d),
    ("nop", "", 0x20),
    ("push", "b", 0x21),
    ("push", "w", 0x22),
    ("pop", "b", 0x23),
    ("pop", "w", 0x24),
    ("call", "n", 0x25),
    ("ret", "", 0x26),
    ("ret", "i", 0x26),
    ("store", "wnb", 0x27),
    ("store", "wnw", 0x28),
    ("store", "wwb", 0x29),
    ("store", "www", 0x2a),
    ("str", "wnb", 0x27),
    ("str", "wnw", 0x28),
    ("str", "wwb", 0x29),
    ("str", "www", 0x2a),
    ("load", "bwn", 0x2b),
    ("load", "wwn", 0x2c),
    ("load", "bww", 0x2d),
    ("load", "www", 0x2e),
    ("jez", "n", 0x2f),
    ("jlt", "n", 0x30),
    ("jle", "n", 0x31),
    ("jgt", "n", 0x32),
    ("jge", "n", 0x33),
    ("jnz", "n", 0x34),
    ("jne", "n", 0x34),
    ("jo", "n", 0x35),
    ("jno", "n", 0x36),
    ("jb", "n", 0x39),
    ("jc", "n", 0x39),
    ("jae", "n", 0x38),
    ("jnc", "n", 0x38),
    ("ja", "n", 0x37),
    ("jbe", "n", 0x3a),
    ("ldi", "bi", 0x3f),
    ("ldi", "wn", 0x40),
    ("jmp", "n", 0x40),
    ("jmp", "w", 0x40),
    ("jump", "n", 0x40),
    ("jump", "w", 0x40),
    ("add", "bbb", 0x41),
    ("add", "www", 0x42),
    ("sub", "bbb", 0x43),
    ("sub", "www", 0x44),
    ("and", "bbb", 0x45),
    ("and", "www", 0x46),
    ("or", "bbb", 0x47),
    ("or", "www", 0x48),
    ("xor", "bbb", 0x49),
    ("xor", "www", 0x4a),
    ("shl", "bbb", 0x4b),
    ("shl", "www", 0x4c),
    ("asr", "bbb", 0x4d),
    ("asr", "www", 0x4e),
    ("lsr", "bbb", 0x4f),
    ("lsr", "www", 0x50),
    ("div", "bbbb", 0x51),
    ("div", "wwww", 0x52),
    ("mul", "bbbb", 0x53),
    ("mul", "wwww", 0x54),
];

pub fn parse(text: &[u8]) -> Result<ProcessedSource, ()> {
    process(SourceLines::from_reader(text)).map_err(|e| std::mem::forget(e))
}

/// The bytes of every segment, as the compiler tool lays them out.
pub fn emit(p: &ProcessedSource, st: SegmentType) -> Vec<u8> {
    let mut v = Vec::with_capacity(64);
    if let Some(s) = p.dls.get(&st) {
        for l in &s.lines {
            match l {
                DataLine::Raw(b) => v.extend_from_slice(b),
                DataLine::Wide(Wide::Number(w)) => v.extend_from_slice(&w.to_le_bytes()),
                DataLine::Wide(Wide::Label(id)) => v.extend_from_slice(&p.labels[*id].3.to_le_bytes()),
                DataLine::Ins(op, d) => {
                    v.push(*op);
                    write_data_operand(st, &mut v, |id, _| p.labels[id].3, *d);
                }
            }
        }
    }
    v
}

fn hexdigit(n: u8) -> u8 {
    sym::ite(n < 10, (n + b'0') as u64, (n + (b'a' - 10)) as u64) as u8
}

const W: usize = 7;
struct Operand {
    k: u8, // 0-15 byte register, 16-31 wide register, 32 wide literal, 33 byte literal, 34 plain number, 35 label
    v: u16,
}
impl Operand {
    fn any(kinds: u64, left: bool) -> (Self, [u8; W]) {
        const fn table(left: bool) -> [[u8; W]; 36] {
            let mut t = [[b' '; W]; 36];
            let mut k = 0;
            while k < 36 {
                let s = if k < 16 {
                    BREGS[k].as_bytes()
                } else if k < 32 {
                    WREGS[k - 16].as_bytes()
                } else {
                    [b"0x", b"0x", b"0x" as &[u8], b"lab"][k - 32]
                };
                let at = if !left && (k < 32 || k == 35) { W - s.len() } else { 0 };
                let mut i = 0;
                while i < s.len() {
                    t[k][at + i] = s[i];
                    i += 1;
                }
                k += 1;
            }
            t
        }
        static LEFT: [[u8; W]; 36] = table(true);
        static RIGHT: [[u8; W]; 36] = table(false);
        let k = match kinds {
            0 => int(4) as u8,
            1 => 16 + int(4) as u8,
            n => 30 + n as u8,
        };
        let v = int(16) as u16;
        let mut t = if left { LEFT[k as usize] } else { RIGHT[k as usize] };
        let (h, l) = ((v >> 8) as u8, v as u8);
        match kinds {
            2 => {
                t[2..6].copy_from_slice(&[hexdigit(h >> 4), hexdigit(h & 15), hexdigit(l >> 4), hexdigit(l & 15)]);
                t[6] = b'w';
            }
            3 => {
                t[2..5].copy_from_slice(&[hexdigit(l >> 4), hexdigit(l & 15), b'b']);
                assume(h == 0);
            }
            4 => {
                t[2..6].copy_from_slice(&[hexdigit(h >> 4), hexdigit(h & 15), hexdigit(l >> 4), hexdigit(l & 15)]);
                assume(l & 15 != 11);
            }
            _ => {}
        }
        (Operand { k, v }, t)
    }
    fn is(&self, c: u8) -> bool {
        match c {
            b'b' => self.k < 16,
            b'w' => self.k >= 16 && self.k < 32,
            b'i' => self.k == 33 || self.k == 34,
            _ => self.k == 32 || self.k == 34 || self.k == 35,
        }
    }
    fn reg(&self) -> u8 {
        self.k & 15
    }
    fn wide(&self) -> u16 {
        if self.k == 35 {
            0x80
        } else {
            self.v
        }
    }
}

/// Every mnemonic with every list of up to `max` operands.
pub fn instr(max: u64) {
    let m = choice(NAMES.len() as u64) as usize;
    let n = choice(max + 1) as usize;
    instr_one(NAMES[m], n);
}
const NAMES: &[&str] = &[
    "null", "halt", "ctf", "syscall", "reth", "nop", "push", "pop", "call", "ret", "store", "str", "load", "jez", "jlt", "jle", "jgt",
    "jge", "jnz", "jne", "jo", "jno", "jb", "jc", "jae", "jnc", "ja", "jbe", "ldi", "jmp", "jump", "add", "sub", "and", "or", "xor",
    "shl", "asr", "lsr", "div", "mul",
];

fn instr_one(name: &str, n: usize) {
    let mut text: Vec<u8> = Vec::with_capacity(96);
    text.extend_from_slice(b".seg text\nlab:\n");
    text.extend_from_slice(name.as_bytes());
    let mut ops: Vec<Operand> = Vec::with_capacity(6);
    // long lists: registers of one width, one of four possibly of another kind
    let base = if n < 4 { 0 } else { choice(2) };
    let odd = if n == 4 { choice(5) as usize } else { n };
    let odd_kind = if odd < n { choice(3) } else { 0 };
    for i in 0..n {
        text.push(if i == 0 { b' ' } else { b',' });
        let kind = if n < 4 {
            choice(6)
        } else if i == odd {
            [1 - base, 4, 5][odd_kind as usize]
        } else {
            base
        };
        let (o, t) = Operand::any(kind, i == 0 && n > 1); // the argument list's extent does not depend on the names
        text.extend_from_slice(&t);
        ops.push(o);
    }
    text.push(b'\n');
    let form = FORMS.iter().find(|f| {
        f.0 == name && f.1.len() == n && f.1.bytes().zip(&ops).all(|(c, o)| o.is(c))
    });
    // the jump to a register cannot name r0
    let r0 = form.map_or(false, |f| f.2 == 0x40 && f.1 == "w" && ops[0].reg() == 0);
    let r = parse(&text);
    let Some(f) = form else {
        check("wrong-operands-rejected", r.is_err());
        cover("rejected");
        std::mem::forget(r);
        return;
    };
    if r0 {
        check("jump-to-r0-rejected", r.is_err());
        std::mem::forget(r);
        return;
    }
    check("accepted", r.is_ok());
    let Ok(p) = r else { return };
    let got = emit(&p, SegmentType::Text);
    let mut want = vec![f.2];
    let mut regs: Vec<u8> = f.1.bytes().zip(&ops).filter(|(c, _)| *c == b'b' || *c == b'w').map(|(_, o)| o.reg()).collect();
    if f.2 == 0x40 {
        match (f.0, f.1) {
            ("ldi", _) => {}
            (_, "w") => regs.push(1),
            _ => regs = vec![0, 1],
        }
    }
    for c in regs.chunks(2) {
        want.push(c[0] << 4 | c.get(1).copied().unwrap_or(0));
    }
    let mut number_too_big = false;
    for (c, o) in f.1.bytes().zip(&ops) {
        if c == b'i' {
            want.push(o.v as u8);
            number_too_big = o.v > 255;
        }
        if c == b'n' {
            want.extend_from_slice(&o.wide().to_le_bytes());
        }
    }
    match (f.2, f.1) {
        (0x26, "") => want.push(0),
        (0x40, "w") => want.extend_from_slice(&[0, 0]),
        _ => {}
    }
    check("length", got.len() == want.len());
    check("size-recorded", p.dls.get(&SegmentType::Text).map_or(false, |s| s.size as usize == want.len()));
    if got.len() == want.len() {
        check("encoding", or(number_too_big, same(&got, &want)));
    }
    cover("encoded");
    for b in &got {
        sym::trace(*b as u64);
    }
    std::mem::forget(p);
}

#[derive(Clone, Copy, PartialEq)]
enum Lit {
    Byte(u8),
    Wide(u16),
    Number(i64),
    Other, // a name or malformed
}
fn digit(c: u8) -> u8 {
    match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'z' => c - b'a' + 10,
        b'A'..=b'Z' => c - b'A' + 10,
        _ => 99,
    }
}
/// [+-] digits
fn integer(s: &[u8], radix: u8) -> Option<i64> {
    let (neg, d) = match s {
        [b'-', d @ ..] => (true, d),
        [b'+', d @ ..] => (false, d),
        d => (false, d),
    };
    let mut n = 0i64;
    let mut ok = !d.is_empty();
    for &c in d {
        let v = digit(c);
        ok = and(ok, v < radix);
        n = n.wrapping_mul(radix as i64).wrapping_add(v as i64);
    }
    if ok {
        Some(if neg { -n } else { n })
    } else {
        None
    }
}
fn hexpair(h: u8, l: u8) -> Option<u8> {
    let (h, l) = (digit(h), digit(l));
    if and(h < 16, l < 16) {
        Some(h << 4 | l)
    } else {
        None
    }
}
/// One character of a string or character literal and its length.
fn character(s: &[u8]) -> Option<(u8, usize)> {
    match s {
        [] => None,
        [b'\\', rest @ ..] => match rest {
            [b'x', h, l, ..] => Some((hexpair(*h, *l)?, 4)),
            [b'n', ..] => Some((10, 2)),
            [b't', ..] => Some((9, 2)),
            [b'r', ..] => Some((13, 2)),
            [b'0', ..] => Some((0, 2)),
            [c, ..] if *c == b'\\' || *c == b'\'' || *c == b'"' => Some((*c, 2)),
            _ => None,
        },
        [c, ..] => Some((*c, 1)),
    }
}
fn literal(s: &[u8]) -> Lit {
    if s.len() >= 2 && s[0] == b'\'' && s[s.len() - 1] == b'\'' {
        return match character(&s[1..s.len() - 1]) {
            Some((c, n)) if n == s.len() - 2 => Lit::Byte(c),
            _ => Lit::Other,
        };
    }
    let (radix, d) = match s {
        [b'0', b'x', d @ ..] => (16, d),
        [b'0', b'b', d @ ..] => (2, d),
        [b'0', b'o', d @ ..] => (8, d),
        d => (10, d),
    };
    match d {
        [n @ .., b'b'] => match integer(n, radix) {
            Some(v) if and(v >= -128, v <= 255) => Lit::Byte(v as u8),
            _ => Lit::Other,
        },
        [n @ .., b'w'] => match integer(n, radix) {
            Some(v) if and(v >= -32768, v <= 65535) => Lit::Wide(v as u16),
            _ => Lit::Other,
        },
        n => match integer(n, radix) {
            Some(v) if and(v >= i32::MIN as i64, v <= i32::MAX as i64) => Lit::Number(v),
            _ => Lit::Other,
        },
    }
}

const DIRECTIVES: [&[u8]; 5] = [b".byte ", b".wide ", b".word ", b"ldi r1l, ", b"ldi r1, "];
/// What the directive or instruction assembles to: known bytes, rejected, or either (a plain number beyond the range).
fn literal_in(which: usize, s: &[u8]) {
    let mut text = Vec::with_capacity(64);
    text.extend_from_slice(b".seg data\n");
    text.extend_from_slice(DIRECTIVES[which]);
    text.extend_from_slice(s);
    text.push(b'\n');
    let r = parse(&text);
    let l = literal(s);
    let byte = which == 0 || which == 3;
    let (value, any) = match l {
        Lit::Byte(b) if byte => (Some(b as u16), false),
        Lit::Wide(w) if !byte => (Some(w), false),
        Lit::Number(n) if byte => (Some(n as u8 as u16), or(n < -128, n > 255)),
        Lit::Number(n) => (Some(n as u16), or(n < -32768, n > 65535)),
        _ => (None, false),
    };
    match (r, value) {
        (Ok(p), Some(v)) => {
            let got = emit(&p, SegmentType::Data);
            let mut want = vec![];
            match which {
                3 => want.extend_from_slice(&[0x3f, 0x10]),
                4 => want.extend_from_slice(&[0x40, 0x10]),
                _ => {}
            }
            want.push(v as u8);
            if !byte {
                want.push((v >> 8) as u8);
            }
            check("literal-length", got.len() == want.len());
            if got.len() == want.len() {
                check("literal-value", or(any, same(&got, &want)));
            }
            for b in &got {
                sym::trace(*b as u64);
            }
            cover("value");
            std::mem::forget(p);
        }
        (Ok(_), None) => check("malformed-literal-rejected", false),
        (Err(()), None) => cover("rejected"),
        (Err(()), Some(_)) => check("literal-accepted", any),
    }
}
fn printable() -> u8 {
    let c = any_u8();
    assume(and(c > 0x20, c < 0x7f));
    c
}
/// Any text of up to `n` printable characters as a literal.
pub fn lit_any(n: u64) {
    let which = choice(5) as usize;
    let k = 1 + choice(n) as usize;
    let mut s = Vec::with_capacity(16);
    for i in 0..k {
        let c = printable();
        if which >= 3 {
            assume(c != b',');
            if i + 1 == k {
                assume(c != b':');
            }
        }
        s.push(c);
    }
    literal_in(which, &s);
    std::mem::forget(s);
}
/// Prefix, sign, digits and suffix.
pub fn lit_form(n: u64) {
    let which = choice(2) as usize;
    let mut s = Vec::with_capacity(24);
    let p = choice(4) as usize;
    s.extend_from_slice([b"" as &[u8], b"0x", b"0b", b"0o"][p]);
    s.extend_from_slice([b"" as &[u8], b"-", b"+"][choice(3) as usize]);
    let k = 1 + choice(n) as usize;
    for _ in 0..k {
        let c = printable();
        // digits of the radix and their neighbours
        assume(or(and(c >= b'/', c <= b':'), and(p == 1, or(and(c >= b'@', c <= b'G'), and(c >= b'`', c <= b'g')))));
        s.push(c);
    }
    s.extend_from_slice([b"" as &[u8], b"b", b"w"][choice(3) as usize]);
    literal_in(which, &s);
    std::mem::forget(s);
}
/// A string of `n` characters.
pub fn string(n: u64) {
    let k = choice(n + 1) as usize;
    let mut s = Vec::with_capacity(16);
    for i in 0..k {
        let c = any_u8();
        assume(and(c >= 0x20, c < 0x7f));
        if i + 1 == k {
            assume(c != 0x20);
        }
        s.push(c);
    }
    let mut text = Vec::with_capacity(64);
    text.extend_from_slice(b".seg rodata\n.byte 1\n.string ");
    text.extend_from_slice(&s);
    text.extend_from_slice(b"\nend:\n.byte 2\n");
    let r = parse(&text);
    let mut want = vec![1];
    let mut i = 0;
    let mut ok = true;
    while i < s.len() {
        match character(&s[i..]) {
            Some((c, n)) => {
                want.push(c);
                i += n;
            }
            None => {
                ok = false;
                break;
            }
        }
    }
    check("string-accepted", r.is_ok() == ok);
    if let Ok(p) = r {
        check("label-after-string", p.labels[0].3 == 0x80 + want.len() as u16);
        want.push(2);
        let got = emit(&p, SegmentType::RoData);
        check("string-length", got.len() == want.len());
        if got.len() == want.len() {
            check("string-bytes", same(&got, &want));
        }
        cover("string");
        for b in &got {
            sym::trace(*b as u64);
        }
        std::mem::forget(p);
    } else {
        cover("bad-string");
    }
}

const SEGS: [SegmentType; 4] = [SegmentType::Data, SegmentType::RoData, SegmentType::Text, SegmentType::Heap];
const SEG_LINES: [&str; 4] = [".seg data", ".seg rodata", ".seg text", ".seg heap"];
const BAD: [&str; 10] = [
    ".seg bss", ".foo", "foo", "add r1, r2", ".byte 1w", ".string \\q", "ldi 1, r1", ".", ".seg", ".wide 7b",
];
const BLANK: [&str; 5] = ["", "; .byte 1", "// x:", "  # y:", "\t"];

enum Part {
    Bytes(Vec<u8>),
    Ref(u8),
}
/// What a sequence of lines means, kept independently of the assembler.
struct Model {
    cur: usize, // 4: none
    exists: [bool; 4],
    size: [usize; 4],
    parts: [Vec<Part>; 4],
    defs: Vec<(u8, usize, usize)>,
    names: Vec<u8>,
    used: Vec<u8>,
    global: Vec<u8>,
    extern_: Vec<u8>,
    entry: Option<(usize, usize)>,
    err: bool,
}
impl Model {
    fn new() -> Self {
        Model {
            cur: 4,
            exists: [false; 4],
            size: [0; 4],
            parts: [vec![], vec![], vec![], vec![]],
            defs: vec![],
            names: vec![],
            used: vec![],
            global: vec![],
            extern_: vec![],
            entry: None,
            err: false,
        }
    }
    fn name(&mut self, n: u8) {
        if !self.names.iter().any(|&x| x == n) {
            self.names.push(n);
        }
    }
    fn bytes(&mut self, b: &[u8]) {
        self.part(Part::Bytes(b.to_vec()), b.len());
    }
    fn part(&mut self, p: Part, n: usize) {
        if self.cur == 4 {
            self.err = true;
            return;
        }
        self.exists[self.cur] = true;
        self.parts[self.cur].push(p);
        self.size[self.cur] += n;
    }
    fn reference(&mut self, n: u8) {
        self.name(n);
        self.used.push(n);
        self.part(Part::Ref(n), 2);
    }
    fn label(&mut self, n: u8) {
        self.name(n);
        if self.cur == 4 || self.defs.iter().any(|d| d.0 == n) {
            self.err = true;
            return;
        }
        self.exists[self.cur] = true;
        self.defs.push((n, self.cur, self.size[self.cur]));
    }
    fn entry(&mut self) {
        if self.cur == 4 || self.entry.is_some() {
            self.err = true;
            return;
        }
        self.exists[self.cur] = true;
        self.entry = Some((self.cur, self.size[self.cur]));
    }
    fn starts(&self) -> Option<[usize; 4]> {
        let mut end = 0x80;
        let mut r = [0; 4];
        for i in 0..4 {
            if self.exists[i] {
                r[i] = (end + 0x7f) / 0x80 * 0x80;
                end = r[i] + self.size[i];
                if end > 0xffff {
                    return None;
                }
            }
        }
        Some(r)
    }
    fn check(self, text: &[u8]) {
        self.check_of(parse(text))
    }
    /// Whether the source is accepted; where its segments start.
    fn verdict(&self) -> Option<[usize; 4]> {
        let undefined = self.used.iter().any(|&u| {
            !self.defs.iter().any(|d| d.0 == u) && !self.global.iter().any(|&g| g == u) && !self.extern_.iter().any(|&g| g == u)
        });
        let contradicting = self.extern_.iter().any(|&r| self.defs.iter().any(|d| d.0 == r));
        if self.err || undefined || contradicting {
            return None;
        }
        self.starts()
    }
    /// The object the compiler tool made of the source.
    fn check_object(&self, o: &Object, starts: [usize; 4]) {
        let mut relocs: Vec<(usize, usize, u8)> = vec![];
        for i in 0..4 {
            let Some((start, got)) = o.segs.get(&SEGS[i]) else {
                check("segment-present", self.size[i] == 0);
                continue;
            };
            check("segment-size", got.len() == self.size[i]);
            if !self.exists[i] || got.len() != self.size[i] {
                continue;
            }
            check("segment-start", *start as usize == starts[i]);
            let mut at = 0;
            for q in &self.parts[i] {
                match q {
                    Part::Bytes(b) => {
                        check("bytes", same(&got[at..at + b.len()], b));
                        at += b.len();
                    }
                    Part::Ref(n) => {
                        if let Some(d) = self.defs.iter().find(|d| d.0 == *n) {
                            let a = starts[d.1] + d.2;
                            check("reference", same(&got[at..at + 2], &[a as u8, (a >> 8) as u8]));
                        }
                        relocs.push((i, starts[i] + at, *n));
                        at += 2;
                    }
                }
            }
        }
        check("no-other-segment", o.segs.keys().all(|t| SEGS.iter().any(|x| x == t)));
        check("symbol-count", o.symbols.0.len() == self.names.len());
        let mut index: Vec<(u8, usize)> = vec![];
        for &n in &self.names {
            let Some(k) = o.symbols.0.iter().position(|l| l.name.as_bytes() == [n]) else {
                check("symbol-present", false);
                continue;
            };
            index.push((n, k));
            let l = &o.symbols.0[k];
            match self.defs.iter().find(|d| d.0 == n) {
                Some(d) => {
                    check("symbol-address", l.location as usize == starts[d.1] + d.2);
                    check("symbol-segment", l.segment_type == SEGS[d.1]);
                    check("symbol-visibility", l.is_global == self.global.iter().any(|&g| g == n));
                }
                None => check("undefined-is-global", l.is_global && l.segment_type == SegmentType::Unknown),
            }
        }
        check("relocation-count", o.relocation_table.0.len() == relocs.len());
        for (i, at, n) in relocs {
            let k = index.iter().find(|x| x.0 == n).map_or(usize::MAX, |x| x.1);
            check("relocation-designates-reference", o.relocation_table.0.iter().any(|r| {
                r.reference_segment == SEGS[i] && r.reference_location as usize == at && r.symbol_index as usize == k
            }));
            cover("relocation");
        }
        match (self.entry, &o.entry) {
            (None, None) => {}
            (Some((s, k)), Some(e)) => {
                check("entry", e.1 as usize == starts[s] + k && e.0 == SEGS[s]);
                cover("entry");
            }
            _ => check("entry-present", false),
        }
        check("nothing-else", o.flags.is_none() && o.stack_size.is_none() && o.heap_size.is_none() && o.file_offset == 0);
    }
    fn check_tool(self, text: &[u8]) {
        sym::fs_write("main.telda", text);
        let rc = sym::run(&["tc", "main.telda"]);
        match self.verdict() {
            None => {
                check("failure-reported", rc != 0);
                check("no-object", sym::fs_read("main.to").is_none());
                cover("rejected");
            }
            Some(starts) => {
                check("success-reported", rc == 0);
                match Object::from_file("main.to") {
                    Ok(o) => {
                        self.check_object(&o, starts);
                        std::mem::forget(o);
                    }
                    Err(e) => {
                        std::mem::forget(e);
                        check("object-readable", false);
                    }
                }
                cover("accepted");
            }
        }
        std::mem::forget(self);
    }
    fn check_of(self, r: Result<ProcessedSource, ()>) {
        let undefined = self.used.iter().any(|&u| {
            !self.defs.iter().any(|d| d.0 == u) && !self.global.iter().any(|&g| g == u) && !self.extern_.iter().any(|&g| g == u)
        });
        let contradicting = self.extern_.iter().any(|&r| self.defs.iter().any(|d| d.0 == r));
        let starts = self.starts();
        if self.err || undefined || contradicting || starts.is_none() {
            check("erroneous-rejected", r.is_err());
            cover(if self.err { "bad-line" } else if undefined { "undefined" } else if contradicting { "contradicting" } else { "too-big" });
            std::mem::forget(r);
            std::mem::forget(self);
            return;
        }
        check("correct-accepted", r.is_ok());
        let (Ok(p), Some(starts)) = (r, starts) else { return };
        for i in 0..4 {
            let s = p.dls.get(&SEGS[i]);
            if !self.exists[i] {
                check("no-extra-segment", s.map_or(true, |s| s.size == 0));
                continue;
            }
            let Some(s) = s else {
                check("segment-present", self.size[i] == 0);
                continue;
            };
            check("segment-start", s.start as usize == starts[i]);
            check("segment-size", s.size as usize == self.size[i]);
            let got = emit(&p, SEGS[i]);
            check("emitted-size", got.len() == self.size[i]);
            if got.len() != self.size[i] {
                continue;
            }
            let mut at = 0;
            for q in &self.parts[i] {
                match q {
                    Part::Bytes(b) => {
                        check("bytes", same(&got[at..at + b.len()], b));
                        at += b.len();
                    }
                    Part::Ref(n) => {
                        if let Some(d) = self.defs.iter().find(|d| d.0 == *n) {
                            let a = starts[d.1] + d.2;
                            check("reference", same(&got[at..at + 2], &[a as u8, (a >> 8) as u8]));
                        }
                        at += 2;
                    }
                }
            }
        }
        check("unknown-segment-absent", p.dls.iter().all(|(t, s)| SEGS.iter().any(|x| x == t) || s.size == 0));
        check("label-count", p.labels.len() == self.names.len());
        for &n in &self.names {
            let l: Vec<_> = p.labels.iter().filter(|l| l.0.as_bytes() == [n]).collect();
            check("label-once", l.len() == 1);
            if l.len() != 1 {
                continue;
            }
            let l = l[0];
            match self.defs.iter().find(|d| d.0 == n) {
                Some(d) => {
                    check("label-address", l.3 as usize == starts[d.1] + d.2);
                    check("label-segment", l.2 == SEGS[d.1]);
                    let g = self.global.iter().any(|&g| g == n);
                    check("label-visibility", if g { matches!(l.1, SymbolType::Global) } else { matches!(l.1, SymbolType::Internal) });
                }
                None => {
                    check("undefined-is-reference", matches!(l.1, SymbolType::Reference));
                    check("undefined-has-no-segment", l.2 == SegmentType::Unknown);
                }
            }
        }
        match (self.entry, &p.entry) {
            (None, None) => {}
            (Some((s, o)), Some(e)) => {
                check("entry-address", e.1 as usize == starts[s] + o);
                check("entry-segment", e.0 == SEGS[s]);
                cover("entry");
            }
            _ => check("entry-present", false),
        }
        if !self.defs.is_empty() && !self.used.is_empty() {
            cover("resolved");
        }
        cover("accepted");
        std::mem::forget(p);
        std::mem::forget(self);
    }
}
fn letter() -> u8 {
    let n = any_u8();
    assume(or(and(n >= b'a', n <= b'z'), or(and(n >= b'A', n <= b'Z'), n == b'_')));
    n
}
fn line(text: &mut Vec<u8>, m: &mut Model, kind: u64) {
    let put = |t: &mut Vec<u8>, s: &str| t.extend_from_slice(s.as_bytes());
    match kind {
        0..=3 => {
            put(text, SEG_LINES[kind as usize]);
            m.cur = kind as usize;
        }
        4 => {
            let n = letter();
            text.push(n);
            text.push(b':');
            m.label(n);
        }
        5 => {
            let n = letter();
            put(text, ".wide ");
            text.push(n);
            m.reference(n);
        }
        6 => {
            let n = letter();
            put(text, "call ");
            text.push(n);
            if m.cur == 4 {
                m.name(n);
            } else {
                m.bytes(&[0x25]);
            }
            m.reference(n);
        }
        7 => {
            let n = letter();
            put(text, "load r1, r2, ");
            text.push(n);
            if m.cur == 4 {
                m.name(n);
            } else {
                m.bytes(&[0x2c, 0x12]);
            }
            m.reference(n);
        }
        8 => {
            put(text, ".entry");
            m.entry();
        }
        9 => {
            let n = letter();
            put(text, ".global ");
            text.push(n);
            m.name(n);
            m.global.push(n);
        }
        10 => {
            let n = letter();
            put(text, ".ref ");
            text.push(n);
            m.name(n);
            m.extern_.push(n);
        }
        11 => {
            let (a, b) = (letter(), letter());
            put(text, ".string ");
            text.extend_from_slice(&[a, b, b'c']);
            m.bytes(&[a, b, b'c']);
        }
        12 => {
            put(text, "ret");
            m.bytes(&[0x26, 0]);
        }
        13 => {
            let d = int(4) as u8;
            put(text, ".byte 0x");
            text.push(hexdigit(d));
            assume(d != 11);
            m.bytes(&[d]);
        }
        14 => put(text, BLANK[choice(BLANK.len() as u64) as usize]),
        _ => {
            put(text, BAD[choice(BAD.len() as u64) as usize]);
            m.err = true;
        }
    }
    text.push(b'\n');
}
/// `n` lines of any kind, the first segment chosen in front.
/// The same through the compiler tool.
pub fn compile(n: u64) {
    let mut text = Vec::with_capacity(256);
    let mut m = Model::new();
    let s = choice(5);
    if s < 4 {
        line(&mut text, &mut m, s);
    }
    for i in 0..n {
        line(&mut text, &mut m, choice(if i < 1 { 16 } else { 14 }));
    }
    m.check_tool(&text);
}
/// More references than lines: a function with calls, then n lines.
pub fn compile_after(n: u64) {
    let mut text = Vec::with_capacity(256);
    let mut m = Model::new();
    for k in [2, 4, 5, 6, 7, 0, 5] {
        line(&mut text, &mut m, k);
    }
    for _ in 0..n {
        line(&mut text, &mut m, [1, 2, 4, 5, 8, 9, 10][choice(7) as usize]);
    }
    m.check_tool(&text);
}
/// Several files in one go.
pub fn compile_many(n: u64) {
    const F: [(&str, &str); 3] = [("a.telda", "a.to"), ("b.telda", "b.to"), ("c.telda", "c.to")];
    let mut args = vec!["tc"];
    let mut ms: Vec<Model> = vec![];
    let mut texts: Vec<Option<Vec<u8>>> = vec![];
    for i in 0..n as usize {
        let mut text = Vec::with_capacity(256);
        let mut m = Model::new();
        let k = choice(5);
        args.push(F[i].0);
        if k < 4 {
            line(&mut text, &mut m, 2);
            line(&mut text, &mut m, [4, 5, 12, 8][k as usize]);
            line(&mut text, &mut m, 13);
            sym::fs_write(F[i].0, &text);
            texts.push(Some(text));
        } else {
            texts.push(None);
        }
        ms.push(m);
    }
    let rc = sym::run(&args);
    let mut good = true;
    for i in 0..n as usize {
        match (&texts[i], ms[i].verdict()) {
            (Some(_), Some(starts)) => match Object::from_file(F[i].1) {
                Ok(o) => {
                    ms[i].check_object(&o, starts);
                    std::mem::forget(o);
                }
                Err(e) => {
                    std::mem::forget(e);
                    check("object-readable", false);
                }
            },
            _ => {
                good = false;
                check("no-object", sym::fs_read(F[i].1).is_none());
            }
        }
    }
    check("success-iff-all-compiled", (rc == 0) == good);
    std::mem::forget((ms, texts));
}
pub fn lines(n: u64) {
    let mut text = Vec::with_capacity(256);
    let mut m = Model::new();
    let s = choice(5);
    if s < 4 {
        line(&mut text, &mut m, s);
    }
    for i in 0..n {
        // one erroneous or empty line among the first
        line(&mut text, &mut m, choice(if i < 2 { 16 } else { 14 }));
    }
    m.check(&text);
}
/// The same after a fixed beginning: references and definitions meeting.
pub fn lines_after(n: u64) {
    let mut text = Vec::with_capacity(256);
    let mut m = Model::new();
    for k in [2, 12, 6, 4] {
        line(&mut text, &mut m, k);
    }
    for _ in 0..n {
        line(&mut text, &mut m, [1, 2, 4, 5, 7, 8, 9, 10, 11][choice(9) as usize]);
    }
    m.check(&text);
}
/// Segments of sizes around the page boundaries in every order.
pub fn layout(n: u64) {
    let mut text = Vec::with_capacity(2048);
    let mut m = Model::new();
    let mut left = vec![0u64, 1, 2, 3];
    for i in 0..n {
        let k = left.remove(choice(left.len() as u64) as usize);
        line(&mut text, &mut m, k);
        let size = [0usize, 1, 127, 128, 129][choice(5) as usize];
        filler(&mut text, &mut m, size);
        if i == 0 {
            line(&mut text, &mut m, 8);
        }
        // a label at the segment's end and a reference to some label from there
        let (a, b) = (b'a' + i as u8, letter());
        assume(and(b >= b'a', b < b'a' + n as u8));
        text.extend_from_slice(&[a, b':', b'\n']);
        m.label(a);
        if choice(2) == 0 {
            text.extend_from_slice(b".word ");
            text.extend_from_slice(&[b, b'\n']);
            m.reference(b);
        }
    }
    m.check(&text);
}
fn filler(text: &mut Vec<u8>, m: &mut Model, size: usize) {
    if size > 0 {
        text.extend_from_slice(b".string ");
        let v = vec![b'z'; size];
        text.extend_from_slice(&v);
        text.push(b'\n');
        m.bytes(&v);
    }
}
/// Sizes around the end of the address space.
pub fn big() {
    const CASES: [(usize, usize, usize); 12] = [
        (0xff7e, 0, 0),
        (0xff7f, 0, 0),
        (0xff80, 0, 0),
        (0xffff, 0, 0),
        (0x10000, 0, 0),
        (0x10001, 0, 0),
        (0x8000, 0x7f00, 0x7f),
        (0x8000, 0x7f00, 0x80),
        (0x8000, 0x7f01, 0),
        (0x8000, 0x7f80, 0),
        (0x8000, 0x8000, 0x10),
        (0xff00, 0x7f, 1),
    ];
    let (a, b, c) = CASES[choice(12) as usize];
    let mut text = Vec::with_capacity(0x11000);
    let mut m = Model::new();
    for (i, n) in [a, b, c].into_iter().enumerate() {
        if n > 0 {
            line(&mut text, &mut m, i as u64);
            // in two pieces: the second crosses the limit
            filler(&mut text, &mut m, n - 1);
            filler(&mut text, &mut m, 1);
            text.extend_from_slice(&[b'a' + i as u8, b':', b'\n']);
            m.label(b'a' + i as u8);
        }
    }
    m.check(&text);
}
const STARTS: &[&str] = &[
    "", ".", ".seg ", ".seg data\n.", ".string ", ".byte ", ".wide ", ".seg text\nadd ", ".seg text\nldi r1, ", ".seg text\n", ".global ",
    ".seg data\n.string \\", ".seg data\n.byte '", ".seg data\na:\n", ".ref ",
];
/// Any bytes after a beginning never crash the assembler.
pub fn crash(n: u64) {
    let s = STARTS[choice(STARTS.len() as u64) as usize];
    let mut text = Vec::with_capacity(64);
    text.extend_from_slice(s.as_bytes());
    for _ in 0..n {
        text.push(any_u8());
    }
    let r = parse(&text);
    cover(if r.is_ok() { "accepted" } else { "rejected" });
    match r {
        Ok(p) => {
            for (t, s) in &p.dls {
                check("recorded-size", emit(&p, *t).len() == s.size as usize);
            }
            std::mem::forget(p);
        }
        Err(()) => check("error-reported", true),
    }
}

/// An included file is assembled where it is included, with no segment at its start.
pub fn include(n: u64) {
    let mut text = Vec::with_capacity(256);
    let mut m = Model::new();
    let kind = || [0, 2, 4, 5, 8, 9, 12, 14][choice(8) as usize];
    let s = choice(3);
    if s > 0 {
        line(&mut text, &mut m, s);
    }
    line(&mut text, &mut m, kind());
    let which = choice(3);
    text.extend_from_slice(b".include sub/");
    text.extend_from_slice([b"a.telda\n" as &[u8], b"none.telda\n", b"../main.telda\n"][which as usize]);
    let mut sub = Vec::with_capacity(256);
    let cur = m.cur;
    m.cur = 4;
    for _ in 0..n {
        line(&mut sub, &mut m, kind());
    }
    m.cur = cur;
    m.err |= which > 0;
    line(&mut text, &mut m, kind());
    sym::fs_write("sub/a.telda", &sub);
    sym::fs_write("main.telda", &text);
    m.check_of(SourceLines::new("main.telda").map_err(|e| std::mem::forget(e)).and_then(|l| process(l).map_err(|e| std::mem::forget(e))));
}
/// Every instruction with a label in it.
pub fn compile_forms() {
    let (name, kinds, _) = FORMS[choice(FORMS.len() as u64) as usize];
    let reg = choice(2) as usize;
    let off = choice(3) as usize;
    let mut text: Vec<u8> = Vec::with_capacity(256);
    text.extend_from_slice(b".seg text\n");
    for _ in 0..off {
        text.extend_from_slice(b"nop\n");
    }
    text.extend_from_slice(name.as_bytes());
    for (i, k) in kinds.bytes().enumerate() {
        text.extend_from_slice(if i == 0 { b" " } else { b", " });
        text.extend_from_slice(match k {
            b'b' => [b"r1h" as &[u8], b"r10b"][reg],
            b'w' => [b"r3" as &[u8], b"rs"][reg],
            b'i' => b"0x5",
            _ => b"far",
        });
    }
    text.extend_from_slice(b"\nret\n.seg heap\n.byte 1\nfar:\n.byte 2\n");
    let label = kinds.contains('n');
    sym::fs_write("main.telda", &text);
    check("success-reported", sym::run(&["tc", "main.telda"]) == 0);
    let Ok(o) = Object::from_file("main.to").map_err(std::mem::forget) else {
        check("object-readable", false);
        return;
    };
    let Ok(p) = parse(&text) else {
        check("accepted", false);
        return;
    };
    let want = emit(&p, SegmentType::Text);
    let got = &o.segs[&SegmentType::Text];
    check("text-bytes", same(&got.1, &want));
    let far = o.symbols.0.iter().position(|s| &*s.name == "far").unwrap_or(usize::MAX);
    check("relocation-count", o.relocation_table.0.len() == label as usize);
    if label && o.relocation_table.0.len() == 1 && got.1.len() >= 4 {
        let r = &o.relocation_table.0[0];
        // the reference is the last two bytes before the ret
        let k = got.1.len() - 4;
        check("relocation-designates-reference", r.reference_segment == SegmentType::Text && r.reference_location as usize == got.0 as usize + k && r.symbol_index as usize == far);
        let a = o.segs[&SegmentType::Heap].0 + 1;
        check("reference", same(&got.1[k..k + 2], &a.to_le_bytes()));
        cover("label");
    }
    std::mem::forget((o, p));
}

/// The same program from one source, from three objects and linked in stages.
pub fn staged() {
    let entry = choice(3) as usize;
    let n = 3usize;
    let mut units: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    const G: [&str; 3] = ["ga", "gb", "gc"];
    const L: [&str; 3] = ["la", "lb", "lc"];
    const D: [&str; 3] = ["da", "db", "dc"];
    for i in 0..n {
        let mut t: Vec<u8> = Vec::with_capacity(256);
        let mut r: Vec<u8> = Vec::with_capacity(64);
        let mut put = |s: &[&str]| {
            for x in s {
                t.extend_from_slice(x.as_bytes());
            }
        };
        let j = choice(3) as usize;
        let mut refs = [false; 3];
        refs[j] = true;
        put(&[".global ", G[i], "\n"]);
        let data = choice(4) as usize;
        if data > 0 {
            let k = (i + data) % 3;
            put(&[".seg data\n.byte 9\n", D[i], ":\n.wide ", G[k], "\n"]);
            if data == 3 {
                put(&[".seg rodata\n.wide ", D[i], "\n.byte 7\n"]);
            }
            refs[k] = true;
        }
        put(&[".seg text\n"]);
        if entry == i {
            put(&["nop\n.entry\n"]);
        }
        put(&[L[i], ":\ncall ", G[j], "\n", G[i], ":\njez ", L[i], "\n"]);
        if data > 0 {
            put(&["load r1, r0, ", D[i], "\n"]);
        }
        put(&["ldi r1l, 0x"]);
        let d = int(4) as u8;
        assume(d != 11);
        t.push(hexdigit(d));
        t.extend_from_slice(b"\nret\n");
        for k in 0..n {
            if refs[k] && k != i {
                r.extend_from_slice(b".ref ");
                r.extend_from_slice(G[k].as_bytes());
                r.push(b'\n');
            }
        }
        units.push((t, r));
    }
    const S: [&str; 3] = ["u0.telda", "u1.telda", "u2.telda"];
    let mut one: Vec<u8> = Vec::with_capacity(1024);
    for i in 0..n {
        let mut t = units[i].1.clone();
        t.extend_from_slice(&units[i].0);
        sym::fs_write(S[i], &t);
        one.extend_from_slice(&units[i].0);
    }
    sym::fs_write("one.telda", &one);
    check("compiles", sym::run(&["tc", "one.telda", S[0], S[1], S[2]]) == 0);
    check("links-one", sym::run(&["tl", "-e", "-o", "one", "one.to"]) == 0);
    check("links-split", sym::run(&["tl", "-e", "-o", "split", "u0.to", "u1.to", "u2.to"]) == 0);
    let late = choice(2) == 1;
    let (x, y) = if late { ("u1.to", "u2.to") } else { ("u0.to", "u1.to") };
    let mut a = vec!["tl", "-o", "part.to", x, y];
    if choice(2) == 1 {
        a.push("-S");
    }
    check("links-part", sym::run(&a) == 0);
    let b = if late { ["u0.to", "part.to"] } else { ["part.to", "u2.to"] };
    check("links-stages", sym::run(&["tl", "-e", "-o", "staged", b[0], b[1]]) == 0);
    let (Ok(p), Ok(q), Ok(r)) = (Object::from_file("one"), Object::from_file("split"), Object::from_file("staged")) else {
        check("results-readable", false);
        return;
    };
    for (id, o) in [("split-as-one", &q), ("staged-as-one", &r)] {
        let mut eq = p.segs.len() == o.segs.len();
        for (t, (s, b)) in &p.segs {
            eq = and(eq, o.segs.get(t).map_or(false, |(u, c)| s == u && same(b, c)));
        }
        check(id, eq);
        check("entry-as-one", match (p.entry, o.entry) {
            (Some(a), Some(b)) => a.0 == b.0 && a.1 == b.1,
            _ => false,
        });
    }
    std::mem::forget((p, q, r));
}
fn word(max: u64) -> Vec<u8> {
    let n = 1 + choice(max);
    let mut v = Vec::with_capacity(8);
    for i in 0..n {
        let c = any_u8();
        let letter = or(and(c >= b'a', c <= b'z'), or(and(c >= b'A', c <= b'Z'), c == b'_'));
        if i == 0 {
            assume(and(letter, c != b'r'));
        } else {
            assume(or(letter, or(c == b'.', and(c >= b'0', c <= b'9'))));
        }
        v.push(c);
    }
    v
}
/// Names of up to `max` characters: what designates what.
pub fn names(max: u64) {
    let (a, b, u, d) = (word(max), word(max), word(max), word(max));
    let mut text = Vec::with_capacity(256);
    let mut put = |parts: &[&[u8]]| {
        for p in parts {
            text.extend_from_slice(p);
        }
    };
    put(&[b".seg data\n", &a, b":\n.byte 1\n", &b, b":\n"]);
    let how = choice(3);
    put(&[[b".wide ".as_slice(), b"call ", b"ldi r3, "][how as usize], &u, b"\n"]);
    let dir = choice(3);
    if dir > 0 {
        put(&[[b"".as_slice(), b".global ", b".ref "][dir as usize], &d, b"\n"]);
    }
    let r = parse(&text);
    let at = if how == 0 { 1 } else if how == 1 { 2 } else { 3 };
    let err = same(&a, &b)
        || dir == 2 && (same(&d, &a) || same(&d, &b))
        || !same(&u, &a) && !same(&u, &b) && (dir == 0 || !same(&u, &d));
    check("name-verdict", r.is_err() == err);
    if let (Ok(p), false) = (&r, err) {
        let got = emit(p, SegmentType::Data);
        check("name-size", got.len() == at + 2);
        if same(&u, &a) {
            check("name-designates", same(&got[at..], &[0x80, 0]));
            cover("first");
        } else if same(&u, &b) {
            check("name-designates", same(&got[at..], &[0x81, 0]));
            cover("second");
        }
        for l in &p.labels {
            let n = l.0.as_bytes();
            if same(n, &a) || same(n, &b) {
                check("name-address", l.3 == if same(n, &a) { 0x80 } else { 0x81 });
                let global = dir == 1 && same(n, &d);
                check("name-visibility", if global { matches!(l.1, SymbolType::Global) } else { matches!(l.1, SymbolType::Internal) });
            } else {
                check("name-reference", matches!(l.1, SymbolType::Reference) && dir > 0 && same(n, &d));
                cover("reference");
            }
        }
        cover("accepted");
    } else {
        cover("rejected");
    }
    std::mem::forget((r, text, a, b, u, d));
}
