//! Lazy parser for textual LLVM IR.
use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

pub struct GlobalDef {
    pub ty: Ty,
    pub init: Option<C>,
    pub constant: bool,
    pub align: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SymKind {
    Func { start: usize, end: usize },
    DeclFunc,
    Global { start: usize },
    DeclGlobal { weak: bool },
    Alias { start: usize },
}

pub struct Module {
    pub id: u32,
    pub text: Rc<Vec<u8>>,
    pub names: Vec<String>,
    pub kinds: Vec<SymKind>,
    pub by_name: HashMap<String, u32>,
    pub types: HashMap<String, Ty>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Word(&'a str),
    Local(&'a str),
    Global(&'a str),
    Meta(&'a str),
    Attr,
    Str(&'a [u8]),
    CStr(&'a [u8]),
    P(u8),
    Eof,
}

pub struct Lex<'a> {
    pub s: &'a [u8],
    pub p: usize,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' || c == b'+'
}

impl<'a> Lex<'a> {
    fn ws(&mut self) {
        while self.p < self.s.len() {
            let c = self.s[self.p];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
                self.p += 1;
            } else if c == b';' {
                while self.p < self.s.len() && self.s[self.p] != b'\n' {
                    self.p += 1;
                }
            } else {
                break;
            }
        }
    }
    fn strlit(&mut self) -> &'a [u8] {
        // at opening quote
        let st = self.p + 1;
        self.p = st;
        while self.s[self.p] != b'"' {
            self.p += 1;
        }
        let r = &self.s[st..self.p];
        self.p += 1;
        r
    }
    fn name(&mut self) -> &'a str {
        let st = self.p;
        if self.s[self.p] == b'"' {
            self.strlit();
        } else {
            while self.p < self.s.len() && is_word(self.s[self.p]) {
                self.p += 1;
            }
        }
        unsafe { std::str::from_utf8_unchecked(&self.s[st..self.p]) }
    }
    pub fn next(&mut self) -> Tok<'a> {
        self.ws();
        if self.p >= self.s.len() {
            return Tok::Eof;
        }
        let c = self.s[self.p];
        match c {
            b'%' => {
                self.p += 1;
                Tok::Local(self.name())
            }
            b'@' => {
                self.p += 1;
                Tok::Global(self.name())
            }
            b'!' => {
                self.p += 1;
                if self.p < self.s.len() && (is_word(self.s[self.p])) {
                    Tok::Meta(self.name())
                } else if self.p < self.s.len() && self.s[self.p] == b'"' {
                    self.strlit();
                    Tok::Meta("str")
                } else {
                    Tok::P(b'!')
                }
            }
            b'#' => {
                self.p += 1;
                self.name();
                Tok::Attr
            }
            b'"' => Tok::Str(self.strlit()),
            b'c' if self.s.get(self.p + 1) == Some(&b'"') => {
                self.p += 1;
                Tok::CStr(self.strlit())
            }
            c if is_word(c) => {
                // "..." varargs is words of dots
                Tok::Word(self.name())
            }
            _ => {
                self.p += 1;
                Tok::P(c)
            }
        }
    }
    pub fn peek(&mut self) -> Tok<'a> {
        let p = self.p;
        let t = self.next();
        self.p = p;
        t
    }
    pub fn eat(&mut self, c: u8) -> bool {
        let p = self.p;
        if self.next() == Tok::P(c) {
            true
        } else {
            self.p = p;
            false
        }
    }
    pub fn expect(&mut self, c: u8) {
        let p = self.p;
        if !self.eat(c) {
            let e = (p + 120).min(self.s.len());
            panic!("parse: expected {} at {:?}", c as char, String::from_utf8_lossy(&self.s[p.saturating_sub(60)..e]));
        }
    }
    pub fn eat_word(&mut self, w: &str) -> bool {
        let p = self.p;
        if self.next() == Tok::Word(w) {
            true
        } else {
            self.p = p;
            false
        }
    }
    pub fn skip_line(&mut self) {
        while self.p < self.s.len() && self.s[self.p] != b'\n' {
            self.p += 1;
        }
    }
    /// skip a balanced parenthesised group, at '('
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s[i + 1].is_ascii_hexdigit() {
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            v.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else if s[i] == b'\\' && s.get(i + 1) == Some(&b'\\') {
            v.push(b'\\');
            i += 2;
        } else {
            v.push(s[i]);
            i += 1;
        }
    }
    v
}

fn is_type_word(w: &str) -> bool {
    match w {
        "void" | "ptr" | "float" | "double" | "half" | "x86_fp80" | "fp128" | "metadata" | "token" | "label" | "bfloat" => true,
        _ => w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()),
    }
}

impl Module {
    pub fn load(path: &str, id: u32) -> Module {
        let text = std::fs::read(path).unwrap_or_else(|e| panic!("cannot read {path}: {e}"));
        let mut m = Module { id, text: Rc::new(vec![]), names: vec![], kinds: vec![], by_name: HashMap::new(), types: HashMap::new() };
        let n = text.len();
        let mut p = 0;
        let mut typedefs = vec![];
        while p < n {
            let e = text[p..].iter().position(|&c| c == b'\n').map(|x| p + x).unwrap_or(n);
            let line = &text[p..e];
            if line.starts_with(b"define ") {
                let name = Self::find_fn_name(line);
                // find end: line "}"
                let mut q = e + 1;
                loop {
                    let e2 = text[q..].iter().position(|&c| c == b'\n').map(|x| q + x).unwrap_or(n);
                    if &text[q..e2] == b"}" {
                        m.add(&name, SymKind::Func { start: p, end: e2 });
                        p = e2 + 1;
                        break;
                    }
                    q = e2 + 1;
                }
                continue;
            } else if line.starts_with(b"declare ") {
                let name = Self::find_fn_name(line);
                m.add(&name, SymKind::DeclFunc);
            } else if line.starts_with(b"@") {
                let mut lx = Lex { s: line, p: 1 };
                let name = lx.name().to_string();
                let rest = lx.p;
                let l = std::str::from_utf8(&line[rest..(rest + 200).min(line.len())]).unwrap_or("");
                let l: String = l.chars().take(100).collect();
                let words: Vec<&str> = l.split(' ').collect();
                if words.iter().any(|w| *w == "alias" || *w == "ifunc") {
                    m.add(&name, SymKind::Alias { start: p + rest });
                } else if words.iter().take(4).any(|w| *w == "external" || *w == "extern_weak") {
                    m.add(&name, SymKind::DeclGlobal { weak: words.iter().any(|w| *w == "extern_weak") });
                } else {
                    m.add(&name, SymKind::Global { start: p + rest });
                }
            } else if line.starts_with(b"%") {
                typedefs.push((p, e));
            }
            p = e + 1;
        }
        m.text = Rc::new(text);
        for _ in 0..3 {
            for &(s, e) in &typedefs {
                let t = m.text.clone();
                let mut lx = Lex { s: &t[s..e], p: 1 };
                let name = lx.name().to_string();
                lx.expect(b'=');
                lx.next();
                let ty = m.ty(&mut lx);
                m.types.insert(name, ty);
            }
        }
        m
    }
    fn add(&mut self, name: &str, k: SymKind) {
        let id = self.names.len() as u32;
        self.names.push(name.to_string());
        self.kinds.push(k);
        self.by_name.insert(name.to_string(), id);
    }
    fn find_fn_name(line: &[u8]) -> String {
        // first '@' outside of parens: attribute parens may contain no '@'
        let i = line.iter().position(|&c| c == b'@').unwrap();
        let mut lx = Lex { s: line, p: i + 1 };
        lx.name().to_string()
    }

    pub fn ty(&self, lx: &mut Lex) -> Ty {
        let p0 = lx.p;
        let t = match lx.next() {
            Tok::Word("void") => Ty::Void,
            Tok::Word("ptr") => {
                if lx.eat_word("addrspace") {
                    lx.skip_parens();
                }
                Ty::Ptr
            }
            Tok::Word("float") => Ty::F32,
            Tok::Word("double") => Ty::F64,
            Tok::Word("metadata") => Ty::Other,
            Tok::Word("token") => Ty::Other,
            Tok::Word("label") => Ty::Other,
            Tok::Word(w) if is_type_word(w) && w.starts_with('i') => Ty::Int(w[1..].parse().unwrap()),
            Tok::P(b'[') => {
                let n: u64 = match lx.next() {
                    Tok::Word(w) => w.parse().unwrap(),
                    t => panic!("array len {t:?}"),
                };
                lx.next(); // x
                let e = self.ty(lx);
                lx.expect(b']');
                Ty::Arr(n, Rc::new(e))
            }
            Tok::P(b'{') => {
                let mut fs = vec![];
                if !lx.eat(b'}') {
                    loop {
                        fs.push(self.ty(lx));
                        if lx.eat(b'}') {
                            break;
                        }
                        lx.expect(b',');
                    }
                }
                Ty::Struct(Rc::new(fs), false)
            }
            Tok::P(b'<') => {
                if lx.eat(b'{') {
                    let mut fs = vec![];
                    if !lx.eat(b'}') {
                        loop {
                            fs.push(self.ty(lx));
                            if lx.eat(b'}') {
                                break;
                            }
                            lx.expect(b',');
                        }
                    }
                    lx.expect(b'>');
                    Ty::Struct(Rc::new(fs), true)
                } else {
                    let n: u64 = match lx.next() {
                        Tok::Word(w) => w.parse().unwrap(),
                        t => panic!("vec len {t:?}"),
                    };
                    lx.next();
                    let e = self.ty(lx);
                    lx.expect(b'>');
                    Ty::Vec(n, Rc::new(e))
                }
            }
            Tok::Local(n) => self.types.get(n).cloned().unwrap_or(Ty::Other),
            t => panic!("type expected, got {t:?} near {:?}", String::from_utf8_lossy(&lx.s[p0.saturating_sub(80)..(p0 + 80).min(lx.s.len())])),
        };
        // function type in calls:  ty (args)
        t
    }
    /// skip attribute words until a type or `stop` follows
    fn skip_attrs_to_type(&self, lx: &mut Lex) {
        loop {
            let p = lx.p;
            match lx.next() {
                Tok::Word(w) if is_type_word(w) => {
                    lx.p = p;
                    return;
                }
                Tok::Word(_) => {
                    if lx.peek() == Tok::P(b'(') {
                        lx.skip_parens();
                    }
                }
                Tok::Attr | Tok::Str(_) => {}
                Tok::P(b'=') => {}
                _ => {
                    lx.p = p;
                    return;
                }
            }
        }
    }
    /// skip parameter attributes until the value
    fn skip_attrs_to_value(&self, lx: &mut Lex) {
        loop {
            let p = lx.p;
            match lx.next() {
                Tok::Word(w) => match w {
                    "noundef" | "zeroext" | "signext" | "inreg" | "noalias" | "nofree" | "nonnull" | "readonly" | "writeonly" | "readnone" | "nocapture" | "returned" | "nest" | "swiftself" | "immarg" | "dead_on_unwind" | "dead_on_return" | "writable" | "noext" | "allocptr" | "allocalign" => {
                        if w == "dead_on_return" && lx.peek() == Tok::P(b'(') {
                            lx.skip_parens();
                        }
                    }
                    "align" => {
                        if lx.peek() == Tok::P(b'(') {
                            lx.skip_parens();
                        } else {
                            lx.next();
                        }
                    }
                    "range" | "captures" | "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "initializes" | "elementtype" | "nofpclass" | "alignstack" | "memory" | "byref" => {
                        lx.skip_parens();
                    }
                    _ => {
                        lx.p = p;
                        return;
                    }
                },
                Tok::Str(_) => {
                    if lx.eat(b'=') {
                        lx.next();
                    }
                }
                _ => {
                    lx.p = p;
                    return;
                }
            }
        }
    }

    fn sym_id(&mut self, name: &str) -> u32 {
        if let Some(&i) = self.by_name.get(name) {
            return i;
        }
        self.add(name, SymKind::DeclFunc);
        (self.names.len() - 1) as u32
    }

    pub fn constant(&mut self, lx: &mut Lex, ty: &Ty) -> C {
        let p0 = lx.p;
        match lx.next() {
            Tok::Word("true") => C::Int(1),
            Tok::Word("false") => C::Int(0),
            Tok::Word("null") | Tok::Word("zeroinitializer") | Tok::Word("undef") | Tok::Word("poison") | Tok::Word("none") => C::Zero,
            Tok::Word("splat") => {
                lx.expect(b'(');
                let t = self.ty(lx);
                let c = self.constant(lx, &t);
                lx.expect(b')');
                C::Splat(Box::new(c))
            }
            Tok::Word("getelementptr") => {
                while !lx.eat(b'(') {
                    lx.next();
                    if lx.peek() == Tok::P(b'(') {
                        // could be inrange(...)
                        let p = lx.p;
                        lx.next();
                        if let Tok::Word(w) = lx.peek() {
                            if w.starts_with('-') || w.as_bytes()[0].is_ascii_digit() {
                                lx.p = p;
                                lx.skip_parens();
                                continue;
                            }
                        }
                        lx.p = p;
                    }
                }
                let sty = self.ty(lx);
                lx.expect(b',');
                let pt = self.ty(lx);
                let base = self.constant(lx, &pt);
                let mut off: i64 = 0;
                let mut cur = sty.clone();
                let mut first = true;
                while lx.eat(b',') {
                    lx.eat_word("inrange");
                    let it = self.ty(lx);
                    let ix = match self.constant(lx, &it) {
                        C::Int(v) => sext_c(v, it.bits()),
                        C::Zero => 0,
                        c => panic!("gep const index {c:?}"),
                    };
                    if first {
                        off += ix * sty.size() as i64;
                        first = false;
                    } else {
                        off += cur.field_offset(ix as usize) as i64;
                        cur = cur.field_ty(ix as usize);
                    }
                }
                lx.expect(b')');
                match base {
                    C::Sym(s, o) => C::Sym(s, o + off),
                    C::Zero => C::Int(off as u64 as u128),
                    C::Int(v) => C::Int((v as u64).wrapping_add(off as u64) as u128),
                    c => panic!("gep base {c:?}"),
                }
            }
            Tok::Word(w @ ("inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" | "zext" | "ptrtoaddr")) => {
                lx.expect(b'(');
                let t = self.ty(lx);
                let c = self.constant(lx, &t);
                lx.next(); // to
                let t2 = self.ty(lx);
                lx.expect(b')');
                if w == "trunc" {
                    C::Trunc(Box::new(c), t2.bits())
                } else {
                    c
                }
            }
            Tok::Word(w @ ("add" | "sub" | "mul" | "xor" | "and" | "or" | "shl")) => {
                while !lx.eat(b'(') {
                    lx.next();
                }
                let t = self.ty(lx);
                let a = self.constant(lx, &t);
                lx.expect(b',');
                let t2 = self.ty(lx);
                let b = self.constant(lx, &t2);
                lx.expect(b')');
                C::Bin(binop(w).unwrap(), Box::new(a), Box::new(b), t.bits())
            }
            Tok::Word(w) => {
                let b = w.as_bytes();
                if matches!(ty, Ty::F64 | Ty::F32) {
                    let bits = if let Some(h) = w.strip_prefix("0x") {
                        u64::from_str_radix(h, 16).unwrap()
                    } else {
                        w.parse::<f64>().unwrap_or_else(|_| panic!("float {w}")).to_bits()
                    };
                    if *ty == Ty::F32 {
                        return C::Int((f64::from_bits(bits) as f32).to_bits() as u128);
                    }
                    return C::Int(bits as u128);
                }
                if b[0] == b'-' || b[0].is_ascii_digit() {
                    let bits = match ty {
                        Ty::Int(n) => *n,
                        _ => 64,
                    };
                    let v: i128 = if let Ok(v) = w.parse::<i128>() { v } else { w.parse::<u128>().unwrap() as i128 };
                    let mut u = v as u128;
                    if bits < 128 {
                        u &= (1u128 << bits) - 1;
                    }
                    return C::Int(u);
                }
                if w.starts_with("u0x") || w.starts_with("s0x") {
                    return C::Int(u128::from_str_radix(&w[3..], 16).unwrap());
                }
                panic!("constant word {w:?} near {:?}", String::from_utf8_lossy(&lx.s[p0.saturating_sub(80)..(p0 + 80).min(lx.s.len())]))
            }
            Tok::Global(n) => C::Sym(self.sym_id(n), 0),
            Tok::CStr(s) => C::Bytes(unescape(s)),
            Tok::P(b'{') => {
                let v = self.const_list(lx, b'}');
                C::Agg(v)
            }
            Tok::P(b'[') => {
                let v = self.const_list(lx, b']');
                C::Agg(v)
            }
            Tok::P(b'<') => {
                if lx.eat(b'{') {
                    let v = self.const_list(lx, b'}');
                    lx.expect(b'>');
                    C::Agg(v)
                } else {
                    let v = self.const_list(lx, b'>');
                    C::Agg(v)
                }
            }
            t => panic!("constant {t:?} near {:?}", String::from_utf8_lossy(&lx.s[p0.saturating_sub(80)..(p0 + 80).min(lx.s.len())])),
        }
    }
    fn const_list(&mut self, lx: &mut Lex, close: u8) -> Vec<C> {
        let mut v = vec![];
        if lx.eat(close) {
            return v;
        }
        loop {
            let t = self.ty(lx);
            v.push(self.constant(lx, &t));
            if lx.eat(close) {
                return v;
            }
            lx.expect(b',');
        }
    }

    pub fn global(&mut self, sym: u32) -> GlobalDef {
        let SymKind::Global { start } = self.kinds[sym as usize] else { panic!("not a global") };
        let text = self.text.clone();
        let mut lx = Lex { s: &text, p: start };
        lx.expect(b'=');
        let constant;
        loop {
            match lx.next() {
                Tok::Word("global") => {
                    constant = false;
                    break;
                }
                Tok::Word("constant") => {
                    constant = true;
                    break;
                }
                Tok::P(b'(') => {
                    lx.p -= 1;
                    lx.skip_parens();
                }
                Tok::Word(_) => {}
                t => panic!("global header {t:?}"),
            }
        }
        let ty = self.ty(&mut lx);
        let init = Some(self.constant(&mut lx, &ty));
        let mut align = ty.align();
        // ", align N"
        let rest_start = lx.p;
        lx.skip_line();
        let rest = String::from_utf8_lossy(&text[rest_start..lx.p]).to_string();
        if let Some(i) = rest.find("align ") {
            let d: String = rest[i + 6..].chars().take_while(|c| c.is_ascii_digit()).collect();
            align = d.parse().unwrap_or(align);
        }
        GlobalDef { ty, init, constant, align }
    }
    pub fn alias_target(&mut self, sym: u32) -> u32 {
        let SymKind::Alias { start } = self.kinds[sym as usize] else { panic!() };
        let text = self.text.clone();
        let mut lx = Lex { s: &text, p: start };
        loop {
            match lx.next() {
                Tok::Global(n) => return self.sym_id(n),
                Tok::Eof => panic!("alias"),
                _ => {}
            }
        }
    }

    pub fn func(&mut self, sym: u32) -> Func {
        let SymKind::Func { start, end } = self.kinds[sym as usize] else { panic!("not a function") };
        let text = self.text.clone();
        let mut lx = Lex { s: &text[..end], p: start };
        lx.next(); // define
        self.skip_attrs_to_type(&mut lx);
        let ret = self.ty(&mut lx);
        let name = match lx.next() {
            Tok::Global(n) => n.to_string(),
            t => panic!("fn name {t:?}"),
        };
        lx.expect(b'(');
        let mut fp = FnParser { locals: HashMap::new(), nregs: 0, labels: HashMap::new(), nblocks: 0 };
        let mut params = vec![];
        let mut numeric = 0;
        if !lx.eat(b')') {
            loop {
                if lx.peek() == Tok::Word("...") {
                    lx.next();
                } else {
                    let t = self.ty(&mut lx);
                    self.skip_attrs_to_value(&mut lx);
                    match lx.peek() {
                        Tok::Local(n) => {
                            lx.next();
                            if n.as_bytes()[0].is_ascii_digit() {
                                numeric += 1;
                            }
                            let r = fp.reg(n);
                            params.push((t, r));
                        }
                        _ => {
                            let nm = format!("{numeric}");
                            numeric += 1;
                            let r = fp.reg(&nm);
                            params.push((t, r));
                        }
                    }
                }
                if lx.eat(b')') {
                    break;
                }
                lx.expect(b',');
            }
        }
        // to the opening brace at end of line
        lx.skip_line();
        let mut blocks: Vec<Block> = vec![];
        let mut phis: Vec<(u32, Vec<(Op, String)>)> = vec![]; // (block, incoming) in order
        let mut cur: Option<usize> = None;
        let mut ninsts = 0u64;
        loop {
            // next line
            while lx.p < lx.s.len() && (lx.s[lx.p] == b'\n') {
                lx.p += 1;
            }
            if lx.p >= lx.s.len() {
                break;
            }
            let ls = lx.p;
            let first = lx.s[ls];
            if first == b'}' {
                break;
            }
            if first != b' ' && first != b'\t' {
                // label
                if first == b';' {
                    lx.skip_line();
                    continue;
                }
                let nm = lx.name().to_string();
                lx.expect(b':');
                lx.skip_line();
                let b = fp.label(&nm);
                while blocks.len() <= b as usize {
                    blocks.push(Block::default());
                }
                cur = Some(b as usize);
                continue;
            }
            if cur.is_none() {
                let b = fp.label(&format!("{numeric}"));
                assert_eq!(b, 0);
                blocks.push(Block::default());
                cur = Some(0);
            }
            // peek whether line is a phi
            let inst = self.inst(&mut lx, &mut fp, &mut phis, cur.unwrap() as u32);
            lx.skip_line();
            while blocks.len() < fp.nblocks as usize {
                blocks.push(Block::default());
            }
            match inst {
                Parsed::Inst(i) => {
                    ninsts += 1;
                    if !matches!(i, Inst::Nop) {
                        blocks[cur.unwrap()].insts.push(i)
                    }
                }
                Parsed::Phi(dst, ty) => {
                    blocks[cur.unwrap()].phis.push((dst, ty));
                }
            }
        }
        while blocks.len() < fp.nblocks as usize {
            blocks.push(Block::default());
        }
        for (b, inc) in phis {
            // several edges from one block repeat their entry
            let mut seen: Vec<u32> = vec![];
            for (op, lbl) in inc {
                let p = fp.label(&lbl);
                if seen.contains(&p) {
                    continue;
                }
                seen.push(p);
                blocks[b as usize].incoming.entry(p).or_default().push(op);
            }
        }
        Func { name, sym, module: self.id, params, ret, nregs: fp.nregs, blocks, ninsts }
    }

    fn operand(&mut self, lx: &mut Lex, fp: &mut FnParser, ty: &Ty) -> Op {
        let p = lx.p;
        match lx.next() {
            Tok::Local(n) => Op::Reg(fp.reg(n)),
            Tok::Meta(_) => Op::I(0),
            Tok::P(b'!') => {
                Op::I(0)
            }
            _ => {
                lx.p = p;
                if *ty == Ty::Other {
                    // metadata / token operand
                    lx.next();
                    return Op::I(0);
                }
                let c = self.constant(lx, ty);
                self.const_op(c, ty)
            }
        }
    }
    pub fn const_op(&self, c: C, ty: &Ty) -> Op {
        if ty.is_scalar() {
            match &c {
                C::Int(v) if ty.bits() <= 64 => return Op::I(*v as u64),
                C::Zero if ty.bits() <= 64 => return Op::I(0),
                C::Sym(s, o) => return Op::Sym(*s, *o),
                _ => {}
            }
        }
        Op::C(Rc::new((c, ty.clone())))
    }
    fn typed(&mut self, lx: &mut Lex, fp: &mut FnParser) -> (Ty, Op) {
        let t = self.ty(lx);
        self.skip_attrs_to_value(lx);
        let o = self.operand(lx, fp, &t);
        (t, o)
    }

    fn inst(&mut self, lx: &mut Lex, fp: &mut FnParser, phis: &mut Vec<(u32, Vec<(Op, String)>)>, cur: u32) -> Parsed {
        let line_start = lx.p;
        let mut dst = 0u32;
        let mut has_dst = false;
        let mut t = lx.next();
        if let Tok::Local(n) = t {
            dst = fp.reg(n);
            has_dst = true;
            lx.expect(b'=');
            t = lx.next();
        }
        let Tok::Word(w) = t else { panic!("inst {t:?} after {}", String::from_utf8_lossy(&lx.s[line_start.saturating_sub(300)..(line_start + 100).min(lx.s.len())])) };
        let bad = |lx: &mut Lex| {
            let mut e = line_start;
            while e < lx.s.len() && lx.s[e] != b'\n' {
                e += 1;
            }
            Parsed::Inst(Inst::Bad(String::from_utf8_lossy(&lx.s[line_start..e]).to_string()))
        };
        if let Some(op) = binop(w) {
            while let Tok::Word(x) = lx.peek() {
                if is_type_word(x) {
                    break;
                }
                lx.next();
            }
            let ty = self.ty(lx);
            let a = self.operand(lx, fp, &ty);
            lx.expect(b',');
            let b = self.operand(lx, fp, &ty);
            return Parsed::Inst(Inst::Bin(dst, op, ty, a, b));
        }
        Parsed::Inst(match w {
            "icmp" => {
                let mut pr = None;
                loop {
                    let p = lx.p;
                    match lx.next() {
                        Tok::Word(x) => {
                            if is_type_word(x) {
                                lx.p = p;
                                break;
                            }
                            pr = match x {
                                "eq" => Some(Pred::Eq),
                                "ne" => Some(Pred::Ne),
                                "ugt" => Some(Pred::Ugt),
                                "uge" => Some(Pred::Uge),
                                "ult" => Some(Pred::Ult),
                                "ule" => Some(Pred::Ule),
                                "sgt" => Some(Pred::Sgt),
                                "sge" => Some(Pred::Sge),
                                "slt" => Some(Pred::Slt),
                                "sle" => Some(Pred::Sle),
                                _ => pr,
                            }
                        }
                        _ => {
                            lx.p = p;
                            break;
                        }
                    }
                }
                let ty = self.ty(lx);
                let a = self.operand(lx, fp, &ty);
                lx.expect(b',');
                let b = self.operand(lx, fp, &ty);
                Inst::Icmp(dst, pr.unwrap(), ty, a, b)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while let Tok::Word(x) = lx.peek() {
                    if is_type_word(x) {
                        break;
                    }
                    lx.next();
                }
                let ty = self.ty(lx);
                let a = self.operand(lx, fp, &ty);
                lx.expect(b',');
                let b = self.operand(lx, fp, &ty);
                Inst::FBin(dst, w.as_bytes()[1], ty, a, b)
            }
            "fcmp" => {
                let mut pr = String::new();
                while let Tok::Word(x) = lx.peek() {
                    if is_type_word(x) {
                        break;
                    }
                    pr = x.to_string();
                    lx.next();
                }
                let ty = self.ty(lx);
                let a = self.operand(lx, fp, &ty);
                lx.expect(b',');
                let b = self.operand(lx, fp, &ty);
                Inst::Fcmp(dst, pr, ty, a, b)
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "ptrtoaddr" => {
                while let Tok::Word(x) = lx.peek() {
                    if is_type_word(x) {
                        break;
                    }
                    lx.next();
                }
                let (t1, o) = self.typed(lx, fp);
                lx.next(); // to
                let t2 = self.ty(lx);
                let op = match w {
                    "zext" => CastOp::Zext,
                    "sext" => CastOp::Sext,
                    "trunc" => CastOp::Trunc,
                    "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt,
                    "inttoptr" => CastOp::IntToPtr,
                    "bitcast" => CastOp::Bitcast,
                    "uitofp" => CastOp::UIToFP,
                    "sitofp" => CastOp::SIToFP,
                    "fptoui" => CastOp::FPToUI,
                    "fptosi" => CastOp::FPToSI,
                    "fpext" => CastOp::FPExt,
                    _ => CastOp::FPTrunc,
                };
                Inst::Cast(dst, op, t1, o, t2)
            }
            "load" => {
                lx.eat_word("atomic");
                lx.eat_word("volatile");
                let ty = self.ty(lx);
                lx.expect(b',');
                let (_, p) = self.typed(lx, fp);
                Inst::Load(dst, ty, p)
            }
            "store" => {
                lx.eat_word("atomic");
                lx.eat_word("volatile");
                let (ty, v) = self.typed(lx, fp);
                lx.expect(b',');
                let (_, p) = self.typed(lx, fp);
                Inst::Store(ty, v, p)
            }
            "getelementptr" => {
                loop {
                    match lx.peek() {
                        Tok::Word(x) if !is_type_word(x) => {
                            lx.next();
                            if lx.peek() == Tok::P(b'(') {
                                lx.skip_parens();
                            }
                        }
                        _ => break,
                    }
                }
                let sty = self.ty(lx);
                lx.expect(b',');
                let (_, base) = self.typed(lx, fp);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cty = sty.clone();
                let mut first = true;
                loop {
                    let p = lx.p;
                    if !lx.eat(b',') {
                        break;
                    }
                    if matches!(lx.peek(), Tok::Meta(_)) {
                        lx.p = p;
                        break;
                    }
                    let (it, o) = self.typed(lx, fp);
                    let scale;
                    if first {
                        scale = sty.size() as i64;
                        first = false;
                    } else {
                        match &cty {
                            Ty::Struct(..) => {
                                let Op::I(k) = o else { panic!("struct gep idx") };
                                off += cty.field_offset(k as usize) as i64;
                                cty = cty.field_ty(k as usize);
                                continue;
                            }
                            _ => {
                                let e = cty.field_ty(0);
                                scale = e.size() as i64;
                                cty = e;
                            }
                        }
                    }
                    match o {
                        Op::I(k) => off += sext_c(k as u128, it.bits()) * scale,
                        o => idx.push((o, it.bits(), scale)),
                    }
                }
                Inst::Gep(dst, base, off, idx)
            }
            "alloca" => {
                lx.eat_word("inalloca");
                let ty = self.ty(lx);
                let mut n = 1u64;
                let mut al = ty.align();
                while lx.eat(b',') {
                    if lx.eat_word("align") {
                        if let Tok::Word(x) = lx.next() {
                            al = x.parse().unwrap();
                        }
                    } else if matches!(lx.peek(), Tok::Meta(_)) {
                        break;
                    } else {
                        let (_, o) = self.typed(lx, fp);
                        if let Op::I(k) = o {
                            n = k
                        } else {
                            return bad(lx);
                        }
                    }
                }
                Inst::Alloca(dst, ty.size() * n, al)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if w != "call" && w != "invoke" {
                    lx.next();
                }
                let invoke = w == "invoke";
                self.skip_attrs_to_type(lx);
                let ret = self.ty(lx);
                // optional function type
                if lx.peek() == Tok::P(b'(') {
                    lx.skip_parens();
                }
                let callee = match lx.next() {
                    Tok::Global(n) => Callee::Sym(self.sym_id(n)),
                    Tok::Local(n) => Callee::Ind(Op::Reg(fp.reg(n))),
                    Tok::Word("asm") => {
                        while !matches!(lx.peek(), Tok::P(b'(')) {
                            lx.next();
                        }
                        Callee::Asm
                    }
                    Tok::Word("inttoptr") => {
                        return bad(lx);
                    }
                    t => panic!("callee {t:?}"),
                };
                lx.expect(b'(');
                let mut args = vec![];
                if !lx.eat(b')') {
                    loop {
                        let t = self.ty(lx);
                        self.skip_attrs_to_value(lx);
                        if t == Ty::Other {
                            // metadata: skip to , or ) at depth 0
                            let mut d = 0;
                            loop {
                                let p = lx.p;
                                match lx.next() {
                                    Tok::P(b'(') | Tok::P(b'{') => d += 1,
                                    Tok::P(b'}') => d -= 1,
                                    Tok::P(b')') => {
                                        if d == 0 {
                                            lx.p = p;
                                            break;
                                        }
                                        d -= 1
                                    }
                                    Tok::P(b',') if d == 0 => {
                                        lx.p = p;
                                        break;
                                    }
                                    Tok::Eof => panic!(),
                                    _ => {}
                                }
                            }
                            args.push((t, Op::I(0)));
                        } else {
                            let o = self.operand(lx, fp, &t);
                            args.push((t, o));
                        }
                        if lx.eat(b')') {
                            break;
                        }
                        lx.expect(b',');
                    }
                }
                let mut next = None;
                if invoke {
                    loop {
                        match lx.next() {
                            Tok::Word("to") => break,
                            Tok::Eof => panic!("invoke"),
                            _ => {}
                        }
                    }
                    lx.next(); // label
                    if let Tok::Local(n) = lx.next() {
                        next = Some(fp.label(n));
                    }
                    lx.next(); // unwind
                    lx.next(); // label
                    if let Tok::Local(n) = lx.next() {
                        fp.label(n);
                    }
                }
                Inst::Call(Box::new(Call { dst: if has_dst { Some(dst) } else { None }, ret, callee, args, next }))
            }
            "br" => {
                if lx.eat_word("label") {
                    let Tok::Local(n) = lx.next() else { panic!() };
                    Inst::Br(fp.label(n))
                } else {
                    let (_, c) = self.typed(lx, fp);
                    lx.expect(b',');
                    lx.next();
                    let Tok::Local(a) = lx.next() else { panic!() };
                    let a = fp.label(a);
                    lx.expect(b',');
                    lx.next();
                    let Tok::Local(b) = lx.next() else { panic!() };
                    let b = fp.label(b);
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, o) = self.typed(lx, fp);
                lx.expect(b',');
                lx.next();
                let Tok::Local(a) = lx.next() else { panic!() };
                let d = fp.label(a);
                lx.expect(b'[');
                let mut cases = vec![];
                while !lx.eat(b']') {
                    let (_, v) = self.typed(lx, fp);
                    lx.expect(b',');
                    lx.next();
                    let Tok::Local(a) = lx.next() else { panic!() };
                    let l = fp.label(a);
                    match v {
                        Op::I(k) => cases.push((k as u128, l)),
                        Op::C(c) => match &c.0 {
                            C::Int(k) => cases.push((*k, l)),
                            C::Zero => cases.push((0, l)),
                            _ => return bad(lx),
                        },
                        _ => return bad(lx),
                    }
                }
                Inst::Switch(o, t.bits(), d, cases)
            }
            "ret" => {
                let t = self.ty(lx);
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    let o = self.operand(lx, fp, &t);
                    Inst::Ret(Some((t, o)))
                }
            }
            "unreachable" => Inst::Unreachable,
            "phi" => {
                let ty = self.ty(lx);
                let mut inc = vec![];
                loop {
                    lx.expect(b'[');
                    let o = self.operand(lx, fp, &ty);
                    lx.expect(b',');
                    let Tok::Local(n) = lx.next() else { panic!() };
                    inc.push((o, n.to_string()));
                    lx.expect(b']');
                    let p = lx.p;
                    if !lx.eat(b',') {
                        break;
                    }
                    if lx.peek() != Tok::P(b'[') {
                        lx.p = p;
                        break;
                    }
                }
                phis.push((cur, inc));
                return Parsed::Phi(dst, ty);
            }
            "select" => {
                while let Tok::Word(x) = lx.peek() {
                    if is_type_word(x) {
                        break;
                    }
                    lx.next();
                }
                let (ct, c) = self.typed(lx, fp);
                lx.expect(b',');
                let (t, a) = self.typed(lx, fp);
                lx.expect(b',');
                let (_, b) = self.typed(lx, fp);
                Inst::Select(dst, ct, c, t, a, b)
            }
            "extractvalue" => {
                let (_, o) = self.typed(lx, fp);
                let mut ix = vec![];
                loop {
                    let p = lx.p;
                    if !lx.eat(b',') {
                        break;
                    }
                    match lx.next() {
                        Tok::Word(x) => ix.push(x.parse().unwrap()),
                        _ => {
                            lx.p = p;
                            break;
                        }
                    }
                }
                Inst::ExtractValue(dst, o, ix)
            }
            "insertvalue" => {
                let (t, o) = self.typed(lx, fp);
                lx.expect(b',');
                let (_, v) = self.typed(lx, fp);
                let mut ix = vec![];
                loop {
                    let p = lx.p;
                    if !lx.eat(b',') {
                        break;
                    }
                    match lx.next() {
                        Tok::Word(x) => ix.push(x.parse().unwrap()),
                        _ => {
                            lx.p = p;
                            break;
                        }
                    }
                }
                Inst::InsertValue(dst, t, o, v, ix)
            }
            "extractelement" => {
                let (_, o) = self.typed(lx, fp);
                lx.expect(b',');
                let (_, i) = self.typed(lx, fp);
                Inst::ExtractElement(dst, o, i)
            }
            "insertelement" => {
                let (t, o) = self.typed(lx, fp);
                lx.expect(b',');
                let (_, v) = self.typed(lx, fp);
                lx.expect(b',');
                let (_, i) = self.typed(lx, fp);
                Inst::InsertElement(dst, t, o, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.typed(lx, fp);
                lx.expect(b',');
                let (_, b) = self.typed(lx, fp);
                lx.expect(b',');
                let mt = self.ty(lx);
                let n = mt.n_fields();
                let m = self.constant(lx, &mt);
                let mask = match m {
                    C::Zero => vec![0; n],
                    C::Agg(v) => v
                        .iter()
                        .map(|c| match c {
                            C::Int(k) => *k as i64,
                            C::Zero => 0,
                            _ => panic!(),
                        })
                        .collect(),
                    C::Splat(c) => match *c {
                        C::Int(k) => vec![k as i64; n],
                        _ => panic!(),
                    },
                    _ => panic!(),
                };
                Inst::Shuffle(dst, t, a, b, mask)
            }
            "atomicrmw" => {
                lx.eat_word("volatile");
                let Tok::Word(op) = lx.next() else { panic!() };
                let op = op.to_string();
                let (_, p) = self.typed(lx, fp);
                lx.expect(b',');
                let (t, v) = self.typed(lx, fp);
                Inst::AtomicRmw(dst, op, t, p, v)
            }
            "cmpxchg" => {
                lx.eat_word("weak");
                lx.eat_word("volatile");
                let (_, p) = self.typed(lx, fp);
                lx.expect(b',');
                let (t, c) = self.typed(lx, fp);
                lx.expect(b',');
                let (_, n) = self.typed(lx, fp);
                Inst::CmpXchg(dst, t, p, c, n)
            }
            "freeze" => {
                let (_, o) = self.typed(lx, fp);
                Inst::Freeze(dst, o)
            }
            "fence" | "landingpad" | "cleanup" | "catch" | "filter" => Inst::Nop,
            "resume" => Inst::Unreachable,
            _ => return bad(lx),
        })
    }
}

enum Parsed {
    Inst(Inst),
    Phi(u32, Ty),
}

struct FnParser {
    locals: HashMap<String, u32>,
    nregs: u32,
    labels: HashMap<String, u32>,
    nblocks: u32,
}
impl FnParser {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.locals.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.locals.insert(n.to_string(), r);
        r
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.labels.get(n) {
            return r;
        }
        let r = self.nblocks;
        self.nblocks += 1;
        self.labels.insert(n.to_string(), r);
        r
    }
}

pub fn sext_c(v: u128, bits: u32) -> i64 {
    let v = v as u64;
    if bits >= 64 {
        v as i64
    } else {
        ((v << (64 - bits)) as i64) >> (64 - bits)
    }
}

fn binop(w: &str) -> Option<BinOp> {
    Some(match w {
        "add" => BinOp::Add,
        "sub" => BinOp::Sub,
        "mul" => BinOp::Mul,
        "udiv" => BinOp::UDiv,
        "sdiv" => BinOp::SDiv,
        "urem" => BinOp::URem,
        "srem" => BinOp::SRem,
        "and" => BinOp::And,
        "or" => BinOp::Or,
        "xor" => BinOp::Xor,
        "shl" => BinOp::Shl,
        "lshr" => BinOp::LShr,
        "ashr" => BinOp::AShr,
        _ => return None,
    })
}
