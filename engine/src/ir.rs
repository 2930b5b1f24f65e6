//! In-memory form of the LLVM IR subset that rustc emits.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
    /// Store size in bytes (not padded to alignment for ints)
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => ((*n as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for f in fs.iter() {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += f.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += f.size();
                }
                panic!("field_offset")
            }
            _ => panic!("field_offset of {:?}", self),
        }
    }
    pub fn field_ty(&self, i: usize) -> Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            Ty::Struct(fs, _) => fs[i].clone(),
            _ => panic!("field_ty of {:?}", self),
        }
    }
    pub fn n_fields(&self) -> usize {
        match self {
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            Ty::Struct(fs, _) => fs.len(),
            _ => panic!("n_fields of {:?}", self),
        }
    }
}

#[derive(Debug, Clone)]
pub enum C {
    Int(u128),
    Zero,
    Agg(Vec<C>),
    Bytes(Vec<u8>),
    /// global or function symbol plus byte offset
    Sym(u32, i64),
    Splat(Box<C>),
    /// difference of two symbol addresses and such: (op, a, b)
    Bin(BinOp, Box<C>, Box<C>, u32),
    Trunc(Box<C>, u32),
}

#[derive(Debug, Clone)]
pub enum Op {
    Reg(u32),
    /// scalar constant of at most 64 bits
    I(u64),
    /// other constant with its type
    C(Rc<(C, Ty)>),
    /// address of a symbol plus offset
    Sym(u32, i64),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CastOp {
    Zext,
    Sext,
    Trunc,
    PtrToInt,
    IntToPtr,
    Bitcast,
    UIToFP,
    SIToFP,
    FPToUI,
    FPToSI,
    FPExt,
    FPTrunc,
}

#[derive(Debug, Clone)]
pub enum Callee {
    /// symbol id
    Sym(u32),
    Ind(Op),
    Asm,
}

#[derive(Debug, Clone)]
pub struct Call {
    pub dst: Option<u32>,
    pub ret: Ty,
    pub callee: Callee,
    pub args: Vec<(Ty, Op)>,
    /// for invoke
    pub next: Option<u32>,
}

#[derive(Debug, Clone)]
pub enum Inst {
    Bin(u32, BinOp, Ty, Op, Op),
    Icmp(u32, Pred, Ty, Op, Op),
    FBin(u32, u8, Ty, Op, Op),
    Fcmp(u32, String, Ty, Op, Op),
    Cast(u32, CastOp, Ty, Op, Ty),
    Load(u32, Ty, Op),
    Store(Ty, Op, Op),
    /// dst, base, const offset, [(index, width, scale)]
    Gep(u32, Op, i64, Vec<(Op, u32, i64)>),
    Alloca(u32, u64, u64),
    Call(Box<Call>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Op, u32, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Op)>),
    Unreachable,
    Select(u32, Ty, Op, Ty, Op, Op),
    ExtractValue(u32, Op, Vec<u32>),
    InsertValue(u32, Ty, Op, Op, Vec<u32>),
    ExtractElement(u32, Op, Op),
    InsertElement(u32, Ty, Op, Op, Op),
    Shuffle(u32, Ty, Op, Op, Vec<i64>),
    AtomicRmw(u32, String, Ty, Op, Op),
    CmpXchg(u32, Ty, Op, Op, Op),
    Freeze(u32, Op),
    Nop,
    Bad(String),
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Ty)>,
    /// pred block -> values in order of phis
    pub incoming: HashMap<u32, Vec<Op>>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub sym: u32,
    pub module: u32,
    pub params: Vec<(Ty, u32)>,
    pub ret: Ty,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ninsts: u64,
}
