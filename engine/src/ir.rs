//! In-memory form of the LLVM IR subset produced by rustc for these crates.
use crate::term::T;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    I(u16),
    P,
    F(u16),
    Arr(u64, Rc<Ty>),
    St(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::I(w) => match w {
                1..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::P => 8,
            Ty::F(w) => (*w as u64) / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::St(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Void | Ty::Other => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::I(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::P => 8,
            Ty::F(w) => (*w as u64) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::St(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            Ty::Void | Ty::Other => 0,
        }
    }
    /// Bytes touched by a load or store.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::I(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn bits(&self) -> u16 {
        match self {
            Ty::I(w) => *w,
            Ty::P => 64,
            Ty::F(w) => *w,
            Ty::Vec(n, t) => *n as u16 * t.bits(),
            _ => (self.size() * 8) as u16,
        }
    }
    pub fn field(&self, i: u64) -> (Ty, u64) {
        match self {
            Ty::Arr(_, t) => ((**t).clone(), i * t.size()),
            Ty::Vec(_, t) => ((**t).clone(), i * t.size()),
            Ty::St(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return (t.clone(), o);
                    }
                    o += t.size();
                }
                panic!("field {i} of {self:?}")
            }
            _ => panic!("field of {self:?}"),
        }
    }
    pub fn nfields(&self) -> u64 {
        match self {
            Ty::Arr(n, _) => *n,
            Ty::Vec(n, _) => *n as u64,
            Ty::St(f, _) => f.len() as u64,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    T(T),
    U,
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    C(V),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
    PtrToInt,
    IntToPtr,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Nand,
    Or,
    Xor,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: Bin, ty: Ty, d: u32, a: O, b: O },
    ICmp { p: Pred, ty: Ty, d: u32, a: O, b: O },
    Load { ty: Ty, d: u32, p: O, align: u64, atomic: bool },
    Store { ty: Ty, v: O, p: O, align: u64, atomic: bool },
    Gep { d: u32, base: O, off: i64, idx: Vec<(O, u16, i64)> },
    Cast { k: Cast, from: Ty, to: Ty, d: u32, a: O },
    Select { ty: Ty, d: u32, c: O, a: O, b: O, vec: bool },
    Freeze { ty: Ty, d: u32, a: O },
    Call { d: Option<u32>, ret: Ty, f: O, name: Rc<str>, args: Vec<(Ty, O)>, inv: Option<(u32, u32)> },
    Br(u32),
    CondBr(O, u32, u32),
    Switch { w: u16, v: O, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Ty, O)>),
    Unreachable,
    Resume,
    LandingPad { d: u32 },
    ExtractValue { d: u32, a: O, path: Vec<u32> },
    InsertValue { d: u32, ty: Ty, a: O, v: O, path: Vec<u32> },
    ExtractElt { d: u32, a: O, i: O, ty: Ty },
    InsertElt { d: u32, a: O, v: O, i: O, ty: Ty },
    Shuffle { d: u32, a: O, b: O, n: u32, m: Vec<i32> },
    CmpXchg { d: u32, ty: Ty, p: O, c: O, n: O, weak: bool, align: u64 },
    Rmw { d: u32, op: Rmw, ty: Ty, p: O, v: O, align: u64 },
    Alloca { d: u32, size: u64, align: u64 },
    Fence,
}

#[derive(Clone, Debug)]
pub struct Phi {
    pub d: u32,
    pub ins: Vec<(u32, O)>,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<I>,
}

#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub params: Vec<Ty>,
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub count: u64,
}
