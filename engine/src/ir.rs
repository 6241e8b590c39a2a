//! The interpreter's own representation, lowered from the LLVM module.
use crate::llvm::*;
use crate::term::mask;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    /// integer or pointer (pointers are 64 bit integers)
    Int(u16),
    Float(u16),
    Agg(Arc<AggTy>),
}
#[derive(Debug, PartialEq)]
pub struct AggTy {
    pub elems: Vec<(u64, Ty)>,
    pub size: u64,
    /// vectors of i1 and the like are bit-packed in memory
    pub vector: bool,
}
impl Ty {
    pub fn w(&self) -> u16 {
        match self {
            Ty::Int(w) | Ty::Float(w) => *w,
            _ => 0,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Void => 0,
            Ty::Int(w) | Ty::Float(w) => (*w as u64 + 7) / 8,
            Ty::Agg(a) => a.size,
        }
    }
}

/// constant (thread-safe); lowered into V by each worker on use
#[derive(Clone, Debug)]
pub enum C {
    I(u64),
    W(u128),
    A(Vec<C>),
}
#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(u64),
    C(Arc<C>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Builtin(crate::builtin::B),
    Ind(Opd),
    Asm,
}
#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: crate::term::Op, ty: Ty, a: Opd, b: Opd, d: u32 },
    Icmp { p: Pred, ty: Ty, a: Opd, b: Opd, d: u32 },
    Cast { c: Cast, from: Ty, to: Ty, a: Opd, d: u32 },
    Load { ty: Ty, p: Opd, d: u32, ord: u8 },
    Store { ty: Ty, v: Opd, p: Opd, ord: u8 },
    Gep { base: Opd, off: u64, idx: Vec<(Opd, u16, u64)>, d: u32 },
    Alloca { size: u64, n: Opd, d: u32 },
    Select { ty: Ty, c: Opd, cty: Ty, a: Opd, b: Opd, d: u32 },
    Br { to: u32 },
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { v: Opd, w: u16, def: u32, cases: Vec<(u128, u32)> },
    Ret { v: Option<Opd> },
    Call { f: Callee, args: Vec<Opd>, tys: Vec<Ty>, rty: Ty, d: Option<u32>, normal: Option<u32> },
    Extract { a: Opd, path: Vec<u32>, d: u32 },
    Insert { a: Opd, v: Opd, path: Vec<u32>, d: u32 },
    ExtElem { a: Opd, i: Opd, d: u32 },
    InsElem { a: Opd, v: Opd, i: Opd, d: u32 },
    Shuffle { a: Opd, b: Opd, n: u32, mask: Vec<i32>, d: u32 },
    Rmw { op: i32, ty: Ty, p: Opd, v: Opd, d: u32, ord: u8 },
    CmpXchg { ty: Ty, p: Opd, cmp: Opd, new: Opd, d: u32, ord: u8, ford: u8 },
    Fence { ord: u8 },
    Copy { a: Opd, d: u32 },
    Nop,
    Unreachable,
    Unsupported { what: String },
}

#[derive(Debug, Default)]
pub struct Block {
    pub insts: Vec<Inst>,
    /// per predecessor: parallel copies
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub id: u32,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub block_base: u32,
    pub decl: bool,
}
pub struct Glob {
    pub name: String,
    pub data: Vec<u8>,
    pub constant: bool,
}

pub struct Prog {
    pub funcs: Vec<Func>,
    pub by_name: HashMap<String, u32>,
    pub globs: Vec<Glob>,
    pub glob_by_name: HashMap<String, u32>,
    pub nblocks: u32,
    pub ninsts: u64,
}

pub const SLOT_SHIFT: u32 = 24;
pub const GEN_SHIFT: u32 = 44;
pub const CONST_FLAG: u64 = 1 << 62;
pub const FUNC_FLAG: u64 = 1 << 61;
/// slot of the first mutable global; constant globals have CONST_FLAG set
pub fn glob_addr(i: u32, constant: bool) -> u64 {
    ((i as u64 + 1) << SLOT_SHIFT) | if constant { CONST_FLAG } else { 0 }
}
pub fn func_addr(i: u32) -> u64 {
    FUNC_FLAG | ((i as u64) << 4)
}

struct Lower<'m> {
    m: &'m Module,
    tys: HashMap<Ref, Ty>,
    fids: HashMap<Ref, u32>,
    gids: HashMap<Ref, (u32, bool)>,
    brs: HashMap<i32, bool>,
}

impl<'m> Lower<'m> {
    fn ty(&mut self, t: Ref) -> Ty {
        if let Some(x) = self.tys.get(&t) {
            return x.clone();
        }
        let r = unsafe {
            match LLVMGetTypeKind(t) {
                0 => Ty::Void,
                2 => Ty::Float(32),
                3 => Ty::Float(64),
                8 => Ty::Int(LLVMGetIntTypeWidth(t) as u16),
                12 => Ty::Int(64),
                10 => {
                    let n = LLVMCountStructElementTypes(t);
                    let elems = (0..n)
                        .map(|i| (self.m.offset(t, i), self.ty(LLVMStructGetTypeAtIndex(t, i))))
                        .collect();
                    Ty::Agg(Arc::new(AggTy { elems, size: self.m.size(t), vector: false }))
                }
                11 => {
                    let e = LLVMGetElementType(t);
                    let s = self.m.size(e);
                    let n = LLVMGetArrayLength2(t);
                    let ety = self.ty(e);
                    if n > 1 << 20 {
                        Ty::Void
                    } else {
                        let elems = (0..n).map(|i| (i * s, ety.clone())).collect();
                        Ty::Agg(Arc::new(AggTy { elems, size: self.m.size(t), vector: false }))
                    }
                }
                13 => {
                    let e = LLVMGetElementType(t);
                    let s = self.m.store_size(e);
                    let n = LLVMGetVectorSize(t) as u64;
                    let ety = self.ty(e);
                    let elems = (0..n).map(|i| (i * s, ety.clone())).collect();
                    Ty::Agg(Arc::new(AggTy { elems, size: self.m.store_size(t), vector: true }))
                }
                _ => Ty::Void,
            }
        };
        self.tys.insert(t, r.clone());
        r
    }
    fn zero(&self, t: &Ty) -> C {
        match t {
            Ty::Agg(a) => C::A(a.elems.iter().map(|e| self.zero(&e.1)).collect()),
            Ty::Int(w) if *w > 64 => C::W(0),
            _ => C::I(0),
        }
    }
    fn konst(&mut self, v: Ref) -> Result<C, String> {
        unsafe {
            let t = self.ty(LLVMTypeOf(v));
            if LLVMIsUndef(v) != 0 || !LLVMIsAConstantPointerNull(v).is_null() || !LLVMIsAConstantAggregateZero(v).is_null() {
                return Ok(self.zero(&t));
            }
            if !LLVMIsAConstantInt(v).is_null() {
                if t.w() <= 64 {
                    return Ok(C::I(LLVMConstIntGetZExtValue(v) & mask(t.w()) as u64));
                }
                let s = print(v);
                let n = s.rsplit(' ').next().unwrap();
                let x = if let Some(n) = n.strip_prefix('-') {
                    (n.parse::<u128>().map_err(|e| e.to_string())?).wrapping_neg()
                } else {
                    n.parse::<u128>().map_err(|e| e.to_string())?
                };
                return Ok(C::W(x & mask(t.w())));
            }
            if !LLVMIsAConstantFP(v).is_null() {
                let mut l = 0;
                let d = LLVMConstRealGetDouble(v, &mut l);
                return Ok(C::I(if t.w() == 32 { (d as f32).to_bits() as u64 } else { d.to_bits() }));
            }
            if !LLVMIsAGlobalAlias(v).is_null() {
                return self.konst(LLVMAliasGetAliasee(v));
            }
            if !LLVMIsAGlobalValue(v).is_null() {
                if let Some(f) = self.fids.get(&v) {
                    return Ok(C::I(func_addr(*f)));
                }
                if let Some((g, c)) = self.gids.get(&v) {
                    return Ok(C::I(glob_addr(*g, *c)));
                }
                return Err(format!("global {}", name(v)));
            }
            if !LLVMIsAConstantExpr(v).is_null() {
                let op = LLVMGetConstOpcode(v);
                let n = LLVMGetNumOperands(v) as u32;
                let a = self.konst(LLVMGetOperand(v, 0))?;
                let a = match a {
                    C::I(x) => x,
                    _ => return Err(format!("constant expression {}", print(v))),
                };
                return match op {
                    29 => {
                        let mut off = 0u64;
                        let mut t = LLVMGetGEPSourceElementType(v);
                        for i in 1..n {
                            let o = LLVMGetOperand(v, i);
                            let k = match self.konst(o)? {
                                C::I(x) => {
                                    let w = self.ty(LLVMTypeOf(o)).w();
                                    crate::term::sext(x as u128, w) as i64
                                }
                                _ => return Err("gep index".into()),
                            };
                            if i == 1 {
                                off = off.wrapping_add((k as u64).wrapping_mul(self.m.size(t)));
                            } else if LLVMGetTypeKind(t) == 10 {
                                off = off.wrapping_add(self.m.offset(t, k as u32));
                                t = LLVMStructGetTypeAtIndex(t, k as u32);
                            } else {
                                t = LLVMGetElementType(t);
                                off = off.wrapping_add((k as u64).wrapping_mul(self.m.size(t)));
                            }
                        }
                        Ok(C::I(a.wrapping_add(off)))
                    }
                    39 | 40 | 41 | 60 | 69 | 30 => Ok(C::I(a & mask(t.w().min(64)) as u64)),
                    8 | 10 | 28 => {
                        let b = match self.konst(LLVMGetOperand(v, 1))? {
                            C::I(x) => x,
                            _ => return Err("constant expression".into()),
                        };
                        let m = mask(t.w()) as u64;
                        Ok(C::I(
                            match op {
                                8 => a.wrapping_add(b),
                                10 => a.wrapping_sub(b),
                                _ => a ^ b,
                            } & m,
                        ))
                    }
                    _ => Err(format!("constant expression {}", print(v))),
                };
            }
            if let Ty::Agg(a) = &t {
                let mut r = Vec::new();
                for i in 0..a.elems.len() {
                    let e = LLVMGetAggregateElement(v, i as u32);
                    if e.is_null() {
                        return Err(format!("aggregate {}", print(v)));
                    }
                    r.push(self.konst(e)?);
                }
                return Ok(C::A(r));
            }
            Err(format!("constant {}", print(v)))
        }
    }
    fn opd(&mut self, v: Ref, regs: &HashMap<Ref, u32>) -> Result<Opd, String> {
        if let Some(r) = regs.get(&v) {
            return Ok(Opd::R(*r));
        }
        unsafe {
            if LLVMIsConstant(v) != 0 {
                return Ok(match self.konst(v)? {
                    C::I(x) => Opd::K(x),
                    c => Opd::C(Arc::new(c)),
                });
            }
            if LLVMGetTypeKind(LLVMTypeOf(v)) == 14 {
                return Ok(Opd::K(0));
            }
        }
        Err(format!("operand {}", print(v)))
    }
    fn inst(&mut self, i: Ref, regs: &HashMap<Ref, u32>, blocks: &HashMap<Ref, u32>) -> Result<Inst, String> {
        use crate::term::Op;
        unsafe {
            let d = regs.get(&i).copied().unwrap_or(u32::MAX);
            let op = LLVMGetInstructionOpcode(i);
            macro_rules! o {
                ($n:expr) => {
                    self.opd(LLVMGetOperand(i, $n), regs)?
                };
            }
            macro_rules! oty {
                ($n:expr) => {
                    self.ty(LLVMTypeOf(LLVMGetOperand(i, $n)))
                };
            }
            let ty = self.ty(LLVMTypeOf(i));
            let bin = |op| -> Op { op };
            let r = match op {
                1 => {
                    if LLVMGetNumOperands(i) == 0 {
                        Inst::Ret { v: None }
                    } else {
                        Inst::Ret { v: Some(o!(0)) }
                    }
                }
                3 => {
                    let v = o!(0);
                    let w = oty!(0).w();
                    let n = LLVMGetNumSuccessors(i);
                    let def = blocks[&LLVMGetSuccessor(i, 0)];
                    let mut cases = vec![];
                    for k in 1..n {
                        let x = match self.konst(LLVMGetSwitchCaseValue(i, k))? {
                            C::I(x) => x as u128,
                            C::W(x) => x,
                            _ => return Err("switch cases".into()),
                        } & mask(w);
                        cases.push((x, blocks[&LLVMGetSuccessor(i, k)]));
                    }
                    Inst::Switch { v, w, def, cases }
                }
                7 => Inst::Unreachable,
                8 | 10 | 12 | 14 | 15 | 17 | 18 | 20 | 21 | 22 | 23 | 24 | 25 => {
                    let o = bin(match op {
                        8 => Op::Add,
                        10 => Op::Sub,
                        12 => Op::Mul,
                        14 => Op::UDiv,
                        15 => Op::SDiv,
                        17 => Op::URem,
                        18 => Op::SRem,
                        20 => Op::Shl,
                        21 => Op::LShr,
                        22 => Op::AShr,
                        23 => Op::And,
                        24 => Op::Or,
                        _ => Op::Xor,
                    });
                    Inst::Bin { op: o, ty, a: o!(0), b: o!(1), d }
                }
                26 => {
                    let t = LLVMGetAllocatedType(i);
                    Inst::Alloca { size: self.m.size(t), n: o!(0), d }
                }
                27 => Inst::Load { ty, p: o!(0), d, ord: LLVMGetOrdering(i) as u8 },
                28 => Inst::Store { ty: oty!(0), v: o!(0), p: o!(1), ord: LLVMGetOrdering(i) as u8 },
                29 => {
                    if let Ty::Agg(_) = ty {
                        return Err("vector gep".into());
                    }
                    let mut t = LLVMGetGEPSourceElementType(i);
                    let mut off = 0u64;
                    let mut idx = vec![];
                    let n = LLVMGetNumOperands(i) as u32;
                    for k in 1..n {
                        let ov = LLVMGetOperand(i, k);
                        let w = self.ty(LLVMTypeOf(ov)).w();
                        let scale;
                        if k > 1 && LLVMGetTypeKind(t) == 10 {
                            let c = LLVMConstIntGetZExtValue(ov) as u32;
                            off = off.wrapping_add(self.m.offset(t, c));
                            t = LLVMStructGetTypeAtIndex(t, c);
                            continue;
                        } else if k == 1 {
                            scale = self.m.size(t);
                        } else {
                            t = LLVMGetElementType(t);
                            scale = self.m.size(t);
                        }
                        match self.opd(ov, regs)? {
                            Opd::K(c) => {
                                off = off.wrapping_add((crate::term::sext(c as u128, w) as u64).wrapping_mul(scale))
                            }
                            o => idx.push((o, w, scale)),
                        }
                    }
                    Inst::Gep { base: o!(0), off, idx, d }
                }
                30 => Inst::Cast { c: Cast::Trunc, from: oty!(0), to: ty, a: o!(0), d },
                31 => Inst::Cast { c: Cast::ZExt, from: oty!(0), to: ty, a: o!(0), d },
                32 => Inst::Cast { c: Cast::SExt, from: oty!(0), to: ty, a: o!(0), d },
                39 | 40 | 69 => {
                    let f = oty!(0);
                    let c = if f.w() > ty.w() { Cast::Trunc } else { Cast::ZExt };
                    Inst::Cast { c, from: f, to: ty, a: o!(0), d }
                }
                41 => Inst::Cast { c: Cast::Bit, from: oty!(0), to: ty, a: o!(0), d },
                42 => {
                    let p = match LLVMGetICmpPredicate(i) {
                        32 => Pred::Eq,
                        33 => Pred::Ne,
                        34 => Pred::Ugt,
                        35 => Pred::Uge,
                        36 => Pred::Ult,
                        37 => Pred::Ule,
                        38 => Pred::Sgt,
                        39 => Pred::Sge,
                        40 => Pred::Slt,
                        41 => Pred::Sle,
                        x => return Err(format!("icmp {}", x)),
                    };
                    Inst::Icmp { p, ty: oty!(0), a: o!(0), b: o!(1), d }
                }
                45 | 5 => {
                    let n = LLVMGetNumArgOperands(i);
                    let cv = LLVMGetCalledValue(i);
                    let normal = if op == 5 { Some(blocks[&LLVMGetNormalDest(i)]) } else { None };
                    let d = if ty == Ty::Void { None } else { Some(d) };
                    let mut nm = String::new();
                    let f = if !LLVMIsAInlineAsm(cv).is_null() {
                        Callee::Asm
                    } else if let Some(id) = self.fids.get(&cv) {
                        nm = name(cv);
                        match crate::builtin::lookup(&nm) {
                            Some(b) => Callee::Builtin(b),
                            None => Callee::Fn(*id),
                        }
                    } else {
                        Callee::Ind(self.opd(cv, regs)?)
                    };
                    if nm.starts_with("llvm.lifetime")
                        || nm.starts_with("llvm.dbg")
                        || nm.starts_with("llvm.experimental.noalias")
                        || nm.starts_with("llvm.assume")
                        || nm.starts_with("llvm.invariant")
                        || nm.starts_with("llvm.donothing")
                        || nm.starts_with("llvm.prefetch")
                        || nm.starts_with("llvm.fake.use")
                        || nm.starts_with("llvm.x86.sse2.pause")
                    {
                        return Ok(Inst::Nop);
                    }
                    let mut args = vec![];
                    let mut tys = vec![];
                    for k in 0..n {
                        args.push(o!(k));
                        tys.push(oty!(k));
                    }
                    Inst::Call { f, args, tys, rty: ty, d, normal }
                }
                46 => Inst::Select { ty, c: o!(0), cty: oty!(0), a: o!(1), b: o!(2), d },
                50 => Inst::ExtElem { a: o!(0), i: o!(1), d },
                51 => Inst::InsElem { a: o!(0), v: o!(1), i: o!(2), d },
                52 => {
                    let n = LLVMGetNumMaskElements(i);
                    let mask = (0..n).map(|k| LLVMGetMaskValue(i, k)).collect();
                    let w = match oty!(0) {
                        Ty::Agg(a) => a.elems.len() as u32,
                        _ => 0,
                    };
                    Inst::Shuffle { a: o!(0), b: o!(1), n: w, mask, d }
                }
                53 | 54 => {
                    let n = LLVMGetNumIndices(i) as usize;
                    let path = std::slice::from_raw_parts(LLVMGetIndices(i), n).to_vec();
                    if op == 53 {
                        Inst::Extract { a: o!(0), path, d }
                    } else {
                        Inst::Insert { a: o!(0), v: o!(1), path, d }
                    }
                }
                55 => Inst::Fence { ord: LLVMGetOrdering(i) as u8 },
                56 => Inst::CmpXchg { ty: oty!(1), p: o!(0), cmp: o!(1), new: o!(2), d, ord: LLVMGetCmpXchgSuccessOrdering(i) as u8, ford: LLVMGetCmpXchgFailureOrdering(i) as u8 },
                57 => Inst::Rmw { op: LLVMGetAtomicRMWBinOp(i), ty, p: o!(0), v: o!(1), d, ord: LLVMGetOrdering(i) as u8 },
                68 => Inst::Copy { a: o!(0), d },
                _ => {
                    // (the numbers for branches differ between versions)
                    let br = match self.brs.get(&op) {
                        Some(b) => *b,
                        None => {
                            let b = print(i).trim_start().starts_with("br ");
                            self.brs.insert(op, b);
                            b
                        }
                    };
                    if br {
                        if LLVMGetNumSuccessors(i) == 1 {
                            Inst::Br { to: blocks[&LLVMGetSuccessor(i, 0)] }
                        } else {
                            Inst::CondBr {
                                c: o!(0),
                                t: blocks[&LLVMGetSuccessor(i, 0)],
                                f: blocks[&LLVMGetSuccessor(i, 1)],
                            }
                        }
                    } else {
                        return Err(print(i));
                    }
                }
            };
            Ok(r)
        }
    }
    fn func(&mut self, f: Ref, id: u32, block_base: u32) -> Func {
        unsafe {
            let nparams = LLVMCountParams(f);
            let mut regs: HashMap<Ref, u32> = HashMap::new();
            let mut n = 0u32;
            for i in 0..nparams {
                regs.insert(LLVMGetParam(f, i), n);
                n += 1;
            }
            let mut blocks: HashMap<Ref, u32> = HashMap::new();
            let mut b = LLVMGetFirstBasicBlock(f);
            while !b.is_null() {
                let k = blocks.len() as u32;
                blocks.insert(b, k);
                let mut i = LLVMGetFirstInstruction(b);
                while !i.is_null() {
                    if LLVMGetTypeKind(LLVMTypeOf(i)) != 0 {
                        regs.insert(i, n);
                        n += 1;
                    }
                    i = LLVMGetNextInstruction(i);
                }
                b = LLVMGetNextBasicBlock(b);
            }
            let mut out = vec![];
            let mut b = LLVMGetFirstBasicBlock(f);
            while !b.is_null() {
                let mut blk = Block::default();
                let mut i = LLVMGetFirstInstruction(b);
                while !i.is_null() {
                    if LLVMGetInstructionOpcode(i) == 44 {
                        for k in 0..LLVMCountIncoming(i) {
                            let from = blocks[&LLVMGetIncomingBlock(i, k)];
                            let v = LLVMGetIncomingValue(i, k);
                            match self.opd(v, &regs) {
                                Ok(o) => match blk.phis.iter_mut().find(|p| p.0 == from) {
                                    Some(p) => {
                                        // a predecessor may appear twice (switch)
                                        if !p.1.iter().any(|x| x.0 == regs[&i]) {
                                            p.1.push((regs[&i], o))
                                        }
                                    }
                                    None => blk.phis.push((from, vec![(regs[&i], o)])),
                                },
                                Err(e) => blk.insts.push(Inst::Unsupported { what: e }),
                            }
                        }
                    } else {
                        let r = match self.inst(i, &regs, &blocks) {
                            Ok(x) => x,
                            Err(e) => Inst::Unsupported { what: e },
                        };
                        if !matches!(r, Inst::Nop) {
                            blk.insts.push(r);
                        }
                    }
                    i = LLVMGetNextInstruction(i);
                }
                out.push(blk);
                b = LLVMGetNextBasicBlock(b);
            }
            Func {
                name: name(f),
                id,
                nparams,
                nregs: n,
                decl: LLVMIsDeclaration(f) != 0,
                blocks: out,
                block_base,
            }
        }
    }
    fn emit(&self, c: &C, t: &Ty, off: usize, out: &mut Vec<u8>) {
        match (c, t) {
            (C::A(v), Ty::Agg(a)) => {
                for (x, (o, et)) in v.iter().zip(&a.elems) {
                    self.emit(x, et, off + *o as usize, out);
                }
            }
            (C::I(x), t) => {
                let n = t.store_size() as usize;
                out[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            (C::W(x), t) => {
                let n = t.store_size() as usize;
                out[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            _ => {}
        }
    }
}

pub fn load(path: &str) -> Result<Prog, String> {
    let m = parse(path)?;
    let mut l = Lower { m: &m, tys: HashMap::new(), fids: HashMap::new(), gids: HashMap::new(), brs: HashMap::new() };
    unsafe {
        let mut fs = vec![];
        let mut f = LLVMGetFirstFunction(m.m);
        while !f.is_null() {
            l.fids.insert(f, fs.len() as u32);
            fs.push(f);
            f = LLVMGetNextFunction(f);
        }
        let mut gs = vec![];
        let mut g = LLVMGetFirstGlobal(m.m);
        while !g.is_null() {
            let c = LLVMIsGlobalConstant(g) != 0;
            l.gids.insert(g, (gs.len() as u32, c));
            gs.push(g);
            g = LLVMGetNextGlobal(g);
        }
        let mut globs = vec![];
        let mut glob_by_name = HashMap::new();
        for g in gs {
            let t = LLVMGlobalGetValueType(g);
            let nm = name(g);
            let mut data = vec![0u8; m.size(t) as usize];
            let init = LLVMGetInitializer(g);
            if !init.is_null() && !nm.starts_with("llvm.") {
                let ty = l.ty(t);
                match l.konst(init) {
                    Ok(c) => l.emit(&c, &ty, 0, &mut data),
                    Err(e) => return Err(format!("global {}: {}", nm, e)),
                }
            }
            glob_by_name.insert(nm.clone(), globs.len() as u32);
            globs.push(Glob { name: nm, data, constant: LLVMIsGlobalConstant(g) != 0 });
        }
        let mut funcs = vec![];
        let mut by_name = HashMap::new();
        let mut bb = 0;
        let mut ninsts = 0u64;
        for (i, f) in fs.iter().enumerate() {
            let fu = l.func(*f, i as u32, bb);
            bb += fu.blocks.len() as u32;
            ninsts += fu.blocks.iter().map(|b| b.insts.len() as u64).sum::<u64>();
            by_name.insert(fu.name.clone(), i as u32);
            funcs.push(fu);
        }
        Ok(Prog { funcs, by_name, globs, glob_by_name, nblocks: bb, ninsts })
    }
}
#[allow(dead_code)]
fn _u() {
    let _: Option<Rc<()>> = None;
    let _ = (print_ty, LLVMIsAConstantDataSequential, LLVMGetAlignment);
}
