//! The part of the LLVM C API (of the toolchain's own libLLVM) used to read the module.
#![allow(non_snake_case)]
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint, c_ulonglong, c_void};

pub type Ref = *mut c_void;
extern "C" {
    pub fn LLVMGetSwitchCaseValue(v: Ref, i: u32) -> Ref;
    fn LLVMContextCreate() -> Ref;
    fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut Ref, msg: *mut *mut c_char) -> c_int;
    fn LLVMParseIRInContext(c: Ref, b: Ref, out: *mut Ref, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMGetFirstFunction(m: Ref) -> Ref;
    pub fn LLVMGetNextFunction(f: Ref) -> Ref;
    pub fn LLVMGetFirstGlobal(m: Ref) -> Ref;
    pub fn LLVMGetNextGlobal(f: Ref) -> Ref;
    fn LLVMGetValueName2(v: Ref, n: *mut usize) -> *const c_char;
    pub fn LLVMGlobalGetValueType(v: Ref) -> Ref;
    pub fn LLVMGetInitializer(v: Ref) -> Ref;
    pub fn LLVMIsGlobalConstant(v: Ref) -> c_int;
    pub fn LLVMIsDeclaration(v: Ref) -> c_int;
    pub fn LLVMGetFirstBasicBlock(f: Ref) -> Ref;
    pub fn LLVMGetNextBasicBlock(f: Ref) -> Ref;
    pub fn LLVMGetFirstInstruction(b: Ref) -> Ref;
    pub fn LLVMGetNextInstruction(i: Ref) -> Ref;
    pub fn LLVMGetInstructionOpcode(i: Ref) -> c_int;
    pub fn LLVMTypeOf(v: Ref) -> Ref;
    pub fn LLVMGetTypeKind(t: Ref) -> c_int;
    pub fn LLVMGetIntTypeWidth(t: Ref) -> c_uint;
    pub fn LLVMGetNumOperands(v: Ref) -> c_int;
    pub fn LLVMGetOperand(v: Ref, i: c_uint) -> Ref;
    pub fn LLVMGetICmpPredicate(v: Ref) -> c_int;
    pub fn LLVMCountIncoming(v: Ref) -> c_uint;
    pub fn LLVMGetIncomingValue(v: Ref, i: c_uint) -> Ref;
    pub fn LLVMGetIncomingBlock(v: Ref, i: c_uint) -> Ref;
    pub fn LLVMGetNumSuccessors(v: Ref) -> c_uint;
    pub fn LLVMGetSuccessor(v: Ref, i: c_uint) -> Ref;
    pub fn LLVMGetCalledValue(v: Ref) -> Ref;
    pub fn LLVMGetNumArgOperands(v: Ref) -> c_uint;
    pub fn LLVMGetNumIndices(v: Ref) -> c_uint;
    pub fn LLVMGetIndices(v: Ref) -> *const c_uint;
    pub fn LLVMGetGEPSourceElementType(v: Ref) -> Ref;
    pub fn LLVMGetAllocatedType(v: Ref) -> Ref;
    pub fn LLVMGetAlignment(v: Ref) -> c_uint;
    pub fn LLVMGetAtomicRMWBinOp(v: Ref) -> c_int;
    pub fn LLVMGetOrdering(v: Ref) -> c_int;
    pub fn LLVMGetCmpXchgSuccessOrdering(v: Ref) -> c_int;
    pub fn LLVMGetCmpXchgFailureOrdering(v: Ref) -> c_int;
    pub fn LLVMGetNormalDest(v: Ref) -> Ref;
    pub fn LLVMGetParam(f: Ref, i: c_uint) -> Ref;
    pub fn LLVMCountParams(f: Ref) -> c_uint;
    pub fn LLVMIsConstant(v: Ref) -> c_int;
    pub fn LLVMIsAConstantInt(v: Ref) -> Ref;
    pub fn LLVMIsAConstantExpr(v: Ref) -> Ref;
    pub fn LLVMIsAConstantPointerNull(v: Ref) -> Ref;
    pub fn LLVMIsAConstantAggregateZero(v: Ref) -> Ref;
    pub fn LLVMIsAConstantDataSequential(v: Ref) -> Ref;
    pub fn LLVMIsAConstantFP(v: Ref) -> Ref;
    pub fn LLVMIsAGlobalValue(v: Ref) -> Ref;
    pub fn LLVMIsAGlobalAlias(v: Ref) -> Ref;
    pub fn LLVMAliasGetAliasee(v: Ref) -> Ref;
    pub fn LLVMIsAInlineAsm(v: Ref) -> Ref;
    pub fn LLVMIsUndef(v: Ref) -> c_int;
    pub fn LLVMConstIntGetZExtValue(v: Ref) -> c_ulonglong;
    pub fn LLVMConstRealGetDouble(v: Ref, l: *mut c_int) -> f64;
    pub fn LLVMGetAggregateElement(v: Ref, i: c_uint) -> Ref;
    pub fn LLVMGetConstOpcode(v: Ref) -> c_int;
    fn LLVMGetModuleDataLayout(m: Ref) -> Ref;
    fn LLVMABISizeOfType(d: Ref, t: Ref) -> c_ulonglong;
    fn LLVMStoreSizeOfType(d: Ref, t: Ref) -> c_ulonglong;
    fn LLVMOffsetOfElement(d: Ref, t: Ref, i: c_uint) -> c_ulonglong;
    pub fn LLVMStructGetTypeAtIndex(t: Ref, i: c_uint) -> Ref;
    pub fn LLVMCountStructElementTypes(t: Ref) -> c_uint;
    pub fn LLVMGetArrayLength2(t: Ref) -> u64;
    pub fn LLVMGetElementType(t: Ref) -> Ref;
    pub fn LLVMGetVectorSize(t: Ref) -> c_uint;
    pub fn LLVMGetNumMaskElements(t: Ref) -> c_uint;
    pub fn LLVMGetMaskValue(t: Ref, i: c_uint) -> c_int;
    fn LLVMPrintValueToString(v: Ref) -> *mut c_char;
    fn LLVMPrintTypeToString(v: Ref) -> *mut c_char;
}

pub struct Module {
    pub m: Ref,
    dl: Ref,
}

pub fn parse(path: &str) -> Result<Module, String> {
    unsafe {
        let c = LLVMContextCreate();
        let mut buf = std::ptr::null_mut();
        let mut msg: *mut c_char = std::ptr::null_mut();
        let p = CString::new(path).unwrap();
        if LLVMCreateMemoryBufferWithContentsOfFile(p.as_ptr(), &mut buf, &mut msg) != 0 {
            return Err(CStr::from_ptr(msg).to_string_lossy().into_owned());
        }
        let mut m = std::ptr::null_mut();
        if LLVMParseIRInContext(c, buf, &mut m, &mut msg) != 0 {
            return Err(CStr::from_ptr(msg).to_string_lossy().into_owned());
        }
        Ok(Module { m, dl: LLVMGetModuleDataLayout(m) })
    }
}
impl Module {
    pub fn size(&self, t: Ref) -> u64 {
        unsafe { LLVMABISizeOfType(self.dl, t) }
    }
    pub fn store_size(&self, t: Ref) -> u64 {
        unsafe { LLVMStoreSizeOfType(self.dl, t) }
    }
    pub fn offset(&self, t: Ref, i: u32) -> u64 {
        unsafe { LLVMOffsetOfElement(self.dl, t, i) }
    }
}
pub fn name(v: Ref) -> String {
    unsafe {
        let mut n = 0usize;
        let p = LLVMGetValueName2(v, &mut n);
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
    }
}
pub fn print(v: Ref) -> String {
    unsafe { CStr::from_ptr(LLVMPrintValueToString(v)).to_string_lossy().into_owned() }
}
pub fn print_ty(v: Ref) -> String {
    unsafe { CStr::from_ptr(LLVMPrintTypeToString(v)).to_string_lossy().into_owned() }
}
