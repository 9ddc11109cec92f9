// Intermediate representation shared between the extractor (a rustc driver) and the analyser.
// It is MIR after monomorphisation, with every place projection lowered to byte offsets.
use serde::{Deserialize, Serialize};

pub type FuncId = u32;
pub type TyId = u32;
pub type AllocId = u32;
pub type Local = u32;
pub type Bb = u32;

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Program {
    pub funcs: Vec<Func>,
    pub tys: Vec<Ty>,
    pub allocs: Vec<GAlloc>,
    pub files: Vec<String>,
    pub roots: Vec<(String, FuncId)>,
    /// every function item with a body that the crate under analysis defines (path, file, line), whether
    /// reachable or not
    pub crate_fns: Vec<(String, String, u32)>,
    pub crate_name: String,
    pub target: String,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Ty {
    pub name: String,
    /// None for unsized types
    pub size: Option<u64>,
    pub align: u64,
    pub kind: TyKind,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Meta {
    None,
    Slice(u64),
    Dyn,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum TyKind {
    Bool,
    Char,
    Int { bits: u16, signed: bool },
    Float(u16),
    /// reference or raw pointer
    Ptr { pointee: TyId, meta: Meta, is_ref: bool, mutable: bool },
    FnPtr,
    FnDef(Option<FuncId>),
    Array { elem: TyId, len: u64 },
    Slice { elem: TyId },
    Str,
    Dyn,
    Struct { fields: Vec<(u64, TyId)>, simd: Option<(TyId, u64)>, def: String },
    Enum { variants: Vec<Variant>, tag: Tag, discr_ty_bits: u16, discr_signed: bool, def: String },
    Union { def: String },
    Tuple { fields: Vec<(u64, TyId)> },
    Closure { fields: Vec<(u64, TyId)>, def: String },
    Never,
    Other,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Variant {
    pub name: String,
    pub discr: u128,
    pub fields: Vec<(u64, TyId)>,
    pub field_names: Vec<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Tag {
    Empty,
    Single(u32),
    Direct { off: u64, size: u64 },
    Niche { off: u64, size: u64, untagged: u32, start: u32, end: u32, niche_start: u128 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct GAlloc {
    pub name: String,
    pub kind: GAllocKind,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum GAllocKind {
    Memory(Const),
    Func(FuncId),
    /// A vtable: drop glue, size, align, methods
    VTable { ty: TyId, mem: Const, trait_name: String },
    Static { mem: Option<Const>, mutable: bool },
    Other,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Const {
    /// None = uninitialised byte
    pub bytes: Vec<Option<u8>>,
    /// (offset, allocation, addend already contained in `bytes`)
    pub relocs: Vec<(u64, AllocId)>,
    pub align: u64,
    pub mutable: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Func {
    pub path: String,
    pub name: String,
    pub krate: String,
    pub file: u32,
    pub line: u32,
    pub kind: FuncKind,
    pub locals: Vec<LocalDecl>,
    pub argc: u32,
    pub spread: Option<Local>,
    pub blocks: Vec<Block>,
    pub has_body: bool,
    pub target_features: Vec<String>,
    pub ty_args: Vec<GArg>,
    pub is_unsafe: bool,
    pub track_caller: bool,
    /// shims: kind description
    pub sig: Vec<TyId>,
    pub ret: Option<TyId>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum GArg {
    Ty(TyId),
    Const(Option<u128>),
    ConstBytes(Const),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum FuncKind {
    Item,
    Intrinsic(String),
    Llvm(String),
    Foreign(String),
    Virtual(u32),
    Shim,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct LocalDecl {
    pub ty: TyId,
    pub name: Option<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Block {
    pub stmts: Vec<(Stmt, u32)>,
    pub term: Term,
    pub line: u32,
    pub file: u32,
    pub cleanup: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Place {
    pub local: Local,
    pub proj: Vec<Proj>,
    pub ty: TyId,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Proj {
    /// byte offset within a sized aggregate
    Field(u64),
    /// dereference a pointer whose pointee has the given metadata
    Deref(Meta),
    /// index by a local; `len` is Some for arrays
    Index { local: Local, elem: u64, len: Option<u64> },
    ConstIndex { off: u64, from_end: bool, elem: u64, len: Option<u64> },
    Subslice { from: u64, to: u64, from_end: bool, elem: u64, len: Option<u64> },
    Unsupported(String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    Copy(Place),
    Move(Place),
    Const(Const, TyId),
    /// run-time checks switches (UB checks, overflow checks)
    Checks(bool),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Stmt {
    Assign(Place, Rv),
    SetDiscr(Place, u32),
    StorageLive(Local),
    StorageDead(Local),
    Assume(Op),
    CopyNonOverlapping { src: Op, dst: Op, count: Op, elem: u64 },
    Nop,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bin {
    Add,
    AddUnchecked,
    Sub,
    SubUnchecked,
    Mul,
    MulUnchecked,
    Div,
    Rem,
    Xor,
    And,
    Or,
    Shl,
    ShlUnchecked,
    Shr,
    ShrUnchecked,
    Eq,
    Lt,
    Le,
    Ne,
    Ge,
    Gt,
    Cmp,
    Offset,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Int,
    FloatToInt,
    IntToFloat,
    FloatToFloat,
    PtrToPtr,
    Transmute,
    ExposeAddr,
    FromExposed,
    /// array to slice: the array length
    UnsizeSlice(u64),
    Reborrow,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Rv {
    Use(Op),
    Repeat(Op, u64, u64),
    Ref(Place),
    Bin(Bin, Op, Op, TyId),
    CheckedBin(Bin, Op, Op, TyId),
    Not(Op, TyId),
    Neg(Op, TyId),
    PtrMeta(Op),
    Cast(CastK, Op, TyId, TyId),
    /// cast of a function item or closure to a function pointer
    Reify(FuncId),
    /// unsizing to a trait object: the operand is a pointer; the result gets this vtable
    UnsizeDyn(Op, AllocId),
    /// unsizing of a struct wrapping a pointer (Box, Arc, ...): pointer is at offset 0
    UnsizeOther(Op, TyId, TyId, String),
    Discr(Place),
    /// fields with their byte offsets; for enums the variant to be tagged
    Aggregate { fields: Vec<(u64, Op)>, variant: Option<u32>, ty: TyId },
    /// raw pointer from data pointer and metadata
    RawPtr(Op, Op),
    Len(Place),
    Unsupported(String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Callee {
    Direct(FuncId),
    Indirect(Op),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Term {
    Goto(Bb),
    Switch { op: Op, ty: TyId, targets: Vec<(u128, Bb)>, otherwise: Bb },
    Return,
    Unreachable,
    Resume,
    Abort,
    Drop { place: Place, glue: Option<FuncId>, target: Bb },
    Call { callee: Callee, args: Vec<Op>, dest: Place, target: Option<Bb> },
    Assert { cond: Op, expected: bool, kind: String, ops: Vec<Op>, target: Bb },
    Asm(Option<Bb>),
}
