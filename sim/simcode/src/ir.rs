//! The intermediate representation.

use wincode::{SchemaRead, SchemaWrite};

#[derive(Clone, Copy, Debug, PartialEq, Eq, SchemaRead, SchemaWrite)]
pub enum Ty {
    Int(u32),
    Ptr,
    Array { elem: u32, len: u32 },
}

impl Ty {
    pub fn bits(self) -> u32 {
        match self {
            Ty::Int(b) => b,
            Ty::Ptr => 64,
            Ty::Array { .. } => panic!("not a scalar"),
        }
    }
    /// Bytes written by a store.
    pub fn store_size(self) -> u64 {
        match self {
            Ty::Int(b) => (b as u64).div_ceil(8),
            Ty::Ptr => 8,
            Ty::Array { elem, len } => elem as u64 * len as u64,
        }
    }
    /// Distance between elements.
    pub fn alloc_size(self) -> u64 {
        match self {
            Ty::Int(b) if b <= 64 => (b as u64).div_ceil(8).next_power_of_two(),
            Ty::Int(b) => (b as u64).div_ceil(8).next_multiple_of(16),
            t => t.store_size(),
        }
    }
}

/// An operand: a register of the function, or (top bit) a constant of the module.
pub type Opnd = u32;
pub const CONST: u32 = 1 << 31;

#[derive(Clone, Copy, Debug, PartialEq, Eq, SchemaRead, SchemaWrite)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Or,
    And,
    Xor,
    Shl,
    LShr,
    AShr,
    UAddSat,
    UMax,
    UMin,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, SchemaRead, SchemaWrite)]
pub enum Cc {
    Eq,
    Ne,
    Slt,
    Sge,
    Sgt,
    Sle,
    Ult,
    Uge,
    Ugt,
    Ule,
}

#[derive(Clone, Debug, PartialEq, Eq, SchemaRead, SchemaWrite)]
pub enum Inst {
    Bin { op: Bin, bits: u32, a: Opnd, b: Opnd },
    Icmp { cc: Cc, bits: u32, a: Opnd, b: Opnd },
    Not { bits: u32, a: Opnd },
    Clz { bits: u32, a: Opnd },
    Bswap { bits: u32, a: Opnd },
    Sext { from: u32, to: u32, a: Opnd },
    /// Zero extension, truncation and pointer casts: keep the low bits.
    Mask { to: u32, a: Opnd },
    Select { c: Opnd, a: Opnd, b: Opnd },
    Load { size: u32, bits: u32, p: Opnd },
    Store { size: u32, v: Opnd, p: Opnd },
    /// `base + sum(sext(index) * scale)`
    Gep { base: Opnd, idx: Vec<(Opnd, u32, u64)> },
    Alloca { size: u64 },
    Memcpy { d: Opnd, s: Opnd, n: Opnd },
    Call { f: u32, args: Vec<Opnd> },
    Phi { inc: Vec<(Opnd, u32)> },
    Br(u32),
    BrIf { c: Opnd, t: u32, e: u32 },
    Switch { v: Opnd, default: u32, cases: Vec<(u64, u32)> },
    Ret(Option<Opnd>),
    Unreachable,
}

impl Inst {
    pub fn is_term(&self) -> bool {
        matches!(
            self,
            Inst::Br(_) | Inst::BrIf { .. } | Inst::Switch { .. } | Inst::Ret(_) | Inst::Unreachable
        )
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq, SchemaRead, SchemaWrite)]
pub struct Block {
    /// Destination register (`u32::MAX`: none) and instruction.
    pub insts: Vec<(u32, Inst)>,
}

#[derive(Clone, Debug, PartialEq, Eq, SchemaRead, SchemaWrite)]
pub struct Func {
    pub name: String,
    pub params: Vec<Ty>,
    pub ret: Option<Ty>,
    pub public: bool,
    /// Empty for imported functions.
    pub blocks: Vec<Block>,
    pub regs: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, SchemaRead, SchemaWrite)]
pub enum Const {
    Int([u64; 4]),
    Str(u32),
}

#[derive(Clone, Debug, Default, PartialEq, Eq, SchemaRead, SchemaWrite)]
pub struct Module {
    /// Which compilation produced it.
    pub uid: u64,
    pub funcs: Vec<Func>,
    pub consts: Vec<Const>,
    pub strs: Vec<Vec<u8>>,
}

pub fn hash(data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in data.chunks(8) {
        let mut b = [0; 8];
        b[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(b) ^ c.len() as u64).wrapping_mul(0x100000001b3).rotate_left(23);
    }
    h
}

pub const OBJ_MAGIC: &[u8; 8] = b"\x7fSIMOBJ1";
pub const LIB_MAGIC: &[u8; 8] = b"\x7fSIMLIB1";
const HEADER: usize = 24;

impl Module {
    pub fn code_size(&self) -> usize {
        let n: usize = self.funcs.iter().flat_map(|f| &f.blocks).map(|b| b.insts.len()).sum();
        // Pages, as the real memory manager allocates.
        (n * 8).next_multiple_of(4096).max(4096)
    }
    pub fn data_size(&self) -> usize {
        let n: usize = self.strs.iter().map(|s| s.len()).sum::<usize>() + self.funcs.len() * 64;
        n.next_multiple_of(4096)
    }

    pub fn to_object(&self) -> Vec<u8> {
        let body = wincode::serialize(self).expect("serialisable");
        wrap(OBJ_MAGIC, &body)
    }
}

fn wrap(magic: &[u8; 8], body: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(HEADER + body.len());
    v.extend_from_slice(magic);
    v.extend_from_slice(&(body.len() as u64).to_le_bytes());
    v.extend_from_slice(&hash(body).to_le_bytes());
    v.extend_from_slice(body);
    v
}

/// What parsing an image found.
pub enum Image {
    Good(Module),
    /// The headers are fine and the contents are not: the real loader would map it and run garbage.
    Corrupt,
}

pub fn parse(magic: &[u8; 8], data: &[u8]) -> Result<Image, String> {
    if data.len() < HEADER {
        return Err("file too short".into());
    }
    if &data[..8] != magic {
        return Err("invalid ELF header".into());
    }
    let len = u64::from_le_bytes(data[8..16].try_into().unwrap());
    let sum = u64::from_le_bytes(data[16..24].try_into().unwrap());
    let body = &data[HEADER..];
    if (body.len() as u64) < len {
        return Err("ELF file's data is truncated".into());
    }
    let body = &body[..len as usize];
    if hash(body) != sum {
        return Ok(Image::Corrupt);
    }
    match wincode::deserialize::<Module>(body) {
        Ok(m) => Ok(Image::Good(m)),
        Err(_) => Ok(Image::Corrupt),
    }
}

/// What `cc -shared` does with one object.
pub fn link_object(obj: &[u8]) -> Result<Vec<u8>, String> {
    match parse(OBJ_MAGIC, obj)? {
        Image::Good(_) => Ok(wrap(LIB_MAGIC, &obj[HEADER..])),
        Image::Corrupt => Err("corrupt object file".into()),
    }
}
