//! The harness's own description of ULog values and messages, independent of the library's types.
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Prim {
    U8,
    U16,
    U32,
    U64,
    I8,
    I16,
    I32,
    I64,
    F32,
    F64,
    Bool,
    Char,
}
pub const PRIMS: [Prim; 12] = [
    Prim::U8,
    Prim::U16,
    Prim::U32,
    Prim::U64,
    Prim::I8,
    Prim::I16,
    Prim::I32,
    Prim::I64,
    Prim::F32,
    Prim::F64,
    Prim::Bool,
    Prim::Char,
];
impl Prim {
    pub fn size(self) -> usize {
        match self {
            Prim::U8 | Prim::I8 | Prim::Bool | Prim::Char => 1,
            Prim::U16 | Prim::I16 => 2,
            Prim::U32 | Prim::I32 | Prim::F32 => 4,
            Prim::U64 | Prim::I64 | Prim::F64 => 8,
        }
    }
    pub fn text(self) -> &'static str {
        match self {
            Prim::U8 => "uint8_t",
            Prim::U16 => "uint16_t",
            Prim::U32 => "uint32_t",
            Prim::U64 => "uint64_t",
            Prim::I8 => "int8_t",
            Prim::I16 => "int16_t",
            Prim::I32 => "int32_t",
            Prim::I64 => "int64_t",
            Prim::F32 => "float",
            Prim::F64 => "double",
            Prim::Bool => "bool",
            Prim::Char => "char",
        }
    }
    pub fn from_text(s: &str) -> Option<Prim> {
        PRIMS.iter().copied().find(|p| p.text() == s)
    }
    pub fn rust(self) -> &'static str {
        match self {
            Prim::U8 => "u8",
            Prim::U16 => "u16",
            Prim::U32 => "u32",
            Prim::U64 => "u64",
            Prim::I8 => "i8",
            Prim::I16 => "i16",
            Prim::I32 => "i32",
            Prim::I64 => "i64",
            Prim::F32 => "f32",
            Prim::F64 => "f64",
            Prim::Bool => "bool",
            Prim::Char => "::yule_log::model::CChar",
        }
    }
    /// Bit pattern (zero-extended) to little-endian bytes.
    pub fn put(self, bits: u64, out: &mut Vec<u8>) {
        out.extend_from_slice(&bits.to_le_bytes()[..self.size()]);
    }
    pub fn get(self, b: &[u8]) -> u64 {
        let mut x = [0u8; 8];
        x[..self.size()].copy_from_slice(&b[..self.size()]);
        u64::from_le_bytes(x)
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Base {
    P(Prim),
    Other(String),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ty {
    pub base: Base,
    pub arr: Option<usize>,
}
impl Ty {
    pub fn p(p: Prim) -> Ty {
        Ty { base: Base::P(p), arr: None }
    }
    pub fn pa(p: Prim, n: usize) -> Ty {
        Ty { base: Base::P(p), arr: Some(n) }
    }
    pub fn text(&self) -> String {
        let b = match &self.base {
            Base::P(p) => p.text().to_string(),
            Base::Other(s) => s.clone(),
        };
        match self.arr {
            None => b,
            Some(n) => format!("{b}[{n}]"),
        }
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct FieldDef {
    pub name: String,
    pub ty: Ty,
}
impl FieldDef {
    pub fn new(name: &str, ty: Ty) -> FieldDef {
        FieldDef { name: name.to_string(), ty }
    }
    pub fn is_padding(&self) -> bool {
        self.name.starts_with("_padding")
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct FmtDef {
    pub name: String,
    pub fields: Vec<FieldDef>,
}
impl FmtDef {
    pub fn text(&self) -> String {
        let mut s = format!("{}:", self.name);
        for f in &self.fields {
            s.push_str(&f.ty.text());
            s.push(' ');
            s.push_str(&f.name);
            s.push(';');
        }
        s
    }
    /// Number of trailing padding fields.
    pub fn trailing_padding(&self) -> usize {
        self.fields.iter().rev().take_while(|f| f.is_padding()).count()
    }
}

/// Canonical value: primitives as zero-extended bit patterns.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum CVal {
    S(Prim, u64),
    A(Prim, Vec<u64>),
    N(Box<CFmt>),
    AN(Vec<CFmt>),
    /// Padding, compared as the bytes it covers.
    Raw(Vec<u8>),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct CField {
    pub name: Rc<str>,
    pub ty: Rc<str>,
    pub val: CVal,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct CFmt {
    pub ts: Option<u64>,
    pub name: Rc<str>,
    pub multi: Option<u8>,
    pub def: Rc<str>,
    pub fields: Vec<CField>,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum CMsg {
    Header {
        ver: u8,
        ts: u64,
    },
    Flags {
        compat: [u8; 8],
        incompat: [u8; 8],
        offs: [u64; 3],
    },
    Format(Rc<str>),
    Data {
        ts: u64,
        id: u16,
        fmt: CFmt,
    },
    Sub {
        multi: u8,
        id: u16,
        name: String,
    },
    Info {
        key: String,
        ty: String,
        val: CVal,
    },
    MInfo {
        cont: bool,
        key: String,
        ty: String,
        val: CVal,
    },
    Param {
        key: String,
        ty: String,
        val: CVal,
    },
    DefParam {
        dt: u8,
        key: String,
        ty: String,
        val: CVal,
    },
    /// `tagged`: which of the two message kinds it was returned as.
    Log {
        tagged: bool,
        level: u8,
        tag: Option<u16>,
        ts: u64,
        msg: String,
    },
    Drop(u16),
    Raw {
        t: u8,
        bytes: Vec<u8>,
    },
    Ignored(u8),
    Unknown(String),
}
impl CMsg {
    pub fn kind(&self) -> &'static str {
        match self {
            CMsg::Header { .. } => "Header",
            CMsg::Flags { .. } => "FlagBits",
            CMsg::Format(_) => "Format",
            CMsg::Data { .. } => "Data",
            CMsg::Sub { .. } => "AddSub",
            CMsg::Info { .. } => "Info",
            CMsg::MInfo { .. } => "MultiInfo",
            CMsg::Param { .. } => "Param",
            CMsg::DefParam { .. } => "DefParam",
            CMsg::Log { tagged: false, .. } => "Log",
            CMsg::Log { tagged: true, .. } => "TaggedLog",
            CMsg::Drop(_) => "Dropout",
            CMsg::Raw { .. } => "Unhandled",
            CMsg::Ignored(_) => "Ignored",
            CMsg::Unknown(_) => "Unknown",
        }
    }
    /// What is returned when the timestamp / padding options are off.
    pub fn project(&self, ts: bool, pad: bool) -> CMsg {
        let mut m = self.clone();
        if let CMsg::Data { fmt, .. } = &mut m {
            if !ts {
                fmt.fields.retain(|f| &*f.name != "timestamp");
            }
            if !pad {
                strip_padding(fmt);
            }
        }
        if let CMsg::Info { val, .. } | CMsg::MInfo { val, .. } = &mut m {
            if !pad {
                match val {
                    CVal::N(n) => strip_padding(n),
                    CVal::AN(v) => v.iter_mut().for_each(strip_padding),
                    _ => {}
                }
            }
        }
        m
    }
}
fn strip_padding(f: &mut CFmt) {
    f.fields.retain(|x| !x.name.starts_with("_padding"));
    for x in &mut f.fields {
        match &mut x.val {
            CVal::N(n) => strip_padding(n),
            CVal::AN(v) => v.iter_mut().for_each(strip_padding),
            _ => {}
        }
    }
}

/// One item of an iteration, canonical: a message or the kind of the error.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum CItem {
    M(CMsg),
    E(String),
}
impl CItem {
    pub fn kind(&self) -> String {
        match self {
            CItem::M(m) => m.kind().to_string(),
            CItem::E(e) => format!("Err:{e}"),
        }
    }
    pub fn is_err(&self) -> bool {
        matches!(self, CItem::E(_))
    }
}
