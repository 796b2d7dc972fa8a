//! Library values to canonical values, through the public API only.
use crate::model::*;
use std::rc::Rc;
use yule_log::encode::Encode;
use yule_log::errors::ULogError;
use yule_log::model::msg::UlogMessage;
use yule_log::model::{def, inst};

pub fn base(b: &def::BaseType) -> Base {
    use def::BaseType::*;
    Base::P(match b {
        UINT8 => Prim::U8,
        UINT16 => Prim::U16,
        UINT32 => Prim::U32,
        UINT64 => Prim::U64,
        INT8 => Prim::I8,
        INT16 => Prim::I16,
        INT32 => Prim::I32,
        INT64 => Prim::I64,
        FLOAT => Prim::F32,
        DOUBLE => Prim::F64,
        BOOL => Prim::Bool,
        CHAR => Prim::Char,
        OTHER(s) => return Base::Other(s.clone()),
    })
}
pub fn ty(t: &def::TypeExpr) -> Ty {
    Ty { base: base(&t.base_type), arr: t.array_size }
}
pub fn fmt_def(f: &def::Format) -> FmtDef {
    FmtDef {
        name: f.name.to_string(),
        fields: f.fields.iter().map(|x| FieldDef { name: x.name.to_string(), ty: ty(&x.r#type) }).collect(),
    }
}
pub fn val(v: &inst::FieldValue, c: &mut DefCache) -> CVal {
    use inst::FieldValue::*;
    use Prim as P;
    match v {
        ScalarU8(x) => CVal::S(P::U8, *x as u64),
        ScalarU16(x) => CVal::S(P::U16, *x as u64),
        ScalarU32(x) => CVal::S(P::U32, *x as u64),
        ScalarU64(x) => CVal::S(P::U64, *x),
        ScalarI8(x) => CVal::S(P::I8, *x as u8 as u64),
        ScalarI16(x) => CVal::S(P::I16, *x as u16 as u64),
        ScalarI32(x) => CVal::S(P::I32, *x as u32 as u64),
        ScalarI64(x) => CVal::S(P::I64, *x as u64),
        ScalarF32(x) => CVal::S(P::F32, x.to_bits() as u64),
        ScalarF64(x) => CVal::S(P::F64, x.to_bits()),
        ScalarBool(x) => CVal::S(P::Bool, *x as u64),
        ScalarChar(x) => CVal::S(P::Char, x.0 as u64),
        ScalarOther(f) => CVal::N(Box::new(fmt(f, c))),
        ArrayU8(a) => CVal::A(P::U8, a.iter().map(|x| *x as u64).collect()),
        ArrayU16(a) => CVal::A(P::U16, a.iter().map(|x| *x as u64).collect()),
        ArrayU32(a) => CVal::A(P::U32, a.iter().map(|x| *x as u64).collect()),
        ArrayU64(a) => CVal::A(P::U64, a.to_vec()),
        ArrayI8(a) => CVal::A(P::I8, a.iter().map(|x| *x as u8 as u64).collect()),
        ArrayI16(a) => CVal::A(P::I16, a.iter().map(|x| *x as u16 as u64).collect()),
        ArrayI32(a) => CVal::A(P::I32, a.iter().map(|x| *x as u32 as u64).collect()),
        ArrayI64(a) => CVal::A(P::I64, a.iter().map(|x| *x as u64).collect()),
        ArrayF32(a) => CVal::A(P::F32, a.iter().map(|x| x.to_bits() as u64).collect()),
        ArrayF64(a) => CVal::A(P::F64, a.iter().map(|x| x.to_bits()).collect()),
        ArrayBool(a) => CVal::A(P::Bool, a.iter().map(|x| *x as u64).collect()),
        ArrayChar(a) => CVal::A(P::Char, a.iter().map(|x| x.0 as u64).collect()),
        ArrayOther(a) => CVal::AN(a.iter().map(|f| fmt(f, c)).collect()),
    }
}
pub fn raw(v: &inst::FieldValue) -> Vec<u8> {
    let mut b = Vec::new();
    if v.encode(&mut b).is_err() {
        b = b"<encode failed>".to_vec();
    }
    b
}

/// Interns the textual form of definitions by address, so that large data messages stay cheap.
#[derive(Default)]
pub struct DefCache(Vec<(*const def::Format, Rc<str>, Rc<str>, Vec<(Rc<str>, Rc<str>)>)>);
impl DefCache {
    fn of(&mut self, f: &inst::Format) -> usize {
        let d: &def::Format = &f.def_format;
        let p = d as *const def::Format;
        // Only valid while the definition is alive: the cache lives for one message.
        if let Some(i) = self.0.iter().position(|e| e.0 == p) {
            return i;
        }
        let fd = fmt_def(d);
        let fl = fd.fields.iter().map(|x| (Rc::from(x.name.as_str()), Rc::from(x.ty.text().as_str()))).collect();
        self.0.push((p, Rc::from(fd.text().as_str()), Rc::from(fd.name.as_str()), fl));
        self.0.len() - 1
    }
}

pub fn fmt(f: &inst::Format, c: &mut DefCache) -> CFmt {
    let i = c.of(f);
    let def = c.0[i].1.clone();
    let name = if &*c.0[i].2 == &*f.name { c.0[i].2.clone() } else { Rc::from(&*f.name) };
    let mut fields = Vec::with_capacity(f.fields.len());
    for (k, x) in f.fields.iter().enumerate() {
        let t = ty(&x.r#type).text();
        let (fname, fty) = match c.0[i].3.get(k) {
            Some((n, t0)) if **n == *x.name && **t0 == *t => (n.clone(), t0.clone()),
            _ => (Rc::from(&*x.name), Rc::from(t.as_str())),
        };
        let v = if x.name.starts_with("_padding") { CVal::Raw(raw(&x.value)) } else { val(&x.value, c) };
        fields.push(CField { name: fname, ty: fty, val: v });
    }
    CFmt { ts: f.timestamp, name, multi: f.multi_id_index, def, fields }
}
fn pval(v: &inst::ParameterValue) -> CVal {
    match v {
        inst::ParameterValue::INT32(x) => CVal::S(Prim::I32, *x as u32 as u64),
        inst::ParameterValue::FLOAT(x) => CVal::S(Prim::F32, x.to_bits() as u64),
    }
}
pub fn msg(m: &UlogMessage) -> CMsg {
    let c = &mut DefCache::default();
    #[allow(unreachable_patterns)]
    match m {
        UlogMessage::Header(h) => CMsg::Header { ver: h.version, ts: h.timestamp },
        UlogMessage::FlagBits(b) => {
            CMsg::Flags { compat: b.compat_flags, incompat: b.incompat_flags, offs: b.appended_data_offsets }
        }
        UlogMessage::FormatDefinition(f) => CMsg::Format(Rc::from(fmt_def(f).text().as_str())),
        UlogMessage::LoggedData(d) => CMsg::Data { ts: d.timestamp, id: d.msg_id, fmt: fmt(&d.data, c) },
        UlogMessage::AddSubscription(s) => CMsg::Sub { multi: s.multi_id, id: s.msg_id, name: s.message_name.clone() },
        UlogMessage::Info(i) => CMsg::Info { key: i.key.clone(), ty: ty(&i.r#type).text(), val: val(&i.value, c) },
        UlogMessage::MultiInfo(i) => {
            CMsg::MInfo { cont: i.is_continued, key: i.key.clone(), ty: ty(&i.r#type).text(), val: val(&i.value, c) }
        }
        UlogMessage::Parameter(p) => CMsg::Param { key: p.key.clone(), ty: ty(&p.r#type).text(), val: pval(&p.value) },
        UlogMessage::DefaultParameter(p) => {
            CMsg::DefParam { dt: p.default_types, key: p.key.clone(), ty: ty(&p.r#type).text(), val: pval(&p.value) }
        }
        UlogMessage::LoggedString(l) => {
            CMsg::Log { tagged: false, level: l.level as u8, tag: l.tag, ts: l.timestamp, msg: l.msg.clone() }
        }
        UlogMessage::TaggedLoggedString(l) => {
            CMsg::Log { tagged: true, level: l.level as u8, tag: l.tag, ts: l.timestamp, msg: l.msg.clone() }
        }
        UlogMessage::DropoutMark(d) => {
            // The duration field is private: observe it through the encoder.
            let mut b = Vec::new();
            let _ = d.encode(&mut b);
            if b.len() == 2 {
                CMsg::Drop(u16::from_le_bytes([b[0], b[1]]))
            } else {
                CMsg::Unknown(format!("dropout encoded as {b:?}"))
            }
        }
        UlogMessage::Unhandled { msg_type, message_contents } => CMsg::Raw { t: *msg_type, bytes: message_contents.clone() },
        UlogMessage::Ignored { msg_type, .. } => CMsg::Ignored(*msg_type),
        other => CMsg::Unknown(format!("{other:?}")),
    }
}
pub fn err(e: &ULogError) -> String {
    #[allow(unreachable_patterns)]
    match e {
        ULogError::Io(e) => format!("Io({:?})", e.kind()),
        ULogError::Utf8(_) => "Utf8".into(),
        ULogError::UnknownParameterType(_) => "UnknownParameterType".into(),
        ULogError::InvalidMagicBits => "InvalidMagicBits".into(),
        ULogError::InvalidHeader => "InvalidHeader".into(),
        ULogError::InvalidDefinitions => "InvalidDefinitions".into(),
        ULogError::UnexpectedEndOfFile => "UnexpectedEndOfFile".into(),
        ULogError::ParseError(_) => "ParseError".into(),
        ULogError::InternalError(_) => "InternalError".into(),
        ULogError::DatabaseError(_) => "DatabaseError".into(),
        ULogError::UndefinedFormat(_) => "UndefinedFormat".into(),
        ULogError::UndefinedSubscription(_) => "UndefinedSubscription".into(),
        ULogError::UnknownIncompatBits => "UnknownIncompatBits".into(),
        ULogError::MissingTimestamp => "MissingTimestamp".into(),
        ULogError::InvalindMultiInfo(_) => "InvalindMultiInfo".into(),
        ULogError::InvalidDefaultParameterType => "InvalidDefaultParameterType".into(),
        ULogError::TypeMismatch(_) => "TypeMismatch".into(),
        ULogError::InvalidFieldName(_) => "InvalidFieldName".into(),
        ULogError::InvalidConfiguration(_) => "InvalidConfiguration".into(),
        other => format!("other:{other:?}"),
    }
}
pub fn item(r: &Result<UlogMessage, ULogError>) -> CItem {
    match r {
        Ok(m) => CItem::M(msg(m)),
        Err(e) => CItem::E(err(e)),
    }
}
