//! A small reference decoder written from the ULog file format description. It is used where the stream does not
//! come from the generator (the sample logs); the generator's own expectations are checked against it as well.
use crate::gen::{Exp, MAGIC};
use crate::model::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub struct Cur<'a>(pub &'a [u8]);
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if n > self.0.len() {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn le(&mut self, n: usize) -> Option<u64> {
        let b = self.take(n)?;
        let mut x = [0u8; 8];
        x[..n].copy_from_slice(b);
        Some(u64::from_le_bytes(x))
    }
}
fn parse_ty(s: &str) -> Option<Ty> {
    let (b, arr) = match s.find('[') {
        None => (s, None),
        Some(i) => (&s[..i], Some(s[i + 1..].strip_suffix(']')?.parse().ok()?)),
    };
    Some(Ty { base: Prim::from_text(b).map(Base::P).unwrap_or(Base::Other(b.to_string())), arr })
}
fn parse_field(s: &str) -> Option<FieldDef> {
    let (t, n) = s.trim().split_once(' ')?;
    Some(FieldDef { name: n.trim().to_string(), ty: parse_ty(t)? })
}
pub fn parse_fmt(s: &str) -> Option<FmtDef> {
    let (name, rest) = s.split_once(':')?;
    let mut fields = vec![];
    for f in rest.split(';') {
        if !f.trim().is_empty() {
            fields.push(parse_field(f)?);
        }
    }
    Some(FmtDef { name: name.to_string(), fields })
}
#[derive(Default)]
pub struct Ref {
    pub fmts: HashMap<String, Rc<FmtDef>>,
    pub subs: HashMap<u16, (u8, String)>,
    pub multi: HashSet<String>,
    pub data: bool,
    /// End of each message (header included).
    pub ends: Vec<usize>,
}
impl Ref {
    fn size(&self, t: &Ty) -> Option<usize> {
        let e = match &t.base {
            Base::P(p) => p.size(),
            Base::Other(n) => {
                let d = self.fmts.get(n)?.clone();
                let mut s = 0;
                for f in &d.fields {
                    s += self.size(&f.ty)?;
                }
                s
            }
        };
        Some(e * t.arr.unwrap_or(1))
    }
    fn val(&self, t: &Ty, c: &mut Cur) -> Option<CVal> {
        Some(match (&t.base, t.arr) {
            (Base::P(p), None) => CVal::S(*p, norm(*p, c.le(p.size())?)),
            (Base::P(p), Some(n)) => {
                if n.checked_mul(p.size())? > c.0.len() {
                    return None;
                }
                let mut v = Vec::with_capacity(n);
                for _ in 0..n {
                    v.push(norm(*p, c.le(p.size())?));
                }
                CVal::A(*p, v)
            }
            (Base::Other(n), None) => CVal::N(Box::new(self.inst(&self.fmts.get(n)?.clone(), c)?)),
            (Base::Other(n), Some(k)) => {
                let d = self.fmts.get(n)?.clone();
                let mut v = vec![];
                for _ in 0..k {
                    v.push(self.inst(&d, c)?);
                }
                CVal::AN(v)
            }
        })
    }
    fn inst(&self, d: &Rc<FmtDef>, c: &mut Cur) -> Option<CFmt> {
        let mut fields = vec![];
        let mut ts = None;
        for f in &d.fields {
            let val = if f.is_padding() {
                let n = self.size(&f.ty)?;
                if c.0.is_empty() && n > 0 {
                    continue;
                }
                CVal::Raw(c.take(n)?.to_vec())
            } else {
                self.val(&f.ty, c)?
            };
            if f.name == "timestamp" {
                if let CVal::S(Prim::U64, x) = val {
                    ts = Some(x);
                }
            }
            fields.push(CField { name: Rc::from(f.name.as_str()), ty: Rc::from(f.ty.text().as_str()), val });
        }
        Some(CFmt { ts, name: Rc::from(d.name.as_str()), multi: None, def: Rc::from(d.text().as_str()), fields })
    }
    fn kv(&self, c: &mut Cur) -> Option<(String, Ty, CVal)> {
        let n = c.le(1)? as usize;
        let k = std::str::from_utf8(c.take(n)?).ok()?;
        let f = parse_field(k)?;
        let v = self.val(&f.ty, c)?;
        Some((f.name, f.ty, v))
    }
    fn msg(&mut self, t: u8, p: &[u8]) -> Option<CMsg> {
        let c = &mut Cur(p);
        let raw = || CMsg::Raw { t, bytes: p.to_vec() };
        Some(match (t, self.data) {
            (b'B', false) => {
                let compat = c.take(8)?.try_into().unwrap();
                let incompat = c.take(8)?.try_into().unwrap();
                CMsg::Flags { compat, incompat, offs: [c.le(8)?, c.le(8)?, c.le(8)?] }
            }
            (b'F', false) => {
                let d = parse_fmt(std::str::from_utf8(p).ok()?)?;
                let txt = d.text();
                self.fmts.insert(d.name.clone(), Rc::new(d));
                CMsg::Format(Rc::from(txt.as_str()))
            }
            (b'I', _) => {
                let (key, ty, val) = self.kv(c)?;
                CMsg::Info { key, ty: ty.text(), val }
            }
            (b'M', _) => {
                let cont = c.le(1)? != 0;
                let (key, ty, val) = self.kv(c)?;
                CMsg::MInfo { cont, key, ty: ty.text(), val }
            }
            (b'P', _) | (b'Q', _) => {
                let dt = if t == b'Q' { c.le(1)? as u8 } else { 0 };
                let (key, ty, val) = self.kv(c)?;
                if ty != Ty::p(Prim::I32) && ty != Ty::p(Prim::F32) {
                    return None;
                }
                if t == b'P' {
                    CMsg::Param { key, ty: ty.text(), val }
                } else {
                    CMsg::DefParam { dt, key, ty: ty.text(), val }
                }
            }
            (b'A', _) => {
                let multi = c.le(1)? as u8;
                let id = c.le(2)? as u16;
                let name = String::from_utf8(c.0.to_vec()).ok()?;
                self.fmts.get(&name)?;
                self.subs.insert(id, (multi, name.clone()));
                if multi > 0 {
                    self.multi.insert(name.clone());
                }
                self.data = true;
                CMsg::Sub { multi, id, name }
            }
            (b'R', true) => {
                self.subs.remove(&(c.le(2)? as u16));
                raw()
            }
            (b'D', true) => {
                let id = c.le(2)? as u16;
                let (multi, name) = self.subs.get(&id)?.clone();
                let d = self.fmts.get(&name)?.clone();
                let mut fmt = self.inst(&d, c)?;
                if self.multi.contains(&name) {
                    fmt.multi = Some(multi);
                }
                CMsg::Data { ts: fmt.ts?, id, fmt }
            }
            (b'L', _) | (b'C', _) => {
                let level = c.le(1)? as u8;
                if !(b'0'..=b'7').contains(&level) {
                    return None;
                }
                let tag = if t == b'C' { Some(c.le(2)? as u16) } else { None };
                let ts = c.le(8)?;
                CMsg::Log { tagged: t == b'C', level, tag, ts, msg: String::from_utf8(c.0.to_vec()).ok()? }
            }
            (b'O', _) => CMsg::Drop(c.le(2)? as u16),
            _ => raw(),
        })
    }
}
fn norm(p: Prim, b: u64) -> u64 {
    if p == Prim::Bool {
        (b != 0) as u64
    } else {
        b
    }
}
/// Decodes a stream whose messages are all complete.
pub fn decode(b: &[u8]) -> Option<(Vec<Exp>, Ref)> {
    let mut r = Ref::default();
    if b.len() < 16 || b[..7] != MAGIC {
        return None;
    }
    let mut v = vec![Exp::M(CMsg::Header { ver: b[7], ts: u64::from_le_bytes(b[8..16].try_into().unwrap()) })];
    r.ends.push(16);
    let mut p = 16;
    while p + 3 <= b.len() {
        let n = u16::from_le_bytes([b[p], b[p + 1]]) as usize;
        if p + 3 + n > b.len() {
            return None;
        }
        v.push(r.msg(b[p + 2], &b[p + 3..p + 3 + n]).map(Exp::M).unwrap_or(Exp::E));
        p += 3 + n;
        r.ends.push(p);
    }
    if p == b.len() {
        Some((v, r))
    } else {
        None
    }
}
