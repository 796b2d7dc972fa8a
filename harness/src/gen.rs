//! Generator of well-formed ULog streams. Every message is laid out from the public ULog file format
//! description together with the canonical message a reader must obtain from it, so expected results never
//! come from the code under test.
use crate::model::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

pub const MAGIC: [u8; 7] = [0x55, 0x4c, 0x6f, 0x67, 0x01, 0x12, 0x35];
pub const KNOWN: &[u8] = b"FDIMPQARSOLCB";

pub fn frame(t: u8, payload: &[u8]) -> Vec<u8> {
    assert!(payload.len() <= 65535, "harness: payload too long");
    let mut v = Vec::with_capacity(payload.len() + 3);
    v.extend_from_slice(&(payload.len() as u16).to_le_bytes());
    v.push(t);
    v.extend_from_slice(payload);
    v
}
pub fn header_bytes(ver: u8, ts: u64) -> Vec<u8> {
    let mut v = MAGIC.to_vec();
    v.push(ver);
    v.extend_from_slice(&ts.to_le_bytes());
    v
}

#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    M(CMsg),
    /// Exactly one error of whatever kind.
    E,
}
#[derive(Clone, Debug)]
pub struct WMsg {
    pub bytes: Vec<u8>,
    pub exp: Exp,
    /// Label used in coverage counters and reports.
    pub what: &'static str,
}
#[derive(Clone)]
pub struct Log {
    pub msgs: Vec<WMsg>,
}
impl Log {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(self.msgs.iter().map(|m| m.bytes.len()).sum());
        for m in &self.msgs {
            v.extend_from_slice(&m.bytes);
        }
        v
    }
    /// Start offset of each message, and the total length.
    pub fn starts(&self) -> Vec<usize> {
        let mut v = vec![0];
        for m in &self.msgs {
            v.push(v.last().unwrap() + m.bytes.len());
        }
        v
    }
    pub fn exps(&self) -> Vec<Exp> {
        self.msgs.iter().map(|m| m.exp.clone()).collect()
    }
    pub fn summary(&self) -> String {
        let mut s = String::new();
        for m in self.msgs.iter().take(60) {
            s.push_str(m.what);
            s.push(' ');
        }
        if self.msgs.len() > 60 {
            s.push_str(&format!("… {} messages", self.msgs.len()));
        }
        s
    }
}

/// Features of one log (chosen at random per log: swarm testing).
#[derive(Clone, Debug)]
pub struct Cfg {
    pub formats: usize,
    pub body: usize,
    pub unknown: bool,
    pub removal: bool,
    pub big: bool,
    pub strange_names: bool,
    pub padding: bool,
    pub nesting: bool,
    pub multi: bool,
    pub infos: bool,
    pub params: bool,
    pub strings: bool,
    pub out_of_place: bool,
    pub flags: bool,
    /// Formats may be defined more than once: the last definition is the one that counts.
    pub redefine: bool,
    /// Many formats and subscriptions, ids beyond 255 in force at once.
    pub crowd: bool,
    pub max_fmt: usize,
}
impl Cfg {
    pub fn random(r: &mut Rng) -> Cfg {
        Cfg {
            formats: r.range(1, 6),
            body: *r.pick(&[2, 5, 10, 20, 40]),
            unknown: r.chance(1, 3),
            removal: r.chance(1, 3),
            big: r.chance(1, 40),
            strange_names: r.chance(1, 3),
            padding: r.chance(1, 2),
            nesting: r.chance(1, 2),
            multi: r.chance(1, 2),
            infos: r.chance(3, 4),
            params: r.chance(3, 4),
            strings: r.chance(3, 4),
            out_of_place: r.chance(1, 5),
            flags: r.chance(3, 4),
            redefine: r.chance(1, 6),
            crowd: r.chance(1, 60),
            max_fmt: 400,
        }
    }
    /// Small logs, for fault enumeration and interpreters.
    pub fn small(r: &mut Rng) -> Cfg {
        let mut c = Cfg::random(r);
        c.formats = r.range(1, 3);
        c.body = r.range(2, 8);
        c.big = false;
        c.crowd = false;
        c.max_fmt = 60;
        c
    }
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub cfg: Cfg,
    /// All formats of the log, by name (defined or not yet).
    pub fmts: HashMap<String, Rc<FmtDef>>,
    /// Names in definition order; the ones that can be subscribed come with a timestamp.
    pub order: Vec<String>,
    pub topics: Vec<String>,
    pub subs: BTreeMap<u16, (u8, String)>,
    pub multi_names: HashSet<String>,
    pub in_data: bool,
    pub msgs: Vec<WMsg>,
}

const WORDS: &[&str] = &[
    "vehicle",
    "status",
    "sensor",
    "gyro",
    "accel",
    "heartbeat",
    "battery",
    "gps",
    "x",
    "att",
    "rates",
    "mag",
    "timestamp",
    "esc",
    "log",
    "float",
    "int",
    "uint8",
    "char",
    "cpuload",
    "A",
    "Q7",
    "pos",
    "vel",
    "rc",
];

/// A name made of the characters the format allows; never empty, a basic type, or only digits.
pub fn message_name(r: &mut Rng, strange: bool) -> String {
    loop {
        let mut s = String::new();
        for i in 0..r.range(1, 3) {
            if i > 0 {
                s.push_str(if strange { *r.pick(&["_", "-", "/", "__", ""]) } else { "_" });
            }
            s.push_str(r.pick(WORDS));
        }
        if strange {
            match r.below(6) {
                0 => s.insert(0, '_'),
                1 => s.push(char::from(b'0' + r.below(10) as u8)),
                2 => s = s.to_uppercase(),
                3 => s = format!("{}{s}", r.below(100)),
                4 => {
                    let set = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-/";
                    s = (0..r.range(1, 40)).map(|_| *r.pick(set) as char).collect();
                }
                _ => s.push_str(r.pick(&["_t", "-1", "/0", "_", "-", "/"])),
            }
        }
        if Prim::from_text(&s).is_none() && !s.bytes().all(|b| b.is_ascii_digit()) {
            return s;
        }
    }
}
/// A field name (letters, digits, underscores), neither "timestamp" nor padding.
pub fn field_name(r: &mut Rng, strange: bool) -> String {
    loop {
        let mut s = String::from(*r.pick(&[
            "x",
            "y",
            "z",
            "q",
            "value",
            "timestamp_sample",
            "time",
            "data",
            "alt",
            "lat",
            "name",
            "output",
            "id",
            "temperature",
            "flags",
            "n",
            "type",
            "padding0",
            "Timestamp",
            "timestamps",
            "_pad",
            "_timestamp",
            "count",
            "x_padding",
            "crop_padding0",
            "padding",
            "_Padding0",
            "_paddin",
            "my_timestamp",
            "timestamp_",
        ]));
        if r.chance(1, 2) {
            s.push_str(&format!("{}", r.below(100)));
        }
        if strange {
            match r.below(5) {
                0 => s.insert(0, '_'),
                1 => s = s.to_uppercase(),
                2 => s = format!("{}{s}", r.below(10)),
                3 => {
                    let set = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
                    s = (0..r.range(1, 60)).map(|_| *r.pick(set) as char).collect();
                }
                _ => {}
            }
        }
        if s != "timestamp" && !s.starts_with("_padding") && !s.bytes().all(|b| b.is_ascii_digit()) {
            return s;
        }
    }
}
pub fn key_name(r: &mut Rng, strange: bool) -> String {
    if r.chance(1, 2) {
        let s = *r.pick(&[
            "ver_hw",
            "ver_sw",
            "ver_sw_release",
            "ver_os_release",
            "sys_name",
            "sys_uuid",
            "time_ref_utc",
            "replay",
            "perf_top",
            "SYS_AUTOSTART",
            "EKF2_TAU_POS",
            "ver_",
            "_release",
            "ver_release",
            "boot_console_output",
        ]);
        return s.to_string();
    }
    message_name(r, strange)
}

/// A bit pattern for a primitive: boundaries and special values as often as random ones.
pub fn prim_bits(r: &mut Rng, p: Prim) -> u64 {
    let mask = if p.size() == 8 { u64::MAX } else { (1u64 << (8 * p.size())) - 1 };
    match p {
        Prim::Bool => r.below(2) as u64,
        Prim::F32 if r.flip() => {
            let s: &[u32] = &[
                0,
                0x8000_0000,
                0x7f80_0000,
                0xff80_0000,
                0x7fc0_0000,
                0x7f80_0001,
                0xffff_ffff,
                1,
                0x007f_ffff,
                0x3f80_0000,
                0x7f7f_ffff,
                0x3dcc_cccd,
                0x4b80_0000,
                0x3eaa_aaab,
            ];
            *r.pick(s) as u64
        }
        Prim::F64 if r.flip() => {
            let s: &[u64] = &[
                0,
                1 << 63,
                0x7ff0 << 48,
                0xfff0 << 48,
                0x7ff8 << 48,
                (0x7ff0 << 48) | 1,
                u64::MAX,
                1,
                0x3fb9_9999_9999_999a,
                0x4340_0000_0000_0000,
                0x7fef_ffff_ffff_ffff,
                0x3fd5_5555_5555_5555,
            ];
            *r.pick(s)
        }
        Prim::Char if r.chance(2, 3) => 32 + r.below(95) as u64,
        _ => match r.below(5) {
            0 => 0,
            1 => mask,
            2 => mask >> 1,
            3 => (mask >> 1) + 1,
            _ => r.u64() & mask,
        },
    }
}
pub fn text(r: &mut Rng, max: usize) -> String {
    let n = match r.below(6) {
        0 => 0,
        1 => max,
        _ => r.below(max.min(40) + 1),
    };
    let mut s = String::new();
    while s.len() < n {
        let c = match r.below(12) {
            0 => 'é',
            1 => '\n',
            2 => '😀',
            3 => '\0',
            4 => '"',
            _ => char::from(32 + r.below(95) as u8),
        };
        if s.len() + c.len_utf8() > n {
            s.push('.');
        } else {
            s.push(c);
        }
    }
    s
}

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, cfg: Cfg) -> Gen<'r> {
        Gen {
            r,
            cfg,
            fmts: HashMap::new(),
            order: vec![],
            topics: vec![],
            subs: BTreeMap::new(),
            multi_names: HashSet::new(),
            in_data: false,
            msgs: vec![],
        }
    }
    pub fn log(self) -> Log {
        Log { msgs: self.msgs }
    }
    pub fn push(&mut self, what: &'static str, bytes: Vec<u8>, exp: Exp) {
        self.msgs.push(WMsg { bytes, exp, what });
    }
    pub fn add(&mut self, what: &'static str, t: u8, payload: &[u8], exp: CMsg) {
        self.push(what, frame(t, payload), Exp::M(exp));
    }

    // ---- definitions -------------------------------------------------------------------------------------
    pub fn header(&mut self) {
        let (ver, ts) = (*self.r.pick(&[0u8, 1, 1, 1, 2, 255]), prim_bits(self.r, Prim::U64));
        self.push("header", header_bytes(ver, ts), Exp::M(CMsg::Header { ver, ts }));
    }
    pub fn flags(&mut self, compat: [u8; 8], incompat: [u8; 8], offs: [u64; 3]) {
        let mut p = compat.to_vec();
        p.extend_from_slice(&incompat);
        for o in offs {
            p.extend_from_slice(&o.to_le_bytes());
        }
        self.add("B", b'B', &p, CMsg::Flags { compat, incompat, offs });
    }
    /// Flag bits that declare no appended data: the offsets must have no effect.
    pub fn flags_plain(&mut self) {
        let mut compat = [0u8; 8];
        compat[0] = self.r.below(2) as u8;
        if self.r.chance(1, 3) {
            compat = self.r.u64().to_le_bytes();
        }
        let offs = match self.r.below(3) {
            0 => [0; 3],
            1 => [self.r.below(200) as u64, 0, self.r.u64()],
            _ => [self.r.u64(), self.r.u64(), 17],
        };
        self.flags(compat, [0; 8], offs);
    }

    fn fsize(&self, fields: &[FieldDef]) -> usize {
        fields.iter().map(|f| self.ty_size(&f.ty)).sum()
    }
    pub fn ty_size(&self, t: &Ty) -> usize {
        let e = match &t.base {
            Base::P(p) => p.size(),
            Base::Other(n) => self.fsize(&self.fmts[n].fields),
        };
        e * t.arr.unwrap_or(1)
    }
    fn random_prim_ty(&mut self, room: usize) -> Ty {
        let p = *self.r.pick(&PRIMS);
        let max = room / p.size();
        if max == 0 {
            return Ty::p(Prim::U8);
        }
        if self.r.chance(2, 5) {
            let n = match self.r.below(8) {
                0 => 1,
                1 => max,
                2 => self.r.below(max.min(64) + 1).max(1),
                _ => self.r.below(max.min(6) + 1).max(1),
            };
            Ty::pa(p, n)
        } else {
            Ty::p(p)
        }
    }
    pub fn padding_field(&mut self, k: usize) -> FieldDef {
        let name = match self.r.below(4) {
            0 => match self.r.below(3) {
                0 if k == 0 => "_padding".into(),
                1 => format!("_padding_{k}_{}", self.r.below(10)),
                _ => format!("_padding{}", self.r.below(1000) + k * 1000),
            },
            _ => format!("_padding{k}"),
        };
        let ty = match self.r.below(8) {
            0 => Ty::p(Prim::U8),
            1 => Ty::p(*self.r.pick(&PRIMS)),
            2 => Ty::pa(*self.r.pick(&PRIMS), self.r.range(1, 4)),
            _ => Ty::pa(Prim::U8, self.r.range(1, 8)),
        };
        FieldDef { name, ty }
    }
    /// Creates (without emitting) the formats of the log: a DAG, with topics carrying a timestamp.
    pub fn make_formats(&mut self, n: usize) {
        let strange = self.cfg.strange_names;
        let mut made: Vec<(String, usize, usize)> = vec![]; // name, size, depth
        for k in 0..n {
            let mut name = message_name(self.r, strange);
            if k > 0 && self.r.chance(1, 6) {
                // Names that only just differ.
                let other = self.r.pick(&made).0.clone();
                name = match self.r.below(5) {
                    0 => other.to_uppercase(),
                    1 => other.to_lowercase(),
                    2 => other[..other.len() - 1].to_string(),
                    3 => format!("{other}{}", self.r.below(10)),
                    _ => format!("{other}_{}", self.r.pick(WORDS)),
                };
                if name.is_empty() || name.bytes().all(|b| b.is_ascii_digit()) || Prim::from_text(&name).is_some() {
                    name = message_name(self.r, strange);
                }
            }
            while self.fmts.contains_key(&name) {
                name.push_str(&format!("_{k}"));
            }
            let topic = k == n - 1 || self.r.chance(2, 3);
            let mut room = self.cfg.max_fmt;
            let mut fields: Vec<FieldDef> = vec![];
            let mut names = HashSet::new();
            let count = *self.r.pick(&[0, 1, 2, 3, 4, 6, 10]);
            let mut depth = 0;
            let mut npad = 0;
            for _ in 0..count.max(if topic { 0 } else { 1 }) {
                if self.cfg.padding && self.r.chance(1, 4) {
                    let f = self.padding_field(npad);
                    npad += 1;
                    room = room.saturating_sub(self.ty_size(&f.ty));
                    if names.insert(f.name.clone()) {
                        fields.push(f);
                    }
                    continue;
                }
                let mut fname = field_name(self.r, strange);
                while !names.insert(fname.clone()) {
                    fname.push('_');
                }
                let mut ty = None;
                if self.cfg.nesting && !made.is_empty() && self.r.chance(1, 3) {
                    let (nn, ns, nd) = self.r.pick(&made).clone();
                    if ns > 0 && nd < 4 && ns <= room {
                        let arr = if self.r.flip() { Some(self.r.range(1, (room / ns).min(4))) } else { None };
                        ty = Some(Ty { base: Base::Other(nn), arr });
                        depth = depth.max(nd + 1);
                    }
                }
                let ty = ty.unwrap_or_else(|| self.random_prim_ty(room.max(1)));
                room = room.saturating_sub(self.ty_size(&ty));
                fields.push(FieldDef { name: fname, ty });
            }
            if topic {
                let at = if self.r.chance(3, 4) { 0 } else { self.r.below(fields.len() + 1) };
                fields.insert(at, FieldDef::new("timestamp", Ty::p(Prim::U64)));
            } else if self.r.chance(1, 3) {
                // A nested structure may have a member of that name too, of any type.
                let ty = if self.r.flip() { Ty::p(Prim::U64) } else { self.random_prim_ty(16) };
                fields.push(FieldDef::new("timestamp", ty));
            }
            if self.cfg.padding && self.r.chance(1, 3) {
                for _ in 0..self.r.range(1, 2) {
                    let f = self.padding_field(100 + npad);
                    npad += 1;
                    fields.push(f);
                }
            }
            let def = FmtDef { name: name.clone(), fields };
            let size = self.fsize(&def.fields);
            // Nested structures carry at least one byte per field.
            made.push((name.clone(), size, depth));
            if topic {
                self.topics.push(name.clone());
            }
            self.order.push(name.clone());
            self.fmts.insert(name, Rc::new(def));
        }
        // Nested definitions may come before or after their users.
        if self.r.chance(1, 3) {
            let mut o = std::mem::take(&mut self.order);
            self.r.shuffle(&mut o);
            self.order = o;
        }
    }
    pub fn format(&mut self, name: &str) {
        let t = self.fmts[name].text();
        self.add("F", b'F', t.as_bytes(), CMsg::Format(Rc::from(t.as_str())));
    }
    /// Another definition under the name of a format that is going to be defined for good later on.
    fn outdated_format(&mut self, name: &str) {
        let mut fields = vec![FieldDef::new("timestamp", Ty::p(Prim::U64))];
        for k in 0..self.r.below(3) {
            let ty = self.random_prim_ty(20);
            fields.push(FieldDef { name: format!("old{k}"), ty });
        }
        let t = FmtDef { name: name.to_string(), fields }.text();
        self.add("F-outdated", b'F', t.as_bytes(), CMsg::Format(Rc::from(t.as_str())));
    }
    pub fn add_format(&mut self, d: FmtDef) {
        self.fmts.insert(d.name.clone(), Rc::new(d.clone()));
        self.format(&d.name);
    }

    // ---- values ------------------------------------------------------------------------------------------
    pub fn value(&mut self, t: &Ty, out: &mut Vec<u8>) -> CVal {
        match (&t.base, t.arr) {
            (Base::P(p), None) => {
                let b = prim_bits(self.r, *p);
                p.put(b, out);
                CVal::S(*p, b)
            }
            (Base::P(p), Some(n)) => {
                let p = *p;
                if p == Prim::Char && self.r.chance(1, 3) {
                    // text, NUL padded
                    let s = text(self.r, n);
                    let mut b = s.into_bytes();
                    b.resize(n, 0);
                    out.extend_from_slice(&b);
                    return CVal::A(p, b.into_iter().map(|x| x as u64).collect());
                }
                let mut v = Vec::with_capacity(n);
                for _ in 0..n {
                    let b = prim_bits(self.r, p);
                    p.put(b, out);
                    v.push(b);
                }
                CVal::A(p, v)
            }
            (Base::Other(n), None) => {
                let d = self.fmts[n].clone();
                CVal::N(Box::new(self.instance(&d, out, 0)))
            }
            (Base::Other(n), Some(k)) => {
                let d = self.fmts[n].clone();
                CVal::AN((0..k).map(|_| self.instance(&d, out, 0)).collect())
            }
        }
    }
    /// One instance of a format; `omit` trailing fields are left out (stripped padding).
    pub fn instance(&mut self, d: &Rc<FmtDef>, out: &mut Vec<u8>, omit: usize) -> CFmt {
        let mut fields = vec![];
        let mut ts = None;
        for f in &d.fields[..d.fields.len() - omit] {
            let val = if f.is_padding() {
                let n = self.ty_size(&f.ty);
                let b = match self.r.below(3) {
                    0 => vec![0; n],
                    _ => {
                        let mut b = self.r.bytes(n);
                        if matches!(f.ty.base, Base::P(Prim::Bool)) {
                            b.iter_mut().for_each(|x| *x &= 1);
                        }
                        b
                    }
                };
                out.extend_from_slice(&b);
                CVal::Raw(b)
            } else {
                self.value(&f.ty, out)
            };
            if f.name == "timestamp" {
                if let CVal::S(Prim::U64, x) = val {
                    ts = Some(x);
                }
            }
            fields.push(CField { name: Rc::from(f.name.as_str()), ty: Rc::from(f.ty.text().as_str()), val });
        }
        CFmt { ts, name: Rc::from(d.name.as_str()), multi: None, def: Rc::from(d.text().as_str()), fields }
    }

    // ---- messages ----------------------------------------------------------------------------------------
    fn kv(&mut self, key: &str, t: &Ty) -> (Vec<u8>, CVal) {
        let full = format!("{} {}", t.text(), key);
        let mut p = vec![full.len() as u8];
        assert!(full.len() <= 255);
        p.extend_from_slice(full.as_bytes());
        let v = self.value(t, &mut p);
        (p, v)
    }
    pub fn info_ty(&mut self) -> Ty {
        match self.r.below(12) {
            0 => Ty::p(Prim::U32),
            1 => Ty::pa(Prim::Char, 0),
            2 if self.cfg.big => {
                let p = *self.r.pick(&PRIMS);
                Ty::pa(p, 60000 / p.size())
            }
            3 if self.cfg.nesting && !self.in_data => Ty::pa(Prim::Char, self.r.range(1, 100)),
            4..=6 => Ty::pa(Prim::Char, self.r.range(1, 80)),
            _ => self.random_prim_ty(100),
        }
    }
    /// A key for a value of type `t`; "type key" may take up to 255 bytes.
    fn key(&mut self, t: &Ty) -> String {
        let mut key = key_name(self.r, self.cfg.strange_names);
        if self.r.chance(1, 16) {
            let room = 255 - t.text().len() - 1;
            let n = match self.r.below(4) {
                0 => room,
                1 => self.r.range(126, 129) - t.text().len() - 1,
                _ => self.r.range(30, room),
            };
            while key.len() < n {
                key.push(*self.r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_") as char);
            }
        }
        key
    }
    pub fn info(&mut self) {
        let t = self.info_ty();
        let key = self.key(&t);
        self.info_with(&key, &t);
    }
    pub fn info_with(&mut self, key: &str, t: &Ty) {
        let (p, val) = self.kv(key, t);
        self.add("I", b'I', &p, CMsg::Info { key: key.to_string(), ty: t.text(), val });
    }
    pub fn minfo(&mut self) {
        let t = self.info_ty();
        let key = self.key(&t);
        let cont = self.r.flip();
        let (p, val) = self.kv(&key, &t);
        let mut q = vec![cont as u8];
        q.extend_from_slice(&p);
        self.add("M", b'M', &q, CMsg::MInfo { cont, key, ty: t.text(), val });
    }
    pub fn param(&mut self) {
        let t = Ty::p(if self.r.flip() { Prim::I32 } else { Prim::F32 });
        let key = self.key(&t);
        let (p, val) = self.kv(&key, &t);
        self.add("P", b'P', &p, CMsg::Param { key, ty: t.text(), val });
    }
    pub fn defparam(&mut self) {
        let t = Ty::p(if self.r.flip() { Prim::I32 } else { Prim::F32 });
        let key = self.key(&t);
        let dt = if self.r.chance(3, 4) { self.r.range(1, 3) as u8 } else { self.r.u8() };
        let (p, val) = self.kv(&key, &t);
        let mut q = vec![dt];
        q.extend_from_slice(&p);
        self.add("Q", b'Q', &q, CMsg::DefParam { dt, key, ty: t.text(), val });
    }
    pub fn string(&mut self, tagged: bool) {
        let level = b'0' + self.r.below(8) as u8;
        let ts = prim_bits(self.r, Prim::U64);
        let max = if self.cfg.big && self.r.chance(1, 4) { 65535 - 11 } else { 200 };
        let msg = text(self.r, max);
        let mut p = vec![level];
        let tag = if tagged { Some(prim_bits(self.r, Prim::U16) as u16) } else { None };
        if let Some(t) = tag {
            p.extend_from_slice(&t.to_le_bytes());
        }
        p.extend_from_slice(&ts.to_le_bytes());
        p.extend_from_slice(msg.as_bytes());
        let (w, t) = if tagged { ("C", b'C') } else { ("L", b'L') };
        self.add(w, t, &p, CMsg::Log { tagged, level, tag, ts, msg });
    }
    pub fn dropout(&mut self) {
        let d = prim_bits(self.r, Prim::U16) as u16;
        self.add("O", b'O', &d.to_le_bytes(), CMsg::Drop(d));
    }
    pub fn raw(&mut self, what: &'static str, t: u8, payload: &[u8]) {
        self.add(what, t, payload, CMsg::Raw { t, bytes: payload.to_vec() });
    }
    pub fn sync(&mut self) {
        self.raw("S", b'S', &[0x2F, 0x73, 0x13, 0x20, 0x25, 0x0C, 0xBB, 0x12]);
    }
    pub fn unknown_type(&mut self) -> u8 {
        loop {
            let t = match self.r.below(4) {
                0 => *self.r.pick(&[0u8, 254, 255, b'f', b'd', b'E', b'G', b'T', b' ', 1]),
                _ => self.r.u8(),
            };
            if !KNOWN.contains(&t) {
                return t;
            }
        }
    }
    pub fn unknown(&mut self) {
        let t = self.unknown_type();
        let n = match self.r.below(12) {
            0 => 0,
            1 if self.cfg.big => 65535,
            _ => self.r.below(60),
        };
        let p = self.r.bytes(n);
        self.raw("unknown", t, &p);
    }
    /// A message that exists but has no meaning in the current section.
    pub fn out_of_place(&mut self) {
        if self.in_data {
            match self.r.below(3) {
                0 => {
                    let t = if self.r.flip() && !self.order.is_empty() {
                        let n = self.r.pick(&self.order).clone();
                        format!("{n}:uint64_t timestamp;double other;")
                    } else {
                        format!("{}:uint64_t timestamp;", message_name(self.r, false))
                    };
                    self.raw("F-late", b'F', t.as_bytes());
                }
                1 => {
                    let mut p = self.r.bytes(40);
                    p[8] = self.r.below(2) as u8; // even "appended data" and unknown bits: not interpreted here
                    self.raw("B-late", b'B', &p);
                }
                _ => {
                    let n = self.r.below(60);
                    let p = self.r.bytes(n);
                    let t = *self.r.pick(b"FB");
                    self.raw("FB-late", t, &p);
                }
            }
        } else {
            let n = *self.r.pick(&[0, 1, 2, 3, 8, 20]);
            let p = self.r.bytes(n);
            let t = *self.r.pick(b"DRS");
            self.raw("DRS-early", t, &p);
        }
    }
    pub fn sub(&mut self, id: u16, multi: u8, name: &str) {
        let mut p = vec![multi];
        p.extend_from_slice(&id.to_le_bytes());
        p.extend_from_slice(name.as_bytes());
        self.subs.insert(id, (multi, name.to_string()));
        if multi > 0 {
            self.multi_names.insert(name.to_string());
        }
        self.in_data = true;
        self.add("A", b'A', &p, CMsg::Sub { multi, id, name: name.to_string() });
    }
    pub fn remove(&mut self, id: u16) {
        self.subs.remove(&id);
        self.raw("R", b'R', &id.to_le_bytes());
    }
    pub fn data(&mut self, id: u16) {
        let (multi, name) = self.subs[&id].clone();
        let d = self.fmts[&name].clone();
        let omit = match d.trailing_padding() {
            0 => 0,
            n if self.r.chance(2, 3) => self.r.range(1, n),
            _ => 0,
        };
        let mut p = id.to_le_bytes().to_vec();
        let mut fmt = self.instance(&d, &mut p, omit);
        if self.multi_names.contains(&name) {
            fmt.multi = Some(multi);
        }
        match fmt.ts {
            Some(ts) => self.add("D", b'D', &p, CMsg::Data { ts, id, fmt }),
            None => self.push("D-nots", frame(b'D', &p), Exp::E),
        }
    }
    pub fn instance_no(&mut self) -> u8 {
        match self.r.below(6) {
            0..=2 => 0,
            3 => *self.r.pick(&[1u8, 2, 3, 4]),
            4 => *self.r.pick(&[127u8, 128, 254, 255]),
            _ => self.r.u8(),
        }
    }
    pub fn new_id(&mut self) -> u16 {
        *self.r.pick(&[0u16, 1, 2, 3, 7, 255, 256, 65535, 300, 44])
    }
    pub fn random_sub(&mut self) {
        if self.topics.is_empty() {
            return;
        }
        let name = self.r.pick(&self.topics).clone();
        let multi = if self.cfg.multi { self.instance_no() } else { 0 };
        let id = if self.r.chance(4, 5) {
            let mut id = self.subs.len() as u16;
            while self.subs.contains_key(&id) {
                id += 1;
            }
            id
        } else {
            self.new_id()
        };
        if !self.cfg.removal && self.subs.contains_key(&id) {
            return;
        }
        self.sub(id, multi, &name);
    }
    pub fn random_data(&mut self) {
        let ids: Vec<u16> = self.subs.keys().copied().collect();
        if !ids.is_empty() {
            let id = *self.r.pick(&ids);
            self.data(id);
        }
    }

    /// A message that is legal anywhere and independent of all others.
    pub fn neutral(&mut self) {
        for _ in 0..20 {
            match self.r.below(7) {
                0 if self.cfg.infos => return self.info(),
                1 if self.cfg.infos => return self.minfo(),
                2 if self.cfg.params => return self.param(),
                3 if self.cfg.params => return self.defparam(),
                4 if self.cfg.unknown => return self.unknown(),
                5 if self.cfg.out_of_place => return self.out_of_place(),
                6 if self.cfg.strings && self.in_data => return self.string(false),
                _ => {}
            }
        }
        self.info()
    }
    pub fn definitions(&mut self) {
        self.header();
        if self.cfg.flags {
            self.flags_plain();
        }
        let n = if self.cfg.crowd { self.cfg.formats * 12 } else { self.cfg.formats };
        self.make_formats(n);
        for name in self.order.clone() {
            while self.r.chance(1, 3) {
                self.neutral();
            }
            if self.cfg.redefine && self.r.chance(1, 2) {
                self.outdated_format(&name);
                while self.r.chance(1, 3) {
                    self.neutral();
                }
            }
            self.format(&name);
        }
        if self.cfg.strings && self.r.chance(1, 6) {
            // Logging messages may come before the first subscription.
            let t = self.r.flip();
            self.string(t);
            if self.r.flip() {
                self.dropout();
            }
        }
    }
    pub fn body_step(&mut self) {
        match self.r.below(20) {
            0..=9 => self.random_data(),
            10 => self.random_sub(),
            11 if self.cfg.removal => {
                let ids: Vec<u16> = self.subs.keys().copied().collect();
                if self.r.chance(1, 5) || ids.is_empty() {
                    let id = self.r.u16();
                    self.remove(id);
                } else {
                    let id = *self.r.pick(&ids);
                    self.remove(id);
                }
            }
            12 | 13 if self.cfg.strings => {
                let t = self.r.flip();
                self.string(t);
            }
            14 => self.dropout(),
            15 => self.sync(),
            _ => self.neutral(),
        }
    }
    pub fn full(mut self) -> Log {
        self.definitions();
        let n = self.cfg.body;
        if n > 0 {
            self.random_sub();
        }
        if self.cfg.crowd && n > 0 {
            for _ in 0..self.r.range(20, 600) {
                self.random_sub();
            }
        }
        for _ in 0..n {
            if self.msgs.iter().map(|m| m.bytes.len()).sum::<usize>() > 300_000 {
                break;
            }
            self.body_step();
        }
        self.log()
    }
}

/// A random well-formed log.
pub fn log(r: &mut Rng) -> Log {
    let cfg = Cfg::random(r);
    let cfg = if cfg.big { Cfg { max_fmt: 30000, ..cfg } } else { cfg };
    Gen::new(r, cfg).full()
}
pub fn small_log(r: &mut Rng) -> Log {
    let cfg = Cfg::small(r);
    Gen::new(r, cfg).full()
}
