//! C27 parser configuration, C28 messages built or edited by the user.
use super::*;
use crate::canon;
use crate::ctx::Ctx;
use crate::drive::{self, Opts, FULL};
use crate::gen::{self, Cfg, Gen};
use crate::hostile;
use crate::rng::Rng;
use crate::runner::Prop;
use crate::util;
use std::collections::{BTreeSet, HashMap, HashSet};
use yule_log::builder::ULogParserBuilder;
use yule_log::encode::Encode;
use yule_log::model::def::{self, BaseType, TypeExpr};
use yule_log::model::inst::{self, FieldValue, ParameterValue};
use yule_log::model::msg::{self, UlogMessage};
use yule_log::model::CChar;
use yule_log::parser::ULogParser;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C27",
            quick: 200_000,
            thorough: 2_000_000,
            case: c27,
            rule: "log read by one or two parsers configured by random sequences of settings, repeated, in any order, on the builder or the parser, with lists changed while reading; items compared with the projection of the fully included items; at least 3 items",
            need: &[
                "defaults", "repeated settings", "lists on the parser", "lists while reading", "lists with duplicates", "empty lists",
                "two parsers at once", "ignored", "kept by a list", "hostile", "without builder",
            ],
        },
        Prop {
            id: "C28",
            quick: 200_000,
            thorough: 2_000_000,
            case: c28,
            rule: "messages built from scratch through the public fields, or parsed and edited, encoded and compared with the bytes the format prescribes, then parsed again; at least 3 messages",
            need: &["built", "edited", "edits", "kind:Data", "kind:Info", "kind:MultiInfo", "kind:Param", "kind:DefParam", "kind:Log", "kind:TaggedLog", "kind:Format", "kind:FlagBits", "kind:AddSub", "kind:Unhandled", "nested", "read back", "part: level", "part: type", "part: base type", "part: definition field", "part: field", "part: value", "part: instance", "part: info value", "part: parameter value"],
        },
    ]
}

// ---- C27 -------------------------------------------------------------------------------------------------

/// A list in one of the forms a user may have it in.
fn with_list<R: std::io::Read>(b: ULogParserBuilder<R>, r: &mut Rng, v: &[String], ctx: &mut Ctx) -> ULogParserBuilder<R> {
    if v.is_empty() {
        ctx.c("empty lists");
    }
    match r.below(6) {
        0 => b.set_subscription_allow_list(v.to_vec()),
        1 => b.set_subscription_allow_list(v.iter().map(|s| s.as_str())),
        2 => b.set_subscription_allow_list(v.iter().cloned().collect::<HashSet<String>>()),
        3 => b.set_subscription_allow_list(v.iter().map(|s| s.as_str()).collect::<BTreeSet<&str>>()),
        4 => {
            ctx.c("lists with duplicates");
            let mut d: Vec<&str> = v.iter().chain(v.iter()).map(|s| s.as_str()).collect();
            r.shuffle(&mut d);
            b.set_subscription_allow_list(d)
        }
        _ => {
            if v.len() == 2 {
                b.set_subscription_allow_list([v[0].as_str(), v[1].as_str()])
            } else {
                b.set_subscription_allow_list(v.iter().rev().cloned())
            }
        }
    }
}
fn some_names(r: &mut Rng, names: &[String]) -> Vec<String> {
    let mut v: Vec<String> = match r.below(8) {
        0 => vec![],
        1 => names.to_vec(),
        _ => names.iter().filter(|_| r.flip()).cloned().collect(),
    };
    if r.chance(1, 4) {
        v.push(if names.is_empty() || r.flip() { "no_such_topic".into() } else { r.pick(names).to_uppercase() });
    }
    if r.chance(1, 8) && !names.is_empty() {
        // Nearly a name of the log.
        let n = r.pick(names).clone();
        let i = n.char_indices().map(|x| x.0).last().unwrap_or(0);
        v.push(n[..i].to_string());
    }
    v
}
/// A parser set up by a random history of settings, and what it amounts to.
fn configured<'a>(ctx: &mut Ctx, r: &mut Rng, bytes: &'a [u8], names: &[String]) -> (ULogParser<&'a [u8]>, Opts, String) {
    let mut o = Opts { hdr: false, ts: false, pad: false, allow: None };
    let mut how = String::new();
    let late = |p: &mut ULogParser<&'a [u8]>, r: &mut Rng, o: &mut Opts, ctx: &mut Ctx, how: &mut String| {
        if r.chance(1, 4) {
            for _ in 0..r.range(1, 2) {
                let v = some_names(r, names);
                how.push_str(&format!("parser list {v:?}; "));
                #[allow(deprecated)]
                p.set_subscription_allow_list(v.iter().cloned().collect());
                o.allow = Some(v);
                ctx.c("lists on the parser");
            }
        }
    };
    if r.chance(1, 10) {
        let mut p = ULogParser::new(bytes).unwrap_or_else(|e| panic!("library: new() failed: {e}"));
        ctx.c("without builder");
        late(&mut p, r, &mut o, ctx, &mut how);
        return (p, o, format!("ULogParser::new; {how}"));
    }
    let mut b = ULogParserBuilder::new(bytes);
    let n = r.below(9);
    let mut set = [0; 4];
    for _ in 0..n {
        let k = r.below(4);
        set[k] += 1;
        let v = r.flip();
        match k {
            0 => {
                b = b.include_header(v);
                o.hdr = v;
                how.push_str(&format!("header {v}; "));
            }
            1 => {
                b = b.include_timestamp(v);
                o.ts = v;
                how.push_str(&format!("timestamp {v}; "));
            }
            2 => {
                b = b.include_padding(v);
                o.pad = v;
                how.push_str(&format!("padding {v}; "));
            }
            _ => {
                let v = some_names(r, names);
                how.push_str(&format!("list {v:?}; "));
                b = with_list(b, r, &v, ctx);
                o.allow = Some(v);
            }
        }
    }
    if n == 0 {
        ctx.c("defaults");
    }
    if set.iter().any(|&x| x > 1) {
        ctx.c("repeated settings");
    }
    let mut p = b.build().unwrap_or_else(|e| panic!("library: build() failed: {e}"));
    late(&mut p, r, &mut o, ctx, &mut how);
    (p, o, how)
}
/// Follows what a configured parser must yield, given the fully included items.
struct Follow<'a> {
    full: std::slice::Iter<'a, CItem>,
    ids: HashMap<u16, &'a str>,
    refused: HashSet<u16>,
}
impl<'a> Follow<'a> {
    fn new(full: &'a [CItem]) -> Self {
        Follow { full: full.iter(), ids: HashMap::new(), refused: HashSet::new() }
    }
    /// The next item under these options; `None` inside: whether data of this kind is decoded is not known (an error).
    fn next(&mut self, o: &Opts, ctx: &mut Ctx) -> Option<CItem> {
        loop {
            let x = self.full.next()?;
            return Some(match x {
                CItem::E(_) => x.clone(),
                CItem::M(CMsg::Header { .. }) if !o.hdr => continue,
                CItem::M(m) => {
                    if let CMsg::Sub { id, name, .. } = m {
                        self.ids.insert(*id, name);
                        self.refused.remove(id);
                    }
                    if let (CMsg::Data { id, .. }, Some(l)) = (m, &o.allow) {
                        let listed = self.ids.get(id).is_some_and(|n| l.iter().any(|x| x == n));
                        if !listed {
                            ctx.c("ignored");
                            return Some(CItem::M(CMsg::Ignored(b'D')));
                        }
                        ctx.c("kept by a list");
                    }
                    CItem::M(m.project(o.ts, o.pad))
                }
            });
        }
    }
}
fn c27(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    // Streams without errors in data only: whether a refused message is looked into depends on the list.
    let bytes = if case % 5 == 4 {
        ctx.c("hostile");
        hostile::stream(r).bytes
    } else if case % 7 == 0 {
        gen::small_log(r).bytes()
    } else {
        gen::log(r).bytes()
    };
    ctx.set_input(&bytes);
    let full = match drive::run(&bytes, &FULL) {
        Ok(v) => v,
        Err(n) => return ctx.violate("endless", format!("more than {n} items"), &bytes),
    };
    let errors = full.iter().any(|x| x.is_err());
    let mut names: Vec<String> = full
        .iter()
        .filter_map(|x| match x {
            CItem::M(CMsg::Sub { name, .. }) => Some(name.clone()),
            _ => None,
        })
        .collect();
    names.sort();
    names.dedup();
    let two = r.chance(1, 3);
    let n = if two { 2 } else { 1 };
    if two {
        ctx.c("two parsers at once");
    }
    // With errors in the log, lists are left out: an unlisted message that is damaged gives no error.
    let listed: &[String] = if errors { &[] } else { &names };
    let mut ps = vec![];
    for _ in 0..n {
        loop {
            let (p, o, how) = configured(ctx, r, &bytes, listed);
            if errors && o.allow.is_some() {
                continue;
            }
            ps.push((p, o, how, Follow::new(&full), 0usize));
            break;
        }
    }
    let mut live: Vec<usize> = (0..n).collect();
    while !live.is_empty() {
        let k = r.below(live.len());
        let i = live[k];
        let (p, o, how, f, at) = &mut ps[i];
        if !errors && r.chance(1, 12) {
            let v = some_names(r, &names);
            how.push_str(&format!("before item {at}: list {v:?}; "));
            #[allow(deprecated)]
            p.set_subscription_allow_list(v.iter().cloned().collect());
            o.allow = Some(v);
            ctx.c("lists while reading");
        }
        let want = f.next(o, ctx);
        let got = p.next().map(|x| canon::item(&x));
        if got != want {
            let t = |x: &Option<CItem>| x.as_ref().map_or("the end".to_string(), item_text);
            let kind = |x: &Option<CItem>| x.as_ref().map_or("end".to_string(), |x| x.kind());
            ctx.violate(
                &format!("differs:{}->{}", kind(&want), kind(&got)),
                format!("item {at} of parser {i} of {n}, {how}amounting to {o:?}: {}", diff(&t(&want), &t(&got))),
                &bytes,
            );
            return;
        }
        *at += 1;
        if got.is_none() {
            live.swap_remove(k);
        }
    }
    ctx.eval(util::hash(&bytes) ^ util::hash(ps.iter().map(|p| p.2.as_str()).collect::<String>().as_bytes()), full.len() >= 3);
    ctx.sample(|| format!("{} items; {}", full.len(), ps.iter().map(|p| p.2.as_str()).collect::<Vec<_>>().join(" | ")));
}

// ---- C28 -------------------------------------------------------------------------------------------------

/// The bytes the format prescribes for a message.
pub fn lay_out(m: &CMsg) -> Option<Vec<u8>> {
    let mut p = vec![];
    let kv = |p: &mut Vec<u8>, key: &str, ty: &str, val: &CVal| {
        let full = format!("{ty} {key}");
        p.push(full.len() as u8);
        p.extend_from_slice(full.as_bytes());
        put(val, p);
        full.len() <= 255
    };
    let mut fits = true;
    let t = match m {
        CMsg::Header { ver, ts } => return Some(gen::header_bytes(*ver, *ts)),
        CMsg::Flags { compat, incompat, offs } => {
            p.extend_from_slice(compat);
            p.extend_from_slice(incompat);
            offs.iter().for_each(|o| p.extend_from_slice(&o.to_le_bytes()));
            b'B'
        }
        CMsg::Format(s) => {
            p.extend_from_slice(s.as_bytes());
            b'F'
        }
        CMsg::Data { id, fmt, .. } => {
            p.extend_from_slice(&id.to_le_bytes());
            fmt.fields.iter().for_each(|f| put(&f.val, &mut p));
            b'D'
        }
        CMsg::Sub { multi, id, name } => {
            p.push(*multi);
            p.extend_from_slice(&id.to_le_bytes());
            p.extend_from_slice(name.as_bytes());
            b'A'
        }
        CMsg::Info { key, ty, val } => {
            fits = kv(&mut p, key, ty, val);
            b'I'
        }
        CMsg::MInfo { cont, key, ty, val } => {
            p.push(*cont as u8);
            fits = kv(&mut p, key, ty, val);
            b'M'
        }
        CMsg::Param { key, ty, val } => {
            fits = kv(&mut p, key, ty, val);
            b'P'
        }
        CMsg::DefParam { dt, key, ty, val } => {
            p.push(*dt);
            fits = kv(&mut p, key, ty, val);
            b'Q'
        }
        CMsg::Log { tagged, level, tag, ts, msg } => {
            p.push(*level);
            if let Some(t) = tag {
                p.extend_from_slice(&t.to_le_bytes());
            }
            p.extend_from_slice(&ts.to_le_bytes());
            p.extend_from_slice(msg.as_bytes());
            if *tagged {
                b'C'
            } else {
                b'L'
            }
        }
        CMsg::Drop(d) => {
            p.extend_from_slice(&d.to_le_bytes());
            b'O'
        }
        CMsg::Raw { t, bytes } => {
            p.extend_from_slice(bytes);
            *t
        }
        CMsg::Ignored(_) => return Some(vec![]),
        CMsg::Unknown(_) => return None,
    };
    if !fits || p.len() > 65535 {
        return None;
    }
    Some(gen::frame(t, &p))
}
fn put(v: &CVal, out: &mut Vec<u8>) {
    match v {
        CVal::S(p, x) => p.put(*x, out),
        CVal::A(p, a) => a.iter().for_each(|x| p.put(*x, out)),
        CVal::N(f) => f.fields.iter().for_each(|x| put(&x.val, out)),
        CVal::AN(a) => a.iter().for_each(|f| f.fields.iter().for_each(|x| put(&x.val, out))),
        CVal::Raw(b) => out.extend_from_slice(b),
    }
}
/// A definition in the library's terms, from its text.
fn type_of(s: &str) -> TypeExpr {
    let (b, n) = match s.find('[') {
        Some(i) => (&s[..i], Some(s[i + 1..s.len() - 1].parse().expect("harness: array size"))),
        None => (s, None),
    };
    use BaseType::*;
    let base_type = match Prim::from_text(b) {
        None => OTHER(b.to_string()),
        Some(p) => match p {
            Prim::U8 => UINT8,
            Prim::U16 => UINT16,
            Prim::U32 => UINT32,
            Prim::U64 => UINT64,
            Prim::I8 => INT8,
            Prim::I16 => INT16,
            Prim::I32 => INT32,
            Prim::I64 => INT64,
            Prim::F32 => FLOAT,
            Prim::F64 => DOUBLE,
            Prim::Bool => BOOL,
            Prim::Char => CHAR,
        },
    };
    TypeExpr { base_type, array_size: n }
}
fn def_of(s: &str) -> def::Format {
    let (name, rest) = s.split_once(':').expect("harness: format text");
    let fields = rest
        .split_terminator(';')
        .map(|f| {
            let (t, n) = f.split_once(' ').expect("harness: field text");
            def::Field { name: n.into(), r#type: type_of(t) }
        })
        .collect();
    def::Format { name: name.into(), fields, padding: 0 }
}
fn fmt_of(f: &CFmt) -> inst::Format {
    inst::Format {
        timestamp: f.ts,
        name: (*f.name).into(),
        fields: f
            .fields
            .iter()
            .map(|x| inst::Field { name: (*x.name).into(), r#type: type_of(&x.ty), value: value_of(&x.val) })
            .collect(),
        multi_id_index: f.multi,
        def_format: def_of(&f.def).into(),
    }
}
fn value_of(v: &CVal) -> FieldValue {
    use FieldValue::*;
    match v {
        CVal::S(p, x) => {
            let x = *x;
            match p {
                Prim::U8 => ScalarU8(x as u8),
                Prim::U16 => ScalarU16(x as u16),
                Prim::U32 => ScalarU32(x as u32),
                Prim::U64 => ScalarU64(x),
                Prim::I8 => ScalarI8(x as i8),
                Prim::I16 => ScalarI16(x as i16),
                Prim::I32 => ScalarI32(x as i32),
                Prim::I64 => ScalarI64(x as i64),
                Prim::F32 => ScalarF32(f32::from_bits(x as u32)),
                Prim::F64 => ScalarF64(f64::from_bits(x)),
                Prim::Bool => ScalarBool(x != 0),
                Prim::Char => ScalarChar(CChar(x as u8)),
            }
        }
        CVal::A(p, a) => {
            let a = a.iter().copied();
            match p {
                Prim::U8 => ArrayU8(a.map(|x| x as u8).collect()),
                Prim::U16 => ArrayU16(a.map(|x| x as u16).collect()),
                Prim::U32 => ArrayU32(a.map(|x| x as u32).collect()),
                Prim::U64 => ArrayU64(a.collect()),
                Prim::I8 => ArrayI8(a.map(|x| x as i8).collect()),
                Prim::I16 => ArrayI16(a.map(|x| x as i16).collect()),
                Prim::I32 => ArrayI32(a.map(|x| x as i32).collect()),
                Prim::I64 => ArrayI64(a.map(|x| x as i64).collect()),
                Prim::F32 => ArrayF32(a.map(|x| f32::from_bits(x as u32)).collect()),
                Prim::F64 => ArrayF64(a.map(f64::from_bits).collect()),
                Prim::Bool => ArrayBool(a.map(|x| x != 0).collect()),
                Prim::Char => ArrayChar(a.map(|x| CChar(x as u8)).collect()),
            }
        }
        CVal::N(f) => ScalarOther(fmt_of(f).into()),
        CVal::AN(a) => ArrayOther(a.iter().map(fmt_of).collect()),
        CVal::Raw(b) => ArrayU8(b.clone()),
    }
}
fn param_of(v: &CVal) -> ParameterValue {
    match v {
        CVal::S(Prim::F32, x) => ParameterValue::FLOAT(f32::from_bits(*x as u32)),
        CVal::S(_, x) => ParameterValue::INT32(*x as u32 as i32),
        _ => panic!("harness: parameter value"),
    }
}
/// The library's message with these contents; `None` if users cannot build it.
fn build(m: &CMsg) -> Option<UlogMessage> {
    Some(match m {
        CMsg::Header { ver, ts } => UlogMessage::Header(msg::FileHeader { version: *ver, timestamp: *ts }),
        CMsg::Flags { compat, incompat, offs } => {
            UlogMessage::FlagBits(msg::FlagBits { compat_flags: *compat, incompat_flags: *incompat, appended_data_offsets: *offs })
        }
        CMsg::Format(s) => UlogMessage::FormatDefinition(def_of(s)),
        CMsg::Data { ts, id, fmt } => UlogMessage::LoggedData(msg::LoggedData { timestamp: *ts, msg_id: *id, data: fmt_of(fmt) }),
        CMsg::Sub { multi, id, name } => {
            UlogMessage::AddSubscription(msg::Subscription { multi_id: *multi, msg_id: *id, message_name: name.clone() })
        }
        CMsg::Info { key, ty, val } => UlogMessage::Info(msg::Info { key: key.clone(), r#type: type_of(ty), value: value_of(val) }),
        CMsg::MInfo { cont, key, ty, val } => UlogMessage::MultiInfo(msg::MultiInfo {
            is_continued: *cont,
            key: key.clone(),
            r#type: type_of(ty),
            value: value_of(val),
        }),
        CMsg::Param { key, ty, val } => {
            UlogMessage::Parameter(msg::Parameter { key: key.clone(), r#type: type_of(ty), value: param_of(val) })
        }
        CMsg::DefParam { dt, key, ty, val } => UlogMessage::DefaultParameter(msg::DefaultParameter {
            key: key.clone(),
            default_types: *dt,
            r#type: type_of(ty),
            value: param_of(val),
        }),
        CMsg::Log { tagged, level, tag, ts, msg } => {
            let l = msg::LoggedString { level: (*level).try_into().ok()?, tag: *tag, timestamp: *ts, msg: msg.clone() };
            if *tagged {
                UlogMessage::TaggedLoggedString(l)
            } else {
                UlogMessage::LoggedString(l)
            }
        }
        CMsg::Raw { t, bytes } => UlogMessage::Unhandled { msg_type: *t, message_contents: bytes.clone() },
        CMsg::Ignored(t) => UlogMessage::Ignored { msg_type: *t },
        CMsg::Drop(_) | CMsg::Unknown(_) => return None,
    })
}
fn edit_val(r: &mut Rng, v: &mut CVal, grow: bool) {
    match v {
        CVal::S(p, x) => *x = gen::prim_bits(r, *p),
        CVal::A(p, a) => {
            if grow && r.chance(1, 3) {
                // Text may become longer or shorter: its type says so.
                let n = r.below(90);
                a.resize(n, 0);
            }
            for x in a.iter_mut() {
                if r.flip() {
                    *x = gen::prim_bits(r, *p);
                }
            }
        }
        CVal::N(f) => edit_fmt(r, f),
        CVal::AN(a) => a.iter_mut().for_each(|f| edit_fmt(r, f)),
        CVal::Raw(b) => {
            let n = b.len();
            *b = r.bytes(n);
        }
    }
}
fn edit_fmt(r: &mut Rng, f: &mut CFmt) {
    for x in &mut f.fields {
        if r.flip() {
            edit_val(r, &mut x.val, false);
            if let (CVal::Raw(b), true) = (&mut x.val, x.ty.starts_with("bool")) {
                b.iter_mut().for_each(|x| *x &= 1);
            }
            if &*x.name == "timestamp" {
                if let CVal::S(Prim::U64, t) = x.val {
                    f.ts = Some(t);
                }
            }
        }
    }
}
/// Another message of the same kind: some of its contents replaced, in a way that leaves it valid.
fn edit(r: &mut Rng, m: &mut CMsg) {
    let retype = |ty: &mut String, val: &CVal| {
        if let CVal::A(p, a) = val {
            *ty = format!("{}[{}]", p.text(), a.len());
        }
    };
    match m {
        CMsg::Header { ver, ts } => {
            *ver = r.u8();
            *ts = gen::prim_bits(r, Prim::U64);
        }
        CMsg::Flags { compat, .. } => compat.iter_mut().for_each(|x| *x = r.u8()),
        CMsg::Data { ts, fmt, .. } => {
            edit_fmt(r, fmt);
            *ts = fmt.ts.unwrap_or(*ts);
        }
        CMsg::Info { key, ty, val } | CMsg::MInfo { key, ty, val, .. } => {
            *key = gen::key_name(r, false);
            edit_val(r, val, true);
            retype(ty, val);
        }
        CMsg::Param { key, val, .. } => {
            *key = gen::key_name(r, false);
            edit_val(r, val, false);
        }
        CMsg::DefParam { dt, val, .. } => {
            *dt = r.u8();
            edit_val(r, val, false);
        }
        CMsg::Log { level, tag, ts, msg, .. } => {
            *level = b'0' + r.below(8) as u8;
            *ts = gen::prim_bits(r, Prim::U64);
            *msg = gen::text(r, 120);
            if let Some(t) = tag {
                *t = r.u16();
            }
        }
        CMsg::Raw { t, bytes } => {
            // What the message is must stay: other types have other contents.
            if !gen::KNOWN.contains(t) {
                let n = r.below(70);
                *bytes = r.bytes(n);
            }
        }
        CMsg::Sub { .. } | CMsg::Format(_) | CMsg::Drop(_) | CMsg::Ignored(_) | CMsg::Unknown(_) => {}
    }
}
/// Makes the library's message say what `to` says, field by field.
fn apply(m: &mut UlogMessage, to: &CMsg) {
    fn format(f: &mut inst::Format, to: &CFmt) {
        f.timestamp = to.ts;
        for (x, y) in f.fields.iter_mut().zip(&to.fields) {
            value(&mut x.value, &y.val);
        }
    }
    fn value(v: &mut FieldValue, to: &CVal) {
        match (&mut *v, to) {
            (FieldValue::ScalarOther(f), CVal::N(t)) => {
                let mut g = (**f).clone();
                format(&mut g, t);
                *f = g.into();
            }
            (FieldValue::ArrayOther(a), CVal::AN(t)) => a.iter_mut().zip(t).for_each(|(f, t)| format(f, t)),
            // Padding may be held in whatever form: its bytes are what counts.
            _ => *v = value_of(to),
        }
    }
    match (m, to) {
        (UlogMessage::Header(h), CMsg::Header { ver, ts }) => {
            h.version = *ver;
            h.timestamp = *ts;
        }
        (UlogMessage::FlagBits(f), CMsg::Flags { compat, .. }) => f.compat_flags = *compat,
        (UlogMessage::LoggedData(d), CMsg::Data { ts, fmt, .. }) => {
            d.timestamp = *ts;
            format(&mut d.data, fmt);
        }
        (UlogMessage::Info(i), CMsg::Info { key, ty, val }) => {
            i.key = key.clone();
            i.r#type.array_size = type_of(ty).array_size;
            value(&mut i.value, val);
        }
        (UlogMessage::MultiInfo(i), CMsg::MInfo { key, ty, val, .. }) => {
            i.key = key.clone();
            i.r#type.array_size = type_of(ty).array_size;
            value(&mut i.value, val);
        }
        (UlogMessage::Parameter(p), CMsg::Param { key, val, .. }) => {
            p.key = key.clone();
            p.value = param_of(val);
        }
        (UlogMessage::DefaultParameter(p), CMsg::DefParam { dt, val, .. }) => {
            p.default_types = *dt;
            p.value = param_of(val);
        }
        (UlogMessage::LoggedString(l), CMsg::Log { level, tag, ts, msg, .. })
        | (UlogMessage::TaggedLoggedString(l), CMsg::Log { level, tag, ts, msg, .. }) => {
            l.level = (*level).try_into().expect("harness: level");
            l.tag = *tag;
            l.timestamp = *ts;
            l.msg = msg.clone();
        }
        (UlogMessage::Unhandled { message_contents, .. }, CMsg::Raw { bytes, .. }) => *message_contents = bytes.clone(),
        _ => {}
    }
}
/// The contents of a message, encoded by the component itself.
fn contents(m: &UlogMessage) -> Option<std::io::Result<Vec<u8>>> {
    let mut v = vec![];
    let r = match m {
        UlogMessage::FlagBits(x) => x.encode(&mut v),
        UlogMessage::FormatDefinition(x) => x.encode(&mut v),
        UlogMessage::LoggedData(x) => x.encode(&mut v),
        UlogMessage::AddSubscription(x) => x.encode(&mut v),
        UlogMessage::Info(x) => x.encode(&mut v),
        UlogMessage::MultiInfo(x) => x.encode(&mut v),
        UlogMessage::Parameter(x) => x.encode(&mut v),
        UlogMessage::DefaultParameter(x) => x.encode(&mut v),
        UlogMessage::LoggedString(x) | UlogMessage::TaggedLoggedString(x) => x.encode(&mut v),
        UlogMessage::DropoutMark(x) => x.encode(&mut v),
        _ => return None,
    };
    Some(r.map(|_| v))
}
/// The parts of a message encoded one by one, each with the bytes it must have: they stand in `b`, the contents.
fn parts(m: &UlogMessage, b: &[u8]) -> Vec<(&'static str, Vec<u8>, Vec<u8>)> {
    fn enc<T: Encode>(what: &'static str, x: &T, want: &[u8], out: &mut Vec<(&'static str, Vec<u8>, Vec<u8>)>) {
        let mut v = vec![];
        if let Err(e) = x.encode(&mut v) {
            v = format!("refused: {e}").into_bytes();
        }
        out.push((what, v, want.to_vec()));
    }
    fn ty(t: &TypeExpr, text: &str, out: &mut Vec<(&'static str, Vec<u8>, Vec<u8>)>) {
        enc("type", t, text.as_bytes(), out);
        enc("base type", &t.base_type, text.split('[').next().unwrap_or("").as_bytes(), out);
    }
    /// `b` is what the instance covers; returns how much of it.
    fn format(f: &inst::Format, b: &[u8], out: &mut Vec<(&'static str, Vec<u8>, Vec<u8>)>) -> usize {
        let mut at = 0;
        let c = &mut canon::DefCache::default();
        for x in &f.fields {
            let n = match &x.value {
                FieldValue::ScalarOther(n) => format(n, &b[at..], out),
                FieldValue::ArrayOther(v) => v.iter().fold(0, |k, n| k + format(n, &b[at + k..], out)),
                _ => {
                    let v = if x.name.starts_with("_padding") { CVal::Raw(canon::raw(&x.value)) } else { canon::val(&x.value, c) };
                    let mut w = vec![];
                    put(&v, &mut w);
                    w.len()
                }
            };
            enc("field", x, &b[at..at + n], out);
            enc("value", &x.value, &b[at..at + n], out);
            ty(&x.r#type, &canon::ty(&x.r#type).text(), out);
            at += n;
        }
        enc("instance", f, &b[..at], out);
        at
    }
    let mut out = vec![];
    // Where a key with its type stands, and the value behind it.
    let keyed = |at: usize| {
        let n = b[at] as usize;
        (String::from_utf8_lossy(&b[at + 1..at + 1 + n]).into_owned(), at + 1 + n)
    };
    let first = |k: &str| k.split(' ').next().unwrap_or("").to_string();
    match m {
        UlogMessage::FormatDefinition(f) => {
            let text = String::from_utf8_lossy(b).into_owned();
            let fields = text.split_once(':').map_or("", |x| x.1);
            for (x, t) in f.fields.iter().zip(fields.split(';')) {
                enc("definition field", x, t.as_bytes(), &mut out);
                ty(&x.r#type, &first(t), &mut out);
            }
        }
        UlogMessage::LoggedData(d) => {
            format(&d.data, &b[2..], &mut out);
        }
        UlogMessage::Info(i) => {
            let (k, at) = keyed(0);
            ty(&i.r#type, &first(&k), &mut out);
            enc("info value", &i.value, &b[at..], &mut out);
        }
        UlogMessage::MultiInfo(i) => {
            let (k, at) = keyed(1);
            ty(&i.r#type, &first(&k), &mut out);
            enc("info value", &i.value, &b[at..], &mut out);
        }
        UlogMessage::Parameter(x) => {
            let (k, at) = keyed(0);
            ty(&x.r#type, &first(&k), &mut out);
            enc("parameter value", &x.value, &b[at..], &mut out);
        }
        UlogMessage::DefaultParameter(x) => {
            let (k, at) = keyed(1);
            ty(&x.r#type, &first(&k), &mut out);
            enc("parameter value", &x.value, &b[at..], &mut out);
        }
        UlogMessage::LoggedString(x) | UlogMessage::TaggedLoggedString(x) => enc("level", &x.level, &b[..1], &mut out),
        _ => {}
    }
    out
}
fn c28(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let mut cfg = Cfg::random(r);
    // What is not interpreted where it stands stays what it is.
    cfg.redefine = false;
    let mut log = Gen::new(r, cfg).full();
    log.msgs.retain(|m| matches!(m.exp, gen::Exp::M(_)));
    let bytes = log.bytes();
    ctx.set_input(&bytes);
    let editing = case % 2 == 1;
    ctx.c(if editing { "edited" } else { "built" });
    let parsed = if editing { drive::items(&bytes[..], &FULL, drive::item_bound(&bytes)).unwrap_or_default() } else { vec![] };
    let mut parsed = parsed.into_iter();
    let mut out: Vec<u8> = vec![];
    let mut want: Vec<CItem> = vec![];
    for (i, w) in log.msgs.iter().enumerate() {
        let gen::Exp::M(m) = &w.exp else { continue };
        let mut m = m.clone();
        ctx.c(&format!("kind:{}", m.kind()));
        let lib = if editing {
            let Some(Ok(mut lib)) = parsed.next() else {
                // What the parser makes of the log is C02's business.
                ctx.c("not parsed");
                return;
            };
            if canon::msg(&lib) != m {
                ctx.c("not parsed");
                return;
            }
            if r.chance(2, 3) {
                let before = m.clone();
                edit(r, &mut m);
                if lay_out(&m).is_none() {
                    m = before;
                }
                apply(&mut lib, &m);
                ctx.c("edits");
            }
            lib
        } else {
            match build(&m) {
                Some(x) => x,
                None => {
                    // A dropout cannot be built by users.
                    out.extend_from_slice(&w.bytes);
                    want.push(CItem::M(m));
                    continue;
                }
            }
        };
        if let CMsg::Data { fmt, .. } = &m {
            if fmt.fields.iter().any(|f| matches!(f.val, CVal::N(_) | CVal::AN(_))) {
                ctx.c("nested");
            }
        }
        let b = lay_out(&m).expect("harness: does not fit");
        if !editing {
            assert!(b == w.bytes, "harness: layout differs from the generator's for {}", w.what);
        }
        let got = drive::encode_msg(&lib);
        match got {
            Ok(g) if g == b => {}
            Ok(g) => {
                ctx.violate(
                    &format!("bytes:{}", m.kind()),
                    format!("message {i} {}: encoded as {} instead of {}", util::clip(&format!("{m:?}"), 600), util::clip(&util::hex(&g), 800), util::clip(&util::hex(&b), 800)),
                    &bytes,
                );
                return;
            }
            Err(e) => {
                ctx.violate(&format!("refused:{}", m.kind()), format!("message {i} {}: {e}", util::clip(&format!("{m:?}"), 600)), &bytes);
                return;
            }
        }
        if let Some(c) = contents(&lib) {
            if c.as_deref().ok() != Some(&b[3..]) {
                ctx.violate(&format!("contents:{}", m.kind()), format!("message {i} {}: contents encoded as {c:?}", util::clip(&format!("{m:?}"), 600)), &bytes);
                return;
            }
        }
        for (what, got, should) in parts(&lib, &b[3..]) {
            ctx.c(&format!("part: {what}"));
            if got != should {
                ctx.violate(
                    &format!("part:{what}"),
                    format!("message {i} {}: its {what} encoded alone as {} instead of {}", util::clip(&format!("{m:?}"), 600), util::hex(&got), util::hex(&should)),
                    &bytes,
                );
                return;
            }
        }
        out.extend_from_slice(&b);
        want.push(CItem::M(m));
    }
    // And read back they are what was built.
    match drive::run(&out, &FULL) {
        Ok(got) => {
            ctx.c("read back");
            if let Some((sig, d)) = compare_items(&want, &got) {
                ctx.violate(&format!("read-back-{sig}"), d, &out);
                return;
            }
        }
        Err(n) => return ctx.violate("endless", format!("more than {n} items"), &out),
    }
    ctx.eval(util::hash(&out), want.len() >= 3);
    ctx.sample(|| format!("{} messages {}: {}", want.len(), if editing { "edited" } else { "built" }, log.summary()));
}
