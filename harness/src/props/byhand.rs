//! The public pieces of the library, driven by hand: they must agree with the streams, and using them must not
//! disturb a stream that is under way.
#![cfg(feature = "mapped")]
use super::mapping::*;
use crate::canon;
use crate::ctx::Ctx;
use crate::drive::{self, Opts};
use crate::gen::{self, Cfg};
use crate::hostile;
use crate::model::*;
use crate::rng::Rng;
use crate::runner::Prop;
use crate::util;
use std::collections::HashMap;
use std::io::Read;
use yule_log::errors::ULogError;
use yule_log::macro_utils::{find_field, FromField};
use yule_log::message_buf::MessageBuf;
use yule_log::model::msg::UlogMessage;
use yule_log::model::{def, inst, CChar, Shared};
use yule_log::parser::{ULogMessageType, ULogParser};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C32",
        quick: 60_000,
        thorough: 2_500_000,
        case: c32,
        rule: "well-formed or damaged log in which single messages, fields or formats are also handled with the public pieces, the stream going on in between; at least 3 items",
        need: &[
            "next messages", "next messages refused", "foreign messages", "foreign messages refused", "filters", "filters of optioned items",
            "accessors", "accessors refused", "mapped items", "mapping errors", "mapped without left-out fields", "refused for left-out fields",
            "mapped in another order", "field values", "field values of another type", "nested fields", "fields found", "fields not found",
            "formats kept",
        ],
    }]
}
fn c32(ctx: &mut Ctx, r: &mut Rng, _: u64) {
    match r.below(4) {
        0 | 1 => parsing(ctx, r),
        2 => mapping(ctx, r),
        _ => fields(ctx, r),
    }
}
fn text(x: &Result<UlogMessage, ULogError>) -> String {
    match x {
        Ok(m) => format!("{:?}", canon::msg(m)),
        Err(e) => format!("error {}", canon::err(e)),
    }
}
/// Damages messages after the first subscription, each within its frame.
fn damage(r: &mut Rng, l: &mut gen::Log) {
    let Some(first) = l.msgs.iter().position(|m| m.what == "A") else { return };
    for m in &mut l.msgs[first + 1..] {
        if r.chance(1, 5) {
            let mut p = m.bytes[3..].to_vec();
            match r.below(3) {
                0 => p.truncate(r.below(p.len() + 1)),
                1 => p.extend(r.bytes(1 + 5 * usize::from(p.len() < 100))),
                _ => hostile::mutate(r, &mut p),
            }
            p.truncate(60_000);
            m.bytes = gen::frame(m.bytes[2], &p);
        }
    }
}

// ---- single messages -------------------------------------------------------------------------------------

fn by_hand<R: Read>(p: &mut ULogParser<R>, frame: &[u8]) -> Result<UlogMessage, ULogError> {
    p.parse_data(ULogMessageType::from(frame[2]), MessageBuf::from_vec(frame[3..].to_vec()))
}

/// `parse_data()`, `filter_fields()` and the lookups against the items of the stream.
fn parsing(ctx: &mut Ctx, r: &mut Rng) {
    let mut l = if r.flip() {
        let letters = r.flip();
        let small = r.flip();
        flight_log(r, letters, 8, small)
    } else {
        let mut c = Cfg::random(r);
        c.big = false;
        c.crowd = false;
        gen::Gen::new(r, c).full()
    };
    if r.flip() {
        damage(r, &mut l);
    }
    let b = l.bytes();
    ctx.set_input(&b);
    let names: Vec<String> = l.msgs.iter().filter(|m| m.what == "A" && m.bytes.len() > 6).map(|m| String::from_utf8_lossy(&m.bytes[6..]).into_owned()).collect();
    let o = Opts { hdr: false, ..Opts::random(r, &names) };
    let Ok(want) = drive::items(&b[..], &o, drive::item_bound(&b) + 64) else {
        return ctx.c("endless");
    };
    let want: Vec<String> = want.iter().map(text).collect();
    let mut p = drive::parser(&b[..], &o);
    let mut in_data = false;
    let mut kept: Vec<(String, Shared<def::Format>, String)> = vec![];
    // Messages of this log or another, to be parsed at some point where they are not next.
    let foreign: Vec<Vec<u8>> = l.msgs[1..].iter().map(|m| m.bytes.clone()).filter(|m| !matches!(m[2], b'A' | b'R')).collect();
    let mut n = 0;
    loop {
        let frame = l.msgs.get(n + 1).map(|m| m.bytes.clone());
        let mut by = None;
        if in_data {
            if !foreign.is_empty() && r.chance(1, 8) {
                let mut f = r.pick(&foreign).clone();
                if r.chance(1, 3) {
                    let mut q = f[3..].to_vec();
                    hostile::mutate(r, &mut q);
                    q.truncate(60_000);
                    f = gen::frame(f[2], &q);
                }
                // What a parser says that meets the message here.
                let upto: Vec<u8> = l.msgs[..n + 1].iter().flat_map(|m| m.bytes.iter().copied()).chain(f.iter().copied()).collect();
                let there = drive::items(&upto[..], &o, usize::MAX).unwrap_or_default();
                let mut got = by_hand(&mut p, &f);
                if let Ok(UlogMessage::LoggedData(d)) = &mut got {
                    d.filter_fields(o.ts, o.pad);
                }
                let got = text(&got);
                if let Some(x) = there.last().filter(|_| there.len() == n + 1) {
                    ctx.c(if x.is_ok() { "foreign messages" } else { "foreign messages refused" });
                    let want = text(x);
                    if want != got {
                        return ctx.violate(
                            &format!("parse_data:{}", f[2] as char),
                            format!("a message of type {:?} parsed by hand after item {n} ({o:?}): {}", f[2] as char, super::diff(&want, &got)),
                            &upto,
                        );
                    }
                }
            }
            if let Some(f) = frame.as_ref().filter(|_| r.flip()) {
                by = Some(by_hand(&mut p, f));
            }
        }
        let x = p.next();
        let got = x.as_ref().map(text);
        if got.as_ref() != want.get(n) {
            return ctx.violate(
                "disturbed",
                format!(
                    "item {n} after pieces of the library were used by hand ({o:?}): {}",
                    super::diff(&want.get(n).cloned().unwrap_or("nothing".into()), &got.unwrap_or("nothing".into()))
                ),
                &b,
            );
        }
        let Some(x) = x else { break };
        if let Some(mut h) = by {
            ctx.c(if h.is_ok() { "next messages" } else { "next messages refused" });
            if let Ok(UlogMessage::LoggedData(d)) = &mut h {
                let mut v = canon::fmt(&d.data, &mut canon::DefCache::default());
                v.fields.retain(|f| if &*f.name == "timestamp" { o.ts } else { o.pad || !f.name.starts_with("_padding") });
                for _ in 0..r.range(1, 2) {
                    d.filter_fields(o.ts, o.pad);
                }
                ctx.c("filters");
                let got = canon::fmt(&d.data, &mut canon::DefCache::default());
                if got != v {
                    return ctx.violate("filter", format!("item {n} filtered with {o:?}: {}", super::diff(&format!("{v:?}"), &format!("{got:?}"))), &b);
                }
            }
            if text(&h) != text(&x) {
                return ctx.violate(
                    &format!("by-hand:{}", frame.as_ref().map_or('?', |f| f[2] as char)),
                    format!("item {n} by hand, then filtered with {o:?}: {}", super::diff(&text(&x), &text(&h))),
                    &b,
                );
            }
        }
        match x {
            Ok(UlogMessage::AddSubscription(_)) => in_data = true,
            Ok(UlogMessage::FormatDefinition(f)) => {
                if let Ok(h) = p.get_format(&f.name) {
                    let t = format!("{:?}", canon::fmt_def(&h));
                    kept.push((f.name.to_string(), h, t));
                }
            }
            Ok(UlogMessage::LoggedData(mut d)) => {
                // A second filtering finds nothing left to do; a stricter one removes the rest.
                let before = canon::fmt(&d.data, &mut canon::DefCache::default());
                d.filter_fields(o.ts, o.pad);
                let again = canon::fmt(&d.data, &mut canon::DefCache::default());
                d.filter_fields(false, false);
                let mut rest = before.clone();
                rest.fields.retain(|f| &*f.name != "timestamp" && !f.name.starts_with("_padding"));
                ctx.c("filters of optioned items");
                if again != before || canon::fmt(&d.data, &mut canon::DefCache::default()) != rest {
                    return ctx.violate("filter-again", format!("item {n} of a parser with {o:?}, filtered again: {:?}", d.data), &b);
                }
            }
            _ => {}
        }
        n += 1;
    }
    for (name, h, t) in &kept {
        ctx.c("formats kept");
        let now = format!("{:?}", canon::fmt_def(h));
        if now != *t {
            return ctx.violate("format-handle", format!("the format obtained for {name:?} was {t}, at the end of the log it is {now}"), &b);
        }
    }
    ctx.eval(util::hash(&b), n >= 3);
    ctx.sample(|| format!("{} bytes, {n} items, {o:?}", b.len()));
}

// ---- accessors -------------------------------------------------------------------------------------------

fn c_names(v: &CFmt) -> Vec<String> {
    v.fields.iter().map(|f| f.name.to_string()).collect()
}
fn twice(v: &CFmt) -> bool {
    let mut n = c_names(v);
    n.sort();
    n.windows(2).any(|w| w[0] == w[1])
        || v.fields.iter().any(|f| match &f.val {
            CVal::N(n) => twice(n),
            CVal::AN(v) => v.iter().any(twice),
            _ => false,
        })
}
fn shuffle(f: &mut inst::Format, r: &mut Rng) {
    r.shuffle(&mut f.fields);
    for x in &mut f.fields {
        match &mut x.value {
            inst::FieldValue::ScalarOther(n) => {
                let mut m = (**n).clone();
                shuffle(&mut m, r);
                *n = Shared::new(m);
            }
            inst::FieldValue::ArrayOther(v) => v.iter_mut().for_each(|n| shuffle(n, r)),
            _ => {}
        }
    }
}
/// A derived stream, made by hand from its parts: the plain parser, the accessors and the lookups.
fn mapping(ctx: &mut Ctx, r: &mut Rng) {
    let letters = r.flip();
    let small = r.flip();
    let mut l = flight_log(r, letters, 10, small);
    if r.chance(1, 3) {
        damage(r, &mut l);
    }
    let b = l.bytes();
    ctx.set_input(&b);
    let w = way(r, letters, &l.msgs.iter().filter(|m| m.what == "A" && m.bytes.len() > 6).map(|m| String::from_utf8_lossy(&m.bytes[6..]).into_owned()).collect::<Vec<_>>());
    let (sp, rest) = specs(&w);
    let mut p = drive::parser(&b[..], &plain_opts(&w));
    let (ts, pad) = (r.flip(), r.flip());
    let mut subs: HashMap<u16, (usize, Hand)> = HashMap::new();
    let mut it = open(&b[..], &w);
    let bound = drive::item_bound(&b) + 64;
    let mut n = 0;
    let mut items = 0;
    while let Some(x) = p.next() {
        n += 1;
        if n > bound {
            return ctx.c("endless");
        }
        let want = match x {
            Err(e) => Err(e),
            Ok(UlogMessage::AddSubscription(s)) => {
                subs.remove(&s.msg_id);
                match sp.iter().position(|t| t.sub == s.message_name && t.multi == s.multi_id) {
                    Some(k) => {
                        let Ok(f) = p.get_format(&s.message_name) else {
                            return ctx.violate("no-format", format!("no format for the subscription {s:?}"), &b);
                        };
                        match hand(w.which, k, &f) {
                            Ok(h) => {
                                ctx.c("accessors");
                                subs.insert(s.msg_id, (k, h));
                                continue;
                            }
                            Err(e) => {
                                ctx.c("accessors refused");
                                Err(e)
                            }
                        }
                    }
                    None if w.fwd && rest => Ok(D::O(canon::msg(&UlogMessage::AddSubscription(s)))),
                    None => continue,
                }
            }
            Ok(UlogMessage::LoggedData(d)) if subs.contains_key(&d.msg_id) => {
                let (k, h) = &subs[&d.msg_id];
                let x = h(&d.data);
                ctx.c(if x.is_ok() { "mapped items" } else { "mapping errors" });
                // The same message with fields left out, or in another order.
                let mut less = d.clone();
                less.filter_fields(ts, pad);
                let mixed = r.flip();
                if mixed {
                    shuffle(&mut less.data, r);
                }
                let v = canon::fmt(&less.data, &mut canon::DefCache::default());
                if !twice(&v) {
                    let got = h(&less.data);
                    let ok = match (map(sp[*k], &v), &got) {
                        (Ok(s), Ok(g)) => {
                            ctx.c(if mixed { "mapped in another order" } else { "mapped without left-out fields" });
                            s == *g
                        }
                        (Err(Miss::Bad), Err(_)) => {
                            ctx.c("refused for left-out fields");
                            true
                        }
                        (Err(Miss::Unclear), _) => true,
                        _ => false,
                    };
                    if !ok {
                        return ctx.violate(
                            &format!("accessor:{}", sp[*k].sub),
                            format!("the accessor of variant {k} on a message with timestamp {ts}, padding {pad}, other order {mixed}: {v:?} mapped to {:?}", got.map_err(|e| canon::err(&e))),
                            &b,
                        );
                    }
                }
                x.map(|s| D::V(*k, s))
            }
            Ok(m) if rest => Ok(D::O(canon::msg(&m))),
            Ok(_) => continue,
        };
        let got = it.next();
        items += 1;
        let show = |x: &Result<D, ULogError>| match x {
            Ok(d) => format!("{d:?}"),
            Err(e) => format!("error {}", canon::err(e)),
        };
        let (want, got) = (show(&want), got.as_ref().map_or("nothing".into(), show));
        if want != got {
            return ctx.violate("by-hand-mapping", format!("item {} ({w:?}): by hand {want}, the derived stream yields {}", items - 1, super::diff(&want, &got)), &b);
        }
    }
    if let Some(x) = it.next() {
        return ctx.violate("longer", format!("the derived stream goes on after {items} items: {x:?} ({w:?})"), &b);
    }
    ctx.eval(util::hash(&b), items >= 3);
    ctx.sample(|| format!("{} bytes, {items} items, {w:?}", b.len()));
}

// ---- single fields ---------------------------------------------------------------------------------------

/// `FromField` and `find_field()` on every field of a log.
fn fields(ctx: &mut Ctx, r: &mut Rng) {
    let mut c = Cfg::random(r);
    c.crowd = false;
    c.big = false;
    let l = if r.chance(2, 3) {
        gen::Gen::new(r, c).full()
    } else {
        let letters = r.flip();
        flight_log(r, letters, 6, true)
    };
    let b = l.bytes();
    ctx.set_input(&b);
    let o = Opts { hdr: false, ts: r.flip(), pad: r.flip(), allow: None };
    let mut n = 0;
    for x in drive::items(&b[..], &o, drive::item_bound(&b) + 64).unwrap_or_default() {
        if let Ok(UlogMessage::LoggedData(d)) = x {
            n += 1;
            if !format_fields(ctx, r, &d.data, &b) {
                return;
            }
        }
    }
    ctx.eval(util::hash(&b), n >= 3);
}
fn format_fields(ctx: &mut Ctx, r: &mut Rng, f: &inst::Format, b: &[u8]) -> bool {
    let v = canon::fmt(f, &mut canon::DefCache::default());
    for (i, (x, c)) in f.fields.iter().zip(&v.fields).enumerate() {
        match &x.value {
            inst::FieldValue::ScalarOther(n) => {
                ctx.c("nested fields");
                if !format_fields(ctx, r, n, b) {
                    return false;
                }
            }
            inst::FieldValue::ArrayOther(v) => {
                ctx.c("nested fields");
                for n in v.iter().take(3) {
                    if !format_fields(ctx, r, n, b) {
                        return false;
                    }
                }
            }
            _ => {}
        }
        // Whatever the index, the field is found by its name.
        let k = if r.flip() { i } else { *r.pick(&[0, f.fields.len() - 1, f.fields.len(), usize::MAX, i + 1, i.wrapping_sub(1)]) };
        let same = f.fields.iter().filter(|y| y.name == x.name).count();
        let name: String = match r.below(4) {
            0 => format!("{}x", x.name),
            1 => x.name[..x.name.len() - x.name.chars().last().map_or(0, |c| c.len_utf8())].to_string(),
            _ => x.name.to_string(),
        };
        let there = f.fields.iter().position(|y| *y.name == *name);
        let found = find_field(f, k, &name).map(|y| y as *const inst::Field);
        let ok = match there {
            None => found.is_none(),
            Some(_) if *name == *x.name && same > 1 => found.is_some(),
            Some(j) => f.fields.iter().filter(|y| *y.name == *name).count() > 1 || found == Some(&f.fields[j] as *const _),
        };
        ctx.c(if there.is_some() { "fields found" } else { "fields not found" });
        if !ok {
            ctx.violate("find_field", format!("find_field({k}, {name:?}) in {v:?}: field {there:?} was to be found, not {found:?}"), b);
            return false;
        }
        macro_rules! each {
            ($($t:ty => $p:expr),*) => { $(
                let got = <$t as FromField>::from_field(x).map(|x| x.show());
                let want = match &c.val {
                    CVal::S(p, bits) if *p == $p => Some(format!("{bits:x}")),
                    CVal::Raw(bytes) if *c.ty == *$p.text() && bytes.len() == $p.size() => Some(format!("{:x}", $p.get(bytes))),
                    _ => None,
                };
                if !value(ctx, stringify!($t), c, want, got, b) {
                    return false;
                }
                let got = <Vec<$t> as FromField>::from_field(x).map(|x| x.show());
                let want = match &c.val {
                    CVal::A(p, bits) if *p == $p => Some(format!("[{}]", bits.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(","))),
                    CVal::Raw(bytes) if whole(bytes, &c.ty) && c.ty.strip_prefix($p.text()).is_some_and(|x| x.starts_with('[')) => {
                        Some(format!("[{}]", bytes.chunks($p.size()).map(|x| format!("{:x}", $p.get(x))).collect::<Vec<_>>().join(",")))
                    }
                    _ => None,
                };
                if !value(ctx, concat!("Vec<", stringify!($t), ">"), c, want, got, b) {
                    return false;
                }
            )* };
        }
        each!(u8 => Prim::U8, u16 => Prim::U16, u32 => Prim::U32, u64 => Prim::U64, i8 => Prim::I8, i16 => Prim::I16, i32 => Prim::I32,
            i64 => Prim::I64, f32 => Prim::F32, f64 => Prim::F64, bool => Prim::Bool, CChar => Prim::Char);
    }
    true
}
fn value(ctx: &mut Ctx, t: &str, c: &CField, want: Option<String>, got: Result<String, ULogError>, b: &[u8]) -> bool {
    // Padding cut short has no value of its type.
    let cut = matches!(&c.val, CVal::Raw(x) if !whole(x, &c.ty));
    ctx.c(if got.is_ok() { "field values" } else { "field values of another type" });
    if !cut && want != got.as_ref().ok().cloned() {
        ctx.violate(&format!("from_field:{t}"), format!("{c:?} as {t}: expected {want:?}, got {:?}", got.map_err(|e| canon::err(&e))), b);
        return false;
    }
    true
}
