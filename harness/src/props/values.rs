//! C22 to C25: byte readers, rendering, sinks, size limits.
use super::*;
use crate::ctx::Ctx;
use crate::drive::{self, Chunky, Fail, Failing, Opts, Sink, FULL, KINDS};
use crate::gen::{self, Cfg, Gen};
use crate::rng::Rng;
use crate::util;
use yule_log::datastream::DataStream;
use yule_log::encode::Encode;
use yule_log::errors::ULogError;
use yule_log::message_buf::MessageBuf;
use yule_log::model::msg::UlogMessage;
use yule_log::model::{def, inst, CChar, CCharSlice};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C22",
            quick: 1000_000,
            thorough: 30000_000,
            case: c22,
            rule: "random operation sequences over a MessageBuf or a DataStream (chunked, interrupted, failing sources), sizes from 0 to usize::MAX; non-trivial: at least one value read back",
            need: &["typed-read", "refused", "huge-size", "remaining-bytes", "stream-typed-read", "stream-skip", "stream-past-end", "stream-failure"],
        },
        Prop {
            id: "C23",
            quick: 80_000,
            thorough: 1500_000,
            case: c23,
            rule: "generated logs with every kind of value; each message's text and flattened list against an independent rendering; non-trivial: at least one value rendered",
            need: &["rendered:info", "rendered:param", "rendered:defparam", "rendered:log", "rendered:sub", "rendered:format", "rendered:value", "rendered:release", "flattened", "flattened-nested", "float", "char-array", "trimmed"],
        },
        Prop {
            id: "C24",
            quick: 15_000,
            thorough: 300_000,
            case: c24,
            rule: "every message of generated logs and every part of it that can be encoded, into sinks that write short, interrupt, and fail at each byte position; non-trivial: a fault was injected",
            need: &["short-writes", "failure:kind", "failure:full", "failure:once", "part:message", "part:value", "part:format", "part:info", "part:log", "part:stream"],
        },
        Prop {
            id: "C25",
            quick: 100_000,
            thorough: 3000_000,
            case: c25,
            rule: "messages modified through their public fields so that contents or keys lie around the limits or wrap around them; non-trivial: within 300 bytes of a limit or beyond it",
            need: &["refused:message", "refused:key", "accepted-at-limit:message", "accepted-at-limit:key", "wrapping"],
        },
    ]
}

// ---- C22 ------------------------------------------------------------------------------------------------

fn size(r: &mut Rng, left: usize, pos: usize) -> usize {
    match r.below(12) {
        0 => usize::MAX,
        1 => usize::MAX - r.below(40),
        2 => usize::MAX - pos,
        3 => (usize::MAX - pos).saturating_add(r.range(1, 3)),
        4 => left,
        5 => left + r.range(1, 9),
        6 => usize::MAX / 2 + r.below(3),
        7 => (1usize << 32) + r.below(20),
        8 => (isize::MAX as usize) - r.below(3),
        _ => r.below(left.min(20) + 1),
    }
}
fn c22(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    if case % 2 == 0 {
        buffer(ctx, r)
    } else {
        stream(ctx, r)
    }
}
fn buffer(ctx: &mut Ctx, r: &mut Rng) {
    let n = *r.pick(&[0usize, 1, 2, 3, 4, 7, 8, 9, 16, 40, 200]) + r.below(4);
    let data: Vec<u8> =
        if r.chance(1, 4) { (0..n).map(|_| *r.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff])).collect() } else { r.bytes(n) };
    ctx.set_input(&data);
    let mut b = if r.flip() { MessageBuf::new(data.clone()) } else { MessageBuf::from_vec(data.clone()) };
    let mut pos = 0usize;
    let mut reads = 0;
    let mut trace = String::new();
    for _ in 0..r.range(1, 40) {
        let left = data.len() - pos;
        if b.len() != left || b.is_empty() != (left == 0) {
            return ctx.violate("remaining", format!("{trace}: len() = {} after {pos} of {} bytes", b.len(), data.len()), &data);
        }
        // (name, expected bits and size, what was returned)
        let op = r.below(14);
        macro_rules! typed {
            ($f:ident, $s:expr, $bits:expr) => {{
                trace.push_str(concat!(" ", stringify!($f)));
                let got = b.$f();
                let exp = if $s <= left {
                    let mut x = [0u8; 8];
                    x[..$s].copy_from_slice(&data[pos..pos + $s]);
                    Some(u64::from_le_bytes(x))
                } else {
                    None
                };
                match (exp, got) {
                    (Some(e), Ok(v)) => {
                        let bits: u64 = $bits(v);
                        let e = if stringify!($f) == "take_bool" { u64::from(e != 0) } else { e };
                        if bits != e {
                            return ctx.violate(
                                concat!("value:", stringify!($f)),
                                format!("{trace}: {bits:#x} instead of {e:#x} at {pos}"),
                                &data,
                            );
                        }
                        pos += $s;
                        reads += 1;
                        ctx.c("typed-read");
                    }
                    (None, Err(_)) => ctx.c("refused"),
                    (Some(_), Err(e)) => {
                        return ctx.violate(
                            concat!("refused:", stringify!($f)),
                            format!("{trace}: {e} with {left} bytes left"),
                            &data,
                        )
                    }
                    (None, Ok(_)) => {
                        return ctx.violate(
                            concat!("invented:", stringify!($f)),
                            format!("{trace}: a value with {left} bytes left"),
                            &data,
                        )
                    }
                }
            }};
        }
        match op {
            0 => typed!(take_u8, 1, |v: u8| v as u64),
            1 => typed!(take_i8, 1, |v: i8| v as u8 as u64),
            2 => typed!(take_u16, 2, |v: u16| v as u64),
            3 => typed!(take_i16, 2, |v: i16| v as u16 as u64),
            4 => typed!(take_u32, 4, |v: u32| v as u64),
            5 => typed!(take_i32, 4, |v: i32| v as u32 as u64),
            6 => typed!(take_u64, 8, |v: u64| v),
            7 => typed!(take_i64, 8, |v: i64| v as u64),
            8 => typed!(take_f32, 4, |v: f32| v.to_bits() as u64),
            9 => typed!(take_f64, 8, |v: f64| v.to_bits()),
            10 => typed!(take_bool, 1, |v: bool| v as u64),
            _ => {
                let s = size(r, left, pos);
                trace.push_str(&format!(" {}({s})", if op == 11 { "skip" } else { "advance" }));
                if s > left {
                    ctx.c("huge-size");
                }
                let got = if op == 11 { b.skip(s).map(|()| None) } else { b.advance(s).map(|x| Some(x.to_vec())) };
                match got {
                    Ok(_) if s > left => {
                        return ctx.violate("invented:advance", format!("{trace} succeeded with {left} bytes left"), &data)
                    }
                    Err(e) if s <= left => {
                        return ctx.violate("refused:advance", format!("{trace}: {e} with {left} bytes left"), &data)
                    }
                    Ok(v) => {
                        if v.as_deref().is_some_and(|v| *v != data[pos..pos + s]) {
                            return ctx.violate("value:advance", format!("{trace}: wrong bytes at {pos}"), &data);
                        }
                        pos += s;
                        reads += 1;
                    }
                    Err(_) => ctx.c("refused"),
                }
            }
        }
    }
    if b.len() != data.len() - pos {
        return ctx.violate("remaining", format!("{trace}: len() = {} after {pos} of {} bytes", b.len(), data.len()), &data);
    }
    ctx.c("remaining-bytes");
    if b.into_remaining_bytes() != data[pos..] {
        return ctx.violate("value:into_remaining_bytes", format!("{trace}: wrong bytes from {pos}"), &data);
    }
    let mut h = data.clone();
    h.extend_from_slice(trace.as_bytes());
    ctx.eval(util::hash(&h), reads > 0);
    ctx.sample(|| format!("buffer of {}:{trace}", data.len()));
}
fn stream(ctx: &mut Ctx, r: &mut Rng) {
    let n = r.below(200) + if r.chance(1, 20) { 70_000 } else { 0 };
    let data = if r.chance(1, 3) { gen::text(r, n.max(1)).into_bytes() } else { r.bytes(n) };
    ctx.set_input(&data);
    let fail = r.chance(1, 5);
    let at = r.below(data.len() + 1);
    let kind = *r.pick(KINDS);
    let mx = *r.pick(&[1usize, 2, 3, 7, 100_000]);
    if fail {
        let src = Failing { data: &data, pos: 0, at, kind, times: usize::MAX, failed: 0, max: mx };
        ops(ctx, r, DataStream::new(src), &data, Some((at, kind)));
    } else {
        let f = r.fork();
        let inter = r.flip();
        ops(ctx, r, DataStream::new(Chunky::new(&data, f, mx, inter)), &data, None);
    }
}
fn ops<R: std::io::Read>(
    ctx: &mut Ctx,
    r: &mut Rng,
    mut s: DataStream<R>,
    data: &[u8],
    fail: Option<(usize, std::io::ErrorKind)>,
) {
    let mut pos = 0usize;
    let mut trace = String::new();
    let mut reads = 0;
    for _ in 0..r.range(1, 40) {
        let left = data.len() - pos;
        let op = r.below(14);
        macro_rules! typed {
            ($f:ident, $s:expr, $bits:expr) => {{
                if $s > left {
                    // Reading typed values past the end of the source is not specified.
                    continue;
                }
                trace.push_str(concat!(" ", stringify!($f)));
                let got = s.$f();
                if let Some((at, k)) = fail {
                    if pos + $s > at {
                        return failed(ctx, got.map(|_| ()), k, &trace, data);
                    }
                }
                let mut x = [0u8; 8];
                x[..$s].copy_from_slice(&data[pos..pos + $s]);
                let mut e = u64::from_le_bytes(x);
                if stringify!($f) == "read_bool" {
                    e = u64::from(e != 0);
                }
                match got {
                    Ok(v) => {
                        let bits: u64 = $bits(v);
                        if bits != e {
                            return ctx.violate(
                                concat!("value:", stringify!($f)),
                                format!("{trace}: {bits:#x} instead of {e:#x} at {pos}"),
                                data,
                            );
                        }
                        pos += $s;
                        reads += 1;
                        ctx.c("stream-typed-read");
                    }
                    Err(e) => {
                        return ctx.violate(
                            concat!("refused:", stringify!($f)),
                            format!("{trace}: {e} with {left} bytes left"),
                            data,
                        )
                    }
                }
            }};
        }
        match op {
            0 => typed!(read_u8, 1, |v: u8| v as u64),
            1 => typed!(read_i8, 1, |v: i8| v as u8 as u64),
            2 => typed!(read_u16, 2, |v: u16| v as u64),
            3 => typed!(read_i16, 2, |v: i16| v as u16 as u64),
            4 => typed!(read_u32, 4, |v: u32| v as u64),
            5 => typed!(read_i32, 4, |v: i32| v as u32 as u64),
            6 => typed!(read_u64, 8, |v: u64| v),
            7 => typed!(read_f32, 4, |v: f32| v.to_bits() as u64),
            8 => typed!(read_f64, 8, |v: f64| v.to_bits()),
            9 => typed!(read_bool, 1, |v: bool| v as u64),
            10 => {
                let n = r.below(left.min(70) + 1);
                trace.push_str(&format!(" read_string({n})"));
                let got = s.read_string(n);
                if let Some((at, k)) = fail {
                    if pos + n > at && n > 0 {
                        return failed(ctx, got.map(|_| ()), k, &trace, data);
                    }
                }
                match (got, std::str::from_utf8(&data[pos..pos + n])) {
                    (Ok(a), Ok(b)) if a == b => {}
                    (Err(ULogError::Utf8(_)), Err(_)) => {}
                    (a, b) => return ctx.violate("value:read_string", format!("{trace}: {a:?}, expected {b:?}"), data),
                }
                pos += n;
                reads += 1;
            }
            11 => {
                let n = r.below(left.min(300) + 1);
                trace.push_str(&format!(" read_exact({n})"));
                let mut buf = vec![0u8; n];
                let got = s.read_exact(&mut buf);
                if let Some((at, k)) = fail {
                    if pos + n > at && n > 0 {
                        return failed(ctx, got.map(|_| ()), k, &trace, data);
                    }
                }
                match got {
                    Ok(m) if m == n && buf == data[pos..pos + n] => {}
                    x => return ctx.violate("value:read_exact", format!("{trace} at {pos} of {}: {x:?}", data.len()), data),
                }
                pos += n;
                reads += 1;
            }
            12 => {
                let n = size(r, left, pos);
                trace.push_str(&format!(" skip({n})"));
                ctx.c("stream-skip");
                let got = s.skip(n);
                if let Some((at, k)) = fail {
                    if pos.saturating_add(n) > at && n > 0 {
                        return failed(ctx, got.map(|_| ()), k, &trace, data);
                    }
                }
                match got {
                    Ok(m) if m == n.min(left) => {}
                    x => return ctx.violate("value:skip", format!("{trace} with {left} bytes left: {x:?}"), data),
                }
                pos += n.min(left);
            }
            _ => {
                // A read past the end says so and is the last operation.
                if fail.is_some() || r.chance(3, 4) {
                    continue;
                }
                let n = left + r.range(1, 20);
                let mut buf = vec![0u8; n];
                trace.push_str(&format!(" read_exact({n})"));
                ctx.c("stream-past-end");
                match s.read_exact(&mut buf) {
                    Ok(0) => {}
                    x => return ctx.violate("past-end", format!("{trace} with {left} bytes left: {x:?}"), data),
                }
                break;
            }
        }
    }
    let mut h = data.to_vec();
    h.extend_from_slice(trace.as_bytes());
    ctx.eval(util::hash(&h), reads > 0);
    ctx.sample(|| format!("stream of {}:{trace}", data.len()));
}
fn failed(ctx: &mut Ctx, got: Result<(), ULogError>, k: std::io::ErrorKind, trace: &str, data: &[u8]) {
    ctx.c("stream-failure");
    match got {
        Err(ULogError::Io(e)) if e.kind() == k => ctx.eval(util::hash(trace.as_bytes()), true),
        x => ctx.violate("stream-failure", format!("{trace}: {x:?} instead of the source's {k:?}"), data),
    }
}

// ---- C23 ------------------------------------------------------------------------------------------------

/// Expected text: literal pieces and numbers that must read back to the same bits.
enum Tok {
    L(String),
    F(Prim, u64),
    /// A single character, with or without quotes.
    Ch(u64),
}
fn lit(s: impl Into<String>) -> Tok {
    Tok::L(s.into())
}
fn scalar(p: Prim, b: u64, quoted_char: bool) -> Tok {
    lit(match p {
        Prim::U8 | Prim::U16 | Prim::U32 | Prim::U64 => b.to_string(),
        Prim::I8 => (b as u8 as i8).to_string(),
        Prim::I16 => (b as u16 as i16).to_string(),
        Prim::I32 => (b as u32 as i32).to_string(),
        Prim::I64 => (b as i64).to_string(),
        Prim::Bool => (b != 0).to_string(),
        Prim::F32 | Prim::F64 => return Tok::F(p, b),
        Prim::Char if quoted_char => format!("'{}'", character(b)),
        Prim::Char => return Tok::Ch(b),
    })
}
fn character(b: u64) -> String {
    if b < 0x80 {
        (b as u8 as char).to_string()
    } else {
        format!("\\x{b:02X}")
    }
}
fn inst_name(f: &CFmt) -> String {
    match f.multi {
        None => f.name.to_string(),
        Some(n) => format!("{}.{}{}", f.name, if n < 10 { "0" } else { "" }, n),
    }
}
fn value_toks(v: &CVal, out: &mut Vec<Tok>, quoted: bool) {
    match v {
        CVal::S(p, b) => out.push(scalar(*p, *b, quoted)),
        CVal::A(Prim::Char, v) => {
            let b: Vec<u8> = v.iter().map(|x| *x as u8).collect();
            out.push(lit(format!("\"{}\"", String::from_utf8_lossy(&b))));
        }
        CVal::A(p, v) => {
            out.push(lit("["));
            for (i, b) in v.iter().enumerate() {
                if i > 0 {
                    out.push(lit(", "));
                }
                out.push(scalar(*p, *b, quoted));
            }
            out.push(lit("]"));
        }
        CVal::N(f) => out.push(lit(format!("{{{}}}", inst_name(f)))),
        CVal::AN(v) => {
            out.push(lit("["));
            for (i, f) in v.iter().enumerate() {
                out.push(lit(format!("{}{{{}}}", if i > 0 { ", " } else { "" }, inst_name(f))));
            }
            out.push(lit("]"));
        }
        CVal::Raw(_) => {}
    }
}
fn fits(toks: &[Tok], mut s: &str) -> Result<u64, String> {
    let mut floats = 0;
    for t in toks {
        match t {
            Tok::L(l) => match s.strip_prefix(l.as_str()) {
                Some(x) => s = x,
                None => return Err(format!("expected {:?} before {:?}", util::clip(l, 200), util::clip(s, 200))),
            },
            Tok::Ch(b) => {
                let c = character(*b);
                match s.strip_prefix(&format!("'{c}'")).or_else(|| s.strip_prefix(&c)) {
                    Some(x) => s = x,
                    None => return Err(format!("expected character {c:?} before {:?}", util::clip(s, 200))),
                }
            }
            Tok::F(p, b) => {
                floats += 1;
                let n = s.find([',', ']', ' ']).unwrap_or(s.len());
                let ok = if *p == Prim::F32 {
                    let e = f32::from_bits(*b as u32);
                    s[..n].parse::<f32>().is_ok_and(|x| x.to_bits() == e.to_bits() || (x.is_nan() && e.is_nan()))
                } else {
                    let e = f64::from_bits(*b);
                    s[..n].parse::<f64>().is_ok_and(|x| x.to_bits() == e.to_bits() || (x.is_nan() && e.is_nan()))
                };
                if !ok {
                    return Err(format!("{:?} does not read back to {:?} with bits {b:#x}", util::clip(&s[..n], 80), p));
                }
                s = &s[n..];
            }
        }
    }
    if s.is_empty() {
        Ok(floats)
    } else {
        Err(format!("surplus text {:?}", util::clip(s, 200)))
    }
}
fn level_name(l: u8) -> &'static str {
    ["EMERG", "ALERT", "CRIT", "ERR", "WARNING", "NOTICE", "INFO", "DEBUG"][(l - b'0') as usize]
}
fn def_text(def: &str) -> String {
    // "name:type field;type field;"
    let body = def.split_once(':').map(|x| x.1).unwrap_or("");
    body.trim_end_matches(';').replace(';', "; ")
}
fn leaves(f: &CFmt, path: &str, out: &mut Vec<(String, CVal)>, nested: &mut bool) {
    for x in &f.fields {
        let p = format!("{path}/{}", x.name);
        match &x.val {
            CVal::S(..) => out.push((p, x.val.clone())),
            CVal::A(t, v) => {
                for (i, b) in v.iter().enumerate() {
                    out.push((format!("{p}.{i:02}"), CVal::S(*t, *b)));
                }
            }
            CVal::N(n) => {
                *nested = true;
                leaves(n, &p, out, nested)
            }
            CVal::AN(v) => {
                for (i, n) in v.iter().enumerate() {
                    *nested = true;
                    leaves(n, &format!("{p}.{i:02}"), out, nested);
                }
            }
            CVal::Raw(_) => {}
        }
    }
}
/// Adds keys that decide how a value is shown.
fn release_keys(g: &mut Gen) {
    for key in ["ver_sw_release", "ver_os_release", "ver__release", "ver_sw", "sys_release", "ver_sw_released", "xver_a_release"]
    {
        let t = match g.r.below(4) {
            0 => Ty::p(Prim::I32),
            1 => Ty::pa(Prim::U32, 2),
            2 => Ty::p(Prim::U64),
            _ => Ty::p(Prim::U32),
        };
        let t = if g.r.chance(2, 3) { Ty::p(Prim::U32) } else { t };
        g.info_with(key, &t);
    }
}
fn c23(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    if case % 8 == 7 {
        return chars(ctx, r);
    }
    let cfg = Cfg::random(r);
    let mut g = Gen::new(r, cfg);
    g.definitions();
    release_keys(&mut g);
    let n = g.r.range(5, 60);
    for _ in 0..n {
        g.body_step();
    }
    let l = g.log();
    let b = l.bytes();
    ctx.set_input(&b);
    let o = Opts { hdr: true, ts: r.flip(), pad: false, allow: None };
    let exps = project(&l.exps(), &o);
    let got = match drive::items(&b[..], &o, drive::item_bound(&b) + 64) {
        Ok(v) => v,
        Err(n) => return ctx.violate("endless", format!("more than {n} items"), &b),
    };
    if got.len() != exps.len() {
        // Decoding itself is C02's business.
        return ctx.c("not-decoded");
    }
    let mut n = 0;
    for (e, g) in exps.iter().zip(&got) {
        let (Exp::M(e), Ok(m)) = (e, g) else { continue };
        if crate::canon::msg(m) != *e {
            ctx.c("not-decoded");
            continue;
        }
        match one(ctx, e, m) {
            Ok(k) => n += k,
            Err((sig, d)) => return ctx.violate(&sig, d, &b),
        }
    }
    ctx.eval(util::hash(&b), n > 0);
    ctx.sample(|| l.summary());
}
/// Checks the rendering of one message; the number of renderings judged.
fn one(ctx: &mut Ctx, e: &CMsg, m: &UlogMessage) -> Result<u64, (String, String)> {
    let mut n = 0;
    let mut judge = |ctx: &mut Ctx, what: &str, toks: Vec<Tok>, text: String| -> Result<(), (String, String)> {
        n += 1;
        match fits(&toks, &text) {
            Ok(f) => {
                ctx.c(&format!("rendered:{what}"));
                ctx.n("float", f);
                Ok(())
            }
            Err(d) => Err((
                format!("text:{what}"),
                format!("{} rendered as {:?}: {d}", util::clip(&format!("{e:?}"), 600), util::clip(&text, 600)),
            )),
        }
    };
    let val = |v: &CVal, q: bool| {
        let mut t = vec![];
        value_toks(v, &mut t, q);
        t
    };
    match (e, m) {
        (CMsg::Info { key, val: v, .. }, UlogMessage::Info(i)) => {
            info(ctx, &mut judge, key, v, i.to_string(), "info")?;
            if !has_raw(v) {
                judge(ctx, "value", val(v, true), i.value.to_string())?;
            }
            text_of(ctx, v, &i.value)?;
        }
        (CMsg::MInfo { key, val: v, .. }, UlogMessage::MultiInfo(i)) => {
            info(ctx, &mut judge, key, v, i.to_string(), "multi-info")?;
            text_of(ctx, v, &i.value)?;
        }
        (CMsg::Param { key, val: v, .. }, UlogMessage::Parameter(p)) => {
            let mut t = vec![lit(format!("{key}: "))];
            value_toks(v, &mut t, false);
            judge(ctx, "param", t, p.to_string())?;
            judge(ctx, "param-value", val(v, true), p.value.to_string())?;
        }
        (CMsg::DefParam { dt, key, val: v, .. }, UlogMessage::DefaultParameter(p)) => {
            let d = match dt & 3 {
                0 => "",
                1 => "SystemWide",
                2 => "Configuration",
                _ => "SystemWide|Configuration",
            };
            let mut t = vec![lit(format!("{key} ({d}): "))];
            value_toks(v, &mut t, false);
            judge(ctx, "defparam", t, p.to_string())?;
            let k = p.get_default_type();
            if k.system_wide != (dt & 1 != 0) || k.configuration != (dt & 2 != 0) {
                return Err(("default-type".into(), format!("{dt:#b} reported as {k:?}")));
            }
        }
        (CMsg::Log { level, tag, ts, msg, .. }, UlogMessage::LoggedString(s) | UlogMessage::TaggedLoggedString(s)) => {
            let t = match tag {
                None => format!("{} {ts}: {msg}", level_name(*level)),
                Some(k) => format!("{} Tag: {k} {ts}: {msg}", level_name(*level)),
            };
            judge(ctx, "log", vec![lit(t)], s.to_string())?;
            judge(ctx, "level", vec![lit(level_name(*level))], s.level.to_string())?;
        }
        (CMsg::Sub { id, name, .. }, UlogMessage::AddSubscription(s)) => {
            judge(ctx, "sub", vec![lit(format!("Subscription: {name} msg_id: {id}"))], s.to_string())?;
        }
        (CMsg::Drop(d), UlogMessage::DropoutMark(x)) => judge(ctx, "dropout", vec![lit(d.to_string())], x.to_string())?,
        (CMsg::Format(d), UlogMessage::FormatDefinition(f)) => {
            judge(ctx, "format", vec![lit(def_text(d))], f.to_string())?;
        }
        (CMsg::Flags { compat, incompat, .. }, UlogMessage::FlagBits(f)) => {
            if f.has_default_parameters() != (compat[0] & 1 != 0) || f.has_data_appended() != (incompat[0] & 1 != 0) {
                return Err(("flag-accessors".into(), format!("{f:?}")));
            }
        }
        (CMsg::Data { fmt, .. }, UlogMessage::LoggedData(d)) => {
            judge(ctx, "instance", vec![lit(inst_name(fmt))], d.data.to_string())?;
            for (x, y) in fmt.fields.iter().zip(&d.data.fields) {
                judge(ctx, "value", val(&x.val, true), y.value.to_string())?;
                text_of(ctx, &x.val, &y.value)?;
            }
            let mut exp = vec![];
            let mut nested = false;
            leaves(fmt, &inst_name(fmt), &mut exp, &mut nested);
            #[allow(deprecated)]
            let got: Vec<(String, CVal)> = d
                .data
                .flatten()
                .into_iter()
                .map(|(p, v)| (p, crate::canon::val(&v, &mut crate::canon::DefCache::default())))
                .collect();
            ctx.n("leaves", exp.len() as u64);
            ctx.c("flattened");
            if nested {
                ctx.c("flattened-nested");
            }
            if exp != got {
                let i = exp.iter().zip(&got).take_while(|(a, b)| a == b).count();
                return Err((
                    "flatten".into(),
                    format!("entry {i} of {}/{}: expected {:?}, got {:?}", exp.len(), got.len(), exp.get(i), got.get(i)),
                ));
            }
        }
        _ => {}
    }
    Ok(n)
}
type Judge<'a> = dyn FnMut(&mut Ctx, &str, Vec<Tok>, String) -> Result<(), (String, String)> + 'a;
fn info(ctx: &mut Ctx, judge: &mut Judge, key: &str, v: &CVal, text: String, what: &str) -> Result<(), (String, String)> {
    if has_raw(v) {
        return Ok(());
    }
    let mut t = vec![lit(format!("{key}: "))];
    match v {
        CVal::S(Prim::U32, b) if key.starts_with("ver_") && key.ends_with("_release") => {
            ctx.c("rendered:release");
            t.push(lit(format!("0x{b:X}")));
        }
        _ => value_toks(v, &mut t, false),
    }
    judge(ctx, what, t, text)
}
fn has_raw(v: &CVal) -> bool {
    matches!(v, CVal::Raw(_))
}
/// Arrays as scalars, char arrays as text.
fn text_of(ctx: &mut Ctx, e: &CVal, v: &inst::FieldValue) -> Result<(), (String, String)> {
    let dc = &mut crate::canon::DefCache::default();
    let got: Option<Vec<CVal>> = v.to_scalars().map(|a| a.iter().map(|x| crate::canon::val(x, dc)).collect());
    let exp = match e {
        CVal::A(p, a) => Some(a.iter().map(|b| CVal::S(*p, *b)).collect::<Vec<_>>()),
        CVal::AN(a) => Some(a.iter().map(|f| CVal::N(Box::new(f.clone()))).collect()),
        _ => None,
    };
    if exp != got {
        return Err((
            "to_scalars".into(),
            format!("{} split into {}", util::clip(&format!("{exp:?}"), 300), util::clip(&format!("{got:?}"), 300)),
        ));
    }
    if let (CVal::A(Prim::Char, a), inst::FieldValue::ArrayChar(c)) = (e, v) {
        let b: Vec<u8> = a.iter().map(|x| *x as u8).collect();
        ctx.c("char-array");
        char_array(c, &b)?;
    }
    Ok(())
}
fn char_array(c: &Vec<CChar>, b: &[u8]) -> Result<(), (String, String)> {
    let lossy = String::from_utf8_lossy(b).into_owned();
    let end = b.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);
    let trimmed = String::from_utf8_lossy(&b[..end]).into_owned();
    let s: &[CChar] = c;
    for (what, ok) in [
        ("as_bytes", c.as_bytes() == b && s.as_bytes() == b),
        ("to_string_lossy", c.to_string_lossy() == lossy && s.to_string_lossy() == lossy),
        ("to_string_lossy_trimmed", c.to_string_lossy_trimmed() == trimmed && s.to_string_lossy_trimmed() == trimmed),
        ("trim_end_nul", c.trim_end_nul().iter().map(|x| x.0).eq(b[..end].iter().copied()) && s.trim_end_nul().len() == end),
        ("chars", c.iter().zip(b).all(|(x, y)| x.as_u8() == *y && x.as_char() == if *y < 128 { *y as char } else { '\u{FFFD}' })),
    ] {
        if !ok {
            return Err((format!("chars:{what}"), format!("{what} of {b:?}: {:?}", c.to_string_lossy_trimmed())));
        }
    }
    Ok(())
}
fn chars(ctx: &mut Ctx, r: &mut Rng) {
    let n = *r.pick(&[0usize, 1, 2, 3, 8, 40, 300]);
    let mut b: Vec<u8> = match r.below(3) {
        0 => gen::text(r, n.max(1)).into_bytes(),
        1 => (0..n).map(|_| *r.pick(&[0u8, 0, b'a', 0xc3, 0xa9, 0xff])).collect(),
        _ => r.bytes(n),
    };
    b.resize(b.len() + r.below(4), 0);
    ctx.set_input(&b);
    let c: Vec<CChar> = b.iter().map(|x| CChar::from(*x)).collect();
    ctx.c("trimmed");
    ctx.eval(util::hash(&b), !b.is_empty());
    if let Err((s, d)) = char_array(&c, &b) {
        return ctx.violate(&s, d, &b);
    }
    let text = inst::FieldValue::ArrayChar(c).to_string();
    if text != format!("\"{}\"", String::from_utf8_lossy(&b)) {
        ctx.violate("text:value", format!("{b:?} rendered as {text:?}"), &b);
    }
}

// ---- C24 ------------------------------------------------------------------------------------------------

/// Encodes one thing into every kind of sink.
fn probe(
    ctx: &mut Ctx,
    r: &mut Rng,
    what: &str,
    full: Vec<u8>,
    run: &dyn Fn(&mut Sink) -> std::io::Result<()>,
) -> Result<(), (String, String, Vec<u8>)> {
    let sink = |r: &mut Rng, max: usize, interrupts: bool, fail_at: Option<(usize, Fail)>| Sink {
        got: vec![],
        r: r.fork(),
        max,
        interrupts,
        fail_at,
        writes: 0,
        failures: 0,
    };
    ctx.c(&format!("part:{what}"));
    for (max, int) in [(1usize, false), (3, true), (40, true)] {
        if full.len() > 5000 && max == 1 {
            continue;
        }
        let mut s = sink(r, max, int, None);
        let res = run(&mut s);
        ctx.c("short-writes");
        if let Err(e) = res {
            return Err((format!("{what}:short-writes"), format!("failed on a sink that only writes short: {e}"), full));
        }
        if s.got != full {
            return Err((
                format!("{what}:short-writes"),
                format!("{} bytes written instead of {}, or different ones", s.got.len(), full.len()),
                full,
            ));
        }
    }
    let positions: Vec<usize> = if full.len() <= 80 {
        (0..full.len()).collect()
    } else {
        let mut v: Vec<usize> = (0..40).chain(full.len() - 10..full.len()).collect();
        v.extend((0..30).map(|_| r.below(full.len())));
        v
    };
    for at in positions {
        for f in [Fail::Kind(*r.pick(KINDS)), Fail::Full, Fail::Once(*r.pick(KINDS))] {
            let mx = *r.pick(&[1usize, 5, 1 << 40]);
            let int = r.chance(1, 4);
            let mut s = sink(r, mx, int, Some((at, f)));
            let res = run(&mut s);
            let (label, kind) = match f {
                Fail::Kind(k) => ("kind", k),
                Fail::Once(k) => ("once", k),
                Fail::Full => ("full", std::io::ErrorKind::WriteZero),
            };
            if s.failures > 0 {
                ctx.c(&format!("failure:{label}"));
            }
            let d = format!("sink failing at byte {at} of {} ({f:?}, writes of up to {mx})", full.len());
            match res {
                Ok(()) => {
                    return Err((
                        format!("{what}:success-despite-failure:{label}"),
                        format!("{d}: reported success, {} bytes accepted", s.got.len()),
                        full,
                    ))
                }
                Err(e) if e.kind() != kind => {
                    return Err((format!("{what}:other-error:{label}"), format!("{d}: reported {:?} ({e})", e.kind()), full))
                }
                Err(_) => {}
            }
            if !full.starts_with(&s.got) {
                return Err((
                    format!("{what}:not-a-prefix:{label}"),
                    format!("{d}: accepted {} which is not a prefix of {}", util::hex(&s.got), util::hex(&full)),
                    full,
                ));
            }
        }
    }
    Ok(())
}
fn c24(ctx: &mut Ctx, r: &mut Rng, _case: u64) {
    let l = gen::small_log(r);
    let b = l.bytes();
    ctx.set_input(&b);
    let Ok(v) = drive::items(&b[..], &FULL, drive::item_bound(&b) + 64) else { return };
    let msgs: Vec<UlogMessage> = v.into_iter().filter_map(Result::ok).collect();
    macro_rules! go {
        ($what:expr, $t:expr) => {{
            let t = $t;
            let mut full = vec![];
            if let Err(e) = t.encode(&mut full) {
                return ctx.violate(concat!($what, ":refused"), format!("encoding into a vector failed: {e}"), &b);
            }
            if let Err((s, d, f)) = probe(ctx, r, $what, full, &|w: &mut Sink| t.encode(w)) {
                return ctx.violate(&s, format!("{d}; correct output {}", util::clip(&util::hex(&f), 300)), &b);
            }
        }};
    }
    for m in &msgs {
        if r.chance(1, 2) {
            go!("message", m);
        }
        if r.chance(1, 2) {
            continue;
        }
        match m {
            UlogMessage::FlagBits(x) => go!("flags", x),
            UlogMessage::FormatDefinition(x) => {
                go!("format", x);
                if let Some(f) = x.fields.first() {
                    go!("format-field", f);
                    go!("type", &f.r#type);
                    go!("base-type", &f.r#type.base_type);
                }
            }
            UlogMessage::LoggedData(x) => {
                go!("data", x);
                go!("instance", &x.data);
                for f in &x.data.fields {
                    if r.flip() {
                        go!("field", f);
                    } else {
                        go!("value", &f.value);
                    }
                }
            }
            UlogMessage::AddSubscription(x) => go!("sub", x),
            UlogMessage::Info(x) => {
                go!("info", x);
                go!("value", &x.value);
            }
            UlogMessage::MultiInfo(x) => {
                go!("info", x);
                go!("value", &x.value);
            }
            UlogMessage::Parameter(x) => {
                go!("param", x);
                go!("param-value", &x.value);
            }
            UlogMessage::DefaultParameter(x) => go!("param", x),
            UlogMessage::LoggedString(x) | UlogMessage::TaggedLoggedString(x) => {
                go!("log", x);
                go!("level", &x.level);
            }
            UlogMessage::DropoutMark(x) => go!("dropout", x),
            _ => {}
        }
    }
    // A whole log into one sink: the first failure stops it.
    if !msgs.is_empty() {
        let ms = &msgs;
        let mut full = vec![];
        for m in ms {
            let _ = m.encode(&mut full);
        }
        let run = |w: &mut Sink| -> std::io::Result<()> {
            for m in ms {
                m.encode(w)?;
            }
            Ok(())
        };
        if let Err((s, d, f)) = probe(ctx, r, "stream", full, &run) {
            return ctx.violate(&s, format!("{d}; correct output {}", util::clip(&util::hex(&f), 300)), &b);
        }
    }
    ctx.eval(util::hash(&b), !msgs.is_empty());
    ctx.sample(|| l.summary());
}

// ---- C25 ------------------------------------------------------------------------------------------------

fn around(r: &mut Rng, limit: usize) -> usize {
    match r.below(10) {
        0 => limit - r.below(4),
        1 => limit + r.range(1, 3),
        2 => limit + 1 + r.below(300),
        3 => limit - r.below(300).min(limit),
        4 => (limit + 1) * 2 + r.below(30),
        5 => (limit + 1) + r.below(30),
        6 => (limit + 1) * r.range(1, 4),
        7 => (limit + 1) * r.range(2, 5) - 1,
        8 => r.below(limit),
        _ => limit,
    }
}
/// Sizes a message's contents by a key or by its bulk; returns expected type byte and contents, None if the key is too long.
fn c25(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let by_key = case % 2 == 1;
    let key_of = |ty: &str, n: usize| -> String {
        // Total typed key of n bytes: "<type> <key>"
        let k = n.saturating_sub(ty.len() + 1);
        (0..k).map(|i| (b'a' + (i % 26) as u8) as char).collect()
    };
    let typed = |t: &def::TypeExpr| crate::canon::ty(t).text();
    let te = |b: def::BaseType, a: Option<usize>| def::TypeExpr { base_type: b, array_size: a };
    let with_key = |first: &[u8], ty: &str, key: &str, val: &[u8]| -> Option<Vec<u8>> {
        let k = format!("{ty} {key}");
        let mut c = first.to_vec();
        c.push(u8::try_from(k.len()).ok()?);
        c.extend_from_slice(k.as_bytes());
        c.extend_from_slice(val);
        Some(c)
    };
    // (message, type byte, contents (None: key too long))
    let (m, t, c): (UlogMessage, u8, Option<Vec<u8>>) = if by_key {
        let n = around(r, 255);
        match r.below(4) {
            0 | 1 => {
                let cont = r.flip();
                let (ty, value, val) = match r.below(3) {
                    0 => (te(def::BaseType::UINT32, None), inst::FieldValue::ScalarU32(7), 7u32.to_le_bytes().to_vec()),
                    1 => {
                        let a = r.bytes(9);
                        (te(def::BaseType::CHAR, Some(9)), inst::FieldValue::ArrayChar(a.iter().map(|x| CChar(*x)).collect()), a)
                    }
                    _ => {
                        let a = r.bytes(1000);
                        (te(def::BaseType::UINT8, Some(1000)), inst::FieldValue::ArrayU8(a.clone()), a)
                    }
                };
                let tx = typed(&ty);
                let key = key_of(&tx, n);
                if r.flip() {
                    let c = with_key(&[], &tx, &key, &val);
                    (UlogMessage::Info(yule_log::model::msg::Info { key, r#type: ty, value }), b'I', c)
                } else {
                    let c = with_key(&[u8::from(cont)], &tx, &key, &val);
                    (
                        UlogMessage::MultiInfo(yule_log::model::msg::MultiInfo { is_continued: cont, key, r#type: ty, value }),
                        b'M',
                        c,
                    )
                }
            }
            k => {
                let (ty, value, val) = if r.flip() {
                    (te(def::BaseType::INT32, None), inst::ParameterValue::INT32(-3), (-3i32).to_le_bytes())
                } else {
                    (te(def::BaseType::FLOAT, None), inst::ParameterValue::FLOAT(1.5), 1.5f32.to_le_bytes())
                };
                let tx = typed(&ty);
                let key = key_of(&tx, n);
                if k == 2 {
                    let c = with_key(&[], &tx, &key, &val);
                    (UlogMessage::Parameter(yule_log::model::msg::Parameter { key, r#type: ty, value }), b'P', c)
                } else {
                    let c = with_key(&[3], &tx, &key, &val);
                    (
                        UlogMessage::DefaultParameter(yule_log::model::msg::DefaultParameter {
                            key,
                            default_types: 3,
                            r#type: ty,
                            value,
                        }),
                        b'Q',
                        c,
                    )
                }
            }
        }
    } else {
        let n = around(r, 65535);
        match r.below(7) {
            0 => {
                let tag = if r.flip() { Some(r.u16()) } else { None };
                let ts = r.u64();
                let mut c = vec![b'3'];
                if let Some(t) = tag {
                    c.extend_from_slice(&t.to_le_bytes());
                }
                c.extend_from_slice(&ts.to_le_bytes());
                let msg: String = std::iter::repeat('x').take(n.saturating_sub(c.len())).collect();
                c.extend_from_slice(msg.as_bytes());
                let s =
                    yule_log::model::msg::LoggedString { level: yule_log::model::msg::LogLevel::Err, tag, timestamp: ts, msg };
                if tag.is_some() {
                    (UlogMessage::TaggedLoggedString(s), b'C', Some(c))
                } else {
                    (UlogMessage::LoggedString(s), b'L', Some(c))
                }
            }
            1 => {
                let c = r.bytes(n.min(3000));
                let mut c = c;
                c.resize(n, 0x55);
                (UlogMessage::Unhandled { msg_type: b'S', message_contents: c.clone() }, b'S', Some(c))
            }
            2 => {
                let name: String = std::iter::repeat('n').take(n.saturating_sub(3)).collect();
                let mut c = vec![1, 5, 0];
                c.extend_from_slice(name.as_bytes());
                (
                    UlogMessage::AddSubscription(yule_log::model::msg::Subscription {
                        multi_id: 1,
                        msg_id: 5,
                        message_name: name,
                    }),
                    b'A',
                    Some(c),
                )
            }
            3 => {
                let a: Vec<u8> = vec![9; n.saturating_sub(30)];
                let ty = te(def::BaseType::UINT8, Some(a.len()));
                let tx = typed(&ty);
                // key length byte + "type k"
                let c = with_key(&[], &tx, "k", &a);
                (
                    UlogMessage::Info(yule_log::model::msg::Info {
                        key: "k".into(),
                        r#type: ty,
                        value: inst::FieldValue::ArrayU8(a),
                    }),
                    b'I',
                    c,
                )
            }
            4 => {
                // A definition with many fields.
                let mut fields = vec![];
                let mut c = b"f:".to_vec();
                let mut i = 0;
                while c.len() < n {
                    let left = n - c.len();
                    let w = if left > 60 { 12 } else { left.saturating_sub(9) };
                    let name = format!("{:a<w$}", format!("f{i}"));
                    c.extend_from_slice(format!("uint8_t {name};").as_bytes());
                    fields.push(def::Field { name: name.as_str().into(), r#type: te(def::BaseType::UINT8, None) });
                    i += 1;
                }
                (UlogMessage::FormatDefinition(def::Format { name: "f".into(), fields, padding: 0 }), b'F', Some(c))
            }
            k => {
                // Logged data, flat or nested.
                let body: Vec<u8> = vec![3; n.saturating_sub(2)];
                let d = |fields: Vec<def::Field>, name: &str| {
                    yule_log::model::Shared::new(def::Format { name: name.into(), fields, padding: 0 })
                };
                let ty = te(def::BaseType::UINT8, Some(body.len()));
                let df = d(vec![def::Field { name: "a".into(), r#type: ty.clone() }], "g");
                let inner = inst::Format {
                    timestamp: None,
                    name: "g".into(),
                    fields: vec![inst::Field { name: "a".into(), r#type: ty, value: inst::FieldValue::ArrayU8(body.clone()) }],
                    multi_id_index: None,
                    def_format: df,
                };
                let data = if k == 5 {
                    inner
                } else {
                    let ty = te(def::BaseType::OTHER("g".into()), None);
                    inst::Format {
                        timestamp: None,
                        name: "h".into(),
                        fields: vec![inst::Field {
                            name: "n".into(),
                            r#type: ty.clone(),
                            value: inst::FieldValue::ScalarOther(inner.into()),
                        }],
                        multi_id_index: None,
                        def_format: d(vec![def::Field { name: "n".into(), r#type: ty }], "h"),
                    }
                };
                let mut c = vec![0x34, 0x12];
                c.extend_from_slice(&body);
                (UlogMessage::LoggedData(yule_log::model::msg::LoggedData { timestamp: 1, msg_id: 0x1234, data }), b'D', Some(c))
            }
        }
    };
    let exp: Option<Vec<u8>> = c.as_ref().filter(|c| c.len() <= 65535).map(|c| gen::frame(t, c));
    let desc = match &c {
        Some(c) => format!("{} of {} bytes", t as char, c.len()),
        None => format!("{} with a key that is too long", t as char),
    };
    let input = exp.clone().unwrap_or_default();
    ctx.set_input(desc.as_bytes());
    let mut out = vec![];
    let res = m.encode(&mut out);
    let near = c.as_ref().is_none_or(|c| by_key || c.len() > 65235);
    let mut h = desc.clone().into_bytes();
    h.extend_from_slice(&case.to_le_bytes());
    ctx.eval(util::hash(&h), near);
    if c.as_ref().is_some_and(|c| c.len() > 65536 && c.len() % 65536 < 100) || c.is_none() {
        ctx.c("wrapping");
    }
    match (&exp, res) {
        (Some(e), Ok(())) => {
            if *e != out {
                return ctx.violate(
                    "contents",
                    format!("{desc}: {}", diff(&util::hex(&e[..e.len().min(300)]), &util::hex(&out[..out.len().min(300)]))),
                    &input,
                );
            }
            if e.len() == 65535 + 3 {
                ctx.c("accepted-at-limit:message");
            }
            if by_key && e[3 + usize::from(t == b'M' || t == b'Q')] == 255 {
                ctx.c("accepted-at-limit:key");
            }
        }
        (Some(_), Err(e)) => return ctx.violate("refused", format!("{desc} refused: {e}"), &input),
        (None, Ok(())) => {
            return ctx.violate(
                if c.is_none() { "oversized-key" } else { "oversized-message" },
                format!("{desc} was encoded: {} bytes starting {}", out.len(), util::hex(&out[..out.len().min(40)])),
                &input,
            )
        }
        (None, Err(_)) => {
            ctx.c(if c.is_none() { "refused:key" } else { "refused:message" });
            if out.len() >= 2 {
                return ctx.violate("partial", format!("{desc} was refused after writing {} bytes", out.len()), &input);
            }
        }
    }
    // The parts that carry a key refuse it as well.
    if c.is_none() {
        let mut o = vec![];
        let ok = match &m {
            UlogMessage::Info(x) => x.encode(&mut o).is_ok(),
            UlogMessage::MultiInfo(x) => x.encode(&mut o).is_ok(),
            UlogMessage::Parameter(x) => x.encode(&mut o).is_ok(),
            UlogMessage::DefaultParameter(x) => x.encode(&mut o).is_ok(),
            _ => false,
        };
        if ok {
            return ctx.violate("oversized-key", format!("{desc} was encoded as contents"), &input);
        }
    }
    ctx.sample(|| desc.clone());
}
