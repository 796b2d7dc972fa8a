//! C33 errors name their cause.
use crate::ctx::Ctx;
use crate::drive::{self, FULL};
use crate::gen::{self, frame, Cfg, Exp, Gen};
use crate::model::*;
use crate::rng::Rng;
use crate::runner::Prop;
use crate::util;
use std::error::Error;
use std::io::{self, Read, Write};
use yule_log::encode::Encode;
use yule_log::errors::ULogError;
use yule_log::model::msg::{Subscription, UlogMessage};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C33",
        quick: 1_000_000,
        thorough: 30_000_000,
        case: c33,
        rule: "one fault of a known kind in an otherwise well-formed log, lookup, source, sink or declared schema; the error that comes back is compared with it in kind, in what it carries and in what it says; at least one error",
        need: if cfg!(feature = "mapped") {
            &[
                "text", "undefined", "undefined nested", "undefined in a key", "parameter type", "no timestamp", "too short", "level", "malformed", "unknown id",
                "header", "cut", "incompat", "source custom", "source os", "source plain", "sink", "too long", "lookups", "no field", "no field of many", "no nested field", "type",
                "misuse", "derived source",
            ]
        } else {
            &["text", "undefined", "too short", "header", "cut", "incompat", "source custom", "sink", "lookups"]
        },
    }]
}

/// What the error must be.
#[derive(Clone, Debug, Default)]
struct Want {
    kinds: &'static [&'static str],
    /// What it carries: the text that is not UTF-8, or the name.
    bytes: Option<Vec<u8>>,
    /// Words that it must say.
    words: Vec<String>,
    /// Words that it must not say.
    not: Vec<String>,
}
const SYNTAX: &[&str] = &["ParseError", "UnexpectedEndOfFile"];

fn kind(e: &ULogError) -> String {
    crate::canon::err(e).split('(').next().unwrap_or_default().to_string()
}
fn words(s: &str) -> Vec<&str> {
    s.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| !w.is_empty()).collect()
}
fn judge(e: &ULogError, w: &Want) -> Result<(), (String, String)> {
    let k = kind(e);
    let fail = |sig: &str, d: String| Err((sig.to_string(), d));
    if !w.kinds.contains(&k.as_str()) {
        return fail(&format!("kind:{}->{k}", w.kinds.join("|")), format!("expected {} but got {e:?}", w.kinds.join(" or ")));
    }
    let shown = e.to_string();
    if words(&shown).is_empty() || format!("{e:?}").is_empty() {
        return fail(&format!("silent:{k}"), format!("{e:?} is shown as {shown:?}"));
    }
    let carried: Option<Vec<u8>> = match e {
        ULogError::Utf8(x) => Some(x.as_bytes().to_vec()),
        ULogError::UndefinedFormat(x) | ULogError::UnknownParameterType(x) => Some(x.clone().into_bytes()),
        ULogError::UndefinedSubscription(x) => Some(x.to_string().into_bytes()),
        _ => None,
    };
    if let (Some(b), Some(c)) = (&w.bytes, &carried) {
        let found = if k == "UnknownParameterType" { c.windows(b.len().max(1)).any(|x| x == &b[..]) } else { b == c };
        if !found {
            return fail(&format!("carries:{k}"), format!("{e:?} instead of {:?}", String::from_utf8_lossy(b)));
        }
    }
    if let ULogError::UndefinedFormat(x) = e {
        if !shown.contains(x.as_str()) {
            return fail("shown:UndefinedFormat", format!("{e:?} is shown as {shown:?}"));
        }
    }
    let said = words(&shown);
    if let Some(x) = w.words.iter().find(|x| !said.contains(&x.as_str())) {
        return fail(&format!("says:{k}"), format!("{shown:?} does not say {x}"));
    }
    if let Some(x) = w.not.iter().find(|x| said.contains(&x.as_str())) {
        return fail(&format!("says:{k}"), format!("{shown:?} says {x}"));
    }
    // The cause beneath, where there is one.
    match e {
        ULogError::Utf8(x) => {
            let s = e.source().and_then(|s| s.downcast_ref::<std::string::FromUtf8Error>());
            if s != Some(x) || !shown.contains(&x.to_string()) {
                return fail("source:Utf8", format!("{e:?} is shown as {shown:?}, source {s:?}"));
            }
        }
        ULogError::Io(x) => {
            let s = e.source().and_then(|s| s.downcast_ref::<io::Error>());
            if s.map(|s| s.kind()) != Some(x.kind()) || !shown.contains(&x.to_string()) {
                return fail("source:Io", format!("{e:?} is shown as {shown:?}, source {s:?}"));
            }
        }
        _ => {}
    }
    Ok(())
}

// ---- one fault at a time ---------------------------------------------------------------------------------

fn unutf8(r: &mut Rng, max: usize) -> Vec<u8> {
    let mut v = gen::text(r, max).into_bytes();
    v.truncate(max - 4);
    let x: &[u8] = r.pick(&[&b"\xff"[..], b"\xc0\x80", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\xfe"]);
    let at = r.below(v.len() + 1);
    v.splice(at..at, x.iter().copied());
    v
}
fn kv(t: u8, key: &[u8], val: &[u8]) -> Vec<u8> {
    let mut p = match t {
        b'M' => vec![0],
        b'Q' => vec![3],
        _ => vec![],
    };
    p.push(key.len() as u8);
    p.extend_from_slice(key);
    p.extend_from_slice(val);
    p
}
/// Puts a fault, and the definitions it takes, at the end of the log.
fn fault(g: &mut Gen, n: usize, ctx: &mut Ctx) -> (usize, Want) {
    let ok = |g: &mut Gen, t: u8, p: &[u8]| g.push("setup", frame(t, p), Exp::M(CMsg::Ignored(0)));
    let name = format!("zz_err{n}_{}", g.r.below(1000));
    let id = 60_000 + n as u16;
    let idb = id.to_le_bytes();
    let (what, t, p, w): (&'static str, u8, Vec<u8>, Want) = loop {
        break match g.r.below(10) {
            0 => {
                let mut t = *g.r.pick(b"ALCIMPQF");
                if t == b'F' && g.in_data {
                    t = b'I';
                }
                let x = unutf8(g.r, 200);
                let mut p = match t {
                    b'A' => vec![0, idb[0], idb[1]],
                    b'L' => [&b"4"[..], &g.r.bytes(8)].concat(),
                    b'C' => [&b"4"[..], &g.r.bytes(10)].concat(),
                    b'F' => vec![],
                    _ => kv(t, &x, &[0; 8]),
                };
                if b"ALCF".contains(&t) {
                    p.extend_from_slice(&x);
                }
                ("text", t, p, Want { kinds: &["Utf8"], bytes: Some(x), ..Want::default() })
            }
            1 => {
                let x = match g.r.below(4) {
                    0 => String::new(),
                    1 => format!("{name} "),
                    2 => format!("{}\u{e9}", name),
                    _ => name,
                };
                let p = [&[g.r.u8(), idb[0], idb[1]], x.as_bytes()].concat();
                ("undefined", b'A', p, Want { kinds: &["UndefinedFormat"], bytes: Some(x.into_bytes()), ..Want::default() })
            }
            2 if g.in_data => continue,
            2 => {
                // A format of a format that is not defined, one level down or two, and data of it. The subscription ends the definitions.
                let missing = format!("{name}_none");
                let arr = *g.r.pick(&["", "[1]", "[3]"]);
                let top = if g.r.flip() {
                    ok(g, b'F', format!("{name}_mid:uint8_t a;{missing}{arr} inner;").as_bytes());
                    format!("{name}:uint64_t timestamp;{name}_mid mid;")
                } else {
                    format!("{name}:uint64_t timestamp;{missing}{arr} inner;uint8_t after;")
                };
                ok(g, b'F', top.as_bytes());
                ok(g, b'A', &[&[0, idb[0], idb[1]], name.as_bytes()].concat());
                g.in_data = true;
                let p = [&idb[..], &g.r.bytes(40)].concat();
                ("undefined nested", b'D', p, Want { kinds: &["UndefinedFormat"], bytes: Some(missing.into_bytes()), ..Want::default() })
            }
            3 => {
                let t = *g.r.pick(b"IM");
                let arr = *g.r.pick(&["", "[1]", "[2]"]);
                let p = kv(t, format!("{name}{arr} key").as_bytes(), &[1; 16]);
                ("undefined in a key", t, p, Want { kinds: &["UndefinedFormat"], bytes: Some(name.into_bytes()), ..Want::default() })
            }
            4 => {
                let t = *g.r.pick(b"PQ");
                let ty = *g.r.pick(&["uint32_t", "double", "bool", "char", "int8_t", "uint64_t", "int32_t[1]", "float[2]", "char[3]", "int16_t"]);
                let p = kv(t, format!("{ty} {name}").as_bytes(), &[0; 16]);
                ("parameter type", t, p, Want { kinds: &["UnknownParameterType"], bytes: Some(name.into_bytes()), ..Want::default() })
            }
            5 if g.in_data => continue,
            5 => {
                let (f, n): (&str, usize) = *g.r.pick(&[
                    ("", 0),
                    ("uint8_t x;", 1),
                    ("uint32_t timestamp;uint8_t x;", 5),
                    ("int64_t timestamp;", 8),
                    ("uint64_t[1] timestamp;", 8),
                    ("double timestamp;", 8),
                    ("uint64_t timestamps;uint64_t time;", 16),
                    ("uint8_t a;uint64_t Timestamp;", 9),
                ]);
                ok(g, b'F', format!("{name}:{f}").as_bytes());
                ok(g, b'A', &[&[0, idb[0], idb[1]], name.as_bytes()].concat());
                g.in_data = true;
                let p = [&idb[..], &g.r.bytes(n)].concat();
                ("no timestamp", b'D', p, Want { kinds: &["MissingTimestamp"], ..Want::default() })
            }
            6 => {
                let t = if g.in_data { *g.r.pick(b"ALCOIMPQDR") } else { *g.r.pick(b"ALCOIMPQB") };
                let p = match t {
                    b'A' | b'L' | b'C' | b'O' | b'D' | b'R' => {
                        let n = g.r.below(match t {
                            b'A' => 3,
                            b'L' => 9,
                            b'C' => 11,
                            _ => 2,
                        });
                        let mut p = g.r.bytes(n);
                        if let (b'L' | b'C', Some(x)) = (t, p.first_mut()) {
                            *x = b'0' + *x % 8;
                        }
                        p
                    }
                    b'B' => vec![0; g.r.below(40)],
                    _ => {
                        let ty = if b"PQ".contains(&t) { *g.r.pick(&["int32_t", "float"]) } else { *g.r.pick(&["uint32_t", "int64_t[3]", "double", "char[9]"]) };
                        let p = kv(t, format!("{ty} {name}").as_bytes(), &[1; 3]);
                        let cut = g.r.below(p.len() - 3);
                        if g.r.flip() {
                            p
                        } else {
                            p[..cut].to_vec()
                        }
                    }
                };
                ("too short", t, p, Want { kinds: &["ParseError"], ..Want::default() })
            }
            7 => {
                let t = *g.r.pick(b"LC");
                let lvl = *g.r.pick(&[0u8, 7, b'8', b'/', b'9', b'a', 255, b':']);
                let p = [&[lvl], &g.r.bytes(10)[..], b"text"].concat();
                ("level", t, p, Want { kinds: &["ParseError"], ..Want::default() })
            }
            8 => {
                let tail = *g.r.pick(&[
                    "uint8_t", "uint8_t[ x", "uint8_t[] x", "uint8_t[4 x", "uint8_t[-1] y", "uint8_t[99999999999999999999999999] x", "?", "[4] x", ":",
                    "uint8_t:x", "uint8_t[3", "", "uint8_t 4",
                ]);
                if g.in_data || g.r.flip() {
                    let t = *g.r.pick(b"IMPQ");
                    ("malformed", t, kv(t, tail.as_bytes(), &[0; 30]), Want { kinds: SYNTAX, ..Want::default() })
                } else {
                    ("malformed", b'F', format!("{name}:uint64_t timestamp;{tail};").into_bytes(), Want { kinds: SYNTAX, ..Want::default() })
                }
            }
            _ if !g.in_data => continue,
            _ => {
                let x = loop {
                    let x = if g.r.flip() { g.r.below(300) as u16 } else { g.r.u16() };
                    if !g.subs.contains_key(&x) && !(60_000..61_000).contains(&x) {
                        break x;
                    }
                };
                let k = g.r.below(30);
                let p = [&x.to_le_bytes()[..], &g.r.bytes(k)].concat();
                let b = Some(x.to_string().into_bytes());
                ("unknown id", b'D', p, Want { kinds: &["ParseError", "UndefinedSubscription"], words: vec![x.to_string()], bytes: b, ..Want::default() })
            }
        };
    };
    ctx.c(what);
    g.push(what, frame(t, &p), Exp::E);
    (g.msgs.len() - 1, w)
}
/// A log with faults here and there, and what each must give.
fn faulty(r: &mut Rng, ctx: &mut Ctx) -> (Vec<u8>, Vec<Option<Want>>) {
    let cfg = Cfg::small(r);
    let body = r.range(1, 8);
    let mut g = Gen::new(r, Cfg { big: false, removal: false, ..cfg });
    let mut at = vec![];
    g.header();
    let n = g.cfg.formats;
    g.make_formats(n);
    for name in g.order.clone() {
        if g.r.chance(1, 3) && !g.in_data {
            at.push(fault(&mut g, at.len(), ctx));
        }
        if g.in_data {
            break;
        }
        g.format(&name);
    }
    if !g.in_data && g.order.iter().all(|n| g.fmts.contains_key(n)) && !g.topics.is_empty() && g.r.chance(3, 4) {
        g.random_sub();
    }
    for _ in 0..body {
        at.push(fault(&mut g, at.len(), ctx));
        if g.r.chance(1, 3) {
            g.neutral();
        }
    }
    let log = g.log();
    let mut wants = vec![None; log.msgs.len()];
    for (i, w) in at {
        wants[i] = Some(w);
    }
    (log.bytes(), wants)
}

// ---- sources and sinks -----------------------------------------------------------------------------------

#[derive(Debug, PartialEq, Clone)]
struct Probe(u64);
impl std::fmt::Display for Probe {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "probe {:x}", self.0)
    }
}
impl Error for Probe {}
#[derive(Clone, Debug)]
enum Cause {
    Custom(io::ErrorKind, Probe),
    Os(i32),
    Plain(io::ErrorKind),
}
impl Cause {
    fn random(r: &mut Rng, ctx: &mut Ctx, sink: bool) -> Cause {
        let (name, c) = match r.below(3) {
            0 => ("custom", Cause::Custom(*r.pick(drive::KINDS), Probe(r.u64()))),
            1 => ("os", Cause::Os(*r.pick(&[1, 5, 9, 12, 13, 22, 27, 28, 32, 104, 110, 122]))),
            _ => ("plain", Cause::Plain(*r.pick(drive::KINDS))),
        };
        ctx.c(&if sink { "sink".to_string() } else { format!("source {name}") });
        c
    }
    fn make(&self) -> io::Error {
        match self {
            Cause::Custom(k, p) => io::Error::new(*k, p.clone()),
            Cause::Os(n) => io::Error::from_raw_os_error(*n),
            Cause::Plain(k) => io::Error::from(*k),
        }
    }
    fn is(&self, e: &io::Error) -> bool {
        let m = self.make();
        let p = |e: &io::Error| e.get_ref().and_then(|x| x.downcast_ref::<Probe>()).cloned();
        m.kind() == e.kind() && m.raw_os_error() == e.raw_os_error() && p(&m) == p(e) && m.to_string() == e.to_string()
    }
}
struct Broken<'a> {
    data: &'a [u8],
    cause: &'a Cause,
}
impl Read for Broken<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.data.is_empty() && !buf.is_empty() {
            return Err(self.cause.make());
        }
        self.data.read(buf)
    }
}
struct Full<'a> {
    room: usize,
    cause: &'a Cause,
}
impl Write for Full<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.room == 0 && !buf.is_empty() {
            return Err(self.cause.make());
        }
        let n = self.room.min(buf.len());
        self.room -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ---- cases -----------------------------------------------------------------------------------------------

fn c33(ctx: &mut Ctx, r: &mut Rng, _case: u64) {
    match r.below(12) {
        0..=4 => faults(ctx, r),
        5 => ends(ctx, r),
        6 => sources(ctx, r),
        7 => sinks(ctx, r),
        8 => lookups(ctx, r),
        #[cfg(feature = "mapped")]
        _ => derived::case(ctx, r),
        #[cfg(not(feature = "mapped"))]
        _ => faults(ctx, r),
    }
}
fn faults(ctx: &mut Ctx, r: &mut Rng) {
    let (b, wants) = faulty(r, ctx);
    ctx.set_input(&b);
    let items = match drive::items(&b[..], &FULL, drive::item_bound(&b)) {
        Ok(v) => v,
        Err(n) => return ctx.violate("endless", format!("more than {n} items"), &b),
    };
    if items.len() != wants.len() {
        return ctx.violate("count", format!("{} items for {} messages", items.len(), wants.len()), &b);
    }
    for (i, (x, w)) in items.iter().zip(&wants).enumerate() {
        match (x, w) {
            (Ok(_), None) => {}
            (Err(e), Some(w)) => {
                if let Err((s, d)) = judge(e, w) {
                    return ctx.violate(&s, format!("item {i}: {d}"), &b);
                }
            }
            (Err(e), None) => return ctx.violate(&format!("uncalled-for:{}", kind(e)), format!("item {i}: {e:?} for a well-formed message"), &b),
            (Ok(m), Some(w)) => return ctx.violate("accepted", format!("item {i}: {} instead of {w:?}", util::clip(&format!("{m:?}"), 200)), &b),
        }
    }
    ctx.eval(util::hash(&b), true);
    ctx.sample(|| format!("{:?}", items.iter().filter_map(|x| x.as_ref().err()).map(|e| e.to_string()).collect::<Vec<_>>()));
}
/// Logs that end, or must not be read on.
fn ends(ctx: &mut Ctx, r: &mut Rng) {
    let log = gen::small_log(r);
    let b = log.bytes();
    let (what, b, w): (_, Vec<u8>, Want) = match r.below(3) {
        0 => {
            let mut h = b;
            if r.flip() {
                h.truncate(r.below(16));
            } else {
                let at = r.below(7);
                h[at] ^= 1 << r.below(8);
            }
            ("header", h, Want { kinds: &["InvalidHeader"], ..Want::default() })
        }
        1 => {
            // Inside the body of a message, or its type.
            let st = log.starts();
            let k = r.range(1, st.len().max(2) - 1).min(st.len() - 1);
            if k == 0 {
                return;
            }
            let end = st.get(k + 1).copied().unwrap_or(b.len());
            if end < st[k] + 4 {
                return;
            }
            let at = r.range(st[k] + 3, end - 1);
            ("cut", b[..at].to_vec(), Want { kinds: &["UnexpectedEndOfFile"], ..Want::default() })
        }
        _ => {
            let mut f = [0u8; 40];
            let bit = r.range(1, 63);
            f[8 + bit / 8] |= 1 << (bit % 8);
            if r.flip() {
                f[8] |= 1;
                f[16..24].copy_from_slice(&100u64.to_le_bytes());
            }
            ("incompat", [&b[..16], &frame(b'B', &f), &b[16..]].concat(), Want { kinds: &["UnknownIncompatBits"], ..Want::default() })
        }
    };
    ctx.c(what);
    ctx.set_input(&b);
    let Ok(items) = drive::items(&b[..], &FULL, drive::item_bound(&b)) else { return ctx.violate("endless", "endless".into(), &b) };
    // A log without a header has nothing else that could be told.
    match if what == "header" { items.first() } else { items.last() } {
        Some(Err(e)) => {
            if let Err((s, d)) = judge(e, &w) {
                return ctx.violate(&format!("{what}:{s}"), d, &b);
            }
        }
        x => return ctx.violate(&format!("{what}:none"), format!("the last item is {}", util::clip(&format!("{x:?}"), 200)), &b),
    }
    ctx.eval(util::hash(&b), true);
}
fn sources(ctx: &mut Ctx, r: &mut Rng) {
    let b = gen::small_log(r).bytes();
    let at = r.range(16, b.len());
    let b = &b[..at];
    ctx.set_input(b);
    let cause = Cause::random(r, ctx, false);
    let Ok(items) = drive::items(Broken { data: b, cause: &cause }, &FULL, drive::item_bound(b)) else {
        return ctx.violate("endless", "endless".into(), b);
    };
    match items.last() {
        Some(Err(e)) => {
            if let Err((s, d)) = judge(e, &Want { kinds: &["Io"], ..Want::default() }) {
                return ctx.violate(&format!("source:{s}"), d, b);
            }
            if !matches!(e, ULogError::Io(x) if cause.is(x)) {
                return ctx.violate("source:another", format!("{e:?} for {cause:?}"), b);
            }
        }
        x => return ctx.violate("source:none", format!("the last item is {} after {cause:?}", util::clip(&format!("{x:?}"), 200)), b),
    }
    ctx.eval(util::hash(b), true);
}
fn sinks(ctx: &mut Ctx, r: &mut Rng) {
    let b = gen::small_log(r).bytes();
    ctx.set_input(&b);
    let cause = Cause::random(r, ctx, true);
    let Ok(items) = drive::items(&b[..], &FULL, drive::item_bound(&b)) else { return ctx.violate("endless", "endless".into(), &b) };
    for m in items.iter().flatten() {
        let mut v = vec![];
        if m.encode(&mut v).is_err() || v.is_empty() {
            continue;
        }
        let room = r.below(v.len());
        match m.encode(&mut Full { room, cause: &cause }) {
            Err(e) if cause.is(&e) => {}
            x => return ctx.violate("sink:another", format!("{x:?} for {cause:?}"), &b),
        }
    }
    // And what cannot be written at all is the message's fault.
    let long = r.range(65_533, 70_000);
    let m = UlogMessage::AddSubscription(Subscription { multi_id: 0, msg_id: r.u16(), message_name: "n".repeat(long) });
    ctx.c("too long");
    match m.encode(&mut vec![]) {
        Err(e) if e.kind() == io::ErrorKind::InvalidInput && !e.to_string().is_empty() => {}
        x => return ctx.violate("too-long:another", format!("{x:?} for a message of {long} bytes"), &b),
    }
    ctx.eval(util::hash(&b), true);
}
fn lookups(ctx: &mut Ctx, r: &mut Rng) {
    let b = gen::small_log(r).bytes();
    ctx.set_input(&b);
    ctx.c("lookups");
    let mut p = drive::parser(&b[..], &FULL);
    let upto = r.below(30);
    for _ in 0..upto {
        if p.next().is_none() {
            break;
        }
    }
    let name = match r.below(4) {
        0 => String::new(),
        1 => p.formats.keys().next().map(|k| format!("{k}0")).unwrap_or_default(),
        2 => gen::text(r, 40),
        _ => gen::message_name(r, true),
    };
    if !p.formats.contains_key(name.as_str()) {
        match p.get_format(&name) {
            Err(e) => {
                if let Err((s, d)) = judge(&e, &Want { kinds: &["UndefinedFormat"], bytes: Some(name.clone().into_bytes()), ..Want::default() }) {
                    return ctx.violate(&format!("format:{s}"), d, &b);
                }
            }
            Ok(f) => return ctx.violate("format:found", format!("{name:?} gives {f:?}"), &b),
        }
    }
    let id = if r.flip() { r.u16() } else { r.below(10) as u16 };
    if let Err(e) = p.get_subscription(id) {
        let w = Want { kinds: &["UndefinedSubscription"], bytes: Some(id.to_string().into_bytes()), words: vec![id.to_string()], ..Want::default() };
        if let Err((s, d)) = judge(&e, &w) {
            return ctx.violate(&format!("subscription:{s}"), d, &b);
        }
    }
    ctx.eval(util::hash(&b) ^ util::hash(name.as_bytes()), true);
}

#[cfg(feature = "mapped")]
mod derived {
    use super::super::mapping::{hand, misuse, open, specs, Boxed, Spec, Way, K};
    use super::*;
    use crate::drive::parser;

    fn ty_of(k: &K) -> String {
        match k {
            K::P(p) => p.text().to_string(),
            K::A(p) => format!("{}[2]", p.text()),
            K::S(s) => s.sub.to_string(),
            K::AS(s) => format!("{}[1]", s.sub),
        }
    }
    /// A type that is not that one.
    fn other_ty(r: &mut Rng, k: &K) -> String {
        loop {
            let p = *r.pick(&PRIMS);
            let t = if r.flip() { p.text().to_string() } else { format!("{}[2]", p.text()) };
            let same = match k {
                K::P(q) => t == q.text(),
                K::A(q) => t.starts_with(q.text()) && t.contains('['),
                _ => false,
            };
            if !same {
                return t;
            }
        }
    }
    fn define(s: &Spec, r: &mut Rng, drop: &[&str], wrong: Option<&str>) -> Vec<u8> {
        let mut fs: Vec<String> = vec!["uint8_t spare;".into()];
        for (n, k, opt) in s.fields {
            if !drop.contains(n) && (!*opt || wrong == Some(*n) || (r.flip() && *n != "_padding0")) {
                let t = if wrong == Some(*n) { other_ty(r, k) } else { ty_of(k) };
                fs.push(format!("{t} {n};"));
            }
        }
        if r.flip() {
            r.shuffle(&mut fs);
        }
        format!("{}:{}", s.sub, fs.concat()).into_bytes()
    }
    fn subs_of(s: &Spec) -> Vec<&'static Spec> {
        s.fields.iter().filter_map(|(_, k, _)| match k { K::S(x) | K::AS(x) => Some(*x), _ => None }).collect()
    }
    fn required(s: &Spec) -> Vec<&'static str> {
        s.fields.iter().filter(|f| !f.2).map(|f| f.0).collect()
    }
    fn first_error(s: Boxed) -> Option<ULogError> {
        s.take(50).find_map(Result::err)
    }

    #[derive(yule_log::ULogData)]
    #[allow(dead_code)]
    struct Wide {
        timestamp: u64,
        alpha: u8,
        beta: f32,
        gamma: Vec<i16>,
        delta: f64,
        epsilon: bool,
        zeta: u32,
        eta: Option<u8>,
        theta: i8,
        #[yule_log(field_name = "iota2")]
        iota: i64,
        kappa: Vec<f32>,
        lambda: u16,
    }
    #[derive(yule_log::ULogMessages)]
    #[allow(dead_code)]
    enum Wides {
        Wide(Wide),
    }
    /// Many fields, any of which may be missing.
    fn wide(ctx: &mut Ctx, r: &mut Rng) {
        let all = ["timestamp", "alpha", "beta", "gamma", "delta", "epsilon", "zeta", "theta", "iota2", "kappa", "lambda"];
        let types = ["uint64_t", "uint8_t", "float", "int16_t[3]", "double", "bool", "uint32_t", "int8_t", "int64_t", "float[2]", "uint16_t"];
        let mut fs: Vec<usize> = (0..all.len()).collect();
        r.shuffle(&mut fs);
        let cut = r.range(1, all.len());
        let (gone, left) = fs.split_at(cut);
        let text: String = left.iter().map(|i| format!("{} {};", types[*i], all[*i])).collect();
        let mut b = gen::header_bytes(1, 0);
        b.extend(frame(b'F', format!("wide:{text}").as_bytes()));
        b.extend(frame(b'A', b"\0\x07\0wide"));
        ctx.set_input(&b);
        ctx.c("no field of many");
        let words = gone.iter().map(|i| all[*i].to_string()).chain(["wide".to_string()]).collect();
        let want = Want { kinds: &["InvalidFieldName"], words, not: left.iter().map(|i| all[*i].to_string()).collect(), ..Want::default() };
        match Wides::stream(&b[..]).expect("library: stream() failed").find_map(Result::err) {
            Some(e) => {
                if let Err((sig, d)) = judge(&e, &want) {
                    return ctx.violate(&format!("wide:{sig}"), d, &b);
                }
            }
            None => return ctx.violate("wide:accepted", "maps without an error".into(), &b),
        }
        ctx.eval(util::hash(&b), true);
    }

    pub fn case(ctx: &mut Ctx, r: &mut Rng) {
        if r.chance(1, 6) {
            return wide(ctx, r);
        }
        let w = Way { which: r.below(4), builder: r.flip(), fwd: false, extra: vec![] };
        let (sp, _) = specs(&w);
        let k = r.below(sp.len());
        let s = sp[k];
        let mut b = gen::header_bytes(1, 0);
        let mut nested = subs_of(s);
        nested.dedup_by_key(|x| x.sub);
        let (what, want): (&'static str, Want) = match r.below(6) {
            0 | 1 => {
                // The schema lacks fields that are required.
                for n in &nested {
                    b.extend(frame(b'F', &define(n, r, &[], None)));
                }
                let mut req = required(s);
                r.shuffle(&mut req);
                let cut = r.range(1, req.len());
                let (gone, left) = req.split_at(cut);
                b.extend(frame(b'F', &define(s, r, gone, None)));
                let words = gone.iter().map(|x| x.to_string()).chain([s.sub.to_string()]).collect();
                ("no field", Want { kinds: &["InvalidFieldName"], words, not: left.iter().map(|x| x.to_string()).filter(|x| x != s.sub).collect(), ..Want::default() })
            }
            2 if !nested.is_empty() => {
                let n = *r.pick(&nested);
                let mut req = required(n);
                r.shuffle(&mut req);
                let cut = r.range(1, req.len());
                let (gone, left) = req.split_at(cut);
                b.extend(frame(b'F', &define(n, r, gone, None)));
                // Every field is there, so that the nested one is.
                let fs: String = s.fields.iter().filter(|f| f.0 != "_padding0").map(|(n, k, _)| format!("{} {n};", ty_of(k))).collect();
                b.extend(frame(b'F', format!("{}:{fs}", s.sub).as_bytes()));
                let words = gone.iter().map(|x| x.to_string()).chain([n.sub.to_string()]).collect();
                ("no nested field", Want { kinds: &["InvalidFieldName"], words, not: left.iter().map(|x| x.to_string()).filter(|x| x != n.sub).collect(), ..Want::default() })
            }
            2 | 3 => {
                for n in &nested {
                    b.extend(frame(b'F', &define(n, r, &[], None)));
                }
                let fs: Vec<&str> = s.fields.iter().map(|f| f.0).filter(|n| *n != "timestamp" && *n != "_padding0").collect();
                if fs.is_empty() {
                    return;
                }
                b.extend(frame(b'F', &define(s, r, &[], Some(r.clone().pick(&fs)))));
                ("type", Want { kinds: &["TypeMismatch"], ..Want::default() })
            }
            4 => {
                ctx.c("misuse");
                for e in misuse(r.flip()) {
                    match e {
                        Some(e) => {
                            if let Err((s, d)) = judge(&e, &Want { kinds: &["InvalidConfiguration"], ..Want::default() }) {
                                return ctx.violate(&format!("misuse:{s}"), d, &[]);
                            }
                        }
                        None => return ctx.violate("misuse:accepted", "extra subscriptions without a catch-all".into(), &[]),
                    }
                }
                return ctx.eval(r.u64(), true);
            }
            _ => {
                let log = gen::small_log(r).bytes();
                let at = r.range(16, log.len());
                ctx.set_input(&log);
                let cause = Cause::random(r, ctx, false);
                ctx.c("derived source");
                let e = open(Broken { data: &log[..at], cause: &cause }, &w).take(drive::item_bound(&log)).filter_map(Result::err).last();
                if !matches!(&e, Some(ULogError::Io(x)) if cause.is(x)) {
                    return ctx.violate("derived-source:another", format!("{e:?} for {cause:?}"), &log[..at]);
                }
                return ctx.eval(util::hash(&log[..at]), true);
            }
        };
        b.extend(frame(b'A', &[&[s.multi, 7, 0], s.sub.as_bytes()].concat()));
        let data: Vec<u8> = [&[7u8, 0][..], &[1; 600]].concat();
        b.extend(frame(b'D', &data));
        ctx.c(what);
        ctx.set_input(&b);
        let streamed = first_error(open(&b[..], &w));
        let Some(e) = streamed else { return ctx.violate(&format!("{what}:accepted"), format!("{} maps without an error", s.sub), &b) };
        if let Err((sig, d)) = judge(&e, &want) {
            return ctx.violate(&format!("{what}:{sig}"), d, &b);
        }
        // By hand: the same.
        let mut p = parser(&b[..], &drive::FULL);
        let mut last = None;
        while let Some(x) = p.next() {
            if let Ok(UlogMessage::LoggedData(d)) = x {
                last = Some(d);
            }
        }
        if let (Ok(f), Some(d)) = (p.get_format(s.sub), last) {
            let e = match hand(w.which, k, &f) {
                Err(e) => Some(e),
                Ok(h) => h(&d.data).err(),
            };
            match e {
                None => return ctx.violate(&format!("{what}:accepted-by-hand"), format!("{} maps without an error", s.sub), &b),
                Some(e) => {
                    if let Err((sig, d)) = judge(&e, &want) {
                        return ctx.violate(&format!("{what}:by-hand:{sig}"), d, &b);
                    }
                }
            }
        }
        ctx.eval(util::hash(&b), true);
        ctx.sample(|| e.to_string());
    }
}
