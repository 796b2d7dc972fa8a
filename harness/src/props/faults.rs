//! C07 truncation, C08 source behaviour and failures, C12 appended data, C13 refusal.
use super::*;
use crate::canon;
use crate::ctx::Ctx;
use crate::drive::{self, Chunky, Failing, Opts, FULL, KINDS};
use crate::gen::{self, frame, header_bytes, Cfg, Exp, Gen, MAGIC};
use crate::rng::Rng;
use crate::runner::Prop;
use crate::util;
use std::io::{self, Read};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            quick: 4_000,
            thorough: 80_000,
            case: c07,
            rule: "every cut position of a small generated log (sampled positions of large and sample logs); a cut counts if at least one message is complete before it",
            need: &["cut:header", "cut:between", "cut:message-header", "cut:payload", "sample-log", "exhaustive-logs", "chunked"],
        },
        Prop {
            id: "C08",
            quick: 3_000,
            thorough: 80_000,
            case: c08,
            rule: "log read through random partitions with interruptions, and with a read failure at every position of a small log (sampled for large ones), persistent or recovering, or an end of the source at some position after which it goes on; a failure counts if a message precedes it",
            need: &["chunked", "interrupted", "fail:payload", "fail:boundary", "fail:message-header", "fail:header", "recovering", "persistent", "io-reported", "buffered", "pausing"],
        },
        Prop {
            id: "C12",
            quick: 500_000,
            thorough: 8000_000,
            case: c12,
            rule: "log with flag bits declaring appended data (or not) and offsets at, inside and around messages, followed by valid or garbage bytes; items compared with the description",
            need: &["at-boundary", "in-payload", "in-message-header", "before-flags-end", "beyond-end", "zero-offsets", "not-declared", "tail:garbage", "tail:valid", "second-offset-used"],
        },
        Prop {
            id: "C13",
            quick: 500_000,
            thorough: 8000_000,
            case: c13,
            rule: "log with a mutated magic byte or an unknown incompatibility bit; first error and 60 later items examined (and the log with all known bits as a positive control)",
            need: &["bad-magic", "log-behind-garbage", "bad-bit", "control", "every-bit", "with-appended-bit", "short-header"],
        },
    ]
}

/// Index of the message containing byte `at` of the log and the offset within it.
fn locate(st: &[usize], at: usize) -> (usize, usize) {
    let i = st.partition_point(|&s| s <= at) - 1;
    (i, at - st[i])
}
fn test_log(ctx: &mut Ctx, r: &mut Rng, case: u64) -> (Vec<u8>, Vec<usize>, Vec<Exp>, bool) {
    if case % 25 == 7 {
        let s = samples();
        if !s.is_empty() {
            let (_, b) = s[r.below(s.len())].clone();
            if let Some((e, rd)) = crate::refdec::decode(&b) {
                let ends = rd.ends;
                // A prefix of at most some hundred messages keeps each run cheap.
                let k = r.range(50, 800).min(ends.len());
                let b = b[..ends[k - 1]].to_vec();
                let mut st = vec![0];
                st.extend_from_slice(&ends[..k]);
                ctx.c("sample-log");
                return (b, st, e[..k].to_vec(), false);
            }
        }
    }
    let l = if case % 10 == 3 { gen::log(r) } else { gen::small_log(r) };
    let b = l.bytes();
    let small = b.len() <= 1500;
    (b, l.starts(), l.exps(), small)
}

// ---- C07 ------------------------------------------------------------------------------------------------

fn c07(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let (b, st, exp, small) = test_log(ctx, r, case);
    ctx.set_input(&b);
    let cuts: Vec<usize> = if small {
        ctx.c("exhaustive-logs");
        (0..=b.len()).collect()
    } else {
        let mut v: Vec<usize> = (0..30).map(|_| r.below(b.len() + 1)).collect();
        for _ in 0..10 {
            let i = r.below(st.len());
            v.push((st[i] + r.below(7)).saturating_sub(3).min(b.len()));
        }
        v
    };
    let o = if r.chance(3, 4) { FULL } else { Opts { hdr: r.flip(), ts: r.flip(), pad: r.flip(), allow: None } };
    let pexp = project(&exp, &o);
    let hdr_items = usize::from(o.hdr);
    for cut in cuts {
        let got = if r.chance(1, 8) {
            ctx.c("chunked");
            let f = r.fork();
            drive::items(Chunky::new(&b[..cut], f, 9, true), &o, b.len() + 64).map(|v| drive::canon_all(&v))
        } else {
            drive::run(&b[..cut], &o)
        };
        let got = match got {
            Ok(v) => v,
            Err(n) => return ctx.violate("endless", format!("cut at {cut}: more than {n} items"), &b[..cut]),
        };
        if cut < 16 {
            ctx.c("cut:header");
            ctx.eval(util::hash(&b[..cut]), false);
            if got.iter().any(|i| !i.is_err()) {
                return ctx.violate("message-from-cut-header", format!("cut at {cut}: {}", item_text(&got[0])), &b[..cut]);
            }
            if cut > 0 && got.first().map(|i| i.kind()) != Some("Err:InvalidHeader".into()) {
                return ctx.violate("cut-header-not-reported", format!("cut at {cut}: {got:?}"), &b[..cut]);
            }
            continue;
        }
        let (k, rem) = if cut == b.len() { (exp.len(), 0) } else { locate(&st, cut) };
        // k messages are complete; `rem` bytes of the next one are there.
        let want = &pexp[..(k + hdr_items).saturating_sub(1)];
        ctx.eval(util::hash(&b[..cut]), k >= 2);
        let where_ = match rem {
            0 => "between",
            1..=2 => "message-header",
            _ => "payload",
        };
        ctx.c(&format!("cut:{where_}"));
        let n = got.len().min(want.len());
        if let Some((sig, d)) = compare(want, &got[..n]) {
            return ctx.violate(&format!("{sig}:{where_}"), format!("cut at {cut} ({where_} of message {k}): {d}"), &b[..cut]);
        }
        let rest = &got[n..];
        if rest.iter().any(|i| !i.is_err()) {
            let x = rest.iter().find(|i| !i.is_err()).map(item_text).unwrap_or_default();
            return ctx.violate(
                &format!("invented-message:{where_}"),
                format!("cut at {cut} ({where_} of message {k}): {x}"),
                &b[..cut],
            );
        }
        let (lo, hi) = match rem {
            0 => (0, 0),
            1..=3 => (0, 1),
            _ => (1, 1),
        };
        if rest.len() < lo || rest.len() > hi {
            return ctx.violate(
                &format!("errors-at-cut:{where_}:{}", rest.len()),
                format!("cut at {cut} ({rem} bytes into message {k}): {} errors, expected {lo}..={hi}: {rest:?}", rest.len()),
                &b[..cut],
            );
        }
    }
    ctx.sample(|| format!("{} bytes, {} messages, {}", b.len(), exp.len(), if small { "every cut" } else { "sampled cuts" }));
}

// ---- C08 ------------------------------------------------------------------------------------------------

/// Ends at a position, `times` times, and goes on when asked again.
pub(super) struct Pausing<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub at: usize,
    pub times: usize,
    pub max: usize,
}
impl Read for Pausing<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let stop = if self.times > 0 { self.at } else { self.data.len() };
        let n = buf.len().min(self.max).min(stop - self.pos);
        if n == 0 && !buf.is_empty() {
            self.times = self.times.saturating_sub(1);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
fn c08(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let (b, st, exp, small) = test_log(ctx, r, case);
    ctx.set_input(&b);
    let o = if r.chance(3, 4) { FULL } else { Opts { hdr: r.flip(), ts: r.flip(), pad: r.flip(), allow: None } };
    let pexp = project(&exp, &o);
    let hdr_items = usize::from(o.hdr);
    let bound = drive::item_bound(&b) + 64;
    for k in 0..6 {
        let max = *r.pick(&[1usize, 1, 2, 3, 7, 20, 5000]);
        let intr = r.flip();
        let f = r.fork();
        let mut c = Chunky::new(&b, f, max, intr);
        let got = if k == 0 {
            ctx.c("buffered");
            let cap = r.range(1, 70);
            drive::items(io::BufReader::with_capacity(cap, &mut c), &o, bound)
        } else {
            drive::items(&mut c, &o, bound)
        };
        ctx.c("chunked");
        ctx.n("interrupted", c.interrupted);
        match got {
            Err(n) => return ctx.violate("endless", format!("more than {n} items"), &b),
            Ok(v) => {
                if let Some((sig, d)) = compare(&pexp, &drive::canon_all(&v)) {
                    return ctx.violate(
                        &format!("chunked:{sig}"),
                        format!("reads of at most {max} bytes, interruptions {intr}: {d}"),
                        &b,
                    );
                }
            }
        }
        ctx.eval(util::hash(&[&b[..], &[k, max as u8]].concat()), exp.len() >= 2);
    }
    let ats: Vec<usize> = if small {
        (0..=b.len()).collect()
    } else {
        let mut v: Vec<usize> = (0..20).map(|_| r.below(b.len() + 1)).collect();
        for _ in 0..10 {
            let i = r.below(st.len());
            v.push((st[i] + r.below(7)).saturating_sub(3).min(b.len()));
        }
        v
    };
    // A source that says it is at its end and then goes on: what counts is the end.
    for _ in 0..4 {
        let at = if r.flip() { r.below(b.len() + 1) } else { st[r.below(st.len())] };
        let times = *r.pick(&[1usize, 1, 2, 3]);
        let mut src = Pausing { data: &b, pos: 0, at, times, max: *r.pick(&[1usize, 3, usize::MAX]) };
        let mut got: Vec<CItem> = vec![];
        let mut after = false;
        {
            let mut p = drive::parser(&mut src, &o);
            let mut nones = 0;
            while nones < 8 && got.len() < bound {
                match p.next() {
                    None => nones += 1,
                    Some(x) => {
                        after |= nones > 0;
                        got.push(canon::item(&x));
                    }
                }
            }
        }
        ctx.c("pausing");
        if at < 16 {
            if let Some(m) = got.iter().find(|i| !i.is_err()) {
                return ctx.violate("message-after-short-header", format!("end of the source after {at} bytes, then more: {}", item_text(m)), &b);
            }
            continue;
        }
        match drive::run(&b[..at], &o) {
            Ok(want) if want == got && !after => {}
            Ok(want) => {
                return ctx.violate(
                    "after-the-end",
                    format!("the source ends after {at} bytes ({times} times) and then goes on: {} items instead of {}, the last {:?}", got.len(), want.len(), got.last().map(item_text)),
                    &b,
                )
            }
            Err(n) => return ctx.violate("endless", format!("more than {n} items"), &b),
        }
    }
    for at in ats {
        let kind = *r.pick(KINDS);
        let times = if r.chance(2, 3) { 1 } else { usize::MAX };
        let mut src = Failing { data: &b, pos: 0, at, kind, times, failed: 0, max: *r.pick(&[1usize, 3, usize::MAX]) };
        let mut got: Vec<CItem> = vec![];
        {
            let mut p = drive::parser(&mut src, &o);
            // Keep asking: nothing may come after the failure, whatever the source does.
            let mut nones = 0;
            while nones < 8 && got.len() < bound {
                match p.next() {
                    None => nones += 1,
                    Some(x) => got.push(canon::item(&x)),
                }
            }
        }
        ctx.c(if times == 1 { "recovering" } else { "persistent" });
        if at < 16 {
            ctx.c("fail:header");
            ctx.eval(0, false);
            if let Some(m) = got.iter().find(|i| !i.is_err()) {
                return ctx.violate("message-after-header-failure", format!("failure at {at}: {}", item_text(m)), &b);
            }
            if got.is_empty() {
                return ctx.violate("header-failure-unreported", format!("failure at {at}: nothing reported"), &b);
            }
            continue;
        }
        // A failure at the very end strikes while the next message header is being asked for.
        let (k, rem) = if at == b.len() { (exp.len(), 0) } else { locate(&st, at) };
        let where_ = match rem {
            0 => "boundary",
            1..=2 => "message-header",
            _ => "payload",
        };
        ctx.c(&format!("fail:{where_}"));
        ctx.eval(util::hash(&[&b[..at], &[kind as u8, times as u8]].concat()), k >= 2);
        let want = &pexp[..(k + hdr_items).saturating_sub(1)];
        let n = got.len().min(want.len());
        if let Some((sig, d)) = compare(want, &got[..n]) {
            return ctx.violate(&format!("before-failure:{sig}"), format!("failure at {at} ({where_} of message {k}): {d}"), &b);
        }
        let rest = &got[n..];
        if let Some(m) = rest.iter().find(|i| !i.is_err()) {
            return ctx.violate(
                &format!("message-after-failure:{where_}"),
                format!("failure at {at} ({where_} of message {k}, {kind:?}): {}", item_text(m)),
                &b,
            );
        }
        // A message that needs no byte beyond the failure position is complete before it.
        if rest != [CItem::E(format!("Io({kind:?})"))] {
            return ctx.violate(
                &format!("failure-report:{where_}:{}", rest.len()),
                format!("failure at {at} ({where_} of message {k}) with {kind:?}: reported {rest:?}"),
                &b,
            );
        }
        ctx.c("io-reported");
    }
    ctx.sample(|| {
        format!(
            "{} bytes, {} messages, {}",
            b.len(),
            exp.len(),
            if small { "every failure position" } else { "sampled failure positions" }
        )
    });
}

// ---- C12 ------------------------------------------------------------------------------------------------

fn flags_bytes(compat: u64, incompat: u64, offs: [u64; 3]) -> Vec<u8> {
    let mut p = compat.to_le_bytes().to_vec();
    p.extend_from_slice(&incompat.to_le_bytes());
    for o in offs {
        p.extend_from_slice(&o.to_le_bytes());
    }
    frame(b'B', &p)
}
fn c12(ctx: &mut Ctx, r: &mut Rng, _case: u64) {
    let cfg = Cfg { flags: false, big: false, max_fmt: 100, ..Cfg::small(r) };
    let declared = r.chance(7, 8);
    let mut l = Gen::new(r, cfg).full();
    // The flag bits come right after the header (or, sometimes, later among the definitions).
    let fpos = if r.chance(4, 5) { 1 } else { r.range(1, l.msgs.iter().position(|m| m.what == "A").unwrap_or(1).max(1)) };
    let compat = if r.flip() { 0 } else { r.u64() };
    let zero3 = Exp::M(CMsg::Drop(0));
    l.msgs.insert(fpos, gen::WMsg { bytes: flags_bytes(0, 0, [0; 3]), exp: zero3, what: "B" });
    let st = l.starts();
    let total = *st.last().unwrap();
    let fend = st[fpos + 1];
    // Where interpretation must stop.
    let (limit, place) = match r.below(8) {
        0 | 1 => (st[r.range(fpos + 1, l.msgs.len())], "at-boundary"),
        2 | 3 => {
            let i = r.below(l.msgs.len() - fpos) + fpos;
            let n = l.msgs[i].bytes.len();
            (st[i] + r.range(3.min(n), n), "in-payload")
        }
        4 => {
            let i = r.below(l.msgs.len() - fpos) + fpos;
            (st[i] + r.range(1, 2), "in-message-header")
        }
        5 => (r.range(1, fend), "before-flags-end"),
        6 => (total + *r.pick(&[0usize, 1, 2, 3, 4, 20, usize::MAX / 2]), "beyond-end"),
        _ => (0, "zero-offsets"),
    };
    let late = |r: &mut Rng| {
        if r.flip() {
            0
        } else {
            (limit as u64).saturating_add(r.below(100) as u64)
        }
    };
    let first = limit as u64;
    let offs: [u64; 3] = if limit == 0 {
        [0; 3]
    } else {
        match r.below(4) {
            0 => {
                ctx.c("second-offset-used");
                [0, first, late(r)]
            }
            1 => {
                ctx.c("second-offset-used");
                [0, 0, first]
            }
            _ if limit > 1 && r.chance(1, 3) => {
                // "First" is meant literally, not as the smallest.
                ctx.c("smaller-offset-later");
                [first, r.range(1, limit - 1) as u64, late(r)]
            }
            _ => [first, late(r), late(r)],
        }
    };
    l.msgs[fpos] = gen::WMsg {
        bytes: flags_bytes(compat, u64::from(declared), offs),
        exp: Exp::M(CMsg::Flags { compat: compat.to_le_bytes(), incompat: u64::from(declared).to_le_bytes(), offs }),
        what: "B",
    };
    ctx.c(if declared { place } else { "not-declared" });
    let active = declared && limit != 0;
    // Bytes at and beyond the limit: as they are, garbage, or other valid messages.
    let mut b = l.bytes();
    let tail;
    if active && limit < b.len() && limit >= fend {
        match r.below(3) {
            0 => {
                for x in &mut b[limit..] {
                    *x = r.u8();
                }
                tail = "garbage";
            }
            1 => {
                b.truncate(limit);
                for _ in 0..4 {
                    let m = &l.msgs[r.below(l.msgs.len())];
                    b.extend_from_slice(&m.bytes);
                }
                tail = "valid";
            }
            _ => tail = "original",
        }
    } else if active && limit >= b.len() {
        if (limit as u64) < total as u64 + 100 {
            b.resize(limit, 0);
            b.truncate(total);
            tail = "nothing";
        } else {
            tail = "nothing";
        }
    } else {
        tail = "original";
    }
    ctx.c(&format!("tail:{tail}"));
    ctx.set_input(&b);
    let n = if active { (0..l.msgs.len()).take_while(|&i| i <= fpos || st[i + 1] <= limit).count() } else { l.msgs.len() };
    let exp: Vec<Exp> = l.exps()[..n].to_vec();
    let o = if r.chance(3, 4) { FULL } else { Opts { hdr: r.flip(), ts: r.flip(), pad: r.flip(), allow: None } };
    let pexp = project(&exp, &o);
    let got = if r.chance(1, 5) {
        let f = r.fork();
        drive::items(Chunky::new(&b, f, 8, true), &o, drive::item_bound(&b) + 64).map(|v| drive::canon_all(&v))
    } else {
        drive::run(&b, &o)
    };
    let got = match got {
        Ok(v) => v,
        Err(n) => return ctx.violate("endless", format!("more than {n} items"), &b),
    };
    ctx.eval(util::hash(&b), active);
    let desc = format!("offsets {offs:?} (declared {declared}, {place}, tail {tail}), flag bits end at {fend}, {total} bytes");
    let m = got.len().min(pexp.len());
    if let Some((sig, d)) = compare(&pexp, &got[..m]) {
        return ctx.violate(&format!("{place}:{sig}"), format!("{desc}: {d}"), &b);
    }
    let rest = &got[m..];
    if let Some(x) = rest.iter().find(|i| !i.is_err()) {
        return ctx.violate(&format!("beyond-limit:{place}"), format!("{desc}: message returned: {}", item_text(x)), &b);
    }
    let allowed = usize::from(active && limit > st[n.min(st.len() - 1)] && limit <= total);
    if rest.len() > allowed {
        return ctx.violate(
            &format!("extra-errors:{place}"),
            format!("{desc}: {} errors after the {n} messages: {rest:?}", rest.len()),
            &b,
        );
    }
    ctx.sample(|| format!("{desc}: {n} of {} messages", l.msgs.len()));
}

// ---- C13 ------------------------------------------------------------------------------------------------

/// Keeps a source readable for ever, to see what a parser returns after its error.
struct ThenMore<'a> {
    a: &'a [u8],
    more: &'a [u8],
    pos: usize,
}
impl Read for ThenMore<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if !self.a.is_empty() {
            return self.a.read(buf);
        }
        let n = buf.len().min(self.more.len() - self.pos);
        buf[..n].copy_from_slice(&self.more[self.pos..self.pos + n]);
        self.pos = (self.pos + n) % self.more.len();
        Ok(n)
    }
}
fn c13(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let cfg = Cfg { flags: false, big: false, max_fmt: 60, ..Cfg::small(r) };
    let mut l = Gen::new(r, cfg).full();
    let o = if r.flip() { FULL } else { Opts { hdr: r.flip(), ts: r.flip(), pad: r.flip(), allow: None } };
    let nhdr = usize::from(o.hdr);
    let mode = case % 4;
    if mode == 0 {
        // The file header.
        let mut h = header_bytes(r.u8(), r.u64());
        match r.below(4) {
            0 => {
                h[..7].copy_from_slice(&r.bytes(7));
                if h[..7] == MAGIC {
                    h[0] ^= 1;
                }
            }
            1 => {
                // The header of the file shifted by a few bytes.
                let k = r.range(1, 7);
                h.rotate_left(k);
            }
            2 => h[r.below(7)] ^= 1 << r.below(8),
            _ => {
                let i = r.below(7);
                h[i] = h[i].wrapping_add(r.range(1, 255) as u8);
            }
        }
        ctx.c("bad-magic");
        let mut shift = vec![];
        if r.chance(1, 3) {
            // A complete log behind something else: no place to start either.
            ctx.c("log-behind-garbage");
            shift = match r.below(4) {
                0 => vec![0; 16],
                1 => h.clone(),
                2 => vec![0; 16 * r.range(1, 4)],
                _ => {
                    let n = r.range(1, 70);
                    r.bytes(n)
                }
            };
            if shift[..shift.len().min(7)] == MAGIC[..shift.len().min(7)] {
                shift[0] ^= 1;
            }
        }
        if !shift.is_empty() {
            shift.extend(&l.msgs[0].bytes);
            l.msgs[0].bytes = shift;
        } else if r.chance(1, 6) {
            ctx.c("short-header");
            h.truncate(r.range(1, 15));
            l.msgs.clear();
        } else {
            l.msgs[0].bytes = h.clone();
        }
        let b = if l.msgs.is_empty() { h } else { l.bytes() };
        ctx.set_input(&b);
        let got = collect_after(&b, &o, r, 0);
        ctx.eval(util::hash(&b), b.len() > 16);
        if let Some(m) = got.iter().find(|i| !i.is_err()) {
            return ctx.violate(
                "message-despite-bad-magic",
                format!("{}; header {}", item_text(m), util::hex(&b[..b.len().min(16)])),
                &b,
            );
        }
        match got.first().map(|i| i.kind()) {
            Some(k) if k == "Err:InvalidHeader" || k == "Err:InvalidMagicBits" => {}
            k => {
                ctx.violate("bad-magic-not-refused", format!("first item {k:?}; header {}", util::hex(&b[..b.len().min(16)])), &b)
            }
        }
        return;
    }
    let fpos = if r.chance(3, 4) { 1 } else { r.range(1, l.msgs.iter().position(|m| m.what == "A").unwrap_or(1).max(1)) };
    let compat = r.u64();
    if mode == 1 {
        // Positive control: every compatibility bit and the known incompatibility bit are accepted.
        let inc = r.below(2) as u64;
        let offs = [0; 3];
        let m = gen::WMsg {
            bytes: flags_bytes(compat, inc, offs),
            exp: Exp::M(CMsg::Flags { compat: compat.to_le_bytes(), incompat: inc.to_le_bytes(), offs }),
            what: "B",
        };
        l.msgs.insert(fpos, m);
        let b = l.bytes();
        ctx.set_input(&b);
        ctx.c("control");
        ctx.eval(util::hash(&b), true);
        match drive::run(&b, &o) {
            Err(n) => ctx.violate("endless", format!("more than {n} items"), &b),
            Ok(got) => {
                if let Some((sig, d)) = compare(&project(&l.exps(), &o), &got) {
                    ctx.violate(&format!("control:{sig}"), format!("compat {compat:#x} incompat {inc}: {d}"), &b);
                }
            }
        }
        return;
    }
    // Every unknown bit in turn, then random sets of them.
    let bit = 1 + (case / 4) % 63;
    let mut inc = 1u64 << bit;
    ctx.c("every-bit");
    if mode == 3 && r.flip() {
        inc |= r.u64() & !1;
    }
    if r.flip() {
        inc |= 1;
        ctx.c("with-appended-bit");
    }
    let offs = match r.below(4) {
        0 => [1 << 40, 0, 0],
        1 => [r.below(300) as u64, 0, 0],
        _ => [0; 3],
    };
    let mut fb = flags_bytes(compat, inc, offs);
    if r.chance(1, 6) {
        // Flag bits longer than 40 bytes are still flag bits.
        let n = r.range(1, 20);
        let mut p = fb[3..].to_vec();
        p.extend_from_slice(&r.bytes(n));
        fb = frame(b'B', &p);
    }
    l.msgs.insert(fpos, gen::WMsg { bytes: fb, exp: Exp::E, what: "B" });
    let b = l.bytes();
    ctx.set_input(&b);
    ctx.c("bad-bit");
    ctx.eval(util::hash(&b), true);
    let got = collect_after(&b, &o, r, fpos);
    let before = project(&l.exps()[..fpos], &o);
    debug_assert!(before.len() + 1 == fpos + nhdr);
    let n = before.len().min(got.len());
    if let Some((sig, d)) = compare(&before, &got[..n]) {
        return ctx.violate(&format!("before-flags:{sig}"), d, &b);
    }
    let rest = &got[n..];
    if let Some(m) = rest.iter().find(|i| !i.is_err()) {
        return ctx.violate("message-despite-unknown-bits", format!("incompat {inc:#x}: {}", item_text(m)), &b);
    }
    if rest.first().map(|i| i.kind()) != Some("Err:UnknownIncompatBits".into()) {
        return ctx.violate("unknown-bits-not-refused", format!("incompat {inc:#x}: {:?}", rest.first()), &b);
    }
    ctx.sample(|| format!("incompat {inc:#x}, {} bytes follow: {} items, all errors", b.len(), rest.len()));
}
/// Items of the stream followed by endless further valid messages, asked for far beyond the first error.
fn collect_after(b: &[u8], o: &Opts, r: &mut Rng, upto: usize) -> Vec<CItem> {
    let mut more = gen::small_log(r).bytes();
    if r.flip() {
        more.drain(..16);
    }
    if more.is_empty() {
        more = frame(b'S', &[1]);
    }
    let endless = r.flip();
    let mut out = vec![];
    let mut push = |p: &mut dyn Iterator<Item = drive::Item>| {
        for _ in 0..upto + 60 {
            if let Some(x) = p.next() {
                out.push(canon::item(&x));
            }
        }
    };
    if endless {
        push(&mut drive::parser(ThenMore { a: b, more: &more, pos: 0 }, o));
    } else {
        push(&mut drive::parser(b, o));
    }
    out
}
