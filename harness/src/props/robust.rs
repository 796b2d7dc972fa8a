//! C04 no crash or hang, C05 bounded resources, C06 streaming, C21 deterministic, isolated, silent.
use super::*;
use crate::ctx::Ctx;
use crate::drive::{self, Chunky, Opts, FULL};
use crate::gen::{self, frame, Cfg, Gen};
use crate::hostile;
use crate::mapped;
use crate::rng::Rng;
use crate::runner::Prop;
use crate::{alloc, canon, util};
use std::io::{self, Read, Write};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            quick: 200_000,
            thorough: 5000_000,
            case: c04,
            rule: "hostile stream run to its end under random options, every item rendered, flattened and encoded, and the stream mapped onto user structs; at least one item",
            need: &["how:weird messages", "how:payload mutations", "how:blind mutations", "how:claims", "kind:Data", "kind:Info", "errors", "log-records", "mapped-items", "no-header"],
        },
        Prop {
            id: "C05",
            quick: 400_000,
            thorough: 6000_000,
            case: c05,
            rule: "message claiming a huge, recursive or exponential amount of data while supplying at most some dozen bytes; bytes requested, number of requests, peak and CPU time measured per message; messages of full length: CPU time of each, best of three",
            need: &[
                "huge primitive array", "huge array of structures", "cycle", "self reference", "exponential", "deep chain", "huge padding",
                "huge info array", "info of structures", "array of wide structures", "mixed", "structures of nothing", "probe-decoded", "probe-refused", "large-genuine", "long-message",
            ],
        },
        Prop {
            id: "C06",
            quick: 4_000,
            thorough: 60_000,
            case: c06,
            rule: "step source: every byte requested compared with the end of the message being delivered; long source: live heap after every cycle of a log of at least 2000 messages",
            need: &["steps", "cycles", "long-messages", "long-bytes", "kind:Data", "errors-in-long"],
        },
        Prop {
            id: "C21",
            quick: 8000,
            thorough: 300_000,
            case: c21,
            rule: "2 to 5 streams (well-formed and hostile) run alone, twice, interleaved step by step, and on parallel threads, with the standard streams captured; at least one stream yields 2 items",
            need: &["interleaved-steps", "parallel-runs", "with-logger", "without-logger", "mapped", "captured-runs", "errors"],
        },
    ]
}

// ---- a logger that formats everything and keeps nothing ---------------------------------------------------

struct SinkLogger;
static RECORDS: AtomicU64 = AtomicU64::new(0);
struct Counter(u64);
impl std::fmt::Write for Counter {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}
impl log::Log for SinkLogger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let mut c = Counter(0);
        let _ = std::fmt::write(&mut c, format_args!("{} {}", r.target(), r.args()));
        RECORDS.fetch_add(1, Relaxed);
    }
    fn flush(&self) {}
}
static LOGGER: SinkLogger = SinkLogger;
fn logger(on: bool) {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off });
}

// ---- C04 ------------------------------------------------------------------------------------------------

/// Complete messages of the framing after the file header, and whether bytes are left over.
fn frames(b: &[u8]) -> (usize, bool) {
    let mut p = 16;
    let mut n = 0;
    while p + 3 <= b.len() {
        let e = p + 3 + u16::from_le_bytes([b[p], b[p + 1]]) as usize;
        if e > b.len() {
            break;
        }
        p = e;
        n += 1;
    }
    (n, p < b.len())
}
fn c04(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let (b, how, names) = if case % 6 == 5 {
        let c = hostile::claim(r);
        (hostile::claim_stream(&c), "claims", vec!["t".to_string(), "a".to_string()])
    } else {
        let h = hostile::stream(r);
        (h.bytes, h.how, h.names)
    };
    ctx.set_input(&b);
    ctx.c(&format!("how:{how}"));
    let o = Opts::random(r, &names);
    let log_on = case % 3 == 0;
    logger(log_on);
    let before = RECORDS.load(Relaxed);
    let magic = b.len() >= 16 && b[..7] == gen::MAGIC;
    let (n, _) = frames(&b);
    // Without a valid header nothing is framed, but no item may come from less than a message header.
    let bound = if magic { 1 + n + 1 } else { b.len() / 3 + 2 };
    if !magic {
        ctx.c("no-header");
    }
    let mut got = 0usize;
    let mut size = 0u64;
    {
        let mut step = |x: drive::Item| {
            got += 1;
            match &x {
                Ok(m) => {
                    size += mapped::touch(m);
                    let k = canon::msg(m).kind();
                    ctx.c(&format!("kind:{k}"));
                }
                Err(e) => {
                    size += format!("{e} {e:?}").len() as u64;
                    ctx.c("errors");
                }
            }
            got <= bound
        };
        if r.flip() {
            let mut p = drive::parser(&b[..], &o);
            while let Some(x) = p.next() {
                if let Ok(yule_log::model::msg::UlogMessage::LoggedData(d)) = &x {
                    let _ = p.get_subscription(d.msg_id).map(|s| p.get_format(&s.message_name).map(|f| f.fields.len()));
                }
                if !step(x) {
                    break;
                }
            }
        } else {
            let f = r.fork();
            for x in drive::parser(Chunky::new(&b, f, 40, true), &o) {
                if !step(x) {
                    break;
                }
            }
        }
    }
    if got > bound {
        ctx.violate("too-many-items", format!("more than {bound} items from {n} messages ({how})"), &b);
    }
    match mapped::run_mapped(&b, r, bound) {
        Ok(v) => ctx.n("mapped-items", v.len() as u64),
        Err(_) => ctx.violate("too-many-items:mapped", format!("more than {bound} mapped items from {n} messages ({how})"), &b),
    }
    logger(false);
    ctx.n("log-records", RECORDS.load(Relaxed) - before);
    ctx.eval(util::hash(&b), got >= 1);
    ctx.sample(|| format!("{how}: {} bytes, {n} messages, {got} items, {size} bytes rendered", b.len()));
}

// ---- C05 ------------------------------------------------------------------------------------------------

fn thread_cpu_us() -> u64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec as u64 * 1_000_000 + t.tv_nsec as u64 / 1000
    }
}
/// What a message may cost. `m`: its bytes; `d`: bytes of all definitions so far (a structure that is present
/// costs memory in proportion to its definition, hence the product).
fn allowance(m: u64, d: u64) -> u64 {
    200_000 + 200 * (m + d) + 40 * m * d.min(20_000)
}
/// The work for messages as long as messages get. What it takes is some milliseconds; the bound is what no work
/// in proportion to the bytes comes near, even on a busy machine, and work in proportion to their square exceeds.
fn long_work(ctx: &mut Ctx, r: &mut Rng) {
    const LIMIT_US: u64 = 400_000;
    let mut b = gen::header_bytes(1, 0);
    let mut whats = vec![];
    let mut put = |what: &'static str, t: u8, p: &[u8]| {
        whats.push((what, p.len()));
        b.extend_from_slice(&gen::frame(t, p));
    };
    let room = 65_000;
    // Many fields: of one byte, or of structures, or of arrays.
    let mut text = String::from("many:uint64_t timestamp;");
    let mut len = 8usize;
    put("F-one", b'F', b"one:uint8_t v;");
    let kind = r.below(4);
    let sep = r.below(3);
    let mut k = 0;
    loop {
        let f = match kind {
            0 => format!("bool f{k};"),
            1 => format!("one f{k};"),
            2 => format!("char[2] f{k};"),
            _ => format!("one[2] f{k};"),
        };
        let f = if sep == 0 { f.replace(' ', "  ") } else { f };
        if text.len() + f.len() > room {
            break;
        }
        text.push_str(&f);
        len += 1 + kind / 2;
        k += 1;
    }
    put("F-long", b'F', text.as_bytes());
    let name: String = (0..room - 20).map(|_| char::from(b'a' + r.below(26) as u8)).collect();
    put("F-long-name", b'F', format!("{name}:uint8_t a;").as_bytes());
    put("F-semicolons", b'F', format!("semi:{}", ";".repeat(room)).as_bytes());
    put("F-brackets", b'F', format!("brac:{}", "a[".repeat(room / 2)).as_bytes());
    put("F-spaces", b'F', format!("spac:{}", " ".repeat(room)).as_bytes());
    put("F-words", b'F', format!("word:{}", "a ".repeat(room / 2)).as_bytes());
    put("F-short", b'F', format!("short:{}", "x y;".repeat(room / 4 - 2)).as_bytes());
    put("F-array", b'F', format!("arra:uint64_t timestamp;uint8_t[{}] x;one[30000] y;", room - 40000).as_bytes());
    let key = |t: &str| {
        let mut p = vec![t.len() as u8];
        p.extend_from_slice(t.as_bytes());
        p
    };
    let with = |mut p: Vec<u8>, n: usize, r: &mut Rng| {
        p.extend((0..n).map(|_| r.below(2) as u8));
        p
    };
    put("I-text", b'I', &with(key("char[60000] k"), 60_000, r));
    put("I-one", b'I', &with(key("one[60000] k"), 60_000, r));
    put("I-u64", b'I', &with(key("uint64_t[8000] k"), 64_000, r));
    put("A", b'A', b"\x00\x05\x00many");
    put("A", b'A', b"\x00\x06\x00arra");
    put("A-long-name", b'A', format!("\0\x07\0{name}").as_bytes());
    put("D-many", b'D', &with(vec![5, 0], len, r));
    put("D-array", b'D', &with(vec![6, 0], 8 + room - 10000, r));
    put("L", b'L', &with(b"4\0\0\0\0\0\0\0\0".to_vec(), room, r));
    put("R", b'R', &with(vec![], room, r));
    put("unknown", b'z', &with(vec![], room, r));
    ctx.set_input(&b);
    ctx.c("long-work");
    let mut best = vec![u64::MAX; whats.len()];
    for round in 0..3 {
        let mut p = drive::parser(&b[..], &Opts { hdr: false, ts: r.flip(), pad: r.flip(), allow: None });
        for x in best.iter_mut() {
            let t0 = thread_cpu_us();
            let m = p.next();
            *x = (*x).min(thread_cpu_us() - t0);
            match m {
                None => return ctx.c("ended-early"),
                Some(Ok(_)) => ctx.n("long-message", 1),
                Some(Err(_)) => ctx.n("long-refused", 1),
            }
        }
        if round == 0 && best.iter().all(|x| *x < LIMIT_US / 4) {
            break;
        }
    }
    for (x, (what, n)) in best.iter().zip(&whats) {
        let m = ctx.counters.entry("max-cpu-us".into()).or_insert(0);
        *m = (*x).max(*m);
        if *x > LIMIT_US {
            return ctx.violate(&format!("work:{what}"), format!("a message of {n} bytes took {x} µs of CPU time, at best"), &b);
        }
    }
    ctx.eval(util::hash(&b), true);
}
fn c05(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    logger(false);
    // What the library sets up once per process is not the cost of any one message.
    static WARM: std::sync::Once = std::sync::Once::new();
    WARM.call_once(|| {
        for i in 0..20 {
            let b = gen::log(&mut Rng::new(i)).bytes();
            let _ = drive::run(&b, &FULL);
        }
    });
    if case % 50 == 0 {
        // The allowance is generous to genuine contents: no false alarm on large messages.
        let cfg = Cfg { max_fmt: 60_000, big: true, ..Cfg::random(r) };
        let l = Gen::new(r, cfg).full();
        let b = l.bytes();
        ctx.set_input(&b);
        ctx.c("large-genuine");
        let mut p = drive::parser(&b[..], &FULL);
        let mut defs = 0u64;
        for m in &l.msgs {
            if m.what == "F" {
                defs += m.bytes.len() as u64;
            }
            let (_, total, _, peak) = alloc::measure(|| p.next().map(|x| canon::item(&x)));
            // (includes the harness's own canonical copy)
            let lim = 2 * allowance(m.bytes.len() as u64, defs);
            if total > lim || peak as u64 > lim {
                return ctx.violate(
                    "genuine-cost",
                    format!("{} of {} bytes cost {total} bytes, peak {peak}", m.what, m.bytes.len()),
                    &b,
                );
            }
        }
        return ctx.eval(util::hash(&b), true);
    }
    if r.chance(1, 2500) {
        return long_work(ctx, r);
    }
    let c = hostile::claim(r);
    let b = hostile::claim_stream(&c);
    ctx.set_input(&b);
    ctx.c(c.what);
    let o = Opts { hdr: false, ts: r.flip(), pad: r.flip(), allow: None };
    let mut p = drive::parser(&b[..], &o);
    let mut defs = 0u64;
    let n = c.defs.len();
    for (i, m) in c.defs.iter().chain(std::iter::once(&c.probe)).enumerate() {
        if m[2] == b'F' {
            defs += m.len() as u64;
        }
        let t0 = thread_cpu_us();
        let (x, total, count, peak) = alloc::measure(|| p.next());
        let cpu = thread_cpu_us() - t0;
        let lim = allowance(m.len() as u64, defs);
        let which = if i == n { "probe" } else { "definition" };
        if total > lim || peak as u64 > lim {
            return ctx.violate(
                &format!("memory:{}:{which}", c.what),
                format!("a message of {} bytes (definitions so far {defs} bytes) made the parser request {total} bytes in {count} requests, peak {peak} (allowed {lim})", m.len()),
                &b,
            );
        }
        if count > lim / 16 {
            return ctx.violate(
                &format!("requests:{}:{which}", c.what),
                format!("a message of {} bytes cost {count} allocations", m.len()),
                &b,
            );
        }
        if cpu > 2_000_000 {
            return ctx.violate(
                &format!("work:{}:{which}", c.what),
                format!("a message of {} bytes took {cpu} µs of CPU time", m.len()),
                &b,
            );
        }
        if i == n {
            match x {
                Some(Ok(m)) => {
                    ctx.c("probe-decoded");
                    // What was accepted must be as small as what was there.
                    let (_, total, _, _) = alloc::measure(|| mapped::touch(&m));
                    if total > 100 * lim {
                        ctx.violate(&format!("result-size:{}", c.what), format!("rendering the result took {total} bytes"), &b);
                    }
                }
                _ => ctx.c("probe-refused"),
            }
        }
        let m = ctx.counters.entry("max-total-per-message".into()).or_insert(0);
        *m = total.max(*m);
    }
    ctx.eval(util::hash(&b), true);
    ctx.sample(|| {
        format!(
            "{}: {} bytes of definitions, probe of {} bytes: {}",
            c.what,
            defs,
            c.probe.len(),
            util::clip(&c.defs.last().map(|d| String::from_utf8_lossy(d).into_owned()).unwrap_or_default(), 200)
        )
    });
}

// ---- C06 ------------------------------------------------------------------------------------------------

/// Hands out bytes and remembers the furthest position ever asked for.
struct Step<'a> {
    data: &'a [u8],
    pos: usize,
    asked: usize,
    max: usize,
}
impl Read for Step<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.asked = self.asked.max(self.pos + buf.len());
        let n = buf.len().min(self.max).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// Repeats a body for ever (up to `cycles`), renumbering marked places each time.
struct Loop<'a> {
    head: &'a [u8],
    body: Vec<u8>,
    marks: Vec<usize>,
    pos: usize,
    in_head: bool,
    cycle: u32,
    cycles: u32,
}
impl Read for Loop<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.in_head {
            let n = buf.len().min(self.head.len() - self.pos);
            buf[..n].copy_from_slice(&self.head[self.pos..self.pos + n]);
            self.pos += n;
            if self.pos == self.head.len() {
                self.in_head = false;
                self.pos = 0;
            }
            return Ok(n);
        }
        if self.pos == self.body.len() {
            self.pos = 0;
            self.cycle += 1;
            for &m in &self.marks {
                let mut c = self.cycle;
                for k in (0..6).rev() {
                    self.body[m + k] = b'0' + (c % 10) as u8;
                    c /= 10;
                }
            }
        }
        if self.cycle >= self.cycles {
            return Ok(0);
        }
        let n = buf.len().min(self.body.len() - self.pos);
        buf[..n].copy_from_slice(&self.body[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
fn c06(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    logger(false);
    if case % 4 != 0 {
        return c06_step(ctx, r);
    }
    let cfg = Cfg { removal: false, big: r.chance(1, 4), ..Cfg::random(r) };
    let mut g = Gen::new(r, cfg);
    g.definitions();
    let nsubs = g.r.range(1, 6);
    for _ in 0..nsubs {
        g.random_sub();
    }
    if g.subs.is_empty() {
        let n = g.topics[0].clone();
        g.sub(0, 0, &n);
    }
    let head_msgs = g.msgs.len();
    let body = *g.r.pick(&[4, 10, 40, 80]);
    for _ in 0..body {
        match g.r.below(12) {
            0..=5 => g.random_data(),
            6 => {
                // An announced id announced again (the set of subscriptions stays the same).
                let ids: Vec<u16> = g.subs.keys().copied().collect();
                let id = *g.r.pick(&ids);
                let (m, n) = g.subs[&id].clone();
                if g.r.flip() {
                    g.remove(id);
                }
                g.sub(id, m, &n);
            }
            7 => {
                let t = g.r.flip();
                g.string(t);
            }
            8 => {
                // A bad message per cycle: errors must not pile up either.
                let (t, p): (u8, Vec<u8>) = match g.r.below(5) {
                    0 => (b'D', vec![0xfe, 0xfe, 1, 2, 3]),
                    1 => (b'I', vec![3, b'x', b'y']),
                    2 => (b'L', vec![b'9', 0, 0, 0, 0, 0, 0, 0, 0]),
                    3 => (b'A', b"\x00\xfd\xfdno_such_format000000".to_vec()),
                    _ => (b'P', b"\x05int8_".to_vec()),
                };
                g.push("bad", frame(t, &p), gen::Exp::E);
            }
            _ => g.neutral(),
        }
    }
    // Parameters and infos whose names differ in every cycle.
    g.push("I", frame(b'I', b"\x10int32_t k_000000\x01\x02\x03\x04"), gen::Exp::E);
    g.push("M", frame(b'M', b"\x00\x10uint8_t m_000000\x01"), gen::Exp::E);
    g.push("P", frame(b'P', b"\x0efloat p_000000\x00\x00\x80\x3f"), gen::Exp::E);
    g.push("Q", frame(b'Q', b"\x01\x0efloat q_000000\x00\x00\x80\x3f"), gen::Exp::E);
    g.push("L", frame(b'L', b"4\0\0\0\0\0\0\0\0text 000000"), gen::Exp::E);
    g.push("D", frame(b'D', b"\xfd\xfe"), gen::Exp::E);
    let log = g.log();
    let head: Vec<u8> = log.msgs[..head_msgs].iter().flat_map(|m| m.bytes.iter().copied()).collect();
    let body: Vec<u8> = log.msgs[head_msgs..].iter().flat_map(|m| m.bytes.iter().copied()).collect();
    let per_cycle = (log.msgs.len() - head_msgs) as u64;
    let mut marks = vec![];
    let mut i = 0;
    while i + 7 <= body.len() {
        if &body[i..i + 7] == b"_000000" || &body[i..i + 7] == b" 000000" || &body[i..i + 7] == b"t000000" {
            marks.push(i + 1);
            i += 7;
        } else {
            i += 1;
        }
    }
    ctx.set_input(&[&head[..], &body[..]].concat());
    let input_len = head.len() + body.len();
    let largest = log.msgs.iter().map(|m| m.bytes.len()).max().unwrap_or(0);
    let want: u64 = if ctx.thorough { 200_000 } else { 20_000 };
    let cycles = (want / per_cycle).clamp(30, 3_000_000 / body.len().max(1) as u64 + 30) as u32;
    let names: Vec<String> = vec![];
    let o = if r.chance(2, 3) { FULL } else { Opts::random(r, &names) };
    let mut src = Loop { head: &head, body, marks, pos: 0, in_head: true, cycle: 0, cycles };
    let mut p = drive::parser(&mut src, &o);
    for _ in 0..head_msgs - usize::from(!o.hdr) {
        if p.next().is_none() {
            return ctx.violate("ended-early", "the stream ended within its definitions".into(), &head);
        }
    }
    let mut base = None;
    let mut errors = 0u64;
    let mut n = 0u64;
    let mut worst = 0usize;
    for c in 0..cycles {
        alloc::reset_peak();
        for _ in 0..per_cycle {
            match p.next() {
                None => {
                    let input = ctx.input.clone();
                    return ctx.violate("ended-early", format!("the stream ended in cycle {c}"), &input);
                }
                Some(x) => {
                    n += 1;
                    errors += u64::from(x.is_err());
                }
            }
        }
        let s = alloc::snap();
        if c == 3 {
            base = Some(s);
        }
        if let Some(b) = base {
            // Nothing but the bounded state of the parser may stay alive.
            worst = worst.max(s.live.saturating_sub(b.live));
            if s.live > b.live + 4096 {
                let input = ctx.input.clone();
                return ctx.violate(
                    "live-heap-grows",
                    format!("live heap grew from {} to {} bytes between cycles 3 and {c} ({n} messages)", b.live, s.live),
                    &input,
                );
            }
            if s.peak > b.peak + 4096 + 64 * largest {
                let input = ctx.input.clone();
                return ctx.violate(
                    "peak-grows",
                    format!("peak heap grew from {} to {} bytes between cycles 3 and {c}", b.peak, s.peak),
                    &input,
                );
            }
        }
    }
    drop(p);
    ctx.n("cycles", cycles as u64);
    ctx.n("long-messages", n);
    ctx.n("long-bytes", (input_len as u64) * cycles as u64);
    ctx.n("errors-in-long", errors);
    ctx.eval(util::hash(&head), n >= 2000 || per_cycle * 30 >= 2000);
    ctx.sample(|| {
        format!(
            "long source: {cycles} cycles of {per_cycle} messages, {errors} errors, live heap varied by at most {worst} bytes"
        )
    });
}
fn c06_step(ctx: &mut Ctx, r: &mut Rng) {
    let l = if r.flip() { gen::log(r) } else { gen::small_log(r) };
    let b = l.bytes();
    let st = l.starts();
    ctx.set_input(&b);
    let names: Vec<String> =
        l.msgs.iter().filter(|m| m.what == "A").map(|m| String::from_utf8_lossy(&m.bytes[6..]).into_owned()).collect();
    let o = if r.flip() { FULL } else { Opts::random(r, &names) };
    let max = *r.pick(&[1usize, 2, 5, 1000, usize::MAX]);
    let mut src = Step { data: &b, pos: 0, asked: 0, max };
    let mut reached = vec![];
    // The source is inspected after every item, so the parser borrows it through a pointer-free wrapper.
    let cell = std::cell::RefCell::new(&mut src);
    struct Shared<'a, 'b>(&'a std::cell::RefCell<&'b mut Step<'b>>);
    impl Read for Shared<'_, '_> {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            self.0.borrow_mut().read(buf)
        }
    }
    let mut p = drive::parser(Shared(&cell), &o);
    let first = usize::from(!o.hdr);
    for i in first..l.msgs.len() {
        match p.next() {
            None => return ctx.violate("ended-early", format!("no item for message {i} ({})", l.msgs[i].what), &b),
            Some(x) => {
                let s = cell.borrow();
                reached.push(s.asked);
                ctx.c("steps");
                let k = match &x {
                    Ok(m) => canon::msg(m).kind(),
                    Err(_) => "Err",
                };
                ctx.c(&format!("kind:{k}"));
                if s.asked > st[i + 1] {
                    return ctx.violate(
                        &format!("read-ahead:{}", l.msgs[i].what),
                        format!(
                            "message {i} ({}) ends at byte {}, but the source was asked for bytes up to {}",
                            l.msgs[i].what,
                            st[i + 1],
                            s.asked
                        ),
                        &b,
                    );
                }
            }
        }
    }
    ctx.eval(util::hash(&b), l.msgs.len() >= 3);
    ctx.sample(|| {
        format!(
            "step source: {} messages, furthest byte asked for after each: {:?}…",
            l.msgs.len(),
            &reached[..reached.len().min(8)]
        )
    });
}

// ---- C21 ------------------------------------------------------------------------------------------------

struct Capture {
    saved: [i32; 2],
    file: std::fs::File,
}
impl Capture {
    fn start(ctx: &Ctx) -> Capture {
        use std::os::fd::AsRawFd;
        let _ = io::stdout().flush();
        let dir = ctx.out.clone().unwrap_or_else(std::env::temp_dir);
        let path = dir.join(format!("capture-{}", std::process::id()));
        let file = std::fs::OpenOptions::new().create(true).read(true).append(true).open(&path).expect("harness: capture file");
        let _ = std::fs::remove_file(&path);
        unsafe {
            let saved = [libc::dup(1), libc::dup(2)];
            assert!(saved[0] >= 0 && saved[1] >= 0, "harness: dup");
            libc::dup2(file.as_raw_fd(), 1);
            libc::dup2(file.as_raw_fd(), 2);
            Capture { saved, file }
        }
    }
    fn text(&self) -> String {
        use std::os::unix::fs::FileExt;
        let _ = io::stdout().flush();
        let n = self.file.metadata().map(|m| m.len()).unwrap_or(0);
        let mut b = vec![0; n.min(2000) as usize];
        let k = self.file.read_at(&mut b, 0).unwrap_or(0);
        b.truncate(k);
        String::from_utf8_lossy(&b).into_owned()
    }
}
impl Drop for Capture {
    fn drop(&mut self) {
        let _ = io::stdout().flush();
        unsafe {
            libc::dup2(self.saved[0], 1);
            libc::dup2(self.saved[1], 2);
            libc::close(self.saved[0]);
            libc::close(self.saved[1]);
        }
    }
}
/// Everything observable about an item, as text.
fn show(x: &drive::Item) -> String {
    match x {
        Ok(m) => {
            let mut b = Vec::new();
            let e = yule_log::encode::Encode::encode(m, &mut b).is_ok();
            format!("{m:?} {e} {:x}", util::hash(&b))
        }
        Err(e) => format!("{e:?} / {e}"),
    }
}
fn solo(b: &[u8], o: &Opts, max: usize) -> Vec<String> {
    let mut v = vec![];
    for x in drive::parser(b, o) {
        v.push(show(&x));
        if v.len() > max {
            break;
        }
    }
    v
}
fn c21(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let n = r.range(2, 5);
    let mut streams: Vec<(Vec<u8>, Opts)> = vec![];
    for _ in 0..n {
        let (b, names) = match r.below(5) {
            0 if !streams.is_empty() => {
                // The same bytes again, perhaps with other options.
                (streams[r.below(streams.len())].0.clone(), vec!["a".to_string()])
            }
            0 | 1 => (gen::small_log(r).bytes(), vec![]),
            _ => {
                let h = hostile::stream(r);
                let mut b = h.bytes;
                b.truncate(20_000);
                (b, h.names)
            }
        };
        let o = Opts::random(r, &names);
        streams.push((b, o));
    }
    ctx.set_input(&streams[0].0.clone());
    let log_on = case % 4 == 0;
    ctx.c(if log_on { "with-logger" } else { "without-logger" });
    logger(log_on);
    let cap = Capture::start(ctx);
    let bound = |b: &[u8]| drive::item_bound(b) + b.len() / 3;
    let alone: Vec<Vec<String>> = streams.iter().map(|(b, o)| solo(b, o, bound(b))).collect();
    let mseed = r.u64();
    let maps: Vec<_> = streams.iter().map(|(b, _)| mapped::run_mapped(b, &mut Rng::new(mseed), bound(b))).collect();
    let mut bad: Option<(String, String, usize)> = None;
    let cmp = |what: &str, i: usize, got: &[String], bad: &mut Option<(String, String, usize)>| {
        if bad.is_none() && got != &alone[i][..] {
            let k = got.iter().zip(&alone[i]).take_while(|(a, b)| a == b).count();
            let d = diff(
                alone[i].get(k).map(|s| s.as_str()).unwrap_or("nothing"),
                got.get(k).map(|s| s.as_str()).unwrap_or("nothing"),
            );
            *bad = Some((what.to_string(), format!("{what}: stream {i}, item {k}: {d}"), i));
        }
    };
    // Again alone.
    for (i, (b, o)) in streams.iter().enumerate() {
        cmp("second run", i, &solo(b, o, bound(b)), &mut bad);
        let again = mapped::run_mapped(b, &mut Rng::new(mseed), bound(b));
        if again != maps[i] && bad.is_none() {
            bad = Some(("second mapped run".into(), format!("stream {i}: mapped results differ"), i));
        }
        ctx.c("mapped");
    }
    // Step by step, interleaved.
    {
        let mut ps: Vec<_> = streams.iter().map(|(b, o)| (drive::parser(&b[..], o), vec![], false)).collect();
        let mut live: Vec<usize> = (0..n).collect();
        while !live.is_empty() {
            let k = r.below(live.len());
            let i = live[k];
            let (p, out, _) = &mut ps[i];
            match p.next() {
                Some(x) if out.len() <= bound(&streams[i].0) => {
                    out.push(show(&x));
                    ctx.c("interleaved-steps");
                }
                _ => {
                    live.swap_remove(k);
                }
            }
        }
        for (i, (_, out, _)) in ps.iter().enumerate() {
            cmp("interleaved", i, out, &mut bad);
        }
    }
    // In parallel.
    if case % 4 < 2 {
        let res: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = streams
                .iter()
                .map(|(b, o)| {
                    let lim = bound(b);
                    s.spawn(move || (solo(b, o, lim), mapped::run_mapped(b, &mut Rng::new(mseed), lim)))
                })
                .collect();
            hs.into_iter().map(|h| h.join()).collect()
        });
        for (i, x) in res.into_iter().enumerate() {
            ctx.c("parallel-runs");
            match x {
                Ok((v, m)) => {
                    cmp("in parallel", i, &v, &mut bad);
                    if m != maps[i] && bad.is_none() {
                        bad = Some(("parallel mapped".into(), format!("stream {i}: mapped results differ"), i));
                    }
                }
                Err(_) => bad = Some(("panic in parallel".into(), format!("stream {i} panicked on a thread"), i)),
            }
        }
    }
    logger(false);
    let text = cap.text();
    drop(cap);
    ctx.c("captured-runs");
    if !text.is_empty() {
        ctx.violate("output", format!("written to the standard streams: {text:?}"), &streams[0].0);
    }
    if let Some((sig, d, i)) = bad {
        ctx.violate(&sig, d, &streams[i].0);
    }
    ctx.n("errors", alone.iter().flatten().filter(|s| s.contains(" / ")).count() as u64);
    let mut h = util::Fnv::new();
    streams.iter().for_each(|(b, _)| h.put(b));
    ctx.eval(h.get(), alone.iter().any(|v| v.len() >= 2));
    ctx.sample(|| {
        format!(
            "{n} streams of {:?} bytes giving {:?} items",
            streams.iter().map(|s| s.0.len()).collect::<Vec<_>>(),
            alone.iter().map(|v| v.len()).collect::<Vec<_>>()
        )
    });
}
