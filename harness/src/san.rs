//! Workloads for the sanitizers and the interpreter (C19, C20). The oracle is the sanitizer; in addition the byte
//! views of character arrays (C20) and what each thread observes (C19) are compared.
use crate::drive::{self, Opts, FULL};
use crate::gen::{self, Cfg, Gen};
use crate::hostile;
use crate::mapped;
use crate::show;
use crate::model::CItem;
use crate::rng::Rng;
use crate::{canon, util};
use std::collections::BTreeMap;
use std::fmt::Write;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use yule_log::encode::Encode;
use yule_log::model::msg::UlogMessage;
use yule_log::model::{def, inst, CChar, CCharSlice};

#[derive(Default)]
pub struct Stats(pub BTreeMap<String, u64>, pub Vec<u64>);
impl Stats {
    /// Notes an input or an interleaving, to count distinct ones.
    pub fn seen(&mut self, h: u64) {
        self.1.push(h);
    }
    pub fn n(&mut self, k: &str, v: u64) {
        *self.0.entry(k.to_string()).or_insert(0) += v;
    }
    pub fn c(&mut self, k: &str) {
        self.n(k, 1)
    }
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.0 {
            self.n(&k, v);
        }
        self.1.extend(o.1);
    }
}

// ---- C20 -------------------------------------------------------------------------------------------------

/// The byte view of a character slice covers exactly its characters.
fn chars(a: &[CChar], st: &mut Stats) -> Result<(), String> {
    let b = a.as_bytes();
    st.c("character slices viewed");
    if a.is_empty() {
        st.c("empty character slices");
    }
    if b.len() != a.len() || b.as_ptr() as usize != a.as_ptr() as usize {
        return Err(format!("the view of {} characters has {} bytes, or lies elsewhere", a.len(), b.len()));
    }
    // Reads every byte of the view, so that a view too long is seen by the sanitizer, too.
    if let Some(i) = (0..a.len()).find(|&i| b[i] != a[i].0) {
        return Err(format!("byte {i} of the view is {} but the character is {}", b[i], a[i].0));
    }
    let t = a.trim_end_nul();
    if t.len() > a.len() || t.as_ptr() as usize != a.as_ptr() as usize {
        return Err("the trimmed slice is no prefix".into());
    }
    let (l, t) = (a.to_string_lossy(), a.to_string_lossy_trimmed());
    text(&l, st)?;
    text(&t, st)?;
    let raw: Vec<u8> = a.iter().map(|c| c.0).collect();
    if l.as_bytes() != String::from_utf8_lossy(&raw).as_bytes() {
        return Err(format!("the text of the characters {raw:02x?} has other bytes than they have"));
    }
    if !l.as_bytes().starts_with(t.as_bytes()) {
        return Err("the trimmed text is no prefix of the text".into());
    }
    Ok(())
}
/// Safe code may rely on every string to be UTF-8; a string that is not comes from a wrong use of unsafe code.
fn text(s: &str, st: &mut Stats) -> Result<(), String> {
    st.c("strings validated");
    match std::str::from_utf8(std::hint::black_box(s.as_bytes())) {
        Ok(_) => Ok(()),
        Err(e) => Err(format!("a string that is not UTF-8 ({e}): {:02x?}", &s.as_bytes()[..s.len().min(80)])),
    }
}
fn char_vec(v: &Vec<CChar>, st: &mut Stats) -> Result<(), String> {
    chars(v, st)?;
    if v.as_bytes().len() != v.len() || v.as_bytes().iter().zip(v).any(|(a, b)| *a != b.0) {
        return Err("the view of a vector of characters differs from its characters".into());
    }
    // A clone has no spare capacity; the same with some.
    let mut spare = Vec::with_capacity(v.len() + 13);
    spare.extend_from_slice(v);
    for x in [v.clone(), spare] {
        char_value(&inst::FieldValue::ArrayChar(x), v, st)?;
    }
    Ok(())
}
fn char_value(f: &inst::FieldValue, v: &[CChar], st: &mut Stats) -> Result<(), String> {
    let mut out = vec![];
    if f.encode(&mut out).is_err() || out.len() != v.len() || out.iter().zip(v).any(|(a, b)| *a != b.0) {
        return Err(format!("{} characters were encoded as {} bytes, or as others", v.len(), out.len()));
    }
    text(&f.to_string(), st)
}
fn value(v: &inst::FieldValue, st: &mut Stats) -> Result<(), String> {
    use inst::FieldValue::*;
    match v {
        ArrayChar(a) => {
            char_value(v, a, st)?;
            if light() && a.len() > 40 {
                return chars(a, st);
            }
            char_vec(a, st)
        }
        ScalarOther(f) => format_(f, st),
        ArrayOther(a) => a.iter().try_for_each(|f| format_(f, st)),
        _ => Ok(()),
    }
}
fn format_(f: &inst::Format, st: &mut Stats) -> Result<(), String> {
    text(&f.name, st)?;
    text(&f.def_format.name, st)?;
    f.fields.iter().try_for_each(|x| {
        text(&x.name, st)?;
        type_(&x.r#type, st)?;
        value(&x.value, st)
    })
}
fn type_(t: &def::TypeExpr, st: &mut Stats) -> Result<(), String> {
    match &t.base_type {
        def::BaseType::OTHER(s) => text(s, st),
        _ => Ok(()),
    }
}
fn inspect(m: &UlogMessage, st: &mut Stats) -> Result<u64, String> {
    match m {
        UlogMessage::LoggedData(d) => format_(&d.data, st)?,
        UlogMessage::Info(i) => {
            text(&i.key, st)?;
            type_(&i.r#type, st)?;
            value(&i.value, st)?
        }
        UlogMessage::MultiInfo(i) => {
            text(&i.key, st)?;
            type_(&i.r#type, st)?;
            value(&i.value, st)?
        }
        UlogMessage::Parameter(p) => text(&p.key, st)?,
        UlogMessage::DefaultParameter(p) => text(&p.key, st)?,
        UlogMessage::LoggedString(s) | UlogMessage::TaggedLoggedString(s) => text(&s.msg, st)?,
        UlogMessage::AddSubscription(s) => text(&s.message_name, st)?,
        UlogMessage::FormatDefinition(f) => {
            text(&f.name, st)?;
            for x in &f.fields {
                text(&x.name, st)?;
                type_(&x.r#type, st)?;
            }
        }
        _ => {}
    }
    st.c("messages inspected");
    if light() {
        let mut v = vec![];
        let _ = m.encode(&mut v);
        if let UlogMessage::LoggedData(d) = m {
            #[allow(deprecated)]
            st.n("flattened values", d.data.flatten().len() as u64);
            return Ok(v.len() as u64 + format!("{}", d.data).len() as u64);
        }
        return Ok(v.len() as u64);
    }
    Ok(mapped::touch(m))
}
/// Under the interpreter nothing is rendered with `{:?}`: that takes most of the time and no unsafe code.
static LIGHT: AtomicBool = AtomicBool::new(false);
fn light() -> bool {
    LIGHT.load(Relaxed)
}
fn parse(b: &[u8], o: &Opts, late: bool, st: &mut Stats) -> Result<u64, String> {
    st.seen(util::hash(b));
    let mut n = 0;
    let mut kept = vec![];
    {
        let mut p = drive::parser(b, o);
        let mut k = 0;
        let max = drive::item_bound(b) + 8;
        while let Some(x) = p.next() {
            k += 1;
            if k > max {
                break;
            }
            match x {
                Ok(m) if late => kept.push(m),
                Ok(m) => n += inspect(&m, st)?,
                Err(e) => {
                    st.c("errors");
                    n += format!("{e}").len() as u64;
                }
            }
        }
    }
    // The parser is gone; what it returned must still be valid. Clones must outlive what they were made of.
    let mut clones = vec![];
    for m in kept {
        n += inspect(&m, st)?;
        match &m {
            UlogMessage::LoggedData(d) => clones.push(d.data.clone()),
            _ => {}
        }
        drop(m);
    }
    for c in &clones {
        format_(c, st)?;
        n += format!("{c}").len() as u64;
        st.c("clones read after the original was dropped");
    }
    Ok(n)
}

pub fn ub_case(r: &mut Rng, case: u64, small: bool, st: &mut Stats) -> Result<(), String> {
    let late = r.flip();
    LIGHT.store(small, Relaxed);
    match case % 8 {
        0 | 1 => {
            let log = if small { gen::small_log(r) } else { gen::log(r) };
            let o = Opts::random(r, &[]);
            parse(&log.bytes(), if r.flip() { &FULL } else { &o }, late, st)?;
            st.c("valid logs");
        }
        2 => {
            let log = gen::small_log(r);
            let b = hostile::mutate_framed(r, &log);
            parse(&b, &FULL, late, st)?;
            st.c("mutated logs");
        }
        3 => {
            let mut b = hostile::stream(r).bytes;
            if small {
                b.truncate(1500);
            }
            parse(&b, &FULL, late, st)?;
            st.c("hostile streams");
        }
        4 => {
            // Appended data at any offset, also inside messages.
            let cfg = Cfg::small(r);
            let mut g = Gen::new(r, Cfg { flags: false, ..cfg });
            let at = g.r.below(600) as u64;
            g.header();
            g.flags([0; 8], [1, 0, 0, 0, 0, 0, 0, 0], [at, 0, at + 7]);
            let mut b = g.log().bytes();
            let rest = gen::small_log(r).bytes();
            b.extend_from_slice(&rest[16..]);
            parse(&b, &FULL, late, st)?;
            st.c("logs with appended data");
        }
        5 => {
            for n in [0usize, 1, 2, 3, 7, 8, 15, 16, 17, 31, 33, 64, 100] {
                let mut v: Vec<CChar> = Vec::with_capacity(n + r.below(3));
                for _ in 0..n {
                    v.push(CChar(if r.chance(1, 3) { 0 } else { r.u8() }));
                }
                char_vec(&v, st)?;
                st.seen(util::hash(v.iter().map(|c| c.0).collect::<Vec<u8>>().as_slice()));
                for _ in 0..4 {
                    let a = r.below(n + 1);
                    let b = a + r.below(n - a + 1);
                    chars(&v[a..b], st)?;
                }
                let x: u64 = v.iter().map(|c| c.as_char() as u64 + c.as_u8() as u64).sum();
                st.n("characters", v.len() as u64 + (x & 0));
            }
        }
        6 => {
            let log = gen::small_log(r);
            let mut b = log.bytes();
            if r.flip() {
                hostile::mutate(r, &mut b);
            }
            let max = drive::item_bound(&b) + 64;
            st.seen(util::hash(&b));
            if let Ok(v) = mapped::run_mapped(&b, r, max) {
                st.n("derived items", v.len() as u64);
            }
        }
        _ => {
            // Short reads and interruptions.
            let b = gen::small_log(r).bytes();
            let mut k = 0;
            st.seen(util::hash(&b) ^ 1);
            let intr = r.flip();
            let rd = drive::Chunky::new(&b, r.fork(), 7, intr);
            if let Ok(v) = drive::items(rd, &FULL, drive::item_bound(&b) + 8) {
                for m in v.into_iter().flatten() {
                    k += inspect(&m, st)?;
                }
            }
            st.n("bytes rendered", k);
        }
    }
    st.c("cases");
    Ok(())
}

// ---- C19 -------------------------------------------------------------------------------------------------

#[cfg(feature = "thread_safe")]
fn render(d: &inst::Format) -> String {
    let mut s = String::new();
    show::show_format(d, &mut s, light());
    if !light() {
        let _ = write!(s, "{d:?}");
    }
    s
}
fn digest(m: &CItem) -> u64 {
    util::hash(format!("{m:?}").as_bytes())
}
/// A parse error, as a thread reports it.
#[cfg(feature = "thread_safe")]
fn error_text(e: yule_log::errors::ULogError) -> u64 {
    util::hash(format!("{e} {e:?}").as_bytes())
}
/// What a thread observes of an item: of a message its contents, text and encoding, of an error its text.
#[cfg(feature = "thread_safe")]
type Seen = Result<[u64; 4], u64>;
/// The flattened values of a data message.
fn flattened(m: &UlogMessage) -> u64 {
    match m {
        #[allow(deprecated)]
        UlogMessage::LoggedData(d) if !light() => {
            let mut s = String::new();
            for (path, v) in d.data.flatten() {
                let _ = write!(s, "{path}={v};");
            }
            util::hash(s.as_bytes())
        }
        _ => 0,
    }
}
/// Everything a single thread observes of a message: contents, rendering, encoding, flattened values.
fn observe(m: &UlogMessage) -> [u64; 4] {
    let d = if light() { 0 } else { digest(&CItem::M(canon::msg(m))) };
    let text = show::show(m, light());
    let mut e = vec![];
    let _ = m.encode(&mut e);
    [d, util::hash(text.as_bytes()), util::hash(&e), flattened(m)]
}
#[cfg(feature = "thread_safe")]
fn items(b: &[u8]) -> impl Iterator<Item = Result<UlogMessage, yule_log::errors::ULogError>> + '_ {
    drive::parser(b, &FULL).take(drive::item_bound(b) + 8)
}
#[cfg(feature = "thread_safe")]
fn solo(b: &[u8]) -> Vec<Seen> {
    let mut v = vec![];
    for x in items(b) {
        v.push(x.map(|m| observe(&m)).map_err(error_text));
    }
    v
}
/// Hands out tickets in the order the threads take steps; relaxed, so that it orders nothing for the detector.
#[cfg(feature = "thread_safe")]
#[derive(Default)]
struct Clock(std::sync::atomic::AtomicU64, std::sync::Mutex<Vec<(u64, u64)>>);
#[cfg(feature = "thread_safe")]
impl Clock {
    fn tick(&self) -> u64 {
        self.0.fetch_add(1, std::sync::atomic::Ordering::Relaxed)
    }
    fn done(&self, thread: usize, t: Vec<u64>) {
        self.1.lock().unwrap().extend(t.into_iter().map(|x| (x, thread as u64)));
    }
    /// (hash of the interleaving, number of switches between threads)
    fn finish(self) -> (u64, u64) {
        let mut v = self.1.into_inner().unwrap();
        v.sort();
        let b: Vec<u8> = v.iter().map(|x| x.1 as u8).collect();
        (util::hash(&b), b.windows(2).filter(|w| w[0] != w[1]).count() as u64)
    }
}

#[cfg(feature = "thread_safe")]
pub fn mt_case(r: &mut Rng, case: u64, small: bool, st: &mut Stats) -> Result<(), String> {
    use std::sync::mpsc;
    use std::sync::{Arc, Barrier, Mutex};
    use std::thread;

    LIGHT.store(small, Relaxed);
    let mk = |r: &mut Rng| {
        let mut cfg = if small { Cfg::small(r) } else { Cfg::random(r) };
        cfg.big = false;
        cfg.nesting = true;
        let mut g = Gen::new(r, cfg);
        g.definitions();
        g.random_sub();
        g.random_sub();
        for _ in 0..if small { 5 } else { 60 } {
            g.body_step();
        }
        let log = g.log();
        // Errors are observed, too.
        if r.chance(1, 4) {
            hostile::mutate_framed(r, &log)
        } else {
            log.bytes()
        }
    };
    let logs: Vec<Vec<u8>> = (0..2).map(|_| mk(r)).collect();
    // The first parsers of the process run at once: whatever is set up on first use is set up by racing threads.
    static FIRST: std::sync::Once = std::sync::Once::new();
    let mut early = None;
    FIRST.call_once(|| {
        let gate = Barrier::new(3);
        early = std::panic::catch_unwind(|| {
            thread::scope(|s| {
                let h: Vec<_> = (0..3)
                    .map(|_| {
                        s.spawn(|| {
                            gate.wait();
                            solo(&logs[0])
                        })
                    })
                    .collect();
                h.into_iter().map(|h| h.join().ok()).collect::<Vec<_>>()
            })
        })
        .ok();
    });
    // What a single thread does wrong is not this property's business.
    let want = std::panic::catch_unwind(|| logs.iter().map(|b| solo(b)).collect::<Vec<Vec<Seen>>>());
    let Ok(want) = want else {
        st.c("panics of a single thread (not judged here)");
        return Ok(());
    };
    println!("@threads {case}");
    if let Some(e) = early {
        st.c("first parsers of a process at once");
        if e.iter().any(|e| e.as_ref() != Some(&want[0])) {
            return Err("the first parsers of a process, running at once, returned something else than one alone".into());
        }
    }
    let clock = Clock::default();
    let threads = if small { 3 } else { r.range(2, 6) };
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let fail = |s: String| {
        let mut g = bad.lock().unwrap();
        if g.is_none() {
            *g = Some(s);
        }
    };
    let total = Mutex::new(Stats::default());
    let kind = case % 7;

    // One operation on a message some thread sees; everything it observes must be what a single thread sees.
    let op = |r: &mut Rng, m: &UlogMessage, want: &[u64; 4], k: &mut Vec<inst::Format>, st: &mut Stats| {
        match r.below(6) {
            0 => {
                if !light() && digest(&CItem::M(canon::msg(m))) != want[0] {
                    fail("a message read by a thread differs from what a single thread reads".into());
                }
                st.c("reads");
            }
            1 => {
                let mut e = vec![];
                let _ = m.encode(&mut e);
                if util::hash(&e) != want[2] {
                    fail("a message encoded by a thread differs from what a single thread encodes".into());
                }
                st.c("encodings");
            }
            2 => {
                if observe(m) != *want {
                    fail("a message rendered by a thread differs from what a single thread renders".into());
                }
                st.c("renderings");
            }
            3 => {
                if let UlogMessage::LoggedData(d) = m {
                    k.push(d.data.clone());
                    // Shared parts are counted by several threads at once.
                    let a = d.data.def_format.clone();
                    let b = d.data.name.clone();
                    st.n("definitions cloned", 1 + (a.fields.len() as u64 & 0) + (b.len() as u64 & 0));
                    for f in &d.data.fields {
                        let _c = f.clone();
                    }
                }
                if let UlogMessage::FormatDefinition(d) = m {
                    let c = d.clone();
                    st.n("definitions cloned", 1 + (c.fields.len() as u64 & 0));
                }
                st.c("clones");
            }
            4 => {
                if !k.is_empty() {
                    let i = r.below(k.len());
                    drop(k.swap_remove(i));
                    st.c("drops");
                }
            }
            _ => {
                if let UlogMessage::LoggedData(d) = m {
                    #[allow(deprecated)]
                    let n = d.data.flatten().len();
                    st.n("flattened values", n as u64);
                    if flattened(m) != want[3] {
                        fail("a message flattened by a thread differs from what a single thread flattens".into());
                    }
                }
            }
        }
    };

    match kind {
        // Messages shared by reference, other parsers running meanwhile.
        0 | 1 => {
            let msgs: Vec<Option<UlogMessage>> = items(&logs[0]).map(|x| x.ok()).collect();
            let msgs = Arc::new(msgs);
            let gate = Barrier::new(threads + 1);
            thread::scope(|s| {
                for t in 0..threads {
                    let msgs = msgs.clone();
                    let mut r = r.fork();
                    let (gate, op, want, total, clock) = (&gate, &op, &want[0], &total, &clock);
                    s.spawn(move || {
                        let mut st = Stats::default();
                        let mut kept = vec![];
                        let mut ticks = vec![];
                        gate.wait();
                        for _ in 0..if small { 12 } else { 150 } {
                            let i = if r.flip() { t % msgs.len() } else { r.below(msgs.len()) };
                            if let (Some(m), Ok(w)) = (&msgs[i], &want[i]) {
                                ticks.push(clock.tick());
                                op(&mut r, m, w, &mut kept, &mut st);
                            }
                        }
                        drop(kept);
                        // The last owner frees the messages, whichever thread that is.
                        drop(msgs);
                        st.c("threads sharing");
                        clock.done(t, ticks);
                        total.lock().unwrap().merge(st);
                    });
                }
                let (gate, fail) = (&gate, &fail);
                let (b, w) = (&logs[1], &want[1]);
                let total = &total;
                s.spawn(move || {
                    gate.wait();
                    for _ in 0..if small { 1 } else { 3 } {
                        if solo(b) != *w {
                            fail("a parser on another thread returned something else than alone".into());
                        }
                    }
                    let mut st = Stats::default();
                    st.c("parsers running meanwhile");
                    total.lock().unwrap().merge(st);
                });
            });
            drop(msgs);
        }
        // Each message moves to another thread while its parser goes on.
        2 => {
            let gate = Barrier::new(threads + 1);
            thread::scope(|s| {
                let mut tx = vec![];
                for t in 0..threads {
                    let (a, b) = mpsc::channel::<(usize, UlogMessage)>();
                    tx.push(a);
                    let mut r = r.fork();
                    let (gate, op, want, total, clock) = (&gate, &op, &want[0], &total, &clock);
                    s.spawn(move || {
                        let mut st = Stats::default();
                        let mut kept = vec![];
                        let mut held = vec![];
                        let mut ticks = vec![];
                        gate.wait();
                        while let Ok((i, m)) = b.recv() {
                            ticks.push(clock.tick());
                            if let Ok(w) = &want[i] {
                                op(&mut r, &m, w, &mut kept, &mut st);
                                op(&mut r, &m, w, &mut kept, &mut st);
                            }
                            if r.flip() {
                                held.push(m);
                            }
                            if r.chance(1, 8) {
                                held.clear();
                            }
                            st.c("messages moved");
                        }
                        clock.done(t, ticks);
                        total.lock().unwrap().merge(st);
                    });
                }
                let mut rr = r.fork();
                let (gate, fail) = (&gate, &fail);
                let (b, w) = (&logs[0], &want[0]);
                let clock = &clock;
                s.spawn(move || {
                    gate.wait();
                    let mut ticks = vec![];
                    for (i, x) in items(b).enumerate() {
                        ticks.push(clock.tick());
                        match x {
                            Ok(m) => {
                                if w.get(i).is_none_or(|w| w.is_err()) {
                                    fail("another item than a single thread gets".into());
                                    break;
                                }
                                let k = rr.below(tx.len());
                                let _ = tx[k].send((i, m));
                            }
                            Err(e) => {
                                if w.get(i) != Some(&Err(error_text(e))) {
                                    fail("an error a single thread does not get".into());
                                    break;
                                }
                            }
                        }
                    }
                    clock.done(threads, ticks);
                });
            });
        }
        // Clones of one message on every thread, the original dropped first, last or in the middle.
        3 => {
            let msgs: Vec<UlogMessage> = items(&logs[0]).filter_map(|x| x.ok()).collect();
            let gate = Barrier::new(threads + 1);
            let data: Vec<inst::Format> =
                msgs.into_iter().filter_map(|m| if let UlogMessage::LoggedData(d) = m { Some(d.data) } else { None }).collect();
            let want: Vec<u64> = data.iter().map(|d| util::hash(render(d).as_bytes())).collect();
            thread::scope(|s| {
                for t in 0..threads {
                    let mine = data.clone();
                    let mut r = r.fork();
                    let (gate, want, fail, total, clock) = (&gate, &want, &fail, &total, &clock);
                    s.spawn(move || {
                        let mut st = Stats::default();
                        let mut ticks = vec![];
                        gate.wait();
                        let mut mine: Vec<Option<inst::Format>> = mine.into_iter().map(Some).collect();
                        let mut order: Vec<usize> = (0..mine.len()).collect();
                        r.shuffle(&mut order);
                        for i in order {
                            let d = mine[i].take().unwrap();
                            ticks.push(clock.tick());
                            if util::hash(render(&d).as_bytes()) != want[i] {
                                fail("a clone differs from the original".into());
                            }
                            let again = d.clone();
                            drop(d);
                            st.n("clones read", 1 + (again.fields.len() as u64 & 0));
                        }
                        clock.done(t, ticks);
                        total.lock().unwrap().merge(st);
                    });
                }
                gate.wait();
                drop(data);
            });
        }
        // Several parsers at once, each on its own thread; what they return meets on one thread.
        4 => {
            let gate = Barrier::new(threads);
            let (tx, rx) = mpsc::channel::<(usize, usize, UlogMessage)>();
            thread::scope(|s| {
                for t in 0..threads {
                    let (gate, fail, clock) = (&gate, &fail, &clock);
                    let (b, w) = (&logs[t % 2], &want[t % 2]);
                    let tx = tx.clone();
                    s.spawn(move || {
                        let mut ticks = vec![];
                        gate.wait();
                        let mut n = 0;
                        for (i, x) in items(b).enumerate() {
                            ticks.push(clock.tick());
                            n += 1;
                            let (got, m) = match x {
                                Ok(m) => (Ok(observe(&m)), Some(m)),
                                Err(e) => (Err(error_text(e)), None),
                            };
                            if w.get(i) != Some(&got) {
                                fail("one of several parsers running at once returned something else than alone".into());
                                break;
                            }
                            if let Some(m) = m {
                                let _ = tx.send((t % 2, i, m));
                            }
                        }
                        if n < w.len() {
                            fail("one of several parsers running at once returned fewer items than alone".into());
                        }
                        clock.done(t, ticks);
                    });
                }
                drop(tx);
                let mut st2 = Stats::default();
                let mut held = vec![];
                for (l, i, m) in rx.iter() {
                    if want[l][i] != Ok(observe(&m)) {
                        fail("a message from another thread's parser changed on its way".into());
                    }
                    st2.c("messages moved");
                    if r.flip() {
                        held.push(m);
                    }
                }
                st2.n("parsers at once", threads as u64);
                total.lock().unwrap().merge(st2);
            });
        }
        // All threads do the same thing at the same moment, on deeply nested, long or contradicting logs.
        5 => storm(r, small, &clock, &fail, &total),
        // Derived streams on several threads.
        _ => {
            let gate = Barrier::new(threads);
            let mut b = hostile::stream(r).bytes;
            b.truncate(if small { 800 } else { 6000 });
            let b = if r.flip() { &b } else { &logs[0] };
            let max = drive::item_bound(b) + 64;
            let seed = r.fork();
            let alone = std::panic::catch_unwind(|| mapped::run_mapped(b, &mut seed.clone(), max).ok());
            let Ok(alone) = alone else {
                st.c("panics of a single thread (not judged here)");
                return Ok(());
            };
            thread::scope(|s| {
                for t in 0..threads {
                    let (gate, fail, clock, alone, total) = (&gate, &fail, &clock, &alone, &total);
                    let mut r = seed.clone();
                    s.spawn(move || {
                        gate.wait();
                        let a = clock.tick();
                        let got = mapped::run_mapped(b, &mut r, max).ok();
                        if got != *alone {
                            fail("derived streams on several threads return something else than one alone".into());
                        }
                        clock.done(t, vec![a, clock.tick()]);
                        let mut st = Stats::default();
                        st.c("derived streams at once");
                        total.lock().unwrap().merge(st);
                    });
                }
            });
        }
    }
    let (h, n) = clock.finish();
    st.seen(h);
    st.n("switches between threads", n);
    st.merge(total.into_inner().unwrap());
    st.c("cases");
    let b = bad.into_inner().unwrap();
    match b {
        Some(s) => Err(s),
        None => Ok(()),
    }
}
/// A log whose data are nested, with `extra` telling apart logs that give the same names other meanings.
#[cfg(feature = "thread_safe")]
fn nested_log(depth: usize, width: usize, extra: usize, n: usize) -> Vec<u8> {
    let mut b = b"ULog\x01\x125\x01".to_vec();
    b.extend_from_slice(&[0; 8]);
    let mut put = |t: u8, c: &[u8]| {
        b.extend_from_slice(&(c.len() as u16).to_le_bytes());
        b.push(t);
        b.extend_from_slice(c);
    };
    let leaf = ["uint8_t", "bool", "char", "int8_t"][extra % 4];
    put(b'F', format!("l0:{leaf} x;").as_bytes());
    for i in 1..=depth {
        put(b'F', format!("l{i}:{leaf} x;l{} n;", i - 1).as_bytes());
    }
    let w = if width == 1 { String::new() } else { format!("[{width}]") };
    put(b'F', format!("a:uint64_t timestamp;l{depth}{w} n;").as_bytes());
    put(b'I', b"\x0Cchar[4] nameabcd");
    put(b'A', b"\0\0\0a");
    for i in 0..n {
        let mut c = vec![0, 0];
        c.extend_from_slice(&(i as u64).to_le_bytes());
        for k in 0..(depth + 1) * width {
            c.push(((k * 7 + i + extra) % 251) as u8);
        }
        put(b'D', &c);
    }
    b
}
#[cfg(feature = "thread_safe")]
fn storm(r: &mut Rng, small: bool, clock: &Clock, fail: &(impl Fn(String) + Sync), total: &std::sync::Mutex<Stats>) {
    use std::sync::Barrier;
    let (threads, rounds) = if small { (3, 2) } else { (8, 12) };
    let depth = if small { r.below(6) } else { *r.pick(&[0, 1, 5, 20, 50, 60, 62]) };
    let width = if depth < 8 { r.range(1, 3) } else { 1 };
    let logs: Vec<Vec<u8>> = (0..2).map(|i| nested_log(depth, width, i, if small { 1 } else { 3 })).collect();
    let want: Vec<Vec<Seen>> = logs.iter().map(|b| solo(b)).collect();
    let msgs: Vec<UlogMessage> = items(&logs[0]).filter_map(|x| x.ok()).collect();
    let Some(UlogMessage::LoggedData(d)) = msgs.last() else { return };
    let last = msgs.last().unwrap();
    let alone = observe(last);
    let text = render(&d.data);
    let ops: Vec<usize> = (0..rounds).map(|_| r.below(6)).collect();
    let same = r.flip();
    let gate = Barrier::new(threads);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (gate, ops, logs, want, text, alone, d) = (&gate, &ops, &logs, &want, &text, &alone, &d);
            s.spawn(move || {
                let mut st = Stats::default();
                let mut ticks = vec![];
                for &o in ops.iter() {
                    gate.wait();
                    for _ in 0..if small { 1 } else { 20 } {
                        ticks.push(clock.tick());
                        let ok = match if same { o } else { (o + t) % 6 } {
                            0 | 1 => light() || flattened(last) == alone[3],
                            2 => render(&d.data) == *text,
                            3 => {
                                let mut e = vec![];
                                last.encode(&mut e).is_ok() && util::hash(&e) == alone[2]
                            }
                            4 => {
                                let c = d.data.clone();
                                let x = c.def_format.clone();
                                drop(c);
                                x.fields.len() == d.data.def_format.fields.len()
                            }
                            _ => solo(&logs[t % 2]) == want[t % 2],
                        };
                        if !ok {
                            fail("a thread working at the same moment as others got something else than alone".into());
                        }
                        st.c("steps of all threads at once");
                    }
                }
                clock.done(t, ticks);
                total.lock().unwrap().merge(st);
            });
        }
    });
}
#[cfg(not(feature = "thread_safe"))]
pub fn mt_case(_: &mut Rng, _: u64, _: bool, _: &mut Stats) -> Result<(), String> {
    Err("built without thread_safe".into())
}
