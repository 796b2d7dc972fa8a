//! Monitors of the derived mapping (C16 to C18): runs generated programs over logs and judges what they yield
//! against the description of the program and of the log.
use crate::ctx::Ctx;
use crate::derive_gen::*;
use crate::drive;
use crate::gen::{self, Cfg, Exp, Gen, WMsg};
use crate::model::*;
use crate::rng::Rng;
use crate::runner::Prop;
use crate::util;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Read;
use std::rc::Rc;
use std::sync::OnceLock;

/// A value of a user struct, as the generated program sees it.
#[derive(Clone, Debug, PartialEq)]
pub enum DVal {
    S(Prim, u64),
    L(Vec<DVal>),
    St(Vec<DVal>),
    None,
}
pub trait ToD {
    fn d(&self) -> DVal;
}
macro_rules! prim_d {
    ($($t:ty, $p:ident, $x:ident => $e:expr;)*) => { $(impl ToD for $t { fn d(&self) -> DVal { let $x = *self; DVal::S(Prim::$p, $e) } })* };
}
prim_d! {
    u8, U8, x => x as u64;
    u16, U16, x => x as u64;
    u32, U32, x => x as u64;
    u64, U64, x => x;
    i8, I8, x => x as u8 as u64;
    i16, I16, x => x as u16 as u64;
    i32, I32, x => x as u32 as u64;
    i64, I64, x => x as u64;
    f32, F32, x => x.to_bits() as u64;
    f64, F64, x => x.to_bits();
    bool, Bool, x => x as u64;
    yule_log::model::CChar, Char, x => x.0 as u64;
}
impl<T: ToD> ToD for Vec<T> {
    fn d(&self) -> DVal {
        DVal::L(self.iter().map(|x| x.d()).collect())
    }
}
impl<T: ToD> ToD for Option<T> {
    fn d(&self) -> DVal {
        match self {
            None => DVal::None,
            Some(x) => x.d(),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum DItem {
    /// Variant (by position) and its value.
    V(usize, DVal),
    /// Forwarded through the catch-all variant.
    O(CMsg),
    E(String),
}
impl DItem {
    fn kind(&self) -> String {
        match self {
            DItem::V(..) => "mapped".into(),
            DItem::O(m) => format!("forwarded {}", m.kind()),
            DItem::E(e) => format!("error {e}"),
        }
    }
}
#[derive(Clone, Debug)]
pub enum Op {
    Add(String),
    AddRef(String),
    Extend(Vec<String>),
    Forward(bool),
}
/// How the stream is made.
#[derive(Clone, Debug)]
pub enum Way {
    Stream,
    Builder(Vec<Op>),
}
#[derive(Debug)]
pub enum Stop {
    /// Builder call `.0` was refused with the error kind `.1`.
    Refused(usize, String),
    /// stream() failed.
    NoStream(String),
    /// Still going after that many items.
    Endless(usize),
}
pub type Ran = Result<Vec<DItem>, Stop>;
pub type Runner = fn(Box<dyn Read + '_>, &Way, usize) -> Ran;

pub fn collect<T>(it: impl Iterator<Item = T>, max: usize, conv: fn(T) -> DItem) -> Ran {
    let mut v = vec![];
    let mut it = it;
    while let Some(x) = it.next() {
        v.push(conv(x));
        if v.len() > max {
            return Err(Stop::Endless(v.len()));
        }
    }
    // The end of a stream is final.
    for _ in 0..3 {
        if let Some(x) = it.next() {
            v.push(conv(x));
        }
    }
    Ok(v)
}
#[macro_export]
macro_rules! derive_drive {
    ($e:ident, $rd:expr, $way:expr, $max:expr, $conv:expr) => {{
        use ::std::result::Result::{Err, Ok};
        use $crate::derive_run::{collect, Op, Stop, Way};
        match $way {
            Way::Stream => match $e::stream($rd) {
                Ok(it) => collect(it, $max, $conv),
                Err(e) => Err(Stop::NoStream($crate::canon::err(&e))),
            },
            Way::Builder(ops) => {
                let mut b = $e::builder($rd);
                for (i, op) in ops.iter().enumerate() {
                    let next = match op {
                        Op::Add(s) => b.add_subscription(s.clone()),
                        Op::AddRef(s) => b.add_subscription(s.as_str()),
                        Op::Extend(v) => b.extend_subscriptions(v.iter().map(|s| s.as_str())),
                        Op::Forward(x) => b.forward_subscriptions(*x),
                    };
                    b = match next {
                        Ok(b) => b,
                        Err(e) => return Err(Stop::Refused(i, $crate::canon::err(&e))),
                    };
                }
                match b.stream() {
                    Ok(it) => collect(it, $max, $conv),
                    Err(e) => Err(Stop::NoStream($crate::canon::err(&e))),
                }
            }
        }
    }};
}

struct Prog {
    index: u64,
    p: Program,
    runners: &'static [Runner],
}
static PROGS: OnceLock<Vec<Prog>> = OnceLock::new();

pub fn main(seed: u64, table: &[(u64, &'static [Runner])]) {
    let v = table.iter().map(|(k, r)| Prog { index: *k, p: Program::new(seed, *k), runners: r }).collect();
    let _ = PROGS.set(v);
    crate::runner::main(&props());
}

// ---- the log ---------------------------------------------------------------------------------------------

/// Concrete formats of the program's topics for one log.
fn formats(p: &Program, r: &mut Rng) -> Vec<FmtDef> {
    let mut required: HashSet<(usize, &str)> = HashSet::new();
    let mut mapped: HashSet<(usize, &str)> = HashSet::new();
    for s in &p.structs {
        for f in &s.fields {
            mapped.insert((s.topic, f.log.as_str()));
            if !f.opt {
                required.insert((s.topic, f.log.as_str()));
            }
        }
    }
    let drop_opt = r.flip();
    let mut out: Vec<FmtDef> = vec![];
    for (t, topic) in p.topics.iter().enumerate() {
        let mut fields = vec![];
        for f in &topic.fields {
            let need = required.contains(&(t, f.name.as_str())) || (topic.top && f.name == "timestamp");
            if !need && drop_opt && r.chance(1, 3) && topic.fields.len() > 1 && f.name != "v" {
                continue;
            }
            let arr = if f.arr { Some(r.range(1, 4)) } else { None };
            let base = match f.ty {
                TTy::P(q) => Base::P(q),
                TTy::N(n) => Base::Other(out[n].name.clone()),
            };
            fields.push(FieldDef { name: f.name.clone(), ty: Ty { base, arr } });
        }
        if fields.iter().all(|f| f.is_padding()) {
            fields.insert(0, FieldDef::new("only", Ty::p(Prim::U16)));
        }
        // Padding stays where it is now and then; everything else in any order.
        if r.flip() {
            r.shuffle(&mut fields);
        }
        for k in 0..*r.pick(&[0, 0, 0, 1, 2]) {
            let at = r.below(fields.len() + 1);
            let f = match r.below(3) {
                0 => FieldDef::new(&format!("_padding{}", 70 + k), Ty::pa(Prim::U8, r.range(1, 5))),
                _ => {
                    let (a, b) = (*r.pick(&["extra", "X", "y_", "X_index", "Timestamps", "tim"]), r.below(100));
                    FieldDef::new(
                        &format!("{a}{b}"),
                        if r.flip() { Ty::p(*r.pick(&PRIMS)) } else { Ty::pa(*r.pick(&PRIMS), r.range(1, 3)) },
                    )
                }
            };
            if fields.iter().all(|g| g.name != f.name) {
                fields.insert(at, f);
            }
        }
        out.push(FmtDef { name: topic.name.clone(), fields });
    }
    out
}

/// Makes formats disagree with the structs. Returns what was done.
fn mismatch(p: &Program, fmts: &mut [FmtDef], r: &mut Rng) -> Vec<&'static str> {
    let mut done = vec![];
    let n = r.range(1, 3);
    for _ in 0..n * 3 {
        if done.len() >= n {
            break;
        }
        let t = r.below(fmts.len());
        let names: Vec<String> = fmts.iter().take(t).map(|f| f.name.clone()).collect();
        let mapped: Vec<&SField> = p.structs.iter().filter(|s| s.topic == t).flat_map(|s| &s.fields).collect();
        if mapped.is_empty() {
            continue;
        }
        let name = r.pick(&mapped).log.clone();
        let last = fmts[t].fields.len() == 1;
        let Some(i) = fmts[t].fields.iter().position(|f| f.name == name) else {
            // A field that only some struct knows: let it exist with whatever type.
            let ty = if r.flip() { Ty::p(*r.pick(&PRIMS)) } else { Ty::pa(*r.pick(&PRIMS), r.range(1, 3)) };
            let at = r.below(fmts[t].fields.len() + 1);
            fmts[t].fields.insert(at, FieldDef { name, ty });
            done.push("appeared");
            continue;
        };
        let other: HashSet<String> = fmts[t].fields.iter().map(|f| f.name.clone()).collect();
        let f = &mut fmts[t].fields[i];
        let what = match r.below(8) {
            0 if !last => {
                fmts[t].fields.remove(i);
                "removed"
            }
            1 => {
                let new = match r.below(4) {
                    0 => f.name.to_uppercase(),
                    1 => format!("{}_", f.name),
                    2 => format!("{}2", f.name),
                    _ => f.name[..f.name.len() - 1].to_string(),
                };
                if new.is_empty() || other.contains(&new) || new.bytes().all(|b| b.is_ascii_digit()) {
                    continue;
                }
                f.name = new;
                "renamed"
            }
            2 | 3 => match f.ty.base {
                Base::P(q) => {
                    let same: Vec<Prim> = PRIMS.iter().copied().filter(|x| *x != q && x.size() == q.size()).collect();
                    let all: Vec<Prim> = PRIMS.iter().copied().filter(|x| *x != q).collect();
                    let v = if !same.is_empty() && r.chance(2, 3) { &same } else { &all };
                    f.ty.base = Base::P(*r.pick(v));
                    "retyped"
                }
                Base::Other(ref o) => {
                    let v: Vec<&String> = names.iter().filter(|x| *x != o).collect();
                    if !v.is_empty() && r.flip() {
                        f.ty.base = Base::Other(r.pick(&v).to_string());
                        "other-nested"
                    } else {
                        f.ty.base = Base::P(*r.pick(&PRIMS));
                        "nested-to-basic"
                    }
                }
            },
            4 | 5 => {
                f.ty.arr = match f.ty.arr {
                    None => Some(*r.pick(&[1, 1, 2, 3])),
                    Some(_) => None,
                };
                "reshaped"
            }
            6 if !names.is_empty() => {
                f.ty.base = Base::Other(r.pick(&names).clone());
                "basic-to-nested"
            }
            7 => {
                // A field of the old name in another place: swap two names.
                let j = r.below(fmts[t].fields.len());
                if i == j {
                    continue;
                }
                let a = fmts[t].fields[i].name.clone();
                fmts[t].fields[i].name = fmts[t].fields[j].name.clone();
                fmts[t].fields[j].name = a;
                "swapped"
            }
            _ => continue,
        };
        done.push(what);
    }
    done
}

struct Made {
    bytes: Vec<u8>,
    msgs: Vec<WMsg>,
    fmts: HashMap<String, Rc<FmtDef>>,
    summary: String,
}

fn make_log(p: &Program, e: &EnumDef, r: &mut Rng, mism: bool, errors: bool, ctx: &mut Ctx) -> Made {
    let mut fmts = formats(p, r);
    if mism {
        for w in mismatch(p, &mut fmts, r) {
            ctx.c(&format!("mismatch {w}"));
        }
    }
    let mut rr = r.fork();
    let mut cfg = Cfg::random(&mut rr);
    cfg.big = false;
    cfg.formats = *rr.pick(&[0, 1, 2]);
    cfg.max_fmt = 60;
    let removal = cfg.removal;
    let mut g = Gen::new(&mut rr, cfg);
    for f in &fmts {
        g.order.push(f.name.clone());
        g.fmts.insert(f.name.clone(), Rc::new(f.clone()));
    }
    g.definitions();
    let structs: Vec<&Struct> = e.variants.iter().filter_map(|v| v.1).map(|s| &p.structs[s]).collect();
    let tops: Vec<&Topic> = p.topics.iter().filter(|t| t.top).collect();
    let sub = |g: &mut Gen, r: &mut Rng| {
        let (name, multi) = match r.below(10) {
            0 | 1 => {
                let t = r.pick(&tops);
                (t.name.clone(), *r.pick(&[0, 1, 2, 3, 7, 255]))
            }
            2 => return g.random_sub(),
            _ => {
                let s = r.pick(&structs);
                (s.sub.clone(), s.multi())
            }
        };
        let id = if removal && r.chance(1, 3) && !g.subs.is_empty() {
            // Taken over by another subscription.
            *r.pick(&g.subs.keys().copied().collect::<Vec<_>>())
        } else {
            loop {
                let id = if r.flip() { r.u16() } else { *r.pick(&[0u16, 1, 2, 3, 4, 5, 9, 255, 256, 257, 65535]) };
                if !g.subs.contains_key(&id) {
                    break id;
                }
            }
        };
        g.sub(id, multi, &name);
    };
    for _ in 0..r.range(1, structs.len() + 1) {
        sub(&mut g, r);
    }
    for _ in 0..*r.pick(&[3, 8, 15, 30, 50]) {
        match r.below(24) {
            0..=13 => g.random_data(),
            14 | 15 => sub(&mut g, r),
            16 if errors => {
                let f = match r.below(3) {
                    _ if !g.in_data => gen::frame(b'L', b"x"),
                    0 => gen::frame(b'L', b"x"),
                    1 => gen::frame(b'D', &[7]),
                    _ => {
                        let id = (0..=65535u16).rev().find(|i| !g.subs.contains_key(i)).unwrap();
                        let mut b = id.to_le_bytes().to_vec();
                        b.extend_from_slice(&[0; 20]);
                        gen::frame(b'D', &b)
                    }
                };
                g.push("malformed", f, Exp::E);
            }
            17 if removal => {
                let ids: Vec<u16> = g.subs.keys().copied().collect();
                if !ids.is_empty() {
                    let id = *r.pick(&ids);
                    g.remove(id);
                }
            }
            _ => g.body_step(),
        }
    }
    let fmts = g.fmts.clone();
    let log = g.log();
    Made { bytes: log.bytes(), summary: log.summary(), msgs: log.msgs, fmts }
}

// ---- what must be delivered ------------------------------------------------------------------------------

/// Does the format have all required fields?
fn announced(s: &Struct, has: &dyn Fn(&str) -> bool) -> bool {
    s.fields.iter().all(|f| f.opt || has(&f.log))
}
fn from_raw(p: Prim, b: &[u8]) -> Vec<u64> {
    b.chunks_exact(p.size()).map(|c| p.get(c)).collect()
}
/// The value the struct must hold, None if the message does not fit it.
fn value(p: &Program, fmts: &HashMap<String, Rc<FmtDef>>, s: &Struct, m: &CFmt) -> Option<DVal> {
    let mut out = vec![];
    for f in &s.fields {
        let Some(x) = m.fields.iter().find(|x| *x.name == *f.log) else {
            if f.opt {
                out.push(DVal::None);
                continue;
            }
            return None;
        };
        // Padding is recorded as bytes: the definition tells its type.
        let val = match &x.val {
            CVal::Raw(b) => {
                let ty = fmts[&*m.name].fields.iter().find(|d| d.name == *f.log)?.ty.clone();
                match (ty.base, ty.arr) {
                    (Base::P(q), None) => CVal::S(q, q.get(b)),
                    (Base::P(q), Some(_)) => CVal::A(q, from_raw(q, b)),
                    _ => return None,
                }
            }
            v => v.clone(),
        };
        let nested = |k: usize, n: &CFmt| -> Option<DVal> {
            let s = &p.structs[k];
            let d = &fmts[&*n.name];
            if !announced(s, &|name| d.fields.iter().any(|f| f.name == name)) {
                return None;
            }
            value(p, fmts, s, n)
        };
        out.push(match (&f.kind, &val) {
            (FKind::P(a), CVal::S(b, v)) if a == b => DVal::S(*a, *v),
            (FKind::VP(a), CVal::A(b, v)) if a == b => DVal::L(v.iter().map(|x| DVal::S(*a, *x)).collect()),
            (FKind::N(k), CVal::N(n)) => nested(*k, n)?,
            (FKind::VN(k), CVal::AN(v)) => DVal::L(v.iter().map(|n| nested(*k, n)).collect::<Option<Vec<_>>>()?),
            _ => return None,
        });
    }
    Some(DVal::St(out))
}

/// What may come next in the stream.
#[derive(Clone, Debug)]
enum Slot {
    One(DItem),
    AnyErr,
    /// At most one of these: an error, or this forwarded message.
    Maybe(Option<CMsg>),
}

#[derive(Default)]
struct Seen {
    mapped: u64,
    unfit: u64,
    raw: u64,
    subs: u64,
    ignored: u64,
    failed: u64,
}

fn expect(p: &Program, e: &EnumDef, m: &Made, extra: &[String], forward: bool, seen: &mut Seen) -> Vec<Slot> {
    let catch = e.catch_all();
    let mapped: HashSet<&str> = e.variants.iter().filter_map(|v| v.1).map(|s| p.structs[s].sub.as_str()).collect();
    enum St {
        Variant(usize),
        Failed,
        None,
    }
    let mut ids: BTreeMap<u16, (String, St)> = BTreeMap::new();
    let mut out = vec![];
    for x in &m.msgs {
        let msg = match &x.exp {
            Exp::E if x.what == "D-nots" => {
                // Data without a timestamp is an error, unless nobody asked for it.
                let (name, st) = &ids[&u16::from_le_bytes([x.bytes[3], x.bytes[4]])];
                match st {
                    St::Failed => out.push(Slot::Maybe(None)),
                    _ if mapped.contains(name.as_str()) || extra.contains(name) => {
                        seen.unfit += 1;
                        out.push(Slot::AnyErr)
                    }
                    _ if catch => out.push(Slot::One(DItem::O(CMsg::Ignored(b'D')))),
                    _ => {}
                }
                continue;
            }
            Exp::E => {
                out.push(Slot::AnyErr);
                continue;
            }
            Exp::M(m) => m,
        };
        match msg {
            CMsg::Header { .. } => {}
            CMsg::Sub { id, multi, name } => {
                let v = e
                    .variants
                    .iter()
                    .position(|v| v.1.is_some_and(|s| p.structs[s].sub == *name && p.structs[s].multi() == *multi));
                let st = match v {
                    None => {
                        if forward && catch {
                            out.push(Slot::One(DItem::O(msg.clone())));
                            seen.subs += 1;
                        }
                        St::None
                    }
                    Some(v) => {
                        let s = &p.structs[e.variants[v].1.unwrap()];
                        let d = &m.fmts[name];
                        if announced(s, &|n| d.fields.iter().any(|f| f.name == n)) {
                            St::Variant(v)
                        } else {
                            out.push(Slot::AnyErr);
                            seen.failed += 1;
                            St::Failed
                        }
                    }
                };
                ids.insert(*id, (name.clone(), st));
            }
            CMsg::Data { id, fmt, .. } => {
                let (name, st) = &ids[id];
                match st {
                    St::Variant(v) => {
                        let s = &p.structs[e.variants[*v].1.unwrap()];
                        match value(p, &m.fmts, s, fmt) {
                            Some(d) => {
                                seen.mapped += 1;
                                out.push(Slot::One(DItem::V(*v, d)))
                            }
                            None => {
                                seen.unfit += 1;
                                out.push(Slot::AnyErr)
                            }
                        }
                    }
                    St::Failed => out.push(Slot::Maybe(if catch { Some(msg.clone()) } else { None })),
                    St::None => {
                        if catch {
                            if mapped.contains(name.as_str()) || extra.contains(name) {
                                seen.raw += 1;
                                out.push(Slot::One(DItem::O(msg.clone())));
                            } else {
                                seen.ignored += 1;
                                out.push(Slot::One(DItem::O(CMsg::Ignored(b'D'))));
                            }
                        }
                    }
                }
            }
            m => {
                if catch {
                    out.push(Slot::One(DItem::O(m.clone())));
                }
            }
        }
    }
    out
}

/// Which parts of the stream a property judges.
#[derive(Clone, Copy, PartialEq)]
enum View {
    Values,
    All,
}
fn fits(s: &Slot, i: &DItem, view: View) -> bool {
    match (s, i) {
        (Slot::AnyErr, DItem::E(_)) => true,
        (Slot::Maybe(_), DItem::E(_)) => true,
        (Slot::Maybe(Some(a)), DItem::O(b)) => a == b,
        (Slot::One(DItem::V(a, _)), DItem::V(b, _)) if view == View::All => a == b,
        (Slot::One(a), b) => a == b,
        _ => false,
    }
}
/// Matches the items against the slots; the first difference otherwise.
fn judge(slots: &[Slot], items: &[DItem], view: View) -> Option<(String, String)> {
    // Positions in `slots` that can be reached after the items so far (slots of kind Maybe can be skipped).
    let close = |set: &mut Vec<usize>| {
        let mut k = 0;
        while k < set.len() {
            let s = set[k];
            if matches!(slots.get(s), Some(Slot::Maybe(_))) && !set.contains(&(s + 1)) {
                set.push(s + 1);
            }
            k += 1;
        }
    };
    let mut cur = vec![0];
    close(&mut cur);
    for (n, i) in items.iter().enumerate() {
        let mut next = vec![];
        for &c in &cur {
            if slots.get(c).is_some_and(|s| fits(s, i, view)) && !next.contains(&(c + 1)) {
                next.push(c + 1);
            }
        }
        if next.is_empty() {
            let want = cur.iter().max().and_then(|&c| slots.get(c));
            let (wk, wt) = match want {
                None => ("end".to_string(), "the end of the stream".to_string()),
                Some(Slot::One(d)) => (d.kind(), format!("{d:?}")),
                Some(Slot::AnyErr) => ("error".into(), "an error".into()),
                Some(Slot::Maybe(_)) => ("error".into(), "an error or the raw message".into()),
            };
            let sig = if wk == i.kind() { format!("wrong {wk}") } else { format!("{wk} expected, got {}", i.kind()) };
            return Some((sig, format!("item {n}: {}", crate::props::diff(&wt, &format!("{i:?}")))));
        }
        close(&mut next);
        cur = next;
    }
    if cur.contains(&slots.len()) {
        return None;
    }
    let want = &slots[*cur.iter().max().unwrap()];
    let k = match want {
        Slot::One(d) => d.kind(),
        _ => "error".into(),
    };
    Some((
        format!("{k} missing"),
        format!("the stream ended after {} items; missing {}", items.len(), util::clip(&format!("{want:?}"), 400)),
    ))
}
fn only_values(slots: Vec<Slot>) -> Vec<Slot> {
    slots
        .into_iter()
        .filter_map(|s| match s {
            Slot::One(DItem::O(_)) => None,
            Slot::Maybe(_) => Some(Slot::Maybe(None)),
            s => Some(s),
        })
        .collect()
}

fn ops(r: &mut Rng, p: &Program, m: &Made, allowed: bool) -> (Vec<Op>, Vec<String>, bool) {
    let mut v = vec![];
    let mut extra = vec![];
    let mut fwd = false;
    let mut names: Vec<String> = m.fmts.keys().cloned().collect();
    names.sort();
    names.push("no_such_topic".into());
    for t in &p.topics {
        if t.top {
            names.push(t.name.clone());
        }
    }
    for _ in 0..r.below(4) {
        let n = r.pick(&names).clone();
        match r.below(5) {
            0 if allowed => {
                extra.push(n.clone());
                v.push(Op::Add(n));
            }
            1 if allowed => {
                extra.push(n.clone());
                v.push(Op::AddRef(n));
            }
            2 if allowed => {
                let l: Vec<String> = (0..r.below(3)).map(|_| r.pick(&names).clone()).collect();
                extra.extend(l.iter().cloned());
                v.push(Op::Extend(l));
            }
            3 if allowed => {
                // The last setting is the one that counts.
                fwd = r.chance(3, 4);
                v.push(Op::Forward(fwd));
            }
            _ if !fwd => v.push(Op::Forward(false)),
            _ => {}
        }
    }
    (v, extra, fwd)
}

fn pick_program<'a>(case: u64, r: &mut Rng) -> (&'a Prog, usize) {
    let progs = PROGS.get().expect("programs");
    let p = &progs[(case % progs.len() as u64) as usize];
    (p, r.below(p.p.enums.len()))
}

fn run(pr: &Prog, k: usize, m: &Made, way: &Way, r: &mut Rng) -> Ran {
    let max = drive::item_bound(&m.bytes) + 64;
    let rd: Box<dyn Read + '_> = if r.chance(1, 4) {
        let chunk = *r.pick(&[1, 3, 50, 5000]);
        Box::new(drive::Chunky::new(&m.bytes, r.fork(), chunk, r.flip()))
    } else {
        Box::new(&m.bytes[..])
    };
    (pr.runners[k])(rd, way, max)
}
fn where_(pr: &Prog, e: &EnumDef, m: &Made, way: &Way) -> String {
    format!("program {} enum {}, {way:?}, log: {}", pr.index, e.ident, m.summary)
}
fn items_of(ctx: &mut Ctx, ran: Ran, at: &str, b: &[u8]) -> Option<Vec<DItem>> {
    match ran {
        Ok(v) => Some(v),
        Err(Stop::Endless(n)) => {
            ctx.violate("endless", format!("still going after {n} items; {at}"), b);
            None
        }
        Err(Stop::NoStream(k)) => {
            ctx.violate("no-stream", format!("stream() failed with {k}; {at}"), b);
            None
        }
        Err(Stop::Refused(i, k)) => {
            ctx.violate("refused", format!("builder call {i} refused with {k}; {at}"), b);
            None
        }
    }
}

fn case_values(ctx: &mut Ctx, r: &mut Rng, case: u64, mism: bool) {
    let (pr, k) = pick_program(case, r);
    let e = &pr.p.enums[k];
    let m = make_log(&pr.p, e, r, mism, false, ctx);
    ctx.set_input(&m.bytes);
    let (o, extra, fwd) = ops(r, &pr.p, &m, e.catch_all());
    let way = if r.flip() && o.is_empty() { Way::Stream } else { Way::Builder(o) };
    let mut seen = Seen::default();
    let slots = expect(&pr.p, e, &m, &extra, fwd, &mut seen);
    let at = where_(pr, e, &m, &way);
    let ran = run(pr, k, &m, &way, r);
    let Some(items) = items_of(ctx, ran, &at, &m.bytes) else {
        ctx.eval(0, false);
        return;
    };
    let items: Vec<DItem> = items.into_iter().filter(|i| !matches!(i, DItem::O(_))).collect();
    let slots = only_values(slots);
    ctx.n("mapped values compared", seen.mapped);
    ctx.n("subscriptions that do not fit", seen.failed);
    ctx.n("messages that do not fit", seen.unfit);
    ctx.n(
        "struct fields compared",
        items.iter().map(|i| if let DItem::V(_, DVal::St(v)) = i { v.len() as u64 } else { 0 }).sum(),
    );
    for s in e.variants.iter().filter_map(|v| v.1).map(|s| &pr.p.structs[s]) {
        for f in &s.fields {
            let kind = match f.kind {
                FKind::P(_) => "basic",
                FKind::VP(_) => "array",
                FKind::N(_) => "nested",
                FKind::VN(_) => "nested array",
            };
            ctx.c(&format!("field {}{kind}", if f.opt { "optional " } else { "" }));
        }
    }
    let nontrivial = if mism { seen.failed + seen.unfit > 0 } else { seen.mapped > 0 };
    ctx.eval(util::hash(&m.bytes) ^ pr.index, nontrivial);
    ctx.sample(|| format!("{at} -> {} mapped, {} errors", seen.mapped, seen.failed + seen.unfit));
    if mism && seen.mapped > 0 && nontrivial {
        ctx.c("mixed logs");
    }
    if let Some((sig, d)) = judge(&slots, &items, View::Values) {
        ctx.violate(&sig, format!("{d}; {at}"), &m.bytes);
    }
}

fn case_c16(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    case_values(ctx, r, case, false)
}
fn case_c17(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    case_values(ctx, r, case, true)
}

fn case_c18(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let (pr, k) = pick_program(case, r);
    let e = &pr.p.enums[k];
    let errors = r.flip();
    let m = make_log(&pr.p, e, r, false, errors, ctx);
    ctx.set_input(&m.bytes);
    let (mut o, extra, fwd) = ops(r, &pr.p, &m, e.catch_all());
    if !e.catch_all() && r.flip() {
        // Must be refused.
        let n = r.pick(&pr.p.topics).name.clone();
        let bad = match r.below(5) {
            0 => Op::Add(n),
            1 => Op::AddRef("x".into()),
            2 => Op::Extend(vec![n]),
            3 => Op::Extend(vec![]),
            _ => Op::Forward(true),
        };
        let empty = matches!(&bad, Op::Extend(v) if v.is_empty());
        let at = o.len();
        o.push(bad);
        let way = Way::Builder(o);
        let ran = run(pr, k, &m, &way, r);
        ctx.eval(util::hash(format!("{way:?}{}", pr.index).as_bytes()), true);
        let w = where_(pr, e, &m, &way);
        match ran {
            Err(Stop::Refused(i, k)) if i == at && k == "InvalidConfiguration" => ctx.c("refused configurations"),
            // Asking for no extra subscription may as well be accepted.
            _ if empty => {}
            Err(Stop::Refused(i, k)) => ctx.violate("refused", format!("builder call {i} refused with {k}; {w}"), &m.bytes),
            _ => ctx.violate("not-refused", format!("the configuration was accepted; {w}"), &m.bytes),
        }
        return;
    }
    let way = if r.flip() && o.is_empty() { Way::Stream } else { Way::Builder(o) };
    let mut seen = Seen::default();
    let slots = expect(&pr.p, e, &m, &extra, fwd, &mut seen);
    let at = where_(pr, e, &m, &way);
    let ran = run(pr, k, &m, &way, r);
    let Some(items) = items_of(ctx, ran, &at, &m.bytes) else {
        ctx.eval(0, false);
        return;
    };
    ctx.n("mapped", seen.mapped);
    ctx.n("data forwarded decoded", seen.raw);
    ctx.n("data forwarded as ignored", seen.ignored);
    ctx.n("subscriptions forwarded", seen.subs);
    for i in &items {
        match i {
            DItem::O(m) => ctx.c(&format!("item {}", m.kind())),
            DItem::V(..) => ctx.c("item mapped"),
            DItem::E(_) => ctx.c("item error"),
        }
    }
    ctx.c(if e.catch_all() { "streams with a catch-all" } else { "streams without a catch-all" });
    ctx.eval(util::hash(&m.bytes) ^ pr.index, slots.len() > 2);
    ctx.sample(|| format!("{at} -> {} items", items.len()));
    if let Some((sig, d)) = judge(&slots, &items, View::All) {
        ctx.violate(&sig, format!("{d}; {at}"), &m.bytes);
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C16",
            quick: 30000,
            thorough: 60000,
            case: case_c16,
            rule: "a generated program over a matching log that yields at least one mapped message, all values and errors of the stream compared; distinct by log and program",
            need: &["mapped values compared", "field basic", "field array", "field nested", "field nested array", "field optional basic"],
        },
        Prop {
            id: "C17",
            quick: 30000,
            thorough: 60000,
            case: case_c17,
            rule: "a generated program over a log in which at least one subscription or message does not fit its struct; distinct by log and program",
            need: &["subscriptions that do not fit", "messages that do not fit", "mixed logs", "mismatch removed", "mismatch retyped", "mismatch reshaped"],
        },
        Prop {
            id: "C18",
            quick: 30000,
            thorough: 60000,
            case: case_c18,
            rule: "a generated program over a log with at least three expected items, the whole stream compared in order, or a configuration that must be refused; distinct by log and program",
            need: &["data forwarded decoded", "data forwarded as ignored", "subscriptions forwarded", "refused configurations", "streams with a catch-all", "streams without a catch-all", "item error"],
        },
    ]
}
