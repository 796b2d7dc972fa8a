//! Derived streams against the plain parser's items, on whatever bytes and from whatever source.
#![cfg(feature = "mapped")]
use crate::canon;
use crate::ctx::Ctx;
use crate::drive::{self, Chunky, Failing, Opts, KINDS};
use crate::gen::{self, Cfg, Gen};
use crate::hostile;
use super::faults::Pausing;
use crate::model::*;
use crate::rng::Rng;
use crate::runner::Prop;
use crate::{alloc, util};
use std::collections::HashMap;
use std::io::{self, Read};
use yule_log::errors::ULogError;
use yule_log::model::msg::UlogMessage;
use yule_log::macro_utils::{ULogAccessor, ULogAccessorFactory};
use yule_log::model::{def, inst, CChar};
use yule_log::{ULogData, ULogMessages};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        quick: 60_000,
        thorough: 2_500_000,
        case: c26,
        rule: "derived stream over damaged, hostile, truncated or well-formed bytes from a whole, piecemeal, interrupted or failing source: its items compared one by one with the mapping of the plain parser's items; bytes asked for and live heap watched; at least 3 items",
        need: &[
            "source whole", "source piecemeal", "source failing", "source pausing", "bytes well-formed", "bytes damaged", "bytes framed damage", "bytes cut",
            "bytes hostile", "bytes appended", "mapped", "mapping errors", "parser errors", "forwarded", "io failures", "steps", "cycles",
            "schema errors", "forwarded subscriptions", "dropped", "bare",
        ],
    }]
}

// ---- user structs ----------------------------------------------------------------------------------------

/// A value as text, exact to the bit.
pub(super) trait Show {
    fn show(&self) -> String;
}
macro_rules! show_num {
    ($($t:ty => $e:expr),*) => { $( impl Show for $t { fn show(&self) -> String { let f: fn(&$t) -> u64 = $e; format!("{:x}", f(self)) } } )* };
}
show_num!(u8 => |x| *x as u64, u16 => |x| *x as u64, u32 => |x| *x as u64, u64 => |x| *x, i8 => |x| *x as u8 as u64,
    i16 => |x| *x as u16 as u64, i32 => |x| *x as u32 as u64, i64 => |x| *x as u64, f32 => |x| x.to_bits() as u64,
    f64 => |x| x.to_bits(), bool => |x| *x as u64, CChar => |x| x.0 as u64);
impl<T: Show> Show for Vec<T> {
    fn show(&self) -> String {
        format!("[{}]", self.iter().map(|x| x.show()).collect::<Vec<_>>().join(","))
    }
}
impl<T: Show> Show for Option<T> {
    fn show(&self) -> String {
        self.as_ref().map_or("none".into(), |x| x.show())
    }
}
pub(super) enum K {
    P(Prim),
    A(Prim),
    S(&'static Spec),
    AS(&'static Spec),
}
/// What the struct declares: the logged name of each field, its kind, whether it is optional.
pub(super) struct Spec {
    pub sub: &'static str,
    pub multi: u8,
    pub fields: &'static [(&'static str, K, bool)],
}
macro_rules! shown {
    ($($t:ident { $($f:ident),* })*) => { $( impl Show for $t { fn show(&self) -> String {
        format!("{{{}}}", [ $( self.$f.show() ),* ].join(";"))
    } } )* };
}

#[derive(ULogData)]
struct Cell {
    rpm: i32,
    #[yule_log(field_name = "volt")]
    voltage: f32,
    tag: Option<Vec<CChar>>,
}
#[derive(ULogData)]
struct Wind {
    timestamp: u64,
    x: f32,
    y: Option<i16>,
    ok: Option<bool>,
}
#[derive(ULogData)]
#[yule_log(subscription_name = "esc_status", multi_id = 1)]
struct SecondEsc {
    timestamp: u64,
    #[yule_log(field_name = "esc")]
    cells: Vec<Cell>,
    count: u8,
}
#[derive(ULogData)]
#[yule_log(subscription_name = "esc_status")]
struct FirstEsc {
    timestamp: u64,
    count: u8,
    wide: Option<f64>,
}
#[derive(ULogData)]
struct BatteryStatus {
    cell: Cell,
    id: Option<u16>,
    more: Option<Vec<Cell>>,
    history: Vec<i64>,
    #[yule_log(field_name = "timestamp")]
    at: u64,
    _padding0: Option<Vec<u8>>,
}
#[derive(ULogData)]
struct A {
    timestamp: u64,
    x: Option<f32>,
}
#[derive(ULogData)]
struct B {
    timestamp: u64,
    y: u8,
    z: Option<Vec<u8>>,
    _padding0: Option<Vec<u8>>,
}
#[derive(ULogData)]
struct E {
    x: u8,
    n: Option<Vec<CChar>>,
}
#[derive(ULogData)]
#[yule_log(subscription_name = "c")]
struct Sea {
    #[yule_log(field_name = "timestamp")]
    t: u64,
    #[yule_log(field_name = "x")]
    inner: Option<E>,
    #[yule_log(field_name = "y")]
    many: Option<Vec<E>>,
}
#[derive(ULogData)]
#[yule_log(subscription_name = "a", multi_id = 1)]
struct AOne {
    timestamp: u64,
    value: i32,
    z: CChar,
    n: Option<bool>,
}
shown! {
    Cell { rpm, voltage, tag }
    Wind { timestamp, x, y, ok }
    SecondEsc { timestamp, cells, count }
    FirstEsc { timestamp, count, wide }
    BatteryStatus { cell, id, more, history, at, _padding0 }
    A { timestamp, x }
    B { timestamp, y, z, _padding0 }
    E { x, n }
    Sea { t, inner, many }
    AOne { timestamp, value, z, n }
}
static CELL: Spec =
    Spec { sub: "cell", multi: 0, fields: &[("rpm", K::P(Prim::I32), false), ("volt", K::P(Prim::F32), false), ("tag", K::A(Prim::Char), true)] };
static WIND: Spec = Spec {
    sub: "wind",
    multi: 0,
    fields: &[("timestamp", K::P(Prim::U64), false), ("x", K::P(Prim::F32), false), ("y", K::P(Prim::I16), true), ("ok", K::P(Prim::Bool), true)],
};
static ESC1: Spec = Spec {
    sub: "esc_status",
    multi: 1,
    fields: &[("timestamp", K::P(Prim::U64), false), ("esc", K::AS(&CELL), false), ("count", K::P(Prim::U8), false)],
};
static ESC0: Spec = Spec {
    sub: "esc_status",
    multi: 0,
    fields: &[("timestamp", K::P(Prim::U64), false), ("count", K::P(Prim::U8), false), ("wide", K::P(Prim::F64), true)],
};
static BATT: Spec = Spec {
    sub: "battery_status",
    multi: 0,
    fields: &[
        ("cell", K::S(&CELL), false),
        ("id", K::P(Prim::U16), true),
        ("more", K::AS(&CELL), true),
        ("history", K::A(Prim::I64), false),
        ("timestamp", K::P(Prim::U64), false),
        ("_padding0", K::A(Prim::U8), true),
    ],
};
static SA: Spec = Spec { sub: "a", multi: 0, fields: &[("timestamp", K::P(Prim::U64), false), ("x", K::P(Prim::F32), true)] };
static SB: Spec = Spec {
    sub: "b",
    multi: 0,
    fields: &[
        ("timestamp", K::P(Prim::U64), false),
        ("y", K::P(Prim::U8), false),
        ("z", K::A(Prim::U8), true),
        ("_padding0", K::A(Prim::U8), true),
    ],
};
static SE: Spec = Spec { sub: "e", multi: 0, fields: &[("x", K::P(Prim::U8), false), ("n", K::A(Prim::Char), true)] };
static SC: Spec =
    Spec { sub: "c", multi: 0, fields: &[("timestamp", K::P(Prim::U64), false), ("x", K::S(&SE), true), ("y", K::AS(&SE), true)] };
static SA1: Spec = Spec {
    sub: "a",
    multi: 1,
    fields: &[
        ("timestamp", K::P(Prim::U64), false),
        ("value", K::P(Prim::I32), false),
        ("z", K::P(Prim::Char), false),
        ("n", K::P(Prim::Bool), true),
    ],
};

#[derive(ULogMessages)]
enum Flight {
    Wind(Wind),
    Second(SecondEsc),
    First(FirstEsc),
    Battery(BatteryStatus),
    #[yule_log(forward_other)]
    Rest(UlogMessage),
}
#[derive(ULogMessages)]
enum FlightOnly {
    Battery(BatteryStatus),
    Second(SecondEsc),
    Wind(Wind),
}
#[derive(ULogMessages)]
enum Letters {
    A(A),
    #[yule_log(forward_other)]
    Rest(UlogMessage),
    B(B),
    Sea(Sea),
    AOne(AOne),
}
#[derive(ULogMessages)]
enum LettersOnly {
    A(A),
    B(B),
    Sea(Sea),
}

/// An item of a derived stream.
#[derive(Clone, Debug, PartialEq)]
pub(super) enum D {
    V(usize, String),
    O(CMsg),
    E(String),
    /// An error of the mapping, of whatever kind.
    Bad,
    /// One item for data of that variant, but the harness does not say which (a format with two fields of one name).
    Any,
}
trait Items: Sized {
    const SPECS: &'static [&'static Spec];
    const REST: bool;
    fn d(self) -> D;
}
macro_rules! items {
    ($t:ident, $rest:expr, [$($v:ident = $s:ident),*] $(, $o:ident)?) => { impl Items for $t {
        const SPECS: &'static [&'static Spec] = &[$( &$s ),*];
        const REST: bool = $rest;
        #[allow(unused_assignments)]
        fn d(self) -> D {
            let mut n = 0;
            $( if let $t::$v(x) = &self { return D::V(n, x.show()); } n += 1; )*
            match self {
                $( $t::$o(m) => D::O(canon::msg(&m)), )?
                #[allow(unreachable_patterns)]
                _ => D::V(n, String::new()),
            }
        }
    } };
}
items!(Flight, true, [Wind = WIND, Second = ESC1, First = ESC0, Battery = BATT], Rest);
items!(FlightOnly, false, [Battery = BATT, Second = ESC1, Wind = WIND]);
items!(Letters, true, [A = SA, B = SB, Sea = SC, AOne = SA1], Rest);
items!(LettersOnly, false, [A = SA, B = SB, Sea = SC]);

// ---- the reference mapping -------------------------------------------------------------------------------

pub(super) enum Miss {
    Bad,
    Unclear,
}
/// Whether padding has the size its type says.
pub(super) fn whole(b: &[u8], ty: &str) -> bool {
    let (base, n) = match ty.split_once('[') {
        Some((base, n)) => (base, n.trim_end_matches(']').parse().unwrap_or(usize::MAX)),
        None => (ty, 1),
    };
    Prim::from_text(base).is_some_and(|p| b.len() == n.saturating_mul(p.size()))
}
fn scalars(p: Prim, v: &CVal, ty: &str) -> Result<String, Miss> {
    match v {
        CVal::S(q, b) if *q == p => Ok(format!("{b:x}")),
        // Padding cut short is no value of its type.
        CVal::Raw(b) if !whole(b, ty) => Err(Miss::Unclear),
        CVal::Raw(b) if ty == p.text() => Ok(format!("{:x}", p.get(b))),
        _ => Err(Miss::Bad),
    }
}
fn arrays(p: Prim, v: &CVal, ty: &str) -> Result<String, Miss> {
    let join = |v: Vec<String>| Ok(format!("[{}]", v.join(",")));
    match v {
        CVal::A(q, b) if *q == p => join(b.iter().map(|x| format!("{x:x}")).collect()),
        CVal::Raw(b) if !whole(b, ty) => Err(Miss::Unclear),
        CVal::Raw(b) if ty.strip_prefix(p.text()).is_some_and(|x| x.starts_with('[')) => {
            join(b.chunks(p.size()).map(|x| format!("{:x}", p.get(x))).collect())
        }
        _ => Err(Miss::Bad),
    }
}
pub(super) fn map(s: &Spec, f: &CFmt) -> Result<String, Miss> {
    let mut out = vec![];
    for (name, k, opt) in s.fields {
        let mut found = f.fields.iter().filter(|x| *x.name == **name);
        let first = found.next();
        if found.next().is_some() {
            return Err(Miss::Unclear);
        }
        let Some(x) = first else {
            if !opt {
                return Err(Miss::Bad);
            }
            out.push("none".into());
            continue;
        };
        out.push(match k {
            K::P(p) => scalars(*p, &x.val, &x.ty)?,
            K::A(p) => arrays(*p, &x.val, &x.ty)?,
            K::S(t) => match &x.val {
                CVal::N(n) => map(t, n)?,
                CVal::Raw(_) => return Err(Miss::Unclear),
                _ => return Err(Miss::Bad),
            },
            K::AS(t) => match &x.val {
                CVal::AN(v) => {
                    let v: Result<Vec<_>, _> = v.iter().map(|n| map(t, n)).collect();
                    format!("[{}]", v?.join(","))
                }
                CVal::Raw(_) => return Err(Miss::Unclear),
                _ => return Err(Miss::Bad),
            },
        });
    }
    Ok(format!("{{{}}}", out.join(";")))
}
/// What a derived stream must yield for the items of the plain parser (with the same allow list), together with the
/// position of the item each comes from.
fn reference(plain: &[CItem], specs: &[&Spec], rest: bool, fwd: bool, ctx: &mut Ctx) -> Vec<(usize, D)> {
    let mut out = vec![];
    let mut formats: HashMap<String, Vec<String>> = HashMap::new();
    let mut subs: HashMap<u16, usize> = HashMap::new();
    for (i, x) in plain.iter().enumerate() {
        let m = match x {
            CItem::E(e) => {
                ctx.c(if e.starts_with("Io") { "io failures" } else { "parser errors" });
                out.push((i, D::E(e.clone())));
                continue;
            }
            CItem::M(m) => m,
        };
        match m {
            CMsg::Format(t) => {
                let (name, fields) = t.split_once(':').unwrap_or((t, ""));
                let names = fields.split(';').filter_map(|f| f.rsplit_once(' ')).map(|f| f.1.to_string()).collect();
                formats.insert(name.to_string(), names);
            }
            CMsg::Sub { multi, id, name } => {
                subs.remove(id);
                match specs.iter().position(|s| s.sub == name && s.multi == *multi) {
                    Some(k) => {
                        let f = formats.get(name).cloned().unwrap_or_default();
                        if specs[k].fields.iter().all(|(n, _, opt)| *opt || f.iter().any(|x| x == n)) {
                            subs.insert(*id, k);
                        } else {
                            ctx.c("schema errors");
                            out.push((i, D::Bad));
                        }
                    }
                    None if fwd && rest => {
                        ctx.c("forwarded subscriptions");
                        out.push((i, D::O(m.clone())));
                    }
                    None => {}
                }
                continue;
            }
            CMsg::Data { id, fmt, .. } => {
                if let Some(k) = subs.get(id) {
                    ctx.c("mapped");
                    out.push((
                        i,
                        match map(specs[*k], fmt) {
                            Ok(s) => D::V(*k, s),
                            Err(Miss::Bad) => {
                                ctx.c("mapping errors");
                                D::Bad
                            }
                            Err(Miss::Unclear) => D::Any,
                        },
                    ));
                    continue;
                }
            }
            _ => {}
        }
        if rest {
            ctx.c("forwarded");
            out.push((i, D::O(m.clone())));
        } else {
            ctx.c("dropped");
        }
    }
    out
}
fn agree(want: &D, got: &D) -> bool {
    match (want, got) {
        (D::Bad, D::E(_)) | (D::Any, D::V(..) | D::E(_)) => true,
        _ => want == got,
    }
}

// ---- running derived streams -----------------------------------------------------------------------------

/// How the stream is configured.
#[derive(Clone, Debug)]
pub(super) struct Way {
    pub which: usize,
    pub builder: bool,
    pub fwd: bool,
    pub extra: Vec<String>,
}
pub(super) type Boxed<'a> = Box<dyn Iterator<Item = Result<D, ULogError>> + 'a>;
pub(super) fn open<'a, R: Read + 'a>(rd: R, w: &Way) -> Boxed<'a> {
    macro_rules! any {
        ($t:ident) => {
            if w.builder {
                let mut b = $t::builder(rd);
                if w.fwd {
                    b = b.forward_subscriptions(true).expect("library: forward_subscriptions() failed");
                }
                for (i, n) in w.extra.iter().enumerate() {
                    b = if i % 2 == 0 {
                        b.add_subscription(n.as_str()).expect("library: add_subscription() failed")
                    } else {
                        b.extend_subscriptions([n.clone()]).expect("library: extend_subscriptions() failed")
                    };
                }
                Box::new(b.stream().expect("library: stream() failed").map(|x| x.map(Items::d)))
            } else {
                Box::new($t::stream(rd).expect("library: stream() failed").map(|x| x.map(Items::d)))
            }
        };
    }
    match w.which {
        0 => any!(Flight),
        1 => any!(FlightOnly),
        2 => any!(Letters),
        _ => any!(LettersOnly),
    }
}
pub(super) fn specs(w: &Way) -> (&'static [&'static Spec], bool) {
    match w.which {
        0 => (Flight::SPECS, Flight::REST),
        1 => (FlightOnly::SPECS, FlightOnly::REST),
        2 => (Letters::SPECS, Letters::REST),
        _ => (LettersOnly::SPECS, LettersOnly::REST),
    }
}
pub(super) fn plain_opts(w: &Way) -> Opts {
    let mut allow: Vec<String> = specs(w).0.iter().map(|s| s.sub.to_string()).collect();
    allow.extend(w.extra.iter().cloned());
    Opts { hdr: false, ts: true, pad: true, allow: Some(allow) }
}
pub(super) fn way(r: &mut Rng, letters: bool, names: &[String]) -> Way {
    let rest = r.chance(2, 3);
    let builder = r.flip();
    let which = usize::from(letters) * 2 + usize::from(!rest);
    let mut extra = vec![];
    if rest && builder {
        for _ in 0..r.below(3) {
            extra.push(if names.is_empty() || r.chance(1, 4) { "d".to_string() } else { r.pick(names).clone() });
        }
    }
    Way { which, builder, fwd: rest && builder && r.flip(), extra }
}

/// Builders asked for what needs a catch-all, without one.
pub(super) fn misuse(first: bool) -> [Option<ULogError>; 3] {
    macro_rules! any {
        ($t:ident) => {
            [
                $t::builder(&b""[..]).add_subscription("x").err(),
                $t::builder(&b""[..]).extend_subscriptions(["x"]).err(),
                $t::builder(&b""[..]).forward_subscriptions(true).err(),
            ]
        };
    }
    if first {
        any!(FlightOnly)
    } else {
        any!(LettersOnly)
    }
}

/// An accessor in use by hand.
pub(super) type Hand = Box<dyn Fn(&inst::Format) -> Result<String, ULogError>>;
fn hand_of<T>(f: &def::Format) -> Result<Hand, ULogError>
where
    T: ULogAccessorFactory + Show,
    T::Accessor: ULogAccessor<Output = T> + 'static,
{
    let a = T::from_format(f)?;
    Ok(Box::new(move |x| a.get_data(x).map(|v| v.show())))
}
/// The accessor of a stream's variant for a format.
pub(super) fn hand(which: usize, variant: usize, f: &def::Format) -> Result<Hand, ULogError> {
    match (which, variant) {
        (0, 0) | (1, 2) => hand_of::<Wind>(f),
        (0 | 1, 1) => hand_of::<SecondEsc>(f),
        (0, 2) => hand_of::<FirstEsc>(f),
        (0 | 1, _) => hand_of::<BatteryStatus>(f),
        (_, 0) => hand_of::<A>(f),
        (_, 1) => hand_of::<B>(f),
        (_, 2) => hand_of::<Sea>(f),
        _ => hand_of::<AOne>(f),
    }
}

// ---- inputs ----------------------------------------------------------------------------------------------

fn field_of(r: &mut Rng, name: &str, k: &K) -> FieldDef {
    let n = r.range(1, 4);
    let mut ty = match k {
        K::P(p) => Ty::p(*p),
        K::A(p) => Ty::pa(*p, n),
        K::S(s) => Ty { base: Base::Other(s.sub.into()), arr: None },
        K::AS(s) => Ty { base: Base::Other(s.sub.into()), arr: Some(n) },
    };
    if name != "timestamp" && r.chance(1, 25) {
        ty = match r.below(3) {
            0 => Ty::p(*r.pick(&PRIMS)),
            1 => Ty::pa(*r.pick(&PRIMS), n),
            _ => Ty { arr: if ty.arr.is_some() { None } else { Some(n) }, ..ty },
        };
    }
    FieldDef { name: name.into(), ty }
}
fn topic(g: &mut Gen, subs: &[&Spec]) {
    let mut fields: Vec<FieldDef> = vec![];
    for s in subs {
        for (name, k, opt) in s.fields {
            let keep = if *name == "timestamp" {
                true
            } else if *opt {
                g.r.chance(2, 3)
            } else {
                g.r.chance(24, 25)
            };
            if keep && !fields.iter().any(|f| f.name == *name) && *name != "_padding0" {
                fields.push(field_of(g.r, name, k));
            }
        }
    }
    for k in 0..g.r.below(3) {
        fields.push(FieldDef { name: format!("other{k}"), ty: Ty::p(*g.r.pick(&PRIMS)) });
    }
    g.r.shuffle(&mut fields);
    if g.r.chance(1, 3) {
        let at = g.r.below(fields.len() + 1);
        fields.insert(at, FieldDef::new("_padding1", Ty::pa(Prim::U8, 3)));
    }
    if g.r.chance(1, 2) {
        let t = if g.r.chance(4, 5) { Ty::pa(Prim::U8, g.r.range(1, 5)) } else { Ty::p(*g.r.pick(&PRIMS)) };
        fields.push(FieldDef::new("_padding0", t));
    }
    g.add_format(FmtDef { name: subs[0].sub.into(), fields });
}
pub(super) fn flight_log(r: &mut Rng, letters: bool, body: usize, small: bool) -> gen::Log {
    let cfg = Cfg { crowd: false, redefine: false, big: false, body, ..if small { Cfg::small(r) } else { Cfg::random(r) } };
    let removal = cfg.removal;
    let mut g = Gen::new(r, cfg);
    g.definitions();
    let (inner, tops): (&Spec, Vec<Vec<&Spec>>) = if letters {
        (&SE, vec![vec![&SA, &SA1], vec![&SB], vec![&SC]])
    } else {
        (&CELL, vec![vec![&WIND], vec![&ESC1, &ESC0], vec![&BATT]])
    };
    topic(&mut g, &[inner]);
    for t in &tops {
        if g.r.chance(1, 3) {
            g.neutral();
        }
        topic(&mut g, t);
        g.topics.push(t[0].sub.to_string());
    }
    let mut id = 0;
    for t in &tops {
        for _ in 0..g.r.range(1, 3) {
            if g.r.chance(5, 6) {
                let multi = g.r.below(3) as u8;
                let multi = if g.r.flip() { 0 } else { multi };
                g.sub(id, multi, t[0].sub);
                id += 1;
            }
        }
    }
    for _ in 0..g.r.below(2) {
        g.random_sub();
    }
    if g.subs.is_empty() {
        g.sub(id, 0, tops[0][0].sub);
    }
    for _ in 0..body {
        if removal || g.r.chance(19, 20) {
            g.body_step();
        } else {
            let ids: Vec<u16> = g.subs.keys().copied().collect();
            if let Some(&i) = ids.first() {
                let n = g.r.pick(&g.topics).clone();
                let m = g.r.below(2) as u8;
                g.sub(i, m, &n);
            }
        }
        g.random_data();
    }
    g.log()
}

// ---- the monitor -----------------------------------------------------------------------------------------

fn check_items(ctx: &mut Ctx, want: &[(usize, D)], got: &[D], at: &str, b: &[u8]) -> bool {
    for i in 0..want.len().max(got.len()) {
        let (w, g) = (want.get(i).map(|x| &x.1), got.get(i));
        let ok = match (w, g) {
            (Some(w), Some(g)) => agree(w, g),
            _ => false,
        };
        if !ok {
            let kind = |d: Option<&D>| match d {
                None => "nothing".to_string(),
                Some(D::V(k, _)) => format!("variant {k}"),
                Some(D::O(m)) => m.kind().to_string(),
                Some(D::E(e)) => format!("error {e}"),
                Some(D::Bad) => "mapping error".into(),
                Some(D::Any) => "something".into(),
            };
            ctx.violate(
                &format!("differs:{}->{}", kind(w), kind(g)),
                format!("item {i} of {} ({at}): {}", want.len(), super::diff(&format!("{w:?}"), &format!("{g:?}"))),
                b,
            );
            return false;
        }
    }
    true
}

fn c26(ctx: &mut Ctx, r: &mut Rng, _case: u64) {
    match r.below(40) {
        0 => return long(ctx, r),
        1..=5 => return steps(ctx, r),
        _ => {}
    }
    let letters = r.flip();
    let mut names: Vec<String> = vec![];
    let (b, how): (Vec<u8>, &str) = match r.below(8) {
        0 => {
            let h = hostile::stream(r);
            names = h.names;
            (h.bytes, "hostile")
        }
        k => {
            let body = *r.pick(&[3usize, 8, 20]);
            let small = r.flip();
            let l = flight_log(r, letters, body, small);
            names.extend(l.msgs.iter().filter(|m| m.what == "A").map(|m| String::from_utf8_lossy(&m.bytes[6..]).into_owned()));
            let mut b = l.bytes();
            match k {
                1 => {
                    hostile::mutate(r, &mut b);
                    (b, "damaged")
                }
                2 => (hostile::mutate_framed(r, &l), "framed damage"),
                3 | 4 => {
                    b.truncate(r.below(b.len() + 1));
                    (b, "cut")
                }
                5 => {
                    // Appended data from some point on.
                    let mut p = vec![0u8; 16];
                    p[8] = 1;
                    for _ in 0..3 {
                        let at = r.below(b.len() + 60) as u64;
                        p.extend_from_slice(&at.to_le_bytes());
                    }
                    let mut v = b[..16].to_vec();
                    v.extend_from_slice(&gen::frame(b'B', &p));
                    v.extend_from_slice(&b[16..]);
                    (v, "appended")
                }
                _ => (b, "well-formed"),
            }
        }
    };
    ctx.set_input(&b);
    ctx.c(&format!("bytes {how}"));
    let letters = if how == "hostile" { true } else { letters };
    let w = way(r, letters, &names);
    if w.which % 2 == 1 {
        ctx.c("bare");
    }
    let o = plain_opts(&w);
    let bound = drive::item_bound(&b) + b.len() / 3 + 8;
    let (plain, source, failing) = if r.chance(1, 4) {
        let at = r.below(b.len() + 1);
        let f = (at, *r.pick(KINDS), *r.pick(&[1, 2, usize::MAX]), *r.pick(&[1, 3, usize::MAX]));
        let rd = Failing { data: &b, pos: 0, at: f.0, kind: f.1, times: f.2, failed: 0, max: f.3 };
        (drive::items(rd, &o, bound).map(|v| drive::canon_all(&v)), "failing", Some(f))
    } else if r.chance(1, 6) {
        // Ends, and then goes on: what comes after the end is not read.
        let f = (r.below(b.len() + 1), KINDS[0], *r.pick(&[1, 2]), *r.pick(&[1, 3, usize::MAX]));
        let rd = Pausing { data: &b, pos: 0, at: f.0, times: f.2, max: f.3 };
        (drive::items(rd, &o, bound).map(|v| drive::canon_all(&v)), "pausing", Some(f))
    } else {
        (drive::items(&b[..], &o, bound).map(|v| drive::canon_all(&v)), if r.flip() { "whole" } else { "piecemeal" }, None)
    };
    ctx.c(&format!("source {source}"));
    let Ok(plain) = plain else {
        return ctx.violate("plain-endless", format!("the plain parser yields more than {bound} items ({how})"), &b);
    };
    let (sp, rest) = specs(&w);
    let want = reference(&plain, sp, rest, w.fwd, ctx);
    let f = r.fork();
    let mut it = match (source, failing) {
        ("pausing", Some((at, _, times, max))) => open(Pausing { data: &b, pos: 0, at, times, max }, &w),
        (_, Some((at, kind, times, max))) => open(Failing { data: &b, pos: 0, at, kind, times, failed: 0, max }, &w),
        ("whole", _) => open(&b[..], &w),
        _ => open(Chunky::new(&b, f, 30, true), &w),
    };
    let mut got = vec![];
    while let Some(x) = it.next() {
        got.push(x.unwrap_or_else(|e| D::E(canon::err(&e))));
        if got.len() > bound {
            break;
        }
    }
    let at = format!("{how} bytes, {source} source, {w:?}");
    if check_items(ctx, &want, &got, &at, &b) {
        for _ in 0..3 {
            if let Some(x) = it.next() {
                let x = x.unwrap_or_else(|e| D::E(canon::err(&e)));
                return ctx.violate("after-the-end", format!("an item after the end: {x:?} ({at})"), &b);
            }
        }
    }
    let mut h = util::Fnv::new();
    h.put(&b);
    h.put(at.as_bytes());
    ctx.eval(h.get(), want.len() >= 3);
    ctx.sample(|| format!("{at}: {} bytes, {} plain items, {} derived items", b.len(), plain.len(), got.len()));
}

/// Each item comes as soon as the message it stems from is complete.
fn steps(ctx: &mut Ctx, r: &mut Rng) {
    let letters = r.flip();
    let small = r.flip();
    let l = flight_log(r, letters, 10, small);
    let b = l.bytes();
    let st = l.starts();
    ctx.set_input(&b);
    let w = way(r, letters, &[]);
    let (sp, rest) = specs(&w);
    let plain = match drive::run(&b, &plain_opts(&w)) {
        Ok(p) if p.len() + 1 == l.msgs.len() => p,
        // What the plain parser does with a well-formed log is judged elsewhere.
        _ => return ctx.c("plain parser differs"),
    };
    let want = reference(&plain, sp, rest, w.fwd, ctx);
    let cell = std::cell::RefCell::new((0usize, 0usize));
    struct Src<'a>(&'a [u8], &'a std::cell::RefCell<(usize, usize)>, usize);
    impl Read for Src<'_> {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            let mut s = self.1.borrow_mut();
            s.1 = s.1.max(s.0 + buf.len());
            let n = buf.len().min(self.2).min(self.0.len() - s.0);
            buf[..n].copy_from_slice(&self.0[s.0..s.0 + n]);
            s.0 += n;
            Ok(n)
        }
    }
    let max = *r.pick(&[1usize, 4, 1000, usize::MAX]);
    let mut it = open(Src(&b, &cell, max), &w);
    let mut got = vec![];
    for (i, _) in &want {
        let Some(x) = it.next() else { break };
        got.push(x.unwrap_or_else(|e| D::E(canon::err(&e))));
        let asked = cell.borrow().1;
        ctx.c("steps");
        // Item i of the plain parser is message i + 1: the header is not included.
        if asked > st[i + 2] {
            return ctx.violate(
                &format!("read-ahead:{}", l.msgs[i + 1].what),
                format!("message {} ends at byte {}, but the source was asked for bytes up to {asked} ({w:?})", i + 1, st[i + 2]),
                &b,
            );
        }
    }
    check_items(ctx, &want, &got, &format!("step source, {w:?}"), &b);
    ctx.eval(util::hash(&b), want.len() >= 3);
}

/// However long the log, only a bounded state stays alive.
fn long(ctx: &mut Ctx, r: &mut Rng) {
    let letters = r.flip();
    let body = *r.pick(&[4usize, 10, 20]);
    let l = flight_log(r, letters, body, true);
    let first = l.msgs.iter().rposition(|m| m.what == "F").map_or(1, |i| i + 1);
    let head: Vec<u8> = l.msgs[..first].iter().flat_map(|m| m.bytes.iter().copied()).collect();
    let body: Vec<u8> = l.msgs[first..].iter().flat_map(|m| m.bytes.iter().copied()).collect();
    let once = l.bytes();
    ctx.set_input(&once);
    let w = way(r, letters, &[]);
    let (sp, rest) = specs(&w);
    let o = plain_opts(&w);
    let lens: Vec<usize> = (2..4)
        .map(|k| {
            let b = [&head[..], &body.repeat(k)].concat();
            let p = drive::run(&b, &o).unwrap_or_default();
            reference(&p, sp, rest, w.fwd, ctx).len()
        })
        .collect();
    let per_cycle = lens[1] - lens[0];
    if per_cycle == 0 {
        return;
    }
    let before = lens[0] - per_cycle;
    let cycles = (if ctx.thorough { 60_000 } else { 12_000 } / per_cycle).clamp(30, 2_000_000 / body.len().max(1) + 30);
    struct Again<'a>(&'a [u8], &'a [u8], usize, usize);
    impl Read for Again<'_> {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            if self.2 == self.0.len() {
                if self.3 == 0 {
                    return Ok(0);
                }
                self.3 -= 1;
                self.0 = self.1;
                self.2 = 0;
            }
            let n = buf.len().min(self.0.len() - self.2);
            buf[..n].copy_from_slice(&self.0[self.2..self.2 + n]);
            self.2 += n;
            Ok(n)
        }
    }
    let mut it = open(Again(&head, &body, 0, cycles), &w);
    let short = |ctx: &mut Ctx, c: usize| ctx.violate("ended-early", format!("the stream ended in cycle {c} of {cycles} ({w:?})"), &once);
    for _ in 0..before {
        if it.next().is_none() {
            return short(ctx, 0);
        }
    }
    let mut base = None;
    for c in 1..cycles {
        alloc::reset_peak();
        for _ in 0..per_cycle {
            if it.next().is_none() {
                return short(ctx, c);
            }
        }
        ctx.c("cycles");
        let s = alloc::snap();
        if c == 4 {
            base = Some(s);
        }
        if let Some(b0) = base {
            if s.live > b0.live + 4096 || s.peak > b0.peak + 16384 {
                return ctx.violate(
                    "heap-grows",
                    format!("live heap {} (peak {}) in cycle 4, {} (peak {}) in cycle {c} ({w:?})", b0.live, b0.peak, s.live, s.peak),
                    &once,
                );
            }
        }
    }
    ctx.eval(util::hash(&once), true);
}
