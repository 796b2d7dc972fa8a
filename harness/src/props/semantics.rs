//! C09 bad messages, C10 allow list, C14 pass-through of unknown and out-of-place messages, C15 subscriptions.
use super::*;
use crate::canon;
use crate::ctx::Ctx;
use crate::drive::{self, Opts, FULL};
use crate::gen::{self, frame, Cfg, Exp, Gen, WMsg, KNOWN};
use crate::rng::Rng;
use crate::runner::Prop;
use crate::util;
use std::collections::{BTreeMap, HashMap, HashSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09",
            quick: 240_000,
            thorough: 5000_000,
            case: c09,
            rule: "generated log with at least one malformed message and at least 3 well-formed ones, items compared with the description",
            need: &[
                "bad:F", "bad:I", "bad:M", "bad:P", "bad:Q", "bad:A", "bad:B", "bad:D", "bad:L", "bad:C", "bad:O", "bad:R",
                "bad-D:unknown-id", "bad-D:short", "good-after-bad",
            ],
        },
        Prop {
            id: "C10",
            quick: 250_000,
            thorough: 5000_000,
            case: c10,
            rule: "generated log with at least one kept and one ignored data message under a random allow list, items compared with the description, re-encoded and parsed again",
            need: &["kept", "ignored", "id-reused-across-list", "empty-list", "foreign-name", "deprecated-setter", "re-encoded"],
        },
        Prop {
            id: "C14",
            quick: 180_000,
            thorough: 4000_000,
            case: c14,
            rule: "generated log with unknown / uninterpreted / out-of-place messages inserted at random boundaries, all items compared with the description",
            need: &["ins:unknown", "ins:F", "ins:B", "ins:D", "ins:R", "ins:S", "len:0", "len:max", "in-definitions", "in-data"],
        },
        Prop {
            id: "C15",
            quick: 120_000,
            thorough: 3000_000,
            case: c15,
            rule: "history of at least 8 subscription and data operations over shared ids and names; every item and, after every item, every lookup compared with a model",
            need: &[
                "op:add", "op:replace", "op:remove", "op:remove-unknown", "op:re-add", "op:bad-add", "op:data", "op:data-unsubscribed",
                "op:redefine", "multi-late", "lookups",
            ],
        },
    ]
}

// ---- C09 ------------------------------------------------------------------------------------------------

/// Length of the shortest payload that holds every field that is not padding at the end.
fn min_len(g: &Gen, d: &crate::model::FmtDef) -> usize {
    let sizes: Vec<usize> = d.fields.iter().map(|f| g.ty_size(&f.ty)).collect();
    for (i, f) in d.fields.iter().enumerate().rev() {
        if f.is_padding() || sizes[i] == 0 {
            continue;
        }
        let before: usize = sizes[..i].iter().sum();
        return before
            + match &f.ty.base {
                Base::P(_) => sizes[i],
                Base::Other(n) => {
                    let k = f.ty.arr.unwrap_or(1);
                    let inner = g.fmts[n].clone();
                    let m = min_len(g, &inner);
                    sizes[i] / k * (k - 1) + m
                }
            };
    }
    0
}
fn bad_utf8(r: &mut Rng, mut v: Vec<u8>) -> Vec<u8> {
    let x: &[u8] = r.pick(&[&b"\xff"[..], b"\xc3", b"\xc0\x80", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\x80"]);
    if x == b"\xc3" {
        v.push(0xc3); // cut off at the end
    } else {
        // At the start or the end, so that no valid character is completed.
        let at = if r.flip() { 0 } else { v.len() };
        v.splice(at..at, x.iter().copied());
    }
    v
}
fn bad_format(g: &mut Gen) -> Vec<u8> {
    let name = if g.r.flip() && !g.order.is_empty() { g.r.pick(&g.order).clone() } else { gen::message_name(g.r, false) };
    let good = "uint64_t timestamp;";
    let tail: &str = g.r.pick(&[
        "uint8_t",
        "uint8_t x",
        "uint8_t[ x;",
        "uint8_t[] x;",
        "uint8_t[4 x;",
        "uint8_t 4] x;",
        "uint8_t[x] y;",
        "uint8_t[-1] y;",
        "uint8_t[99999999999999999999999999] x;",
        "uint8_t[18446744073709551616] x;",
        ";",
        "uint8_t x;;",
        "?",
        "uint8_t x!;",
        "uint8_t x y;",
        "uint8_t[3][4] x;",
        "[4] x;",
        ":",
        "uint8_t:x;",
        "uint8_t [4;] x;",
        "uint8_t x,uint8_t y;",
        "uint8_t[3",
        "uint8_t[",
        "é x;",
        "uint8_t é;",
    ]);
    let head = match g.r.below(6) {
        0 => return g.r.pick(&[&b""[..], b":", b"::", b";", b" ", b"?:uint8_t x;", b"\0", b"[", b": uint8_t x;"]).to_vec(),
        1 => return name.into_bytes(),
        2 => format!("{name} {name}:{good}"),
        3 => format!("{name}?:{good}"),
        4 => return bad_utf8(g.r, format!("{name}:{good}").into_bytes()),
        _ => format!("{name}:{}{tail}", if g.r.flip() { good } else { "" }),
    };
    head.into_bytes()
}
fn bad_kv(g: &mut Gen, param: bool) -> Vec<u8> {
    let key = |k: &str, v: &[u8]| {
        let mut p = vec![k.len() as u8];
        p.extend_from_slice(k.as_bytes());
        p.extend_from_slice(v);
        p
    };
    let zeros = [0u8; 64];
    match g.r.below(if param { 10 } else { 9 }) {
        0 => vec![],
        1 => {
            let n = g.r.range(1, 255);
            let m = g.r.below(n);
            let mut p = vec![n as u8];
            p.extend_from_slice(&b"int32_t keykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykeykey"[..m]);
            p
        }
        2 => key("", &zeros[..g.r.below(8)]),
        3 => key(
            g.r.pick(&[
                "int32_t",
                "float",
                " ",
                "?",
                "int32_t ?",
                "int32_t[",
                "int32_t[2",
                "[2] x",
                "int32_t: x",
                "int32_t[x] y",
            ]),
            &zeros[..8],
        ),
        4 => {
            let p = *g.r.pick(&[Prim::I32, Prim::F32]);
            let n = g.r.below(4);
            key(&format!("{} k", p.text()), &zeros[..n])
        }
        5 => key("no_such_type_0 k", &zeros[..g.r.below(64)]),
        6 => {
            let k = bad_utf8(g.r, b"int32_t key".to_vec());
            let mut p = vec![k.len() as u8];
            p.extend_from_slice(&k);
            p.extend_from_slice(&zeros[..4]);
            p
        }
        7 => key(
            g.r.pick(&[
                "int32_t[99999999999999999999999999] k",
                "char[18446744073709551615] k",
                "int32_t[4611686018427387905] k",
                "double[65536] k",
            ]),
            &zeros[..32],
        ),
        8 => {
            let p = *g.r.pick(&PRIMS);
            let n = g.r.range(1, 20);
            let have = g.r.below(n * p.size());
            let mut v = key(&format!("{}[{n}] k", p.text()), &[]);
            v.resize(v.len() + have, 1);
            v
        }
        _ => {
            // well-formed key and value, but not a type parameters can have
            let t: &str = g.r.pick(&[
                "uint32_t",
                "int64_t",
                "double",
                "bool",
                "char",
                "int16_t",
                "uint8_t",
                "int32_t[1]",
                "float[2]",
                "char[4]",
                "uint64_t",
                "int8_t",
            ]);
            key(&format!("{t} k"), &zeros)
        }
    }
}
fn bad(g: &mut Gen, ctx: &mut Ctx) {
    let kinds: &[u8] = if g.in_data { b"IMPQADDDLCOR" } else { b"FFFIMPQABLCO" };
    let t = *g.r.pick(kinds);
    let z = |g: &mut Gen, n: usize| {
        let k = g.r.below(n);
        g.r.bytes(k)
    };
    let (what, p): (&'static str, Vec<u8>) = match t {
        b'F' => ("bad:F", bad_format(g)),
        b'I' => ("bad:I", bad_kv(g, false)),
        b'M' => {
            let mut p = bad_kv(g, false);
            if !p.is_empty() || g.r.flip() {
                p.insert(0, g.r.below(2) as u8);
            }
            ("bad:M", p)
        }
        b'P' => ("bad:P", bad_kv(g, true)),
        b'Q' => {
            let mut p = bad_kv(g, true);
            if !p.is_empty() || g.r.flip() {
                p.insert(0, g.r.below(4) as u8);
            }
            ("bad:Q", p)
        }
        b'A' => {
            // Also with ids that are in use: the subscription in force must survive.
            let id: u16 = g.subs.keys().next().copied().filter(|_| g.r.flip()).unwrap_or(5);
            let mut p = vec![g.r.below(3) as u8];
            p.extend_from_slice(&id.to_le_bytes());
            match g.r.below(4) {
                0 => p.truncate(g.r.below(3)),
                1 => {
                    let n = g.r.pick(&g.order).clone().into_bytes();
                    p.extend(bad_utf8(g.r, n));
                }
                2 => {}
                _ => {
                    let mut n = g.r.pick(&g.order).clone();
                    match g.r.below(3) {
                        0 => n.push('\0'),
                        1 => n.insert(0, ' '),
                        _ => n.push_str("_undefined_0"),
                    }
                    p.extend_from_slice(n.as_bytes());
                }
            }
            ("bad:A", p)
        }
        b'B' => {
            let n = g.r.below(40);
            ("bad:B", vec![0; n])
        }
        b'L' | b'C' => {
            let n = if t == b'L' { 9 } else { 11 };
            let mut p = vec![b'3'];
            p.resize(n, 1);
            match g.r.below(3) {
                0 => p.truncate(g.r.below(n)),
                1 => {
                    p[0] = loop {
                        let l = *g.r.pick(&[0u8, 1, 3, 7, b'8', b'9', b'/', 255, b'a']);
                        if !(b'0'..=b'7').contains(&l) {
                            break l;
                        }
                    };
                    p.extend_from_slice(b"text");
                }
                _ => {
                    let x = bad_utf8(g.r, b"some text".to_vec());
                    p.extend_from_slice(&x);
                }
            }
            (if t == b'L' { "bad:L" } else { "bad:C" }, p)
        }
        b'O' => ("bad:O", z(g, 2)),
        b'R' => ("bad:R", z(g, 2)),
        _ => {
            let ids: Vec<u16> = g.subs.keys().copied().collect();
            match g.r.below(4) {
                0 => {
                    ctx.c("bad-D:no-id");
                    ("bad:D", z(g, 2))
                }
                1 => {
                    ctx.c("bad-D:unknown-id");
                    let id = loop {
                        let id = if g.r.flip() { g.r.u16() } else { g.r.below(20) as u16 };
                        if !g.subs.contains_key(&id) {
                            break id;
                        }
                    };
                    let mut p = id.to_le_bytes().to_vec();
                    p.extend(z(g, 60));
                    ("bad:D", p)
                }
                _ if ids.is_empty() => ("bad:D", z(g, 2)),
                _ => {
                    ctx.c("bad-D:short");
                    let id = *g.r.pick(&ids);
                    let d = g.fmts[&g.subs[&id].1].clone();
                    let need = min_len(g, &d);
                    let mut p = id.to_le_bytes().to_vec();
                    let mut body = vec![];
                    g.instance(&d, &mut body, 0);
                    let n = if g.r.flip() { need - 1 } else { g.r.below(need) };
                    p.extend_from_slice(&body[..n]);
                    ("bad:D", p)
                }
            }
        }
    };
    ctx.c(what);
    g.push(what, frame(t, &p), Exp::E);
}

fn c09(ctx: &mut Ctx, r: &mut Rng, _case: u64) {
    let cfg = Cfg::random(r);
    let rate = r.range(1, 6);
    let body = r.range(3, 25);
    let mut g = Gen::new(r, Cfg { big: false, ..cfg });
    g.header();
    let n = g.cfg.formats;
    g.make_formats(n);
    if g.r.flip() {
        g.flags_plain();
    }
    for name in g.order.clone() {
        if g.r.chance(1, rate) {
            bad(&mut g, ctx);
        }
        if g.r.chance(1, 3) {
            g.neutral();
        }
        g.format(&name);
    }
    if g.r.chance(1, rate) {
        bad(&mut g, ctx);
    }
    g.random_sub();
    for _ in 0..body {
        if g.r.chance(1, rate + 1) && g.in_data {
            bad(&mut g, ctx);
        } else {
            g.body_step();
        }
    }
    let log = g.log();
    let nbad = log.msgs.iter().filter(|m| m.exp == Exp::E).count();
    let first = log.msgs.iter().position(|m| m.exp == Exp::E).unwrap_or(log.msgs.len());
    ctx.n("good-after-bad", log.msgs[first..].iter().filter(|m| m.exp != Exp::E).count() as u64);
    let bytes = log.bytes();
    ctx.set_input(&bytes);
    let exp = log.exps();
    let o = if r.flip() { FULL } else { Opts { hdr: r.flip(), ts: r.flip(), pad: r.flip(), allow: None } };
    match drive::run(&bytes, &o) {
        Err(n) => ctx.violate("endless", format!("more than {n} items"), &bytes),
        Ok(got) => {
            if let Some((sig, d)) = compare(&project(&exp, &o), &got) {
                ctx.violate(&sig, format!("{d} (log: {})", log.summary()), &bytes);
            }
        }
    }
    ctx.eval(util::hash(&bytes), nbad > 0 && exp.len() - nbad >= 3);
    ctx.sample(|| format!("{nbad} bad of {}: {}", exp.len(), log.summary()));
}

// ---- C10 ------------------------------------------------------------------------------------------------

fn c10(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let cfg = Cfg::random(r);
    let mut g = Gen::new(r, Cfg { big: false, formats: cfg.formats.max(2), removal: true, ..cfg });
    g.definitions();
    // Names of the data messages (by message index), from the history of the ids.
    let mut of: HashMap<usize, String> = HashMap::new();
    let mut used: HashMap<u16, HashSet<String>> = HashMap::new();
    let ids = [0u16, 1, 2, *g.r.pick(&[3u16, 256, 65535])];
    if g.topics.is_empty() {
        return;
    }
    let steps = g.r.range(5, 40);
    for k in 0..steps {
        let id = *g.r.pick(&ids);
        match g.r.below(12) {
            0..=2 => {
                let name = g.r.pick(&g.topics).clone();
                let multi = g.instance_no();
                used.entry(id).or_default().insert(name.clone());
                g.sub(id, multi, &name);
            }
            _ if k == 0 => {
                let name = g.r.pick(&g.topics).clone();
                used.entry(id).or_default().insert(name.clone());
                g.sub(id, 0, &name);
            }
            3 if g.in_data => g.remove(id),
            4 if g.in_data && !g.subs.contains_key(&id) => {
                // Unknown ids are errors, listed or not.
                let mut p = id.to_le_bytes().to_vec();
                p.extend(g.r.bytes(8));
                g.push("D-unknown", frame(b'D', &p), Exp::E);
            }
            5 => g.neutral(),
            6 if g.in_data => {
                let t = g.r.flip();
                g.string(t)
            }
            _ => {
                if g.subs.contains_key(&id) {
                    let name = g.subs[&id].1.clone();
                    of.insert(g.msgs.len(), name);
                    g.data(id);
                }
            }
        }
    }
    let topics = g.topics.clone();
    let log = g.log();
    let bytes = log.bytes();
    ctx.set_input(&bytes);
    // The list: a subset of the names, and names that never occur but look similar.
    let mut allow: Vec<String> = vec![];
    if r.chance(1, 8) {
        ctx.c("empty-list");
    } else {
        allow = topics.iter().filter(|_| r.flip()).cloned().collect();
    }
    if r.chance(1, 3) {
        ctx.c("foreign-name");
        let t = r.pick(&topics).clone();
        let f = match r.below(5) {
            0 => t.to_uppercase(),
            1 => format!("{t}0"),
            2 => t[..t.len() - 1].to_string(),
            3 => String::new(),
            _ => format!(" {t}"),
        };
        if !topics.contains(&f) {
            allow.push(f);
        }
    }
    let set: HashSet<&String> = allow.iter().collect();
    for names in used.values() {
        if names.iter().any(|n| set.contains(n)) && names.iter().any(|n| !set.contains(n)) {
            ctx.c("id-reused-across-list");
        }
    }
    let (mut kept, mut ign) = (0u64, 0u64);
    let mut exp = vec![];
    let mut exp_kept = vec![];
    for (i, m) in log.msgs.iter().enumerate() {
        match of.get(&i) {
            Some(n) if !set.contains(n) => {
                ign += 1;
                exp.push(Exp::M(CMsg::Ignored(b'D')));
            }
            x => {
                kept += x.is_some() as u64;
                exp.push(m.exp.clone());
                if m.exp != Exp::E {
                    exp_kept.push(m.exp.clone());
                }
            }
        }
    }
    ctx.n("kept", kept);
    ctx.n("ignored", ign);
    let o = Opts { hdr: true, ts: r.flip(), pad: r.flip(), allow: Some(allow.clone()) };
    let full = o.ts && o.pad;
    let bound = drive::item_bound(&bytes) + 8;
    let items = if case % 4 == 0 {
        ctx.c("deprecated-setter");
        let mut p = drive::parser(&bytes[..], &Opts { allow: None, ..o.clone() });
        #[allow(deprecated)]
        p.set_subscription_allow_list(allow.iter().cloned().collect());
        (&mut p).take(bound).collect::<Vec<_>>()
    } else {
        match drive::items(&bytes[..], &o, bound) {
            Ok(v) => v,
            Err(n) => return ctx.violate("endless", format!("more than {n} items"), &bytes),
        }
    };
    let got = drive::canon_all(&items);
    let ctx_text = format!("(allow {allow:?}; log: {})", log.summary());
    if let Some((sig, d)) = compare(&project(&exp, &o), &got) {
        ctx.violate(&sig, format!("{d} {ctx_text}"), &bytes);
    } else if full {
        let mut y = vec![];
        for it in items.iter().flatten() {
            match drive::encode_msg(it) {
                Ok(b) => y.extend_from_slice(&b),
                Err(e) => return ctx.violate("encode-failed", format!("{e} {ctx_text}"), &bytes),
            }
        }
        ctx.c("re-encoded");
        match drive::run(&y, &FULL) {
            Err(n) => ctx.violate("endless", format!("more than {n} items in re-encoded stream"), &bytes),
            Ok(got) => {
                if let Some((sig, d)) = compare(&exp_kept, &got) {
                    ctx.violate(&format!("re-encoded:{sig}"), format!("parsing what was re-encoded: {d} {ctx_text}"), &bytes);
                }
            }
        }
    }
    ctx.eval(util::hash(&bytes), kept > 0 && ign > 0);
    ctx.sample(|| format!("kept {kept}, ignored {ign} {ctx_text}"));
}

// ---- C14 ------------------------------------------------------------------------------------------------

fn c14(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let cfg = Cfg { unknown: false, out_of_place: false, big: false, ..Cfg::random(r) };
    let g = Gen::new(r, cfg);
    let base = g.full();
    let mut used: HashSet<u16> = HashSet::new();
    for m in &base.msgs {
        if let Exp::M(CMsg::Sub { id, .. }) = &m.exp {
            used.insert(*id);
        }
    }
    let first_a = base.msgs.iter().position(|m| m.what == "A").unwrap_or(base.msgs.len());
    let names: Vec<&str> = base
        .msgs
        .iter()
        .filter_map(|m| match &m.exp {
            Exp::M(CMsg::Format(t)) => t.split(':').next(),
            _ => None,
        })
        .collect();
    let mut msgs: Vec<WMsg> = vec![];
    let rate = r.range(1, 8);
    let mut inserted = 0u64;
    for i in 0..=base.msgs.len() {
        while i > 0 && r.chance(1, rate + 1) {
            let in_data = i > first_a;
            ctx.c(if in_data { "in-data" } else { "in-definitions" });
            let len = match r.below(40) {
                0..=3 => 0,
                4 => 65535,
                5 => r.range(255, 2000),
                _ => r.range(1, 60),
            };
            let mut p = r.bytes(len);
            let k = if in_data { r.below(6) } else { [0, 1, 4, 5, 6][r.below(5)] };
            let (what, t) = match k {
                2 => {
                    if r.flip() && !names.is_empty() {
                        p = format!("{}:uint64_t timestamp;uint8_t x;", r.pick(&names)).into_bytes();
                    }
                    ("ins:F", b'F')
                }
                3 => {
                    if r.flip() {
                        p = r.bytes(40);
                    }
                    ("ins:B", b'B')
                }
                4 => {
                    if in_data {
                        // Removing a subscription that does not exist.
                        let id = loop {
                            let id = if r.flip() { r.u16() } else { r.below(12) as u16 };
                            if !used.contains(&id) {
                                break id;
                            }
                        };
                        if p.len() < 2 {
                            p = vec![0; 2];
                        }
                        p[..2].copy_from_slice(&id.to_le_bytes());
                    }
                    ("ins:R", b'R')
                }
                5 => ("ins:S", b'S'),
                6 => ("ins:D", b'D'),
                _ => {
                    let mut t = (case as u8).wrapping_add(inserted as u8);
                    while KNOWN.contains(&t) {
                        t = r.u8();
                    }
                    ("ins:unknown", t)
                }
            };
            ctx.c(what);
            match p.len() {
                0 => ctx.c("len:0"),
                65535 => ctx.c("len:max"),
                _ => {}
            }
            inserted += 1;
            msgs.push(WMsg { bytes: frame(t, &p), exp: Exp::M(CMsg::Raw { t, bytes: p }), what });
        }
        if let Some(m) = base.msgs.get(i) {
            msgs.push(m.clone());
        }
    }
    let log = gen::Log { msgs };
    let bytes = log.bytes();
    ctx.set_input(&bytes);
    match drive::run(&bytes, &FULL) {
        Err(n) => ctx.violate("endless", format!("more than {n} items"), &bytes),
        Ok(got) => {
            if let Some((sig, d)) = compare(&log.exps(), &got) {
                ctx.violate(&sig, format!("{d} (log: {})", log.summary()), &bytes);
            }
        }
    }
    ctx.eval(util::hash(&bytes), inserted > 0);
    ctx.sample(|| format!("{inserted} inserted: {}", log.summary()));
}

// ---- C15 ------------------------------------------------------------------------------------------------

#[derive(Clone, Default)]
struct State {
    subs: BTreeMap<u16, (u8, String)>,
    fmts: BTreeMap<String, String>,
}

fn c15(ctx: &mut Ctx, r: &mut Rng, _case: u64) {
    let cfg = Cfg { big: false, out_of_place: r.chance(1, 4), max_fmt: 60, ..Cfg::random(r) };
    let mut g = Gen::new(r, cfg);
    g.header();
    let nf = g.r.range(2, 4);
    g.make_formats(nf);
    // States after each message (index of message -> state).
    let mut st = State::default();
    let mut states: Vec<State> = vec![];
    let mark = |g: &Gen, st: &State, states: &mut Vec<State>| {
        while states.len() < g.msgs.len() {
            states.push(st.clone());
        }
    };
    mark(&g, &st, &mut states);
    for name in g.order.clone() {
        if g.r.chance(1, 4) {
            // An earlier definition of the same name: the later one counts.
            ctx.c("op:redefine");
            let old = g.fmts[&name].clone();
            let p = *g.r.pick(&PRIMS);
            let mut d = FmtDef { name: name.clone(), fields: vec![FieldDef::new("old", Ty::p(p))] };
            if g.r.flip() {
                d.fields.insert(0, FieldDef::new("timestamp", Ty::p(Prim::U64)));
            }
            g.add_format(d.clone());
            st.fmts.insert(name.clone(), d.text());
            mark(&g, &st, &mut states);
            g.fmts.insert(name.clone(), old);
            if g.r.flip() {
                g.neutral();
                mark(&g, &st, &mut states);
            }
        }
        g.format(&name);
        st.fmts.insert(name.clone(), g.fmts[&name].text());
        mark(&g, &st, &mut states);
    }
    let mut ids: Vec<u16> = vec![0, 1, 2];
    ids.push(*g.r.pick(&[3u16, 255, 256, 257, 65535, 512]));
    if g.topics.is_empty() {
        return;
    }
    let mut removed: HashSet<u16> = HashSet::new();
    let mut had_data: HashSet<String> = HashSet::new();
    let steps = g.r.range(8, 40);
    let mut ops = 0;
    for k in 0..steps {
        let id = *g.r.pick(&ids);
        match g.r.below(14) {
            0..=3 => {
                ctx.c("op:add");
                if g.subs.contains_key(&id) {
                    ctx.c("op:replace");
                } else if removed.contains(&id) {
                    ctx.c("op:re-add");
                }
                let name = g.r.pick(&g.topics).clone();
                let multi = *g.r.pick(&[0u8, 0, 0, 1, 2, 255]);
                if multi > 0 && had_data.contains(&name) && !g.multi_names.contains(&name) {
                    ctx.c("multi-late");
                }
                g.sub(id, multi, &name);
                st.subs.insert(id, (multi, name));
                ops += 1;
            }
            4 => {
                ctx.c("op:bad-add");
                let mut p = vec![g.r.below(3) as u8];
                p.extend_from_slice(&id.to_le_bytes());
                p.extend_from_slice(format!("{}_undefined_0", g.r.pick(&g.order)).as_bytes());
                g.push("A-undefined", frame(b'A', &p), Exp::E);
                ops += 1;
            }
            5 if g.in_data => {
                if g.subs.contains_key(&id) {
                    ctx.c("op:remove");
                    removed.insert(id);
                } else {
                    ctx.c("op:remove-unknown");
                }
                g.remove(id);
                st.subs.remove(&id);
                ops += 1;
            }
            6 => g.neutral(),
            _ if k == 0 || !g.in_data => {}
            _ => {
                ops += 1;
                if g.subs.contains_key(&id) {
                    ctx.c("op:data");
                    had_data.insert(g.subs[&id].1.clone());
                    g.data(id);
                } else {
                    ctx.c("op:data-unsubscribed");
                    let mut p = id.to_le_bytes().to_vec();
                    let n = g.r.below(40);
                    p.extend(g.r.bytes(n));
                    g.push("D-unsubscribed", frame(b'D', &p), Exp::E);
                }
            }
        }
        mark(&g, &st, &mut states);
    }
    let log = g.log();
    let bytes = log.bytes();
    ctx.set_input(&bytes);
    let mut p = drive::parser(&bytes[..], &FULL);
    let mut done = false;
    let check_ids: Vec<u16> = ids.iter().copied().chain([7, 40, 300]).collect();
    for (i, m) in log.msgs.iter().enumerate() {
        let got = p.next().map(|x| canon::item(&x));
        let Some(got) = got else {
            ctx.violate("ended-early", format!("ended before item {i} ({})", log.summary()), &bytes);
            done = true;
            break;
        };
        if !super::matches(&m.exp, &got) {
            ctx.violate(
                &format!("differs:{}->{}", exp_kind(&m.exp), got.kind()),
                format!("item {i}: {} (log: {})", diff(&exp_text(&m.exp), &item_text(&got)), log.summary()),
                &bytes,
            );
            done = true;
            break;
        }
        let s = &states[i];
        for id in &check_ids {
            ctx.c("lookups");
            let got = p.get_subscription(*id).ok().map(|x| (x.multi_id, x.msg_id, x.message_name.clone()));
            let exp = s.subs.get(id).map(|(m, n)| (*m, *id, n.clone()));
            if got != exp {
                ctx.violate(
                    "lookup-subscription",
                    format!("after item {i}: get_subscription({id}) = {got:?}, expected {exp:?} (log: {})", log.summary()),
                    &bytes,
                );
                done = true;
            }
        }
        for (n, t) in &s.fmts {
            let got = p.get_format(n).ok().map(|f| canon::fmt_def(&f).text());
            if got.as_ref() != Some(t) {
                ctx.violate("lookup-format", format!("after item {i}: get_format({n}) = {got:?}, expected {t}"), &bytes);
                done = true;
            }
        }
        let keys: HashSet<String> = p.formats.keys().map(|k| k.to_string()).collect();
        if keys.len() != s.fmts.len() || p.get_format("no_such_format_0").is_ok() {
            ctx.violate("lookup-formats", format!("after item {i}: formats {keys:?}, expected {:?}", s.fmts.keys()), &bytes);
            done = true;
        }
        if done {
            break;
        }
    }
    if !done {
        if let Some(x) = p.next() {
            ctx.violate("extra-item", format!("unexpected {:?}", canon::item(&x)), &bytes);
        }
    }
    ctx.eval(util::hash(&bytes), ops >= 8);
    ctx.sample(|| format!("{ops} operations: {}", log.summary()));
}
