//! C01 byte-for-byte re-emission, C02 exact decoding, C03 re-encoding of accepted streams, C11 output options.
use super::*;
use crate::ctx::Ctx;
use crate::drive::{self, Opts, FULL};
use crate::gen::{self, Exp};
use crate::rng::Rng;
use crate::runner::Prop;
use crate::{hostile, refdec, util};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            quick: 150_000,
            thorough: 3000_000,
            case: c01,
            rule: "generated well-formed log (or sample log) with at least 3 messages, re-emitted and compared byte by byte",
            need: &["kind:Data", "kind:Log", "kind:TaggedLog", "kind:Unhandled", "kind:Format", "bytes"],
        },
        Prop {
            id: "C02",
            quick: 60_000,
            thorough: 2500_000,
            case: c02,
            rule: "generated well-formed log (or sample log) with at least one data message, items compared with the description",
            need: &["kind:Data", "kind:TaggedLog", "kind:Log", "kind:Dropout", "padding", "nested", "multi", "omitted-padding"],
        },
        Prop {
            id: "C03",
            quick: 200_000,
            thorough: 6000_000,
            case: c03,
            rule: "hostile stream from which at least 2 messages were accepted",
            need: &["accepted", "errors-in-first-pass", "how:weird messages", "how:payload mutations", "kind:Data"],
        },
        Prop {
            id: "C11",
            quick: 40_000,
            thorough: 2000_000,
            case: c11,
            rule: "stream (well-formed or hostile) compared under all 8 option combinations, at least 2 items",
            need: &["combos", "padding", "top-ts", "hostile", "wellformed"],
        },
    ]
}

fn count_kinds(ctx: &mut Ctx, log: &gen::Log) {
    for m in &log.msgs {
        let k = match &m.exp {
            Exp::M(m) => m.kind(),
            Exp::E => "Err",
        };
        ctx.c(&format!("kind:{k}"));
    }
}

fn c01(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let smp = if case < 16 { samples().into_iter().nth(case as usize) } else { None };
    let (bytes, what, kinds) = match smp {
        Some((n, b)) => (b, n, None),
        None => {
            let l = gen::log(r);
            (l.bytes(), l.summary(), Some(l))
        }
    };
    ctx.set_input(&bytes);
    let items = match drive::items(&bytes[..], &FULL, drive::item_bound(&bytes)) {
        Ok(v) => v,
        Err(n) => return ctx.violate("endless", format!("more than {n} items"), &bytes),
    };
    let mut out = Vec::with_capacity(bytes.len());
    let mut err: Option<String> = None;
    for (i, it) in items.iter().enumerate() {
        match it {
            Ok(m) => match drive::encode_msg(m) {
                Ok(b) => out.extend_from_slice(&b),
                Err(e) => err = err.or(Some(format!("item {i}: encoding failed: {e}"))),
            },
            Err(e) => err = err.or(Some(format!("item {i}: error {e}"))),
        }
    }
    let mut kind = "?".to_string();
    if let Some(l) = &kinds {
        count_kinds(ctx, l);
    }
    ctx.n("bytes", bytes.len() as u64);
    ctx.c(if kinds.is_some() { "generated-logs" } else { "sample-logs" });
    if out != bytes || err.is_some() {
        let at = out.iter().zip(&bytes).take_while(|(a, b)| a == b).count();
        if let Some(l) = &kinds {
            let st = l.starts();
            let i = st.iter().rposition(|&s| s <= at).unwrap_or(0).min(l.msgs.len() - 1);
            kind = format!("{} (message {i}: {})", l.msgs[i].what, util::clip(&util::hex(&l.msgs[i].bytes), 300));
        }
        let sig = format!("bytes-differ:{}", kind.split(' ').next().unwrap_or(""));
        ctx.violate(
            &sig,
            format!(
                "re-emission differs at byte {at} of {} (got {} bytes) in {kind}; {}; log: {what}",
                bytes.len(),
                out.len(),
                err.unwrap_or_default()
            ),
            &bytes,
        );
    }
    ctx.eval(util::hash(&bytes), items.len() >= 3);
    ctx.sample(|| format!("{} bytes: {what}", bytes.len()));
}

fn features(ctx: &mut Ctx, log: &gen::Log) {
    fn walk(f: &CFmt, c: &mut [u64; 3]) {
        for x in &f.fields {
            match &x.val {
                CVal::Raw(_) => c[0] += 1,
                CVal::N(n) => {
                    c[1] += 1;
                    walk(n, c);
                }
                CVal::AN(v) => {
                    c[1] += 1;
                    v.iter().for_each(|n| walk(n, c));
                }
                _ => c[2] += 1,
            }
        }
    }
    let mut c = [0; 3];
    for m in &log.msgs {
        if let Exp::M(CMsg::Data { fmt, .. }) = &m.exp {
            walk(fmt, &mut c);
            if fmt.multi.is_some() {
                ctx.c("multi");
            }
            if fmt.fields.len() < fmt.def.matches(';').count() {
                ctx.c("omitted-padding");
            }
        }
    }
    ctx.n("padding", c[0]);
    ctx.n("nested", c[1]);
    ctx.n("primitive-fields", c[2]);
}

fn c02(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let smp = if case < 16 { samples().into_iter().nth(case as usize) } else { None };
    let (bytes, exp, what, data);
    match smp {
        Some((n, b)) => {
            let Some((e, _)) = refdec::decode(&b) else {
                return;
            };
            ctx.c("sample-logs");
            data = true;
            exp = e;
            bytes = b;
            what = n;
        }
        None => {
            let l = gen::log(r);
            count_kinds(ctx, &l);
            features(ctx, &l);
            bytes = l.bytes();
            exp = l.exps();
            what = l.summary();
            // Two independent descriptions of the stream must agree before either judges the library.
            if case % 4 == 0 {
                let (e2, _) = refdec::decode(&bytes).expect("harness: reference decoder failed");
                for (i, (a, b)) in exp.iter().zip(&e2).enumerate() {
                    assert!(
                        a == b,
                        "harness: oracle mismatch at {i}: {} / {:?}",
                        diff(&exp_text(a), &exp_text(b)),
                        l.msgs[i].what
                    );
                }
                ctx.c("oracle-cross-checks");
            }
            data = l.msgs.iter().any(|m| m.what == "D");
        }
    }
    ctx.set_input(&bytes);
    let mut opts = vec![FULL];
    opts.push(Opts { hdr: r.flip(), ts: r.flip(), pad: r.flip(), allow: None });
    for o in opts {
        match drive::run(&bytes, &o) {
            Err(n) => ctx.violate("endless", format!("more than {n} items"), &bytes),
            Ok(got) => {
                if let Some((sig, d)) = compare(&project(&exp, &o), &got) {
                    ctx.violate(&sig, format!("{d} (options {o:?}; log: {what})"), &bytes);
                    break;
                }
            }
        }
    }
    ctx.eval(util::hash(&bytes), data);
    ctx.sample(|| format!("{} bytes: {what}", bytes.len()));
}

/// Would re-encoding this message legitimately exceed a limit of the format?
fn oversize(m: &CMsg) -> bool {
    match m {
        CMsg::Format(t) => t.len() > 65535,
        CMsg::Info { key, ty, .. }
        | CMsg::MInfo { key, ty, .. }
        | CMsg::Param { key, ty, .. }
        | CMsg::DefParam { key, ty, .. } => {
            // A longer canonical key may also push the whole message over its limit.
            key.len() + ty.len() + 1 > 255 || key.len() + ty.len() > 200
        }
        CMsg::Data { .. } => false,
        _ => false,
    }
}

fn c03(ctx: &mut Ctx, r: &mut Rng, _case: u64) {
    let h = hostile::stream(r);
    let x = h.bytes;
    ctx.set_input(&x);
    ctx.c(&format!("how:{}", h.how));
    let first = match drive::items(&x[..], &FULL, drive::item_bound(&x) + 64) {
        Ok(v) => v,
        Err(n) => return ctx.violate("endless", format!("more than {n} items"), &x),
    };
    let mut acc: Vec<CItem> = vec![];
    let mut y = vec![];
    let mut errors = 0;
    for it in &first {
        let Ok(m) = it else {
            errors += 1;
            continue;
        };
        let c = crate::canon::msg(m);
        if let CMsg::Flags { incompat, .. } = &c {
            if incompat[0] & 1 != 0 {
                ctx.c("skipped:appended-data");
                return ctx.eval(util::hash(&x), false);
            }
        }
        match drive::encode_msg(m) {
            Ok(b) => y.extend_from_slice(&b),
            Err(e) => {
                if oversize(&c) {
                    ctx.c("skipped:oversize");
                    return ctx.eval(util::hash(&x), false);
                }
                return ctx.violate(
                    &format!("encode-failed:{}", c.kind()),
                    format!("accepted message cannot be encoded: {e}: {c:?}"),
                    &x,
                );
            }
        }
        ctx.c(&format!("kind:{}", c.kind()));
        acc.push(CItem::M(c));
    }
    ctx.n("accepted", acc.len() as u64);
    ctx.n("errors-in-first-pass", errors);
    ctx.eval(util::hash(&x), acc.len() >= 2);
    if acc.is_empty() {
        return;
    }
    let second = match drive::items(&y[..], &FULL, drive::item_bound(&y) + 64) {
        Ok(v) => v,
        Err(n) => return ctx.violate("endless", format!("more than {n} items on re-encoded stream"), &x),
    };
    let c2 = drive::canon_all(&second);
    if let Some((sig, d)) = compare_items(&acc, &c2) {
        return ctx.violate(&sig, format!("re-encoded stream parses differently: {d} (stream kind: {})", h.how), &x);
    }
    let mut z = vec![];
    for it in second.iter().flatten() {
        match drive::encode_msg(it) {
            Ok(b) => z.extend_from_slice(&b),
            Err(e) => return ctx.violate("encode-failed-2", format!("second encoding failed: {e}"), &x),
        }
    }
    if z != y {
        let at = z.iter().zip(&y).take_while(|(a, b)| a == b).count();
        ctx.violate("not-a-fixpoint", format!("second encoding differs at byte {at} of {}", y.len()), &x);
    }
    ctx.sample(|| format!("{}: {} bytes, {} accepted, {errors} errors, re-encoded {} bytes", h.how, x.len(), acc.len(), y.len()));
}

fn c11(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let (x, what) = if case % 2 == 0 {
        ctx.c("wellformed");
        (gen::log(r).bytes(), "well-formed")
    } else {
        ctx.c("hostile");
        let h = hostile::stream(r);
        (h.bytes, h.how)
    };
    ctx.set_input(&x);
    let all = match drive::run(&x, &FULL) {
        Ok(v) => v,
        Err(n) => return ctx.violate("endless", format!("more than {n} items"), &x),
    };
    for m in &all {
        if let CItem::M(CMsg::Data { fmt, .. }) = m {
            ctx.n("padding", fmt.fields.iter().filter(|f| f.name.starts_with("_padding")).count() as u64);
            ctx.n("top-ts", fmt.fields.iter().filter(|f| &*f.name == "timestamp").count() as u64);
        }
    }
    for k in 0..7u8 {
        let o = Opts { hdr: k & 1 != 0, ts: k & 2 != 0, pad: k & 4 != 0, allow: None };
        let exp: Vec<CItem> = all
            .iter()
            .filter(|i| o.hdr || !matches!(i, CItem::M(CMsg::Header { .. })))
            .map(|i| match i {
                CItem::M(m) => CItem::M(m.project(o.ts, o.pad)),
                e => e.clone(),
            })
            .collect();
        ctx.c("combos");
        match drive::run(&x, &o) {
            Err(n) => return ctx.violate("endless", format!("more than {n} items"), &x),
            Ok(got) => {
                if let Some((sig, d)) = compare_items(&exp, &got) {
                    return ctx.violate(&sig, format!("with {o:?}: {d} (stream: {what})"), &x);
                }
            }
        }
    }
    ctx.eval(util::hash(&x), all.len() >= 2);
    ctx.sample(|| format!("{what}: {} bytes, {} items under 8 option combinations", x.len(), all.len()));
}
