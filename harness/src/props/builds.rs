//! C29, C30 results depend neither on how the library is built nor on the machine it runs on: digests of everything
//! observable, compared between builds and between (interpreted) machines by tools/builds.py.
use crate::ctx::Ctx;
use crate::gen::{self, Cfg, Gen};
use crate::hostile;
use crate::rng::Rng;
use crate::runner::Prop;
use crate::{digest, util};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        quick: 24_000,
        thorough: 1_000_000,
        case: c29,
        rule: "stream (well-formed, damaged or hostile) parsed, rendered, encoded, flattened and mapped by every build of the library, all results compared between the builds; at least 3 items",
        need: &["items", "errors", "well-formed", "damaged", "hostile", "claims", "filtered", "appended"],
    },
    Prop {
        id: "C30",
        quick: 16_000,
        thorough: 200_000,
        case: c30,
        rule: "stream (well-formed, damaged or hostile) parsed, rendered, encoded, flattened and mapped on a 64-bit little-endian machine natively, and on interpreted 32-bit little-endian and 64-bit big-endian machines, all results compared; at least 3 items",
        need: &["items", "errors", "well-formed", "damaged", "hostile", "claims", "filtered", "appended", "logs beyond 32 bits", "short inputs"],
    }]
}
fn c29(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let bytes = input(ctx, r, case);
    let bytes = &bytes[..bytes.len().min(150_000)];
    ctx.set_input(bytes);
    let q = r.fork();
    let d = digest::digest(bytes, &q, false);
    note(ctx, case, bytes, &d);
}
/// The generator runs only here; the machines read its output: everything for the fast one, short inputs for the
/// interpreted one.
fn c30(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    if case < 2 {
        let seed = r.u64().to_le_bytes();
        let d = digest::long(&seed);
        ctx.c("logs beyond 32 bits");
        ctx.digests.push([case | digest::LONG, util::hash(&seed), d.plain, 0]);
        push(&mut ctx.corpus.0, case | digest::LONG, &seed);
    }
    let mut bytes = input(ctx, r, case);
    bytes.truncate(150_000);
    fit(&mut bytes);
    ctx.set_input(&bytes);
    let d = digest::digest(&bytes, &digest::machine_rng(case), false);
    note(ctx, case, &bytes, &d);
    push(&mut ctx.corpus.0, case, &bytes);
    if r.chance(1, 4) {
        for _ in 0..40 {
            if bytes.len() <= 350 {
                break;
            }
            bytes = match r.below(3) {
                0 => {
                    let mut b = gen::small_log(r).bytes();
                    if r.chance(1, 4) {
                        append(r, &mut b);
                    }
                    b
                }
                1 => hostile::claim_stream(&hostile::claim(r)),
                _ => hostile::stream(r).bytes,
            };
        }
        bytes.truncate(350);
        fit(&mut bytes);
        ctx.c("short inputs");
        ctx.set_input(&bytes);
        let d = digest::digest(&bytes, &digest::machine_rng(case | digest::LIGHT), true);
        ctx.digests.push([case | digest::LIGHT, util::hash(&bytes), d.plain, d.derived]);
        push(&mut ctx.corpus.1, case | digest::LIGHT, &bytes);
    }
}
/// Array sizes no 32-bit machine can count to are refused there when defined and elsewhere when used, which is a
/// limit of the machine: keeps the numbers within 32 bits, without moving anything.
fn fit(b: &mut [u8]) {
    let mut i = 0;
    while i < b.len() {
        let mut j = i;
        while j < b.len() && b[j].is_ascii_digit() {
            j += 1;
        }
        let mut k = i;
        while j - k >= 10 && std::str::from_utf8(&b[i..j]).ok().and_then(|t| t.parse::<u32>().ok()).is_none() {
            b[k] = b'0';
            k += 1;
        }
        i = j + 1;
    }
}
fn push(c: &mut Vec<u8>, case: u64, bytes: &[u8]) {
    c.extend_from_slice(&case.to_le_bytes());
    c.extend_from_slice(&(bytes.len() as u32).to_le_bytes());
    c.extend_from_slice(bytes);
}
fn input(ctx: &mut Ctx, r: &mut Rng, case: u64) -> Vec<u8> {
    match case % 5 {
        0 => {
            ctx.c("well-formed");
            let mut b = gen::log(r).bytes();
            if r.chance(1, 3) {
                ctx.c("appended");
                append(r, &mut b);
            }
            b
        }
        1 => {
            ctx.c("damaged");
            let mut cfg = Cfg::random(r);
            cfg.big = false;
            let l = Gen::new(r, cfg).full();
            hostile::mutate_framed(r, &l)
        }
        2 => {
            ctx.c("claims");
            let c = hostile::claim(r);
            hostile::claim_stream(&c)
        }
        _ => {
            ctx.c("hostile");
            hostile::stream(r).bytes
        }
    }
}
/// Declares appended data, at offsets in the log, behind it, or far beyond what a 32-bit machine can count to.
fn append(r: &mut Rng, b: &mut Vec<u8>) {
    let len = b.len() as u64 + 43;
    let offs: [u64; 3] = std::array::from_fn(|_| match r.below(8) {
        0 | 1 => 0,
        2 => 17 + r.u64() % len,
        3 => len + r.u64() % 100,
        4 | 5 => (r.u64() % len) | ((1 + r.u64() % 3) << (32 + r.below(31))),
        6 => u64::MAX - r.u64() % len,
        _ => r.u64(),
    });
    let mut m = vec![40, 0, b'B', 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0];
    offs.iter().for_each(|o| m.extend_from_slice(&o.to_le_bytes()));
    b.splice(16..16, m);
}
fn note(ctx: &mut Ctx, case: u64, bytes: &[u8], d: &digest::Digest) {
    ctx.n("items", d.items);
    ctx.n("errors", d.errors);
    if d.filtered {
        ctx.c("filtered");
    }
    if d.plain == digest::PANIC || d.derived == digest::PANIC {
        ctx.c("panics");
    }
    ctx.digests.push([case, util::hash(bytes), d.plain, d.derived]);
    ctx.eval(util::hash(bytes), d.items >= 6);
    ctx.sample(|| format!("{} bytes, {} items, {} errors, digest {:x}", bytes.len(), d.items, d.errors, d.plain));
    if std::env::var_os("YMON_SHOW").is_some() {
        println!("{}", d.text);
    }
}
