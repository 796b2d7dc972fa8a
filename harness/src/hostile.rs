//! Arbitrary and adversarial streams.
use crate::gen::{self, frame, header_bytes, Gen};
use crate::rng::Rng;

/// What kind of hostile stream was made.
pub struct Hostile {
    pub bytes: Vec<u8>,
    pub how: &'static str,
    pub names: Vec<String>,
}

fn tokens(r: &mut Rng, n: usize) -> String {
    const T: &[&str] = &[
        ":",
        ";",
        "[",
        "]",
        " ",
        "a",
        "b",
        "timestamp",
        "uint64_t",
        "uint8_t",
        "char",
        "float",
        "[4]",
        "[0]",
        "[1]",
        "[65535]",
        "[4294967296]",
        "[18446744073709551615]",
        "[18446744073709551616]",
        "[99999999999999999999999999]",
        "?",
        "é",
        "\n",
        "\t",
        "-",
        "/",
        "_padding0",
        "_padding",
        "1",
        "007",
        "0x10",
        "int32_t",
        "a:",
        ";;",
        "bool",
        "\u{0}",
        "\u{2028}",
        "b[2]",
        "a[3] x;",
        "b y;",
        "uint64_t timestamp;",
        "uint8_t[5] _padding0;",
        "uint32_t _padding1;",
        "9lives",
        "[ 3 ]",
        "[-1]",
        "[]",
        "１２",
    ];
    (0..n).map(|_| *r.pick(T)).collect()
}
fn short_name(r: &mut Rng) -> String {
    (*r.pick(&["a", "b", "c", "d", "e"])).to_string()
}
/// Field list over few names, so that definitions refer to each other (also cyclically).
fn fields(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(5) {
        let base = match r.below(3) {
            0 => short_name(r),
            _ => r.pick(&crate::model::PRIMS).text().to_string(),
        };
        let arr = match r.below(8) {
            0 => format!("[{}]", r.pick(&[0usize, 1, 2, 65535, 1 << 20, 1 << 32, usize::MAX / 2, usize::MAX])),
            1 | 2 => format!("[{}]", r.below(6)),
            _ => String::new(),
        };
        let name = *r.pick(&["x", "y", "timestamp", "_padding0", "_padding1", "z", "value", "n"]);
        s.push_str(&format!("{base}{arr} {name};"));
    }
    s
}
fn weird_message(r: &mut Rng) -> Vec<u8> {
    let t = *r.pick(b"FDIMPQARSOLCBFDAAFDDIM\x00\xff\xfe");
    let p: Vec<u8> = match t {
        b'F' => match r.below(4) {
            0 => tokens_n(r, 12).into_bytes(),
            1 => {
                let n = r.below(30);
                r.bytes(n)
            }
            _ => {
                let ts = if r.chance(3, 4) { "uint64_t timestamp;" } else { "" };
                let n = short_name(r);
                format!("{n}:{ts}{}", fields(r)).into_bytes()
            }
        },
        b'A' => {
            let mut p = vec![r.below(3) as u8, r.below(4) as u8, 0];
            p.extend_from_slice(short_name(r).as_bytes());
            if r.chance(1, 8) {
                let n = r.below(5);
                p.truncate(n);
            }
            if r.chance(1, 10) {
                p.push(0xff);
            }
            p
        }
        b'D' => {
            let mut p = vec![r.below(4) as u8, 0];
            let n = *r.pick(&[0, 1, 8, 9, 16, 30, 100, 500]);
            p.extend_from_slice(&r.bytes(n));
            if r.chance(1, 10) {
                p.truncate(1);
            }
            p
        }
        b'I' | b'M' | b'P' | b'Q' => {
            let mut k = match r.below(4) {
                0 => tokens_n(r, 5),
                1 => fields(r),
                2 => format!("{}[{}] k", r.pick(&crate::model::PRIMS).text(), r.pick(&[0usize, 1, 9, 1 << 40, usize::MAX])),
                _ => format!("{} key", r.pick(&crate::model::PRIMS).text()),
            };
            while k.len() > 255 {
                k.pop();
            }
            let mut p = vec![];
            if t == b'M' || t == b'Q' {
                p.push(r.u8());
            }
            let l = if r.chance(1, 8) { r.u8() } else { k.len() as u8 };
            p.push(l);
            p.extend_from_slice(k.as_bytes());
            let n = *r.pick(&[0, 1, 2, 4, 8, 20]);
            p.extend_from_slice(&r.bytes(n));
            p
        }
        b'L' | b'C' => {
            let mut p = vec![b'0' + r.below(9) as u8];
            let n = r.below(20);
            p.extend_from_slice(&r.bytes(n));
            p
        }
        b'B' => {
            let n = *r.pick(&[0, 8, 16, 39, 40, 41, 100]);
            let mut p = r.bytes(n);
            if p.len() >= 16 && r.chance(3, 4) {
                p[8..16].fill(0);
                if r.chance(1, 4) {
                    p[8] = 1;
                }
            }
            p
        }
        _ => {
            let n = *r.pick(&[0, 1, 2, 3, 8, 50]);
            r.bytes(n)
        }
    };
    frame(t, &p[..p.len().min(65535)])
}
fn tokens_n(r: &mut Rng, max: usize) -> String {
    let n = r.range(0, max);
    tokens(r, n)
}
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..*r.pick(&[1usize, 1, 2, 4, 16]) {
        if b.is_empty() {
            return;
        }
        let i = if r.chance(1, 10) { r.below(b.len().min(60)) } else { r.below(b.len()) };
        match r.below(9) {
            0 => b[i] ^= 1 << r.below(8),
            1 => b[i] = r.u8(),
            2 => b[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff, b'A', b'D', b'F', b'[', b']', b';', b':', b'9']),
            3 => {
                let n = r.range(1, 8).min(b.len() - i);
                b.drain(i..i + n);
            }
            4 => {
                let n = r.range(1, 8);
                let x = r.bytes(n);
                b.splice(i..i, x);
            }
            5 => {
                let n = r.below(b.len() - i + 1).min(400);
                let x = b[i..i + n].to_vec();
                let j = r.below(b.len() + 1);
                b.splice(j..j, x);
            }
            6 => b.truncate(i),
            7 => {
                // digits inside a definition: array sizes
                if let Some(k) = b[i..].iter().position(|c| c.is_ascii_digit()) {
                    let d = *r.pick(&["9", "99999", "18446744073709551615", "340282366920938463463374607431768211456", "0"]);
                    let at = i + k;
                    b.splice(at..at + 1, d.bytes());
                }
            }
            _ => {
                let n = r.range(1, 4).min(b.len() - i);
                for x in &mut b[i..i + n] {
                    *x = r.u8();
                }
            }
        }
    }
}
/// Mutation inside message payloads, with the framing kept intact (reaches deeper than blind mutation).
pub fn mutate_framed(r: &mut Rng, log: &gen::Log) -> Vec<u8> {
    let mut out = vec![];
    for (i, m) in log.msgs.iter().enumerate() {
        let mut b = m.bytes.clone();
        if i > 0 && r.chance(1, 5) {
            let mut p = b[3..].to_vec();
            match r.below(4) {
                0 => {
                    b.clear();
                    continue;
                }
                1 => {
                    out.extend_from_slice(&b);
                }
                _ => mutate(r, &mut p),
            }
            p.truncate(65535);
            b = frame(b[2], &p);
        }
        out.extend_from_slice(&b);
    }
    out
}
pub fn stream(r: &mut Rng) -> Hostile {
    let mut names: Vec<String> = ["a", "b", "c"].iter().map(|s| s.to_string()).collect();
    let (bytes, how): (Vec<u8>, &'static str) = match r.below(12) {
        0 => {
            let n = r.below(400);
            (r.bytes(n), "random bytes")
        }
        1 => {
            let mut b = header_bytes(1, r.u64());
            let n = r.below(2000);
            b.extend_from_slice(&r.bytes(n));
            (b, "header + random bytes")
        }
        2..=5 => {
            let mut b = header_bytes(1, 0);
            for _ in 0..*r.pick(&[3, 10, 30, 60]) {
                b.extend_from_slice(&weird_message(r));
            }
            if r.chance(1, 4) {
                mutate(r, &mut b);
            }
            (b, "weird messages")
        }
        6..=8 => {
            let cfg = gen::Cfg::random(r);
            let mut g = Gen::new(r, gen::Cfg { big: false, ..cfg });
            g.definitions();
            names = g.topics.clone();
            g.random_sub();
            for _ in 0..20 {
                g.body_step();
            }
            let log = g.log();
            (mutate_framed(r, &log), "payload mutations")
        }
        9 | 10 => {
            let log = gen::log(r);
            let mut b = log.bytes();
            b.truncate(100_000);
            mutate(r, &mut b);
            (b, "blind mutations")
        }
        _ => {
            let mut b = gen::small_log(r).bytes();
            b.extend_from_slice(&gen::small_log(r).bytes());
            for _ in 0..3 {
                b.extend_from_slice(&weird_message(r));
            }
            (b, "spliced logs")
        }
    };
    Hostile { bytes, how, names }
}

// ---- declarations that claim far more than they supply ----------------------------------------------------

pub const HUGE: &[usize] = &[
    65536,
    1 << 20,
    100_000_000,
    1 << 31,
    (1 << 32) - 1,
    1 << 32,
    (1 << 32) + 1,
    1 << 40,
    1 << 60,
    (1 << 61) + 1,
    1 << 63,
    usize::MAX / 2,
    usize::MAX / 8,
    usize::MAX - 1,
    usize::MAX,
];
pub struct Claim {
    pub what: &'static str,
    /// Whole messages: definitions, subscription, then one message that claims much.
    pub defs: Vec<Vec<u8>>,
    pub probe: Vec<u8>,
}
fn prim(r: &mut Rng) -> &'static str {
    r.pick(&crate::model::PRIMS).text()
}
fn fdef(s: &str) -> Vec<u8> {
    frame(b'F', s.as_bytes())
}
/// A stream of at most a few kilobytes whose last message declares huge, recursive or exponential contents.
pub fn claim(r: &mut Rng) -> Claim {
    let n = if r.chance(3, 4) { *r.pick(HUGE) } else { r.range(1000, 1 << 40) };
    let p = prim(r);
    let head = "uint64_t timestamp;";
    let mut defs = vec![];
    let mut top: String;
    let what;
    match r.below(12) {
        0 => {
            what = "huge primitive array";
            top = format!("{p}[{n}] x;");
        }
        1 => {
            what = "huge array of structures";
            let body = match r.below(3) {
                0 => String::new(),
                1 => format!("{p} v;"),
                _ => format!("{p} v;uint8_t[{n}] w;"),
            };
            defs.push(fdef(&format!("e:{body}")));
            top = format!("e[{n}] x;");
        }
        2 => {
            what = "cycle";
            let len = r.range(1, 4);
            for i in 0..len {
                let arr = *r.pick(&["", "[2]", "[1]", "[10]", "[18446744073709551615]", "[0]"]);
                let lead = if r.flip() { "" } else { "uint8_t lead;" };
                defs.push(fdef(&format!("c{i}:{lead}c{}{arr} x;c{} y;", (i + 1) % len, (i + 1) % len)));
            }
            top = "c0 x;".into();
        }
        3 => {
            what = "self reference";
            let arr = *r.pick(&["", "[2]", "[1]", "[16]", "[4294967296]"]);
            top = format!("t{arr} again;");
        }
        4 => {
            what = "exponential";
            let (fan, levels) = *r.pick(&[(2usize, 60usize), (10, 20), (100, 9), (65535, 4), (3, 40), (1000, 6)]);
            let leaf = *r.pick(&["", "uint8_t[0] z;", "uint8_t z;", "char[0] z;", "bool z;"]);
            defs.push(fdef(&format!("g0:{leaf}")));
            for i in 1..=levels {
                let t = if r.flip() {
                    format!("g{i}:g{}[{fan}] x;", i - 1)
                } else {
                    format!("g{i}:{}", (0..fan.min(20)).map(|k| format!("g{} f{k};", i - 1)).collect::<String>())
                };
                defs.push(fdef(&t));
            }
            top = format!("g{levels} x;");
        }
        5 => {
            what = "deep chain";
            let len = *r.pick(&[10, 63, 64, 65, 100, 200]);
            defs.push(fdef(&format!("h0:{p} v;")));
            for i in 1..=len {
                defs.push(fdef(&format!("h{i}:h{}{} x;", i - 1, r.pick(&["", "[1]"]))));
            }
            top = format!("h{len} x;");
        }
        6 => {
            what = "huge padding";
            top = format!("{p}[{n}] _padding0;");
            if r.flip() {
                top.push_str("uint8_t z;");
            }
        }
        7 => {
            what = "huge info array";
            let t = *r.pick(b"IMPQ");
            let key = format!("{p}[{n}] key");
            let mut pl = vec![];
            if t == b'M' || t == b'Q' {
                pl.push(1);
            }
            pl.push(key.len() as u8);
            pl.extend_from_slice(key.as_bytes());
            let k = r.below(40);
            pl.extend_from_slice(&r.bytes(k));
            return Claim { what, defs, probe: frame(t, &pl) };
        }
        8 => {
            what = "info of structures";
            let body = *r.pick(&["", "uint8_t z;", "e x;", "e[4] x;", "e x;e y;", "char[0] z;"]);
            defs.push(fdef(&format!("e:{body}")));
            let key = format!("e[{n}] key");
            let t = *r.pick(b"IM");
            let mut pl = vec![];
            if t == b'M' {
                pl.push(0);
            }
            pl.push(key.len() as u8);
            pl.extend_from_slice(key.as_bytes());
            let k = r.below(40);
            pl.extend_from_slice(&r.bytes(k));
            return Claim { what, defs, probe: frame(t, &pl) };
        }
        9 => {
            what = "array of wide structures";
            let k = r.range(10, 150);
            let fl: String = (0..k).map(|i| format!("{p} f{i};")).collect();
            defs.push(fdef(&format!("w:{fl}")));
            top = format!("w[{n}] x;");
        }
        10 => {
            what = "mixed";
            top = String::new();
            for i in 0..r.range(1, 6) {
                let m = *r.pick(HUGE);
                top.push_str(&match r.below(4) {
                    0 => format!("{}[{m}] a{i};", prim(r)),
                    1 => format!("{}[{m}] _padding{i};", prim(r)),
                    2 => format!("undefined[{m}] u{i};"),
                    _ => format!("{} s{i};", prim(r)),
                });
            }
        }
        _ => {
            what = "structures of nothing";
            defs.push(fdef("e:"));
            defs.push(fdef(&format!("m:{}", (0..r.range(1, 60)).map(|i| format!("e[{n}] x{i};")).collect::<String>())));
            top = format!("m[{n}] x;");
        }
    }
    // The timestamp may come first or last.
    top = if r.chance(4, 5) { format!("{head}{top}") } else { format!("{top}{head}") };
    defs.push(fdef(&format!("t:{top}")));
    if r.chance(1, 4) {
        r.shuffle(&mut defs);
    }
    let mut a = vec![0, 5, 0];
    a.extend_from_slice(b"t");
    defs.push(frame(b'A', &a));
    let mut d = vec![5, 0];
    let k = *r.pick(&[0, 1, 7, 8, 9, 12, 16, 40, 64]);
    d.extend_from_slice(&r.bytes(k));
    Claim { what, defs, probe: frame(b'D', &d) }
}
pub fn claim_stream(c: &Claim) -> Vec<u8> {
    let mut b = header_bytes(1, 0);
    for d in &c.defs {
        b.extend_from_slice(d);
    }
    b.extend_from_slice(&c.probe);
    b
}
