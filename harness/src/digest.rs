//! Everything observable about an input, folded into numbers that must not depend on the build or the machine.
use crate::drive::{self, Chunky, Opts, FULL};
use crate::rng::Rng;
use crate::{canon, mapped, show, util};
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use yule_log::model::msg::UlogMessage;

#[derive(Default)]
pub struct Digest {
    pub plain: u64,
    /// 0: no derived structs in this build.
    pub derived: u64,
    pub items: u64,
    pub errors: u64,
    pub filtered: bool,
    pub text: String,
    pub derived_text: String,
}
pub const PANIC: u64 = 3;
/// Added to the number of a case that is digested lightly.
pub const LIGHT: u64 = 1 << 62;

/// Added to the number of a case whose input is the seed of a log longer than a 32-bit machine can count.
pub const LONG: u64 = 1 << 61;

/// A log of more than 4 GiB: header, flag bits, large messages up to where appended data begins, and some more behind.
struct LongLog {
    head: Vec<u8>,
    body: Vec<u8>,
    at: u64,
    end: u64,
}
impl std::io::Read for LongLog {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let h = self.head.len() as u64;
        let (src, k) = if self.at < h { (&self.head, self.at as usize) } else { (&self.body, ((self.at - h) % self.body.len() as u64) as usize) };
        let n = b.len().min(src.len() - k).min(usize::try_from(self.end - self.at).unwrap_or(usize::MAX));
        b[..n].copy_from_slice(&src[k..k + n]);
        self.at += n as u64;
        Ok(n)
    }
}
/// How many items a log of more than 4 GiB has, and what ends it.
pub fn long(seed: &[u8]) -> Digest {
    let mut r = Rng::new(util::hash(seed));
    let mut head = Vec::new();
    head.extend_from_slice(&[b'U', b'L', b'o', b'g', 1, 0x12, 0x35, 1, 9, 0, 0, 0, 0, 0, 0, 0]);
    head.extend_from_slice(&[40, 0, b'B', 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0]);
    let offset = (1u64 << 32) + r.u64() % 1_000_000;
    [0, offset, 0].iter().for_each(|o| head.extend_from_slice(&o.to_le_bytes()));
    let mut body = vec![0xff, 0xff, b'x'];
    body.resize(3 + 65535, 7);
    let log = LongLog { head, body, at: 0, end: offset + 3_000_000 };
    let mut d = Digest::default();
    let run = catch_unwind(AssertUnwindSafe(|| {
        let Ok(mut p) = yule_log::parser::ULogParser::new(log) else { return };
        let mut last = String::new();
        while let Some(x) = p.next() {
            d.items += 1;
            last = match x {
                Ok(UlogMessage::Unhandled { msg_type, message_contents }) => format!("{msg_type} {}", message_contents.len()),
                x => format!("{x:?}"),
            };
        }
        d.text = format!("{} items, the last of them {last}", d.items);
    }));
    d.plain = if run.is_err() { PANIC } else { util::hash(d.text.as_bytes()) };
    d
}

/// `light` leaves out what an interpreter takes too long for.
pub fn digest(bytes: &[u8], seed: &Rng, light: bool) -> Digest {
    let mut d = Digest::default();
    let names: Vec<String> = ["a", "b", "c", "d", "esc_status"].map(String::from).to_vec();
    let plain = catch_unwind(AssertUnwindSafe(|| {
        let mut r = seed.clone();
        let max = drive::item_bound(bytes) + 8;
        let random = Opts::random(&mut r, &names);
        let opts = if !light {
            vec![FULL, random]
        } else if r.flip() {
            vec![FULL]
        } else {
            vec![random]
        };
        for o in opts {
            d.filtered |= o.allow.is_some();
            let v = if r.flip() {
                drive::items(bytes, &o, max)
            } else {
                let q = r.fork();
                drive::items(Chunky::new(bytes, q, 50, true), &o, max)
            };
            match v {
                Err(_) => d.text.push_str("endless"),
                Ok(v) => {
                    for x in &v {
                        d.items += 1;
                        item(x, light, &mut d);
                        // Large renderings are folded up.
                        if d.text.len() > 4_000_000 {
                            d.text = util::hash(d.text.as_bytes()).to_string();
                        }
                    }
                }
            }
        }
    }));
    d.plain = if plain.is_err() { PANIC } else { util::hash(d.text.as_bytes()) | 4 };
    if cfg!(feature = "mapped") {
        let derived = catch_unwind(AssertUnwindSafe(|| mapped::run_mapped(bytes, &mut seed.clone(), drive::item_bound(bytes) + 64)));
        d.derived = match &derived {
            Ok(v) => {
                d.derived_text = format!("{v:?}");
                util::hash(d.derived_text.as_bytes()) | 4
            }
            Err(_) => PANIC,
        };
    }
    d
}
fn item(x: &Result<UlogMessage, yule_log::errors::ULogError>, light: bool, d: &mut Digest) {
    let out = &mut d.text;
    match x {
        Ok(m) => {
            out.push_str(&show::show(m, light));
            let enc = drive::encode_msg(m).map(|b| util::hash(&b)).ok();
            let _ = write!(out, " {enc:?}");
            if let UlogMessage::LoggedData(d) = m {
                // What is left of it after filtering by hand.
                for (ts, pad) in [(true, false), (false, true), (false, false)] {
                    let mut d = d.clone();
                    d.filter_fields(ts, pad);
                    out.push_str(" -");
                    d.data.fields.iter().for_each(|f| out.extend([" ", &*f.name]));
                }
            }
            if !light {
                let _ = write!(out, " {:?}", canon::item(x));
                if let UlogMessage::LoggedData(d) = m {
                    #[allow(deprecated)]
                    let f = d.data.flatten();
                    let _ = write!(out, " {f:?}");
                }
            }
        }
        Err(e) => {
            d.errors += 1;
            let _ = write!(out, "{e} {e:?}");
        }
    }
    out.push('\n');
}
pub fn machine_rng(case: u64) -> Rng {
    Rng::of(0, "machine", case)
}
/// The inputs of a corpus: number, bytes.
pub fn corpus(b: &[u8]) -> Vec<(u64, &[u8])> {
    let mut v = vec![];
    let mut at = 0;
    while at + 12 <= b.len() {
        let case = u64::from_le_bytes(b[at..at + 8].try_into().expect("8"));
        let n = u32::from_le_bytes(b[at + 8..at + 12].try_into().expect("4")) as usize;
        v.push((case, &b[at + 12..at + 12 + n]));
        at += 12 + n;
    }
    v
}
