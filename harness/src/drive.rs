//! Running the library: options, sources, sinks.
use crate::canon;
use crate::model::*;
use crate::rng::Rng;
use std::io::{self, Read, Write};
use yule_log::builder::ULogParserBuilder;
use yule_log::encode::Encode;
use yule_log::errors::ULogError;
use yule_log::model::msg::UlogMessage;
use yule_log::parser::ULogParser;

#[derive(Clone, Debug)]
pub struct Opts {
    pub hdr: bool,
    pub ts: bool,
    pub pad: bool,
    pub allow: Option<Vec<String>>,
}
pub const FULL: Opts = Opts { hdr: true, ts: true, pad: true, allow: None };
impl Opts {
    pub fn random(r: &mut Rng, names: &[String]) -> Opts {
        let allow = if r.chance(1, 3) {
            let mut v: Vec<String> = names.iter().filter(|_| r.flip()).cloned().collect();
            if r.chance(1, 3) {
                v.push("no_such_topic".into());
            }
            Some(v)
        } else {
            None
        };
        Opts { hdr: r.flip(), ts: r.flip(), pad: r.flip(), allow }
    }
}
pub fn parser<R: Read>(rd: R, o: &Opts) -> ULogParser<R> {
    let mut b = ULogParserBuilder::new(rd).include_header(o.hdr).include_timestamp(o.ts).include_padding(o.pad);
    if let Some(a) = &o.allow {
        b = b.set_subscription_allow_list(a.clone());
    }
    match b.build() {
        Ok(p) => p,
        Err(e) => panic!("library: build() failed: {e}"),
    }
}
pub type Item = Result<UlogMessage, ULogError>;

/// Upper bound on the number of items a stream may yield: messages present, plus one error, plus the header.
pub fn item_bound(bytes: &[u8]) -> usize {
    let mut n = 2;
    let mut p = 16;
    while p + 3 <= bytes.len() {
        p += 3 + u16::from_le_bytes([bytes[p], bytes[p + 1]]) as usize;
        n += 1;
    }
    n + 1
}
/// Collects all items; `Err(n)` if the iteration is still going after `max` items.
pub fn items<R: Read>(rd: R, o: &Opts, max: usize) -> Result<Vec<Item>, usize> {
    let mut p = parser(rd, o);
    let mut v = vec![];
    loop {
        match p.next() {
            None => return Ok(v),
            Some(x) => v.push(x),
        }
        if v.len() > max {
            return Err(v.len());
        }
    }
}
pub fn canon_all(v: &[Item]) -> Vec<CItem> {
    v.iter().map(canon::item).collect()
}
pub fn run(bytes: &[u8], o: &Opts) -> Result<Vec<CItem>, usize> {
    items(bytes, o, item_bound(bytes) + 64).map(|v| canon_all(&v))
}
pub fn encode_msg(m: &UlogMessage) -> io::Result<Vec<u8>> {
    let mut v = Vec::new();
    m.encode(&mut v)?;
    Ok(v)
}

// ---- sources --------------------------------------------------------------------------------------------

/// Delivers bytes in random small pieces, interrupting now and then.
pub struct Chunky<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub r: Rng,
    pub max: usize,
    pub interrupts: bool,
    pub reads: u64,
    pub interrupted: u64,
}
impl<'a> Chunky<'a> {
    pub fn new(data: &'a [u8], r: Rng, max: usize, interrupts: bool) -> Self {
        Chunky { data, pos: 0, r, max, interrupts, reads: 0, interrupted: 0 }
    }
}
impl Read for Chunky<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if self.interrupts && self.r.chance(1, 3) {
            self.interrupted += 1;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let want = self.r.range(1, self.max.max(1));
        let n = want.min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidData,
    io::ErrorKind::NotFound,
];
/// Fails when the read position reaches `at`; afterwards either keeps failing or recovers.
pub struct Failing<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub at: usize,
    pub kind: io::ErrorKind,
    /// How many reads fail at that position (usize::MAX: for ever).
    pub times: usize,
    pub failed: usize,
    pub max: usize,
}
impl Read for Failing<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.pos == self.at && self.failed < self.times {
            self.failed += 1;
            return Err(io::Error::new(self.kind, "injected read failure"));
        }
        let lim = if self.pos < self.at { self.at } else { self.data.len() };
        let n = buf.len().min(lim - self.pos).min(self.max);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

// ---- sinks ----------------------------------------------------------------------------------------------

/// Accepts a limited number of bytes per write, interrupts, and fails for good at a position.
pub struct Sink {
    pub got: Vec<u8>,
    pub r: Rng,
    pub max: usize,
    pub interrupts: bool,
    pub fail_at: Option<(usize, Fail)>,
    pub writes: u64,
    pub failures: u64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fail {
    Kind(io::ErrorKind),
    /// Accepts nothing (write returns 0).
    Full,
    /// Fails once, then works again.
    Once(io::ErrorKind),
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.writes += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupts && self.r.chance(1, 3) {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = buf.len().min(self.r.range(1, self.max.max(1)));
        if let Some((at, f)) = self.fail_at {
            if self.got.len() >= at {
                match f {
                    Fail::Full => {
                        self.failures += 1;
                        return Ok(0);
                    }
                    Fail::Kind(k) => {
                        self.failures += 1;
                        return Err(io::Error::new(k, "injected write failure"));
                    }
                    Fail::Once(k) => {
                        if self.failures == 0 {
                            self.failures += 1;
                            return Err(io::Error::new(k, "injected write failure"));
                        }
                    }
                }
            } else {
                n = n.min(at - self.got.len());
            }
        }
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
