//! Worker and replay entry points: runs the cases of one property in this process and reports what was seen.
//! A supervisor (check.py) watches the exit status; this process catches panics and its own CPU time.
use crate::ctx::{Ctx, Violation};
use crate::rng::Rng;
use crate::{alloc, util};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

pub type CaseFn = fn(&mut Ctx, &mut Rng, u64);
pub struct Prop {
    pub id: &'static str,
    /// Number of cases at quick / thorough.
    pub quick: u64,
    pub thorough: u64,
    pub case: CaseFn,
    /// What makes a case non-trivial.
    pub rule: &'static str,
    /// Counters that must not be zero at the end of a run.
    pub need: &'static [&'static str],
}

static LAST_PANIC: Mutex<Option<(String, u32, String)>> = Mutex::new(None);
static CASE_CPU0: AtomicU64 = AtomicU64::new(0);
static CASE_NO: AtomicU64 = AtomicU64::new(u64::MAX);
pub const CASE_CPU_LIMIT_S: u64 = 60;

fn cpu_ms() -> u64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t);
        t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
    }
}

fn hook() {
    panic::set_hook(Box::new(|info| {
        let (f, l) = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = Some((f, l, m));
        }
    }));
}

/// True if the panic location lies in the harness itself rather than in the code under test.
fn harness_location(file: &str) -> bool {
    if file.contains("generated") {
        return false; // code expanded by the derive macros
    }
    file.contains("/verif/") || file.starts_with("src/") || file.contains("harness/src") || file.contains("derive/src")
}

pub enum CaseEnd {
    Ok,
    Violation,
    HarnessPanic(String),
}
pub fn run_case(p: &Prop, ctx: &mut Ctx, case: u64) -> CaseEnd {
    ctx.case = case;
    ctx.input.clear();
    CASE_CPU0.store(cpu_ms(), SeqCst);
    CASE_NO.store(case, SeqCst);
    let before = ctx.violations.len();
    let mut r = Rng::of(ctx.seed, p.id, case);
    let res = panic::catch_unwind(panic::AssertUnwindSafe(|| (p.case)(ctx, &mut r, case)));
    if res.is_err() {
        let (f, l, m) = LAST_PANIC.lock().map(|mut g| g.take()).unwrap_or(None).unwrap_or_default();
        if harness_location(&f) && !m.starts_with("library:") {
            return CaseEnd::HarnessPanic(format!("{f}:{l}: {m}"));
        }
        let short: String = util::clip(&m, 60).chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
        let file = f.rsplit('/').next().unwrap_or("").to_string();
        let input = ctx.input.clone();
        ctx.violate(&format!("panic:{file}:{short}"), format!("panicked at {f}:{l}: {m}"), &input);
        ctx.evals += 1;
        return CaseEnd::Violation;
    }
    if ctx.violations.len() > before {
        CaseEnd::Violation
    } else {
        CaseEnd::Ok
    }
}

fn json(ctx: &Ctx, done: u64, harness: &Option<String>) -> String {
    let mut s = String::from("{");
    s.push_str(&format!("\"cases\":{done},\"evals\":{},", ctx.evals));
    s.push_str("\"counters\":{");
    s.push_str(&ctx.counters.iter().map(|(k, v)| format!("{}:{v}", util::jstr(k))).collect::<Vec<_>>().join(","));
    s.push_str("},\"samples\":[");
    s.push_str(&ctx.samples.iter().map(|x| util::jstr(x)).collect::<Vec<_>>().join(","));
    s.push_str("],\"violations\":[");
    s.push_str(&ctx.violations.iter().map(vjson).collect::<Vec<_>>().join(","));
    s.push_str("],\"harness_error\":");
    match harness {
        None => s.push_str("null"),
        Some(m) => s.push_str(&util::jstr(m)),
    }
    s.push('}');
    s
}
fn vjson(v: &Violation) -> String {
    format!(
        "{{\"sig\":{},\"case\":{},\"detail\":{},\"input_hex\":\"{}\"}}",
        util::jstr(&v.sig),
        v.case,
        util::jstr(&v.detail),
        util::hex(&v.input[..v.input.len().min(20000)])
    )
}

pub fn main(props: &[Prop]) {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).map(|s| s.parse().expect("number")).unwrap_or(d);
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let id = a.get(2).cloned().unwrap_or_default();
    let Some(p) = props.iter().find(|p| p.id == id) else {
        if cmd == "list" {
            for p in props {
                println!("{}\t{}\t{}\t{}\t{}", p.id, p.quick, p.thorough, p.rule, p.need.join(","));
            }
            return;
        }
        eprintln!("usage: ymon worker|replay|list ID --seed S [--case K | --shard I --shards N --out DIR]");
        std::process::exit(2);
    };
    let seed = num("--seed", 1);
    let thorough = get("--tier").as_deref() == Some("thorough");
    hook();
    alloc::set_cap(num("--cap-mb", 3000) as usize * 1_000_000);
    unsafe {
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
    }
    match cmd {
        "replay" => {
            let mut ctx = Ctx::new(seed, thorough, get("--out").map(PathBuf::from));
            let case = num("--case", 0);
            match run_case(p, &mut ctx, case) {
                CaseEnd::Ok => println!("case {case}: held"),
                CaseEnd::HarnessPanic(m) => println!("case {case}: harness error {m}"),
                CaseEnd::Violation => {
                    for v in &ctx.violations {
                        println!("case {case}: VIOLATED [{}] {}", v.sig, v.detail);
                        println!("input ({} bytes): {}", v.input.len(), util::clip(&util::hex(&v.input), 2000));
                    }
                }
            }
            for (k, v) in &ctx.counters {
                println!("  {k} = {v}");
            }
            let code = i32::from(!ctx.violations.is_empty());
            std::process::exit(code);
        }
        "worker" => {
            let out = PathBuf::from(get("--out").expect("--out"));
            let (shard, shards) = (num("--shard", 0), num("--shards", 1));
            let cases = num("--cases", if thorough { p.thorough } else { p.quick });
            let prog = std::fs::File::create(out.join(format!("progress-{shard}"))).expect("progress file");
            let hang = out.join(format!("hang-{shard}"));
            std::thread::spawn(move || loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let c = CASE_NO.load(SeqCst);
                let used = cpu_ms().saturating_sub(CASE_CPU0.load(SeqCst));
                if c != u64::MAX && used > CASE_CPU_LIMIT_S * 1000 {
                    let _ = std::fs::write(&hang, format!("{c} {used}"));
                    unsafe { libc::_exit(77) };
                }
            });
            let mut ctx = Ctx::new(seed, thorough, Some(out.clone()));
            let mut harness = None;
            let mut done = 0;
            let first = num("--first", 0);
            let mut case = first + shard;
            while case < first + cases {
                let _ = prog.write_all_at(format!("{case:<20}").as_bytes(), 0);
                match run_case(p, &mut ctx, case) {
                    CaseEnd::Ok => {}
                    CaseEnd::HarnessPanic(m) => {
                        harness = Some(format!("case {case}: {m}"));
                        break;
                    }
                    CaseEnd::Violation => {
                        // Enough witnesses: stop early.
                        let sigs: std::collections::BTreeSet<_> = ctx.violations.iter().map(|v| &v.sig).collect();
                        if sigs.len() >= 6 || ctx.counters.get("violations-not-recorded").copied().unwrap_or(0) > 20 {
                            done += 1;
                            break;
                        }
                    }
                }
                done += 1;
                case += shards;
            }
            CASE_NO.store(u64::MAX, SeqCst);
            let mut hb = Vec::with_capacity(ctx.hashes.len() * 8);
            for h in &ctx.hashes {
                hb.extend_from_slice(&h.to_le_bytes());
            }
            std::fs::write(out.join(format!("hashes-{shard}")), hb).expect("hashes");
            if !ctx.digests.is_empty() {
                let b: Vec<u8> = ctx.digests.iter().flatten().flat_map(|x| x.to_le_bytes()).collect();
                std::fs::write(out.join(format!("digest-{shard}")), b).expect("digests");
            }
            if !ctx.corpus.0.is_empty() {
                std::fs::write(out.join(format!("corpus-{shard}")), &ctx.corpus.0).expect("corpus");
                std::fs::write(out.join(format!("short-{shard}")), &ctx.corpus.1).expect("corpus");
            }
            let mut f = std::fs::File::create(out.join(format!("shard-{shard}.json"))).expect("result");
            f.write_all(json(&ctx, done, &harness).as_bytes()).expect("result");
        }
        _ => std::process::exit(2),
    }
}
