//! Runs workloads under a sanitizer or the Miri interpreter; tools/san_build.py reads what this prints.
//!   ysan ub|mt|C.. SEED FIRST COUNT STEP small|big
//!   ysan digest CORPUS FIRST STEP
use std::panic;
use ymon::ctx::Ctx;
use ymon::rng::Rng;
use ymon::util;
use ymon::san::{self, Stats};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "digest" {
        return digest(&a[2], a[3].parse().expect("number"), a[4].parse().expect("number"));
    }
    let num = |i: usize| -> u64 { a[i].parse().expect("number") };
    let (mode, seed, first, count, step, small) = (a[1].as_str(), num(2), num(3), num(4), num(5), a[6] == "small");
    // Panics are another property's business, except those that report a wrong use of unsafe code.
    panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        if ["unsafe precondition", "misaligned pointer", "null pointer"].iter().any(|x| m.contains(x)) {
            println!("@unsafe {m}");
        }
    }));
    let props = ymon::props::all();
    let prop = props.iter().find(|p| p.id == mode);
    let mut st = Stats::default();
    let mut case = first;
    let mut done = 0;
    // Stops starting cases once the time is used up.
    let t0 = std::time::Instant::now();
    let budget = std::env::var("YSAN_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
    while done < count && (done == 0 || t0.elapsed().as_secs() < budget) {
        println!("@case {case}");
        let mut r = Rng::of(seed, mode, case);
        let res = panic::catch_unwind(panic::AssertUnwindSafe(|| match (mode, prop) {
            ("ub", _) => san::ub_case(&mut r, case, small, &mut st),
            ("mt", _) => san::mt_case(&mut r, case, small, &mut st),
            (_, Some(p)) => {
                let mut ctx = Ctx::new(seed, false, None);
                ctx.case = case;
                (p.case)(&mut ctx, &mut r, case);
                st.n("evaluations of other monitors", ctx.evals);
                st.seen(util::hash(format!("{mode} {case}").as_bytes()));
                st.c("cases");
                Ok(())
            }
            _ => panic!("unknown mode"),
        }));
        match res {
            Ok(Ok(())) => {}
            Ok(Err(e)) => println!("@violation {case} {e}"),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                st.c("panics (not judged here)");
                println!("@panic {case} {}", m.replace('\n', " "));
                if mode == "mt" {
                    println!("@violation {case} a thread panicked although the same work succeeds on one thread: {}", m.replace('\n', " "));
                }
            }
        }
        for h in st.1.drain(..) {
            println!("@hash {h}");
        }
        done += 1;
        case += step;
    }
    for (k, v) in &st.0 {
        println!("@stat {v} {k}");
    }
    println!("@done {done}");
}
/// C30: this machine's results for every STEPth input of the corpus.
fn digest(corpus: &str, first: usize, step: usize) {
    panic::set_hook(Box::new(|info| println!("@panic {info}")));
    let b = std::fs::read(corpus).expect("corpus");
    let t0 = std::time::Instant::now();
    let budget = std::env::var("YSAN_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
    let bits = usize::BITS;
    let big = cfg!(target_endian = "big");
    println!("@machine {bits} {}", if big { "big" } else { "little" });
    let mut n = 0;
    let only: Option<u64> = std::env::var("SHOW").ok().and_then(|x| x.parse().ok());
    for (case, bytes) in ymon::digest::corpus(&b).into_iter().skip(first).step_by(step) {
        if only.is_some_and(|c| c != case) {
            continue;
        }
        println!("@case {case}");
        let d = ymon::digest::digest(bytes, &ymon::digest::machine_rng(case), case & ymon::digest::LIGHT != 0);
        println!("@digest {case} {} {} {} {}", util::hash(bytes), d.plain, d.derived, d.items);
        if only.is_some() {
            println!("{}\n{}", d.text, d.derived_text);
        }
        n += 1;
        if t0.elapsed().as_secs() >= budget {
            break;
        }
    }
    println!("@done {n}");
}
