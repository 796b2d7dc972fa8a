//! One monitor per property.
use crate::gen::Exp;
use crate::model::*;
use crate::runner::Prop;

pub mod builds;
#[cfg(feature = "mapped")]
pub mod byhand;
pub mod config;
pub mod errors;
pub mod faults;
#[cfg(feature = "mapped")]
pub mod mapping;
pub mod robust;
pub mod roundtrip;
pub mod semantics;
pub mod values;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(roundtrip::props());
    v.extend(semantics::props());
    v.extend(faults::props());
    v.extend(robust::props());
    v.extend(values::props());
    v.extend(config::props());
    v.extend(builds::props());
    v.extend(errors::props());
    #[cfg(feature = "mapped")]
    v.extend(mapping::props());
    #[cfg(feature = "mapped")]
    v.extend(byhand::props());
    v
}

/// Shows where two debug renderings part.
pub fn diff(a: &str, b: &str) -> String {
    let ca: Vec<char> = a.chars().collect();
    let cb: Vec<char> = b.chars().collect();
    let n = ca.iter().zip(&cb).take_while(|(x, y)| x == y).count();
    let s = n.saturating_sub(120);
    let w = |c: &[char]| c[s.min(c.len())..(n + 200).min(c.len())].iter().collect::<String>();
    format!("expected …{}… but got …{}…", w(&ca), w(&cb))
}
pub fn exp_text(e: &Exp) -> String {
    match e {
        Exp::M(m) => format!("{m:?}"),
        Exp::E => "one error".into(),
    }
}
pub fn exp_kind(e: &Exp) -> String {
    match e {
        Exp::M(m) => m.kind().into(),
        Exp::E => "Err".into(),
    }
}
pub fn item_text(i: &CItem) -> String {
    match i {
        CItem::M(m) => format!("{m:?}"),
        CItem::E(e) => format!("error {e}"),
    }
}
pub fn matches(e: &Exp, i: &CItem) -> bool {
    match (e, i) {
        (Exp::M(a), CItem::M(b)) => a == b,
        (Exp::E, CItem::E(_)) => true,
        _ => false,
    }
}
/// First difference between expectation and observation: (signature, explanation).
pub fn compare(exp: &[Exp], got: &[CItem]) -> Option<(String, String)> {
    for i in 0..exp.len().max(got.len()) {
        match (exp.get(i), got.get(i)) {
            (Some(e), Some(g)) if matches(e, g) => {}
            (Some(e), Some(g)) => {
                return Some((
                    format!("differs:{}->{}", exp_kind(e), g.kind()),
                    format!("item {i}: {}", diff(&exp_text(e), &item_text(g))),
                ))
            }
            (Some(e), None) => {
                return Some((
                    format!("missing:{}", exp_kind(e)),
                    format!("item {i} missing: expected {}", crate::util::clip(&exp_text(e), 400)),
                ))
            }
            (None, Some(g)) => {
                return Some((
                    format!("extra:{}", g.kind()),
                    format!("unexpected item {i}: {}", crate::util::clip(&item_text(g), 400)),
                ))
            }
            (None, None) => {}
        }
    }
    None
}
pub fn compare_items(exp: &[CItem], got: &[CItem]) -> Option<(String, String)> {
    for i in 0..exp.len().max(got.len()) {
        match (exp.get(i), got.get(i)) {
            (Some(e), Some(g)) if e == g => {}
            (Some(e), Some(g)) => {
                return Some((
                    format!("differs:{}->{}", e.kind(), g.kind()),
                    format!("item {i}: {}", diff(&item_text(e), &item_text(g))),
                ))
            }
            (Some(e), None) => {
                return Some((
                    format!("missing:{}", e.kind()),
                    format!("item {i} missing: {}", crate::util::clip(&item_text(e), 400)),
                ))
            }
            (None, Some(g)) => {
                return Some((
                    format!("extra:{}", g.kind()),
                    format!("unexpected item {i}: {}", crate::util::clip(&item_text(g), 400)),
                ))
            }
            (None, None) => {}
        }
    }
    None
}
pub fn project(exp: &[Exp], o: &crate::drive::Opts) -> Vec<Exp> {
    exp.iter()
        .filter(|e| o.hdr || !matches!(e, Exp::M(CMsg::Header { .. })))
        .map(|e| match e {
            Exp::M(m) => Exp::M(m.project(o.ts, o.pad)),
            Exp::E => Exp::E,
        })
        .collect()
}
/// Sample logs shipped with the repository.
pub fn samples() -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    for d in ["/repo/core/test_data/input", "/repo/core/data"] {
        let Ok(rd) = std::fs::read_dir(d) else {
            continue;
        };
        let mut names: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
        names.sort();
        for p in names {
            if p.extension().map(|e| e == "ulg").unwrap_or(false) {
                if let Ok(b) = std::fs::read(&p) {
                    v.push((p.display().to_string(), b));
                }
            }
        }
    }
    v
}
