//! Helpers that touch every part of what the library returns, and the derived mapping for hostile streams.
use yule_log::encode::Encode;
use yule_log::model::msg::UlogMessage;
use yule_log::model::{inst, CChar, CCharSlice};

fn value(v: &inst::FieldValue) -> u64 {
    let mut n = format!("{v}").len() as u64;
    n += format!("{v:?}").len() as u64;
    if let Some(s) = v.to_scalars() {
        n += s.len() as u64;
    }
    if let inst::FieldValue::ArrayChar(a) = v {
        n += (a.as_bytes().len() + a.to_string_lossy().len() + a.to_string_lossy_trimmed().len() + a.trim_end_nul().len()) as u64;
        n += a.iter().map(|c| c.as_char() as u64 + c.as_u8() as u64).sum::<u64>() & 1;
    }
    let mut b = Vec::new();
    let _ = v.encode(&mut b);
    n += b.len() as u64;
    n
}
fn instance(f: &inst::Format) -> u64 {
    #[allow(deprecated)]
    let fl = f.flatten();
    let mut n = fl.len() as u64 + format!("{f}").len() as u64;
    for x in &f.fields {
        n += value(&x.value);
    }
    n += format!("{}", f.def_format).len() as u64;
    n
}
/// Renders, flattens and encodes a message in every way the library offers; returns a size so nothing is elided.
pub fn touch(m: &UlogMessage) -> u64 {
    let mut n = format!("{m:?}").len() as u64;
    n += match m {
        UlogMessage::Header(h) => h.to_bytes().len() as u64,
        UlogMessage::FlagBits(b) => u64::from(b.has_data_appended()) + u64::from(b.has_default_parameters()),
        UlogMessage::FormatDefinition(f) => {
            format!("{f}").len() as u64 + f.fields.iter().map(|x| format!("{x}").len() as u64).sum::<u64>()
        }
        UlogMessage::LoggedData(d) => instance(&d.data),
        UlogMessage::AddSubscription(s) => format!("{s}").len() as u64,
        UlogMessage::Info(i) => format!("{i}").len() as u64 + value(&i.value),
        UlogMessage::MultiInfo(i) => format!("{i}").len() as u64 + value(&i.value),
        UlogMessage::Parameter(p) => format!("{p}").len() as u64,
        UlogMessage::DefaultParameter(p) => {
            let t = p.get_default_type();
            format!("{p}").len() as u64 + u64::from(t.system_wide)
        }
        UlogMessage::LoggedString(l) | UlogMessage::TaggedLoggedString(l) => format!("{l}").len() as u64,
        UlogMessage::DropoutMark(d) => format!("{d}").len() as u64,
        _ => 0,
    };
    let mut v = Vec::new();
    let _ = m.encode(&mut v);
    n + v.len() as u64
}
#[cfg(feature = "mapped")]
pub use derived::run_mapped;
/// Without the derived structs (they do not compile against the current tree) only the plain parser is driven.
#[cfg(not(feature = "mapped"))]
pub fn run_mapped(_: &[u8], _: &mut crate::rng::Rng, _: usize) -> Result<Vec<String>, usize> {
    Ok(vec![])
}
/// A fixed set of user structs over the short names that hostile streams use, so that hostile data reaches the
/// derived mapping code.
#[cfg(feature = "mapped")]
mod derived {
    use crate::rng::Rng;
    use yule_log::model::msg::UlogMessage;
    use yule_log::model::CChar;
    use yule_log::{ULogData, ULogMessages};

    #[derive(ULogData, Debug)]
    pub struct A {
        pub timestamp: u64,
        pub x: Option<f32>,
    }
    #[derive(ULogData, Debug)]
    pub struct B {
        pub timestamp: u64,
        pub y: u8,
        pub z: Option<Vec<u8>>,
        pub _padding0: Option<Vec<u8>>,
    }
    #[derive(ULogData, Debug)]
    pub struct E {
        pub x: u8,
        pub n: Option<Vec<CChar>>,
    }
    #[derive(ULogData, Debug)]
    #[yule_log(subscription_name = "c")]
    pub struct Sea {
        #[yule_log(field_name = "timestamp")]
        pub t: u64,
        #[yule_log(field_name = "x")]
        pub inner: Option<E>,
        #[yule_log(field_name = "y")]
        pub many: Option<Vec<E>>,
    }
    #[derive(ULogData, Debug)]
    #[yule_log(subscription_name = "a", multi_id = 1)]
    pub struct AOne {
        pub timestamp: u64,
        pub value: i32,
        pub z: CChar,
        pub n: Option<bool>,
    }
    #[derive(ULogData, Debug)]
    #[yule_log(subscription_name = "t")]
    pub struct Top {
        pub timestamp: u64,
        pub x: Option<Vec<E>>,
        pub _padding0: Option<Vec<u64>>,
    }
    #[derive(ULogMessages, Debug)]
    pub enum LoggedMessages {
        A(A),
        B(B),
        Sea(Sea),
        AOne(AOne),
        Top(Top),
        #[yule_log(forward_other)]
        Other(UlogMessage),
    }
    #[derive(ULogMessages, Debug)]
    pub enum Bare {
        A(A),
        B(B),
    }

    /// The stream of either enum as text, one entry per item; None if it does not end within `max` items.
    pub fn run_mapped(b: &[u8], r: &mut Rng, max: usize) -> Result<Vec<String>, usize> {
        let mut out = vec![];
        let kind = r.below(4);
        let fwd = r.flip();
        let extra = r.flip();
        macro_rules! drain {
            ($it:expr) => {
                for x in $it {
                    if let Ok(m) = &x {
                        out.push(format!("{m:?}"));
                    } else {
                        out.push(format!("{:?}", x.err()));
                    }
                    if out.len() > max {
                        return Err(out.len());
                    }
                }
            };
        }
        if kind == 0 {
            drain!(Bare::stream(b).expect("library: stream() failed"));
        } else if kind == 1 {
            drain!(LoggedMessages::stream(b).expect("library: stream() failed"));
        } else {
            let mut bl = LoggedMessages::builder(b).forward_subscriptions(fwd).expect("library: forward_subscriptions() failed");
            if extra {
                bl = bl.add_subscription("d").expect("library: add_subscription() failed");
            }
            drain!(bl.stream().expect("library: stream() failed"));
        }
        Ok(out)
    }
}
