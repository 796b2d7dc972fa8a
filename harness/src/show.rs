//! Every text the library makes of what it returns.
use std::fmt::Write;
use yule_log::model::{inst, CCharSlice};
use yule_log::model::msg::UlogMessage;

/// Every text the library makes of a value.
pub fn show_value(v: &inst::FieldValue, s: &mut String, light: bool) {
    use inst::FieldValue::*;
    let _ = write!(s, "{v};");
    match v {
        ArrayChar(a) => {
            let _ = write!(s, "{};{};{};", a.to_string_lossy(), a.to_string_lossy_trimmed(), a.trim_end_nul().len());
            if let Some(c) = a.first() {
                let _ = write!(s, "{}{c}", c.as_char());
            }
        }
        ScalarOther(f) => show_format(f, s, light),
        ArrayOther(a) => a.iter().take(6).for_each(|f| show_format(f, s, light)),
        _ => {}
    }
    if !light {
        let _ = write!(s, "{:?}", v.to_scalars().map(|x| x.len()));
    }
}
pub fn show_format(f: &inst::Format, s: &mut String, light: bool) {
    let _ = write!(s, "{f};{};", f.def_format);
    for x in &f.fields {
        let _ = write!(s, "{} {}=", x.r#type, x.name);
        show_value(&x.value, s, light);
    }
}
/// Every text the library makes of a message.
pub fn show(m: &UlogMessage, light: bool) -> String {
    let mut s = String::new();
    let o = &mut s;
    let _ = match m {
        UlogMessage::Header(h) => write!(o, "{:?}", h.to_bytes()),
        UlogMessage::LoggedData(x) => {
            show_format(&x.data, o, light);
            Ok(())
        }
        UlogMessage::Info(x) => {
            show_value(&x.value, o, light);
            write!(o, "{x} {}", x.r#type)
        }
        UlogMessage::MultiInfo(x) => {
            show_value(&x.value, o, light);
            write!(o, "{x} {}", x.r#type)
        }
        UlogMessage::FormatDefinition(x) => write!(o, "{x}"),
        UlogMessage::AddSubscription(x) => write!(o, "{x}"),
        UlogMessage::Parameter(x) => write!(o, "{x}"),
        UlogMessage::DefaultParameter(x) => write!(o, "{x} {}", x.get_default_type().configuration),
        UlogMessage::LoggedString(x) | UlogMessage::TaggedLoggedString(x) => write!(o, "{x} {}", x.level),
        UlogMessage::DropoutMark(x) => write!(o, "{x}"),
        UlogMessage::FlagBits(x) => write!(o, "{}{}", x.has_data_appended(), x.has_default_parameters()),
        _ => Ok(()),
    };
    if !light {
        let _ = write!(s, "{m:?}");
    }
    s
}
