//! Random programs that use the derive macros: topics, structs that are views of topics, enums over the structs.
//! The same description prints the Rust source and tells the monitors what the program must deliver.
use crate::gen;
use crate::model::*;
use crate::rng::Rng;
use std::collections::HashSet;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum TTy {
    P(Prim),
    /// Another topic, by index.
    N(usize),
}
#[derive(Clone, Debug)]
pub struct TField {
    pub name: String,
    pub ty: TTy,
    pub arr: bool,
    pub pad: bool,
    plain: Option<String>,
    camel: Option<String>,
}
#[derive(Clone, Debug)]
pub struct Topic {
    pub name: String,
    pub fields: Vec<TField>,
    /// Has a timestamp and can be subscribed.
    pub top: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum FKind {
    P(Prim),
    VP(Prim),
    /// A nested struct, by index.
    N(usize),
    VN(usize),
}
#[derive(Clone, Debug)]
pub struct SField {
    pub ident: String,
    pub attr: bool,
    /// Name of the field in the log.
    pub log: String,
    pub kind: FKind,
    pub opt: bool,
    style: usize,
}
#[derive(Clone, Debug)]
pub struct Struct {
    pub ident: String,
    pub topic: usize,
    pub name_attr: Option<String>,
    /// Subscription name it maps.
    pub sub: String,
    pub multi_attr: Option<u8>,
    pub fields: Vec<SField>,
    style: usize,
}
impl Struct {
    pub fn multi(&self) -> u8 {
        self.multi_attr.unwrap_or(0)
    }
}
#[derive(Clone, Debug)]
pub struct EnumDef {
    pub ident: String,
    /// Variant name and struct index; None is the catch-all.
    pub variants: Vec<(String, Option<usize>)>,
    unit: Option<String>,
    style: usize,
}
impl EnumDef {
    pub fn catch_all(&self) -> bool {
        self.variants.iter().any(|v| v.1.is_none())
    }
}
#[derive(Clone, Debug)]
pub struct Program {
    pub topics: Vec<Topic>,
    pub structs: Vec<Struct>,
    pub enums: Vec<EnumDef>,
}

/// Pieces of type names: (as written in camel case, snake case, is an acronym).
const PIECES: &[(&str, &str, bool)] = &[
    ("Vehicle", "vehicle", false),
    ("Status", "status", false),
    ("Sensor", "sensor", false),
    ("Gyro2", "gyro2", false),
    ("Actuator", "actuator", false),
    ("Esc8", "esc8", false),
    ("Position", "position", false),
    ("Local", "local", false),
    ("Home", "home", false),
    ("Att", "att", false),
    ("GPS", "gps", true),
    ("IMU", "imu", true),
    ("RC", "rc", true),
    ("V8", "v8", true),
    ("X", "x", true),
    ("PX4", "px4", true),
];
/// Names that generated code might use itself.
const TYPE_HYGIENE: &[(&str, &str)] = &[
    ("R", "r"),
    ("S", "s"),
    ("I", "i"),
    ("T", "t"),
    ("Data", "data"),
    ("Format", "format"),
    ("Field", "field"),
    ("Accessor", "accessor"),
    ("Builder", "builder"),
    ("Item", "item"),
    ("Output", "output"),
    ("Map", "map"),
    ("Reader", "reader"),
    ("HashMap", "hash_map"),
    ("HashSet", "hash_set"),
    ("UlogMessage", "ulog_message"),
    ("FieldValue", "field_value"),
    ("LoggedData", "logged_data"),
    ("FromField", "from_field"),
    ("ULogError", "u_log_error"),
    ("Read", "read"),
    ("Parser", "parser"),
    ("Shared", "shared"),
    ("r#type", "type"),
    ("r#struct", "struct"),
];
const KEYWORDS: &[&str] =
    &["type", "match", "fn", "loop", "move", "ref", "mod", "use", "where", "async", "impl", "enum", "box", "in", "final"];
/// Field names: (name in the log, as a plain identifier, as an identifier in camel case).
const FIELDS: &[(&str, &str, &str)] = &[
    ("x", "x", ""),
    ("y", "y", ""),
    ("q_d", "q_d", "qD"),
    ("max_rpm", "max_rpm", "maxRPM"),
    ("max_rpm", "max_rpm", "MaxRpm"),
    ("esc8_volts", "esc8_volts", "esc8Volts"),
    ("gps_time_usec", "gps_time_usec", "GPSTimeUsec"),
    ("value", "value", "Value"),
    ("x_axis", "x_axis", "xAxis"),
    ("map", "map", ""),
    ("missing", "missing", ""),
    ("format", "format", ""),
    ("result", "result", ""),
    ("index", "index", ""),
    ("idx", "idx", ""),
    ("data", "data", "Data"),
    ("field", "field", ""),
    ("x_index", "x_index", ""),
    ("map_index", "map_index", ""),
    ("u8", "u8", ""),
    ("acc", "acc", ""),
    ("msg", "msg", ""),
    ("name", "name", ""),
    ("_y", "_y", ""),
    ("z_", "z_", ""),
    ("a__b", "a__b", ""),
    ("x0", "x0", ""),
    ("timestamp_sample", "timestamp_sample", "TimestampSample"),
    ("Q", "", ""),
    ("BatV", "", ""),
    ("0x", "", ""),
    ("9volts", "", ""),
    ("MAX_RPM", "", ""),
    ("Timestamp", "", ""),
    ("X", "", ""),
];

struct B<'r> {
    r: &'r mut Rng,
    types: HashSet<String>,
    topics: HashSet<String>,
}
impl B<'_> {
    /// A fresh type name and its snake case.
    fn type_name(&mut self) -> (String, String) {
        loop {
            let (id, sn) = if self.r.chance(1, 4) {
                let (a, b) = *self.r.pick(TYPE_HYGIENE);
                (a.to_string(), b.to_string())
            } else {
                let n = self.r.range(1, 3);
                let mut camel = String::new();
                let mut under = String::new();
                let mut snake = String::new();
                let mut acr = false;
                for k in 0..n {
                    let p = loop {
                        let p = *self.r.pick(PIECES);
                        if !(acr && p.2) {
                            break p;
                        }
                    };
                    acr = p.2;
                    if k > 0 {
                        under.push('_');
                        snake.push('_');
                    }
                    camel.push_str(p.0);
                    under.push_str(p.0);
                    snake.push_str(p.1);
                }
                match self.r.below(8) {
                    0 => (under, snake),
                    1 => (snake.clone(), snake),
                    _ => (camel, snake),
                }
            };
            let plain = id.trim_start_matches("r#").to_string();
            let clash = self
                .types
                .iter()
                .any(|t| t.eq_ignore_ascii_case(&plain) || format!("{t}Accessor") == plain || format!("{plain}Accessor") == *t);
            if clash || Prim::from_text(&sn).is_some() {
                continue;
            }
            self.types.insert(plain);
            return (id, sn);
        }
    }
    fn tfield(&mut self, used: &mut HashSet<String>) -> Option<TField> {
        for _ in 0..20 {
            let (name, plain, camel) = if self.r.chance(1, 5) {
                let k = *self.r.pick(KEYWORDS);
                (k.to_string(), format!("r#{k}"), String::new())
            } else {
                let (a, b, c) = *self.r.pick(FIELDS);
                (a.to_string(), b.to_string(), c.to_string())
            };
            if !used.insert(name.clone()) {
                continue;
            }
            let o = |s: String| if s.is_empty() { None } else { Some(s) };
            return Some(TField {
                name,
                ty: TTy::P(*self.r.pick(&PRIMS)),
                arr: self.r.chance(1, 3),
                pad: false,
                plain: o(plain),
                camel: o(camel),
            });
        }
        None
    }
}
fn timestamp() -> TField {
    TField {
        name: "timestamp".into(),
        ty: TTy::P(Prim::U64),
        arr: false,
        pad: false,
        plain: Some("timestamp".into()),
        camel: Some("Timestamp".into()),
    }
}

impl Program {
    pub fn new(seed: u64, index: u64) -> Program {
        let mut rng = Rng::of(seed, "derive-program", index);
        let mut b = B { r: &mut rng, types: HashSet::new(), topics: HashSet::new() };
        let mut p = Program { topics: vec![], structs: vec![], enums: vec![] };
        let enum_ident = if b.r.chance(1, 4) {
            b.r.pick(&["R", "E", "M", "Item", "Data", "r#enum", "Msg", "logged", "UlogMessage"]).to_string()
        } else {
            "LoggedMessages".to_string()
        };
        b.types.insert(enum_ident.trim_start_matches("r#").to_string());
        b.types.insert("E2".into());
        let nested = b.r.below(4);
        let tops = b.r.range(1, 5);
        for k in 0..nested + tops {
            p.topic(&mut b, k >= nested);
        }
        // At least one enum over the structs of subscribable topics.
        let usable: Vec<usize> = (0..p.structs.len()).filter(|&s| p.topics[p.structs[s].topic].top).collect();
        p.enum_def(&mut b, enum_ident, &usable, true);
        if b.r.chance(1, 2) {
            p.enum_def(&mut b, "E2".into(), &usable, false);
        }
        p
    }
    fn topic(&mut self, b: &mut B, top: bool) {
        let t = self.topics.len();
        let sub = top || b.r.chance(1, 3);
        let mut used = HashSet::from(["timestamp".to_string()]);
        let mut fields = vec![];
        for _ in 0..*b.r.pick(&[0, 1, 2, 3, 5, 8]) {
            if let Some(mut f) = b.tfield(&mut used) {
                let cand: Vec<usize> = (0..t).filter(|&k| self.depth(k) < 3).collect();
                if !cand.is_empty() && b.r.chance(1, 3) {
                    f.ty = TTy::N(*b.r.pick(&cand));
                }
                fields.push(f);
            }
        }
        if b.r.chance(1, 3) {
            let name = *b.r.pick(&["_padding0", "_padding1", "_padding"]);
            fields.push(TField {
                name: name.into(),
                ty: TTy::P(if b.r.chance(3, 4) { Prim::U8 } else { *b.r.pick(&PRIMS) }),
                arr: b.r.chance(3, 4),
                pad: true,
                plain: Some(name.into()),
                camel: None,
            });
        }
        if sub {
            fields.insert(0, timestamp());
        } else if fields.iter().all(|f| f.pad) {
            used.insert("v".into());
            fields.insert(
                0,
                TField {
                    name: "v".into(),
                    ty: TTy::P(*b.r.pick(&PRIMS)),
                    arr: false,
                    pad: false,
                    plain: Some("v".into()),
                    camel: None,
                },
            );
        }
        let n_structs = if sub { *b.r.pick(&[1, 1, 1, 2, 3]) } else { b.r.range(1, 2) };
        let mut multis: Vec<u8> = vec![0, 0, 1, 2, 7, 255];
        b.r.shuffle(&mut multis);
        if multis.iter().take(n_structs).filter(|&&m| m == 0).count() > 1 {
            multis.retain(|&m| m != 0);
            multis.insert(0, 0);
        }
        // The first struct may give the topic its name.
        let mut first = b.type_name();
        while b.topics.contains(&first.1) {
            first = b.type_name();
        }
        let own = b.r.chance(2, 3);
        let name = if own {
            first.1.clone()
        } else {
            loop {
                let strange = b.r.flip();
                let n = gen::message_name(b.r, strange);
                if !b.topics.contains(&n) {
                    break n;
                }
            }
        };
        b.topics.insert(name.clone());
        self.topics.push(Topic { name: name.clone(), fields: fields.clone(), top: sub });
        for k in 0..n_structs {
            let (ident, _) = if k == 0 { first.clone() } else { b.type_name() };
            let attr = !(k == 0 && own) || b.r.chance(1, 6);
            let multi_attr = match multis[k] {
                0 if b.r.chance(3, 4) => None,
                m => Some(m),
            };
            let sf = self.view(b, &fields);
            let style = b.r.below(8);
            let name_attr = if attr { Some(name.clone()) } else { None };
            self.structs.push(Struct { ident, topic: t, name_attr, sub: name.clone(), multi_attr, fields: sf, style });
        }
    }
    fn depth(&self, t: usize) -> usize {
        1 + self.topics[t].fields.iter().map(|f| if let TTy::N(k) = f.ty { self.depth(k) } else { 0 }).max().unwrap_or(0)
    }
    fn view(&self, b: &mut B, fields: &[TField]) -> Vec<SField> {
        let mut out: Vec<SField> = vec![];
        let mut idents = HashSet::new();
        let mut order: Vec<&TField> = fields.iter().collect();
        if b.r.flip() {
            b.r.shuffle(&mut order);
        }
        for f in order {
            if !b.r.chance(4, 5) {
                continue;
            }
            let twice = b.r.chance(1, 12);
            for k in 0..1 + usize::from(twice) {
                let mut attr = b.r.chance(1, 6) || k > 0;
                let mut ident = match (&f.plain, &f.camel) {
                    (_, Some(c)) if b.r.chance(1, 2) => c.clone(),
                    (Some(p), _) => p.clone(),
                    _ => {
                        attr = true;
                        String::new()
                    }
                };
                if attr || idents.contains(&ident) {
                    attr = true;
                    loop {
                        ident =
                            b.r.pick(&[
                                "a", "b", "r#fn", "value2", "aIndex", "Z", "a_index", "map_", "r#type", "volts", "_q", "r#async",
                                "n0",
                            ])
                            .to_string();
                        if b.r.chance(1, 3) {
                            ident = format!("{}{}", ident.trim_start_matches("r#"), b.r.below(100));
                        }
                        if !idents.contains(&ident) {
                            break;
                        }
                    }
                }
                idents.insert(ident.clone());
                let kind = match (&f.ty, f.arr) {
                    (TTy::P(p), false) => FKind::P(*p),
                    (TTy::P(p), true) => FKind::VP(*p),
                    (TTy::N(t), a) => {
                        let s: Vec<usize> = (0..self.structs.len()).filter(|&s| self.structs[s].topic == *t).collect();
                        let s = *b.r.pick(&s);
                        if a {
                            FKind::VN(s)
                        } else {
                            FKind::N(s)
                        }
                    }
                };
                let opt = b.r.chance(1, 4) || (f.pad && b.r.flip());
                out.push(SField { ident, attr, log: f.name.clone(), kind, opt, style: b.r.below(6) });
            }
        }
        if b.r.chance(1, 3) {
            // An optional field no log of this topic has.
            let ident = "nowhere".to_string();
            let p = *b.r.pick(&PRIMS);
            let kind = if b.r.flip() { FKind::P(p) } else { FKind::VP(p) };
            out.push(SField { ident: ident.clone(), attr: false, log: ident, kind, opt: true, style: b.r.below(6) });
        }
        out
    }
    fn enum_def(&mut self, b: &mut B, ident: String, usable: &[usize], all: bool) {
        let mut vs: Vec<(String, Option<usize>)> = vec![];
        let mut names: HashSet<String> = HashSet::new();
        let mut fresh = |r: &mut Rng, want: String| -> String {
            let mut s = want;
            loop {
                if r.chance(1, 3) || names.contains(s.trim_start_matches("r#")) {
                    s = r
                        .pick(&[
                            "Ok",
                            "Err",
                            "Some",
                            "None",
                            "UlogMessage",
                            "LoggedData",
                            "Item",
                            "A",
                            "B",
                            "R",
                            "Vec",
                            "r#type",
                            "Io",
                            "Other2",
                        ])
                        .to_string();
                    if r.chance(1, 3) {
                        s = format!("V{}", r.below(1000));
                    }
                }
                if names.insert(s.trim_start_matches("r#").to_string()) {
                    return s;
                }
            }
        };
        for &s in usable {
            if all || b.r.flip() {
                let n = fresh(b.r, self.structs[s].ident.clone());
                vs.push((n, Some(s)));
            }
        }
        if vs.is_empty() {
            let n = fresh(b.r, "Only".into());
            vs.push((n, Some(*b.r.pick(usable))));
        }
        b.r.shuffle(&mut vs);
        if b.r.chance(2, 3) {
            let want = b.r.pick(&["Other", "Unknown", "Ok", "Rest", "Data", "Forward", "other"]).to_string();
            let n = fresh(b.r, want);
            let at = b.r.below(vs.len() + 1);
            vs.insert(at, (n, None));
        }
        let unit = if b.r.chance(1, 8) { Some(fresh(b.r, "Nothing".into())) } else { None };
        self.enums.push(EnumDef { ident, variants: vs, unit, style: b.r.below(4) });
    }

    // ---- source ------------------------------------------------------------------------------------------
    fn ty_text(&self, f: &SField) -> String {
        let vec = *["Vec", "std::vec::Vec", "::std::vec::Vec", "Vec", "Vec", "Vec"].get(f.style).unwrap_or(&"Vec");
        let inner = match &f.kind {
            FKind::P(p) => p.rust().to_string(),
            FKind::VP(p) => format!("{vec}<{}>", p.rust()),
            FKind::N(s) => self.structs[*s].ident.clone(),
            FKind::VN(s) => format!("{vec}<{}>", self.structs[*s].ident),
        };
        if !f.opt {
            return inner;
        }
        let o = ["Option", "std::option::Option", "::core::option::Option", "Option", "core::option::Option", "Option"];
        format!("{}<{inner}>", o[f.style])
    }
    pub fn source(&self) -> String {
        let mut s = String::from(
            "// Generated program: see derive_gen.rs.\n#![allow(warnings)]\nuse yule_log::{ULogData, ULogMessages};\n\n",
        );
        for st in &self.structs {
            if st.style == 1 {
                s.push_str("/// A documented struct.\n#[derive(Clone, Debug)]\n");
            }
            s.push_str("#[derive(ULogData)]\n");
            let n = st.name_attr.as_ref().map(|n| format!("subscription_name = {n:?}"));
            let m = st.multi_attr.map(|m| format!("multi_id = {m}"));
            match (n, m) {
                (Some(n), Some(m)) if st.style % 2 == 0 => writeln!(s, "#[yule_log({m}, {n})]").unwrap(),
                (Some(n), Some(m)) => writeln!(s, "#[yule_log({n})]\n#[yule_log({m})]").unwrap(),
                (Some(n), None) => writeln!(s, "#[yule_log({n})]").unwrap(),
                (None, Some(m)) => writeln!(s, "#[yule_log({m})]").unwrap(),
                _ => {}
            }
            // A struct of style 1 derives Clone and Debug: all its nested structs must, too.
            if st.fields.is_empty() && st.style % 2 == 1 && st.ident.starts_with(char::is_uppercase) {
                writeln!(s, "pub struct {};", st.ident).unwrap();
            } else {
                writeln!(
                    s,
                    "{}struct {} {{",
                    ["pub ", "pub ", "pub ", "pub(crate) ", "pub ", "pub(super) ", "", "pub "][st.style],
                    st.ident
                )
                .unwrap();
                for f in &st.fields {
                    if f.style == 3 {
                        s.push_str("    /// A documented field.\n");
                    }
                    if f.attr {
                        writeln!(s, "    #[yule_log(field_name = {:?})]", f.log).unwrap();
                    }
                    writeln!(s, "    {}{}: {},", if f.style == 5 { "" } else { "pub " }, f.ident, self.ty_text(f)).unwrap();
                }
                s.push_str("}\n");
            }
            writeln!(s, "impl ::ymon::derive_run::ToD for {} {{\n    fn d(&self) -> ::ymon::derive_run::DVal {{", st.ident)
                .unwrap();
            s.push_str("        ::ymon::derive_run::DVal::St(::std::vec![");
            for f in &st.fields {
                write!(s, "::ymon::derive_run::ToD::d(&self.{}), ", f.ident).unwrap();
            }
            s.push_str("])\n    }\n}\n\n");
        }
        s = s.replace("#[derive(Clone, Debug)]\n", ""); // nested structs need not be Debug
        for (k, e) in self.enums.iter().enumerate() {
            let msg = match e.style {
                0 => "yule_log::model::msg::UlogMessage",
                1 => "::yule_log::model::msg::UlogMessage",
                2 => "self::imported::ForwardedMessage",
                _ => "Box2",
            };
            if k == 0 {
                s.push_str("mod imported {\n    pub use ::yule_log::model::msg::UlogMessage as ForwardedMessage;\n}\n");
                s.push_str("pub type Box2 = ::yule_log::model::msg::UlogMessage;\n\n");
            }
            writeln!(s, "#[derive(ULogMessages)]\npub enum {} {{", e.ident).unwrap();
            for (n, v) in &e.variants {
                match v {
                    Some(v) => writeln!(s, "    {n}({}),", self.structs[*v].ident).unwrap(),
                    None => writeln!(s, "    #[yule_log(forward_other)]\n    {n}({msg}),").unwrap(),
                }
            }
            if let Some(u) = &e.unit {
                writeln!(s, "    {u},").unwrap();
            }
            s.push_str("}\n");
            let mut arms = String::new();
            for (i, (n, v)) in e.variants.iter().enumerate() {
                match v {
                    Some(_) => {
                        writeln!(arms, "        ::std::result::Result::Ok({}::{n}(v)) => ::ymon::derive_run::DItem::V({i}, ::ymon::derive_run::ToD::d(&v)),", e.ident).unwrap()
                    }
                    None => writeln!(
                        arms,
                        "        ::std::result::Result::Ok({}::{n}(m)) => ::ymon::derive_run::DItem::O(::ymon::canon::msg(&m)),",
                        e.ident
                    )
                    .unwrap(),
                }
            }
            if let Some(u) = &e.unit {
                writeln!(
                    arms,
                    "        ::std::result::Result::Ok({}::{u}) => ::ymon::derive_run::DItem::E(\"unit variant\".into()),",
                    e.ident
                )
                .unwrap();
            }
            writeln!(
                s,
                "fn conv_{k}(x: ::std::result::Result<{0}, ::yule_log::errors::ULogError>) -> ::ymon::derive_run::DItem {{
    match x {{
{arms}        ::std::result::Result::Err(e) => ::ymon::derive_run::DItem::E(::ymon::canon::err(&e)),
    }}
}}
pub fn run_{k}(rd: ::std::boxed::Box<dyn ::std::io::Read + '_>, way: &::ymon::derive_run::Way, max: usize) -> ::ymon::derive_run::Ran {{
    ::ymon::derive_drive!({0}, rd, way, max, conv_{k})
}}
",
                e.ident
            )
            .unwrap();
        }
        writeln!(
            s,
            "pub const RUNNERS: &[::ymon::derive_run::Runner] = &[{}];",
            (0..self.enums.len()).map(|k| format!("run_{k}")).collect::<Vec<_>>().join(", ")
        )
        .unwrap();
        s
    }
}

/// Writes the crate of a batch of programs; `skip` leaves out those that do not compile.
pub fn write_crate(dir: &std::path::Path, harness: &str, repo: &str, seed: u64, n: u64, skip: &[u64]) -> std::io::Result<()> {
    let src = dir.join("src");
    let put = |p: std::path::PathBuf, s: &str| -> std::io::Result<()> {
        if std::fs::read_to_string(&p).ok().as_deref() != Some(s) {
            std::fs::write(p, s)?;
        }
        Ok(())
    };
    std::fs::create_dir_all(&src)?;
    put(
        dir.join("Cargo.toml"),
        &format!(
            "[package]\nname = \"yderive\"\nversion = \"0.1.0\"\nedition = \"2021\"\npublish = false\n\n[workspace]\n\n[dependencies]\n\
ymon = {{ path = \"{harness}\", default-features = false }}\nyule_log = {{ path = \"{repo}/core\", features = [\"macros\"] }}\n\n\
[profile.release]\nopt-level = 2\ndebug = false\ndebug-assertions = true\noverflow-checks = true\nincremental = false\ncodegen-units = 16\n\n\
[profile.release.package.yderive]\nopt-level = 0\n"
        ),
    )?;
    let mut m = String::from("#[global_allocator]\nstatic A: ymon::alloc::Counting = ymon::alloc::Counting;\n\n");
    let mut table = String::new();
    for k in (0..n).filter(|k| !skip.contains(k)) {
        put(src.join(format!("generated_{k}.rs")), &Program::new(seed, k).source())?;
        writeln!(m, "mod generated_{k};").unwrap();
        write!(table, "({k}, generated_{k}::RUNNERS), ").unwrap();
    }
    write!(m, "\nfn main() {{\n    ymon::derive_run::main({seed}, &[{table}]);\n}}\n").unwrap();
    put(src.join("main.rs"), &m)
}
