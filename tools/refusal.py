"""Engine of C31: pairs of declarations, one that the macros can map and one that they cannot, differing only in the part
at fault. Each is compiled on its own against the working tree; the compiler must accept the one and refuse the other."""
import glob, hashlib, json, os, random, re, shutil, time

NAMES = ["Alpha", "EscStatus", "VehicleGps", "Wind", "Battery2", "HTTPState", "r#Type", "Q"]
FNAMES = ["x", "y", "z_speed", "alt", "r#type", "_padding0", "temp2", "count"]
PRIMS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "bool", "CChar"]
SET = dict(quick=8, thorough=120)


class Decl:
    """Structs and an enum over them, to be written out with one part replaced."""

    def __init__(self, r):
        self.r = r
        names = r.sample(NAMES, 3)
        self.structs = []
        for n in names[:2]:
            fs = [["timestamp", "u64", ""]]
            for f in r.sample(FNAMES, r.randint(1, 4)):
                t = r.choice(PRIMS)
                if r.random() < .3:
                    t = f"Vec<{t}>"
                if r.random() < .3:
                    t = f"Option<{t}>"
                a = f'#[yule_log(field_name = "{f.replace("r#", "")}_q")]' if r.random() < .25 else ""
                fs.append([f, t, a])
            if self.structs and r.random() < .4:
                fs.append(["inner", r.choice(["{}", "Vec<{}>", "Option<{}>", "Option<Vec<{}>>"]).format(names[0]), ""])
            if r.random() < .5:
                r.shuffle(fs)
            parts = []
            if r.random() < .4:
                parts.append('subscription_name = "esc_status"')
            if r.random() < .4:
                parts.append(f"multi_id = {r.choice([0, 1, 7, 255])}")
            self.structs.append(dict(name=n, fields=fs, attrs=parts, gen="", where="", derive="ULogData", kind="struct", tail="", pre=""))
        self.enum = dict(name=names[2], gen="", where="", derive="ULogMessages", kind="enum", variants=[
            [s["name"] if r.random() < .5 else f"V{i}", [s["name"]], ""] for i, s in enumerate(self.structs)])
        self.other = r.random() < .6
        if self.other:
            self.enum["variants"].append(["Rest", ["yule_log::model::msg::UlogMessage"], "#[yule_log(forward_other)]"])
        if r.random() < .5:
            r.shuffle(self.enum["variants"])
        self.extra = ""

    def victim(self):
        return self.structs[self.pick % len(self.structs)]

    def field(self):
        fs = self.victim()["fields"]
        return fs[self.pick2 % len(fs)]

    def variant(self, mapped=True):
        v = [x for x in self.enum["variants"] if not mapped or "forward_other" not in x[2]]
        return v[self.pick % len(v)]

    def text(self):
        o = ["#![allow(dead_code, unused_imports, unused_must_use, non_snake_case, non_camel_case_types, unreachable_patterns)]",
             "use yule_log::model::CChar;", "use yule_log::{ULogData, ULogMessages};", self.extra]
        for s in self.structs:
            o.append(s["pre"])
            o.append(f"#[derive({s['derive']})]" if s["derive"] else "")
            o.append(s.get("raw", ""))
            if s["attrs"]:
                o.append("#[yule_log(" + ", ".join(s["attrs"]) + ")]")
            if s["kind"] == "tuple":
                o.append(f"pub struct {s['name']}{s['gen']}(" + ", ".join(t for _, t, _ in s["fields"]) + ");")
            elif s["kind"] == "unit variants":
                o.append(f"pub enum {s['name']} {{ A, B }}")
            elif s["kind"] == "union":
                o.append(f"pub union {s['name']} {{ pub a: u8, pub b: u8 }}")
            else:
                o.append(f"pub struct {s['name']}{s['gen']} {s['where']} {{")
                o += [f"    {a} pub {n}: {t}," for n, t, a in s["fields"]]
                o.append("}")
        e = self.enum
        o.append(f"#[derive({e['derive']})]")
        if e["kind"] == "struct":
            o.append(f"pub struct {e['name']} {{ pub a: u8 }}")
        else:
            o.append(e.get("raw", ""))
            o.append(f"pub enum {e['name']}{e['gen']} {e['where']} {{")
            o += [f"    {v[2]} {v[0]}{v[3] if len(v) > 3 else '(' + ', '.join(v[1]) + ')'}," for v in e["variants"]]
            o.append("}")
        o.append("fn main() {}")
        return "\n".join(o) + "\n"


FAULTS = {}


def fault(f):
    FAULTS[f.__name__.replace("_", " ")] = f
    return f


def struct_attr(name, texts, drop=()):
    """Attributes the macro does not know, or not there, or not so."""
    def go(d, good):
        s = d.victim()
        s["attrs"] = [a for a in s["attrs"] if not a.startswith(drop)] if drop else s["attrs"]
        if not good:
            s["attrs"].insert(d.pick2 % (len(s["attrs"]) + 1), texts[d.pick2 % len(texts)])
    FAULTS["struct attribute: " + name] = go


struct_attr("unknown", ['subscription = "x"', 'name = "x"', 'instance = 1', 'skip', 'subscription_names = "x"', "multi = 2"])
struct_attr("of a field", ['field_name = "x"'])
struct_attr("of a variant", ["forward_other"])
struct_attr("instance beyond a byte", ["multi_id = 256", "multi_id = 1000", "multi_id = 65536"], ("multi_id",))
struct_attr("negative instance", ["multi_id = -1"], ("multi_id",))
struct_attr("instance not a number", ['multi_id = "one"', "multi_id = true", "multi_id"], ("multi_id",))
struct_attr("name not a text", ["subscription_name = 5", "subscription_name", "subscription_name = true"], ("subscription_name",))
struct_attr("name twice", ['subscription_name = "a", subscription_name = "b"'], ("subscription_name",))
struct_attr("instance twice", ["multi_id = 1, multi_id = 2"], ("multi_id",))


def field_attr(name, texts):
    def go(d, good):
        f = d.field()
        f[2] = "" if good else "#[yule_log(" + texts[d.pick2 % len(texts)] + ")]"
    FAULTS["field attribute: " + name] = go


field_attr("unknown", ['name = "x"', 'rename = "x"', "skip", 'field = "x"', "index = 2"])
field_attr("of a struct", ['subscription_name = "x"', "multi_id = 1"])
field_attr("of a variant", ["forward_other"])
field_attr("name not a text", ["field_name = 5", "field_name", "field_name = true"])
field_attr("name twice", ['field_name = "a", field_name = "b"'])


def variant_attr(name, texts):
    def go(d, good):
        v = d.variant()
        v[2] = "" if good else "#[yule_log(" + texts[d.pick2 % len(texts)] + ")]"
    FAULTS["variant attribute: " + name] = go


variant_attr("unknown", ["forward", "other", "forward_others", "catch_all", 'rename = "x"', "forward_subscriptions"])
variant_attr("of a struct", ["multi_id = 1", 'subscription_name = "x"'])
variant_attr("of a field", ['field_name = "x"'])
variant_attr("not a switch", ["forward_other = 3", "forward_other = 'x'"])
variant_attr("twice", ["forward_other, forward_other"])


FORMS = ['#[yule_log = "x"]', '#[yule_log("x")]', "#[yule_log(5)]", "#[yule_log = 1]"]


@fault
def struct_attribute_of_no_known_form(d, good):
    s = d.victim()
    s["raw"] = "" if good else (FORMS + ["#[yule_log(subscription_name(x))]", "#[yule_log(multi_id(1))]"])[d.pick2 % 6]
    s["attrs"] = []


@fault
def field_attribute_of_no_known_form(d, good):
    d.field()[2] = "" if good else (FORMS + ["#[yule_log(field_name(x))]"])[d.pick2 % 5]


@fault
def variant_attribute_of_no_known_form(d, good):
    d.variant()[2] = "" if good else (FORMS + ["#[yule_log(forward_other(x))]"])[d.pick2 % 5]


@fault
def struct_attribute_again(d, good):
    """In an attribute of its own."""
    s = d.victim()
    t = ['subscription_name = "first_name"', "multi_id = 2"][d.pick2 % 2]
    s["attrs"] = [t]
    s["raw"] = "" if good else f"#[yule_log({t})]"


@fault
def field_attribute_again(d, good):
    d.field()[2] = '#[yule_log(field_name = "a")] ' * (1 if good else 2)


@fault
def attribute_of_the_enum(d, good):
    texts = ["forward_other", 'subscription_name = "x"', "multi_id = 1", 'field_name = "x"', "forward_subscriptions", "anything = 1"]
    d.enum["raw"] = "" if good else f"#[yule_log({texts[d.pick2 % len(texts)]})]"


@fault
def attribute_inside_a_variant(d, good):
    v = d.variant(mapped=d.pick % 3 > 0)
    texts = ['field_name = "x"', "forward_other", 'subscription_name = "x"', "multi_id = 1"]
    if not good:
        v[1] = [f"#[yule_log({texts[d.pick2 % len(texts)]})] {v[1][0]}"]


@fault
def variant_with_named_fields(d, good):
    v = d.variant(mapped=d.pick % 3 > 0)
    t = v[1][0]
    if not good:
        v.append([f" {{ inner: {t} }}", f" {{ a: {t}, b: {t} }}", " {}"][d.pick2 % 3])


@fault
def generic_struct(d, good):
    s = d.victim()
    if not good:
        # Not in the enum: the enum has no argument to give.
        d.structs.append(dict(s, name="Extra", attrs=[], gen="<T>", fields=s["fields"] + [["extra", "Option<T>", ""]]))
    else:
        d.structs.append(dict(s, name="Extra", attrs=[], gen="", fields=s["fields"] + [["extra", "Option<u8>", ""]]))


@fault
def generic_struct_with_bound(d, good):
    s = d.victim()
    t = "<T: yule_log::macro_utils::FromField>"
    d.structs.append(dict(s, name="Extra", attrs=[], gen="" if good else t, fields=s["fields"] + [["extra", "u8" if good else "T", ""]]))


@fault
def const_generic_struct(d, good):
    s = d.victim()
    d.structs.append(dict(s, name="Extra", attrs=[], gen="" if good else "<const N: usize>"))


@fault
def struct_with_lifetime(d, good):
    s = d.victim()
    d.structs.append(dict(s, name="Extra", attrs=[], gen="" if good else "<'a>", fields=s["fields"] + [["extra", "u8" if good else "&'a str", ""]]))


@fault
def where_clause(d, good):
    d.victim()["where"] = "" if good else "where u8: Copy"


@fault
def generic_enum(d, good):
    d.enum["gen"] = "" if good else "<T>"
    if not good:
        d.enum["variants"].append(["Extra", ["T"], ""])


@fault
def enum_where_clause(d, good):
    d.enum["where"] = "" if good else "where u8: Copy"


@fault
def unnamed_fields(d, good):
    s = d.victim()
    s["fields"] = [[n, t, ""] for n, t, _ in s["fields"]]
    if not good:
        s["kind"] = "tuple"


@fault
def data_derived_on_an_enum(d, good):
    d.structs.append(dict(d.victim(), name="Extra", attrs=[], kind="struct" if good else "unit variants"))


@fault
def data_derived_on_a_union(d, good):
    d.structs.append(dict(d.victim(), name="Extra", attrs=[], kind="struct" if good else "union"))


@fault
def messages_derived_on_a_struct(d, good):
    if not good:
        d.enum["kind"] = "struct"


def field_type(name, types, opt=False):
    def go(d, good):
        f = d.field()
        f[1] = "f32" if good else types[d.pick2 % len(types)]
        if opt:
            f[1] = f"Option<{f[1]}>"
    FAULTS["field type: " + name] = go


WRONG = ["u128", "i128", "usize", "isize", "char", "()", "(u8, u8)", "std::collections::HashMap<u8, u8>", "std::rc::Rc<u8>", "Unmapped",
         "Vec<usize>", "Vec<u128>", "Vec<Unmapped>", "std::time::Duration", "Vec<(u8, u8)>", "fn(u8) -> u8", "String", "&'static str", "[u8; 4]", "Box<u8>", "Vec<Vec<u8>>", "Vec<Option<u8>>", "Vec<String>",
         "yule_log::model::inst::Format", "Option<Option<u8>>"]
field_type("no such value", WRONG)
field_type("no such value, optional", WRONG, True)
UNMAPPED = "pub struct Unmapped { pub a: u8 }"


@fault
def two_fields_in_a_variant(d, good):
    if not good:
        v = d.variant()
        v[1] = v[1] * 2


@fault
def no_field_in_a_variant(d, good):
    if not good:
        d.variant()[1] = []


@fault
def variant_of_a_type_that_is_not_mapped(d, good):
    v = d.variant()
    if not good:
        v[1] = [["Unmapped", "u32", "String", "Vec<u8>", "Option<u8>"][d.pick2 % 5]]


@fault
def variant_of_a_type_that_is_not_a_path(d, good):
    v = d.variant()
    n = v[1][0]
    if not good:
        v[1] = [[f"&'static {n}", f"({n},)", f"[{n}; 1]", f"&'static [{n}]"][d.pick2 % 4]]


@fault
def struct_without_the_derive(d, good):
    s = d.victim()
    if not good:
        s["derive"] = ""
        s["attrs"] = []
        for f in s["fields"]:
            f[2] = ""


@fault
def two_catch_alls(d, good):
    m = "yule_log::model::msg::UlogMessage"
    d.enum["variants"] = [v for v in d.enum["variants"] if "forward_other" not in v[2]]
    d.enum["variants"].insert(d.pick % 3, ["RestA", [m], "#[yule_log(forward_other)]"])
    if not good:
        d.enum["variants"].insert(d.pick2 % 4, ["RestB", [m], "#[yule_log(forward_other)]"])


@fault
def catch_all_of_another_type(d, good):
    d.enum["variants"] = [v for v in d.enum["variants"] if "forward_other" not in v[2]]
    t = "yule_log::model::msg::UlogMessage" if good else ["String", "yule_log::model::msg::LoggedData", "u8", "Unmapped"][d.pick2 % 4]
    d.enum["variants"].append(["Rest", [t], "#[yule_log(forward_other)]"])


@fault
def raw_message_without_catch_all(d, good):
    """Without the attribute, the raw message is a variant type that is not mapped."""
    d.enum["variants"] = [v for v in d.enum["variants"] if "forward_other" not in v[2]]
    d.enum["variants"].append(["Rest", ["yule_log::model::msg::UlogMessage"], "#[yule_log(forward_other)]" if good else ""])


def write(c, d, seed, n):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src/bin"))
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "yrefuse"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n'
                'yule_log = { path = "/repo/core", features = ["macros"] }\n')
    shutil.copy(os.path.join(c.VERIF, "harness", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    pairs = []
    for k, (name, f) in enumerate(sorted(FAULTS.items())):
        for i in range(n):
            case = k * 1000 + i
            texts = []
            for good in (True, False):
                r = random.Random(f"{seed} {name} {i}")
                dcl = Decl(r)
                # Successive declarations try successive ways to be at fault.
                dcl.pick, dcl.pick2 = r.randrange(1 << 20), i + random.Random(f"{seed} {name}").randrange(1 << 20)
                f(dcl, good)
                t = dcl.text()
                if "Unmapped" in t:
                    t = t.replace("fn main", UNMAPPED + "\nfn main")
                texts.append(t)
                with open(os.path.join(d, "src/bin", f"c{case}_{'good' if good else 'bad'}.rs"), "w") as o:
                    o.write(t)
            pairs.append((case, name, texts))
    return pairs


def judge(c, d):
    """Which programs the compiler refuses, and with what."""
    rc, out = c.sh(["cargo", "check", "--offline", "--bins", "--keep-going", "-q", "--message-format=json"], cwd=d,
                   env={"CARGO_TARGET_DIR": os.path.join(c.WORK, "target-refuse")}, timeout=800)
    errs, rest, seen = {}, [], set()
    for l in out.splitlines():
        if not l.startswith("{"):
            rest.append(l)
            continue
        m = json.loads(l)
        t = m.get("target", {}).get("name", "")
        if m.get("reason") == "compiler-artifact":
            seen.add(t)
        if m.get("reason") == "compiler-message" and m["message"].get("level") == "error":
            errs.setdefault(t, []).append(m["message"].get("rendered") or m["message"]["message"])
    return errs, seen, "\n".join(rest)


def run(c, pid, tier, seed, out, cases, deadline):
    viol, errors = [], []
    d = os.path.join(c.WORK, f"refuse-{os.getpid()}")
    n = SET[tier] if cases is None else max(1, cases // len(FAULTS))
    hashes, counters, samples, done = set(), {}, [], 0
    try:
        t0 = time.time()
        step = n if tier == "quick" else 12
        for rnd in range(0, n, step):
            pairs = write(c, d, seed + 7919 * rnd, step)
            errs, seen, rest = judge(c, d)
            if not seen & {"yule_log", "yule_log_macros"} and not any(t.startswith("c") for t in seen):
                raise c.Infra("nothing compiles against /repo:\n" + "\n".join(sum(errs.values(), []))[-3000:] + rest[-2000:])
            for case, name, (good, bad) in pairs:
                done += 1
                g, b = f"c{case}_good", f"c{case}_bad"
                if g in errs:
                    # Whether what is documented compiles is C16's to judge; here the pair says nothing.
                    counters["controls that do not compile"] = counters.get("controls that do not compile", 0) + 1
                    continue
                if g not in seen:
                    errors.append(f"{g} was not judged")
                    continue
                hashes.add(hashlib.sha256(bad.encode()).digest()[:8])
                counters[name] = counters.get(name, 0) + 1
                if b in seen:
                    viol.append(dict(sig="accepted: " + name, case=case, input_hex=bad.encode().hex(),
                                     detail=f"the compiler accepts a declaration with this fault: {name}\n{bad}"))
                elif b not in errs:
                    errors.append(f"{b} was not judged")
                elif len(samples) < 6 and case % 7 == 0:
                    samples.append(f"{name}: " + re.sub(r"\s+", " ", errs[b][0])[:300])
            if time.time() - t0 > deadline:
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    with open(os.path.join(out, "hashes-refuse"), "wb") as f:
        f.write(b"".join(sorted(hashes)))
    json.dump(dict(cases=done, evals=2 * done, counters=counters, samples=samples, violations=[], harness_error=None),
              open(os.path.join(out, "shard-refuse.json"), "w"))
    rule = ("a declaration the macros cannot map, beside the same declaration without the fault, each compiled on its own: the "
            "compiler must refuse the one and accept the other; non-trivial = a distinct faulty declaration whose control compiles")
    need = sorted(FAULTS)
    return viol, errors, rule, need, dict(faults=len(FAULTS), declarations=2 * done)
