//! Harnesses about validation: instruction lists, bundles, conditions,
//! translations, names and codes, malformed and tampered bundle JSON.
use crate::gen::*;
use crate::h_bundle::*;
use crate::sym;
use indexmap::IndexMap;
use isolang::Language;
use oca_ast_semantics::ast::{
    AttributeType, CaptureContent, Command, CommandType, NestedAttrType, NestedValue, OCAAst, ObjectKind, OverlayType,
};
use oca_ast_semantics::validator::{OCAValidator, Validator as AstValidator};
use oca_bundle_semantics::build::from_ast;
use oca_bundle_semantics::controller::load_oca;
use oca_bundle_semantics::state::attribute::Attribute;
use oca_bundle_semantics::state::encoding::Encoding;
use oca_bundle_semantics::state::oca::overlay::conditional::Conditionals;
use oca_bundle_semantics::state::oca::OCABundle;
use oca_bundle_semantics::state::validator::Validator;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

pub fn load(v: &[u8]) -> Option<OCABundle> {
    let mut r: &[u8] = v;
    load_oca(&mut r).ok()
}
/// every identifier of a bundle computed anew, inside out
pub fn reseal(b: &mut Value) {
    let d = said_of(&b["capture_base"]);
    b["capture_base"]["d"] = json!(d);
    if let Some(m) = b["overlays"].as_object_mut() {
        for (_, g) in m.iter_mut() {
            let l: Vec<&mut Value> = match g {
                Value::Array(a) => a.iter_mut().collect(),
                x => vec![x],
            };
            for o in l {
                o["capture_base"] = json!(d);
                o["d"] = json!(said_of(o));
            }
        }
    }
    b["d"] = json!("############################################");
    let n = serde_json::to_string(b).unwrap().len();
    b["v"] = json!(format!("OCAS11JSON{:06x}_", n));
    b["d"] = json!(said_of(b));
}

// ------------------------------------------------------------------- P13
const OVERLAYS: [&str; 21] = [
    "Label", "Information", "Encoding", "CharacterEncoding", "Format", "Meta", "Standard", "Cardinality", "Conditional", "Conformance", "EntryCode",
    "Entry", "Unit", "AttributeMapping", "EntryCodeMapping", "Subset", "UnitMapping", "Layout", "Sensitivity", "Link", "AttributeFraming",
];
fn same_kind(a: &OverlayType, b: &OverlayType) -> bool {
    std::mem::discriminant(a) == std::mem::discriminant(b)
}
/// P13: codes and names are one-to-one.
#[no_mangle]
pub extern "C" fn h_names() {
    match sym::choice(7, "what") {
        0 => {
            // every code there is
            let mut c = [0u8];
            sym::bytes(&mut c, "code");
            sym::panic_ok(c[0] > 22); // unknown codes are refused
            let k = ObjectKind::from(c[0]);
            sym::panic_ok(false);
            sym::check(c[0] <= 22, "an unknown code decodes to something");
            let is_kind = match (&k, c[0]) {
                (ObjectKind::CaptureBase(_), 0) | (ObjectKind::OCABundle(_), 1) => true,
                (ObjectKind::Overlay(t, _), n) => n >= 2 && t.to_string() == OVERLAYS[n as usize - 2],
                _ => false,
            };
            sym::check(is_kind, "a code decodes to another kind");
            sym::cover("code");
            sym::check(u8::from(k) == c[0], "a kind encodes to another code");
        }
        1 => {
            // every name up to a length, against every other
            let n = sym::choice(sym::param("len", 18) + 1, "len") as usize;
            let s = name(n);
            let known = OVERLAYS.contains(&s.as_str());
            match OverlayType::from_str(&s) {
                Ok(t) => {
                    sym::cover("overlay name read");
                    sym::check(known || s == "Mapping", "an unknown name is read as an overlay type");
                    let p = t.to_string();
                    match OverlayType::from_str(&p) {
                        Ok(t2) => sym::check(same_kind(&t, &t2), "the printed name reads back as another overlay type"),
                        Err(_) => sym::check(false, "the printed name of an overlay type does not read back"),
                    }
                    sym::check(p == s || s == "Mapping", "an overlay type has another name than the one it was read from");
                }
                Err(_) => sym::check(!known, "the name of an overlay type does not read"),
            }
        }
        2 => {
            // the names within bundles, any version
            let i = sym::choice(21, "overlay") as usize;
            let ObjectKind::Overlay(t, _) = ObjectKind::from(i as u8 + 2) else { return };
            let j = serde_json::to_string(&t).unwrap();
            let v = format!("{}.{}", digits("major"), digits("minor"));
            let j = j.replace("1.1", &v);
            match serde_json::from_str::<OverlayType>(&j) {
                Ok(t2) => {
                    sym::cover("overlay type read");
                    sym::check(same_kind(&t, &t2), "an overlay type reads back as another");
                    sym::check(serde_json::to_string(&t2).unwrap() == j, "an overlay type or its version changes");
                }
                Err(_) => sym::check(false, "the name of an overlay type within a bundle does not read back"),
            }
        }
        3 => {
            let n = sym::choice(10, "len") as usize;
            let s = name(n);
            let known = ["Boolean", "Binary", "Text", "Numeric", "DateTime"].contains(&s.as_str());
            match AttributeType::from_str(&s) {
                Ok(t) => {
                    sym::cover("attribute type read");
                    sym::check(known, "an unknown name is read as an attribute type");
                    sym::check(t.to_string() == s, "an attribute type prints another name");
                    sym::check(serde_json::to_string(&t).unwrap() == format!("\"{}\"", s), "an attribute type is written with another name");
                }
                Err(_) => sym::check(!known, "the name of an attribute type does not read"),
            }
        }
        4 => {
            let n = sym::choice(11, "len") as usize;
            let s = name(n);
            let known = ["base64", "utf-8", "iso-8859-1", "utf-16", "utf-16be", "utf-16le"].contains(&s.as_str());
            match Encoding::from_str(&s) {
                Ok(t) => {
                    sym::cover("encoding read");
                    sym::check(known, "an unknown name is read as an encoding");
                    let j = serde_json::to_string(&t).unwrap();
                    sym::check(j == format!("\"{}\"", s), "an encoding is written with another name");
                    let b = serde_json::from_str::<Encoding>(&j).is_ok();
                    sym::check(b, "a written encoding does not read back");
                }
                Err(_) => sym::check(!known, "the name of an encoding does not read"),
            }
        }
        5 => {
            // the bare kind, as written by its name
            let i = sym::choice(23, "kind") as usize;
            let n = if i == 0 { "CaptureBase" } else if i == 1 { "OCABundle" } else { OVERLAYS[i - 2] };
            match serde_json::from_str::<ObjectKind>(&format!("\"{}\"", n)) {
                Ok(k) => {
                    sym::cover("kind read");
                    sym::check(u8::from(k) == i as u8, "the name of a kind reads as another kind")
                }
                Err(_) => sym::check(false, "the name of a kind does not read"),
            }
        }
        _ => {
            // attribute types, nested
            let d = sym::choice(4, "depth");
            let mut t = match sym::choice(7, "base") {
                0 => NestedAttrType::Value(AttributeType::Boolean),
                1 => NestedAttrType::Value(AttributeType::Binary),
                2 => NestedAttrType::Value(AttributeType::Text),
                3 => NestedAttrType::Value(AttributeType::Numeric),
                4 => NestedAttrType::Value(AttributeType::DateTime),
                5 => NestedAttrType::Reference(oca_ast_semantics::ast::RefValue::Name(word(2, "name"))),
                _ => NestedAttrType::Reference(oca_ast_semantics::ast::RefValue::Said(SAID1.parse().unwrap())),
            };
            for _ in 0..d {
                t = NestedAttrType::Array(Box::new(t));
            }
            let j = serde_json::to_string(&t).unwrap();
            match serde_json::from_str::<NestedAttrType>(&j) {
                Ok(t2) => {
                    sym::cover("nested type read");
                    sym::check(t == t2, "an attribute type reads back as another")
                }
                Err(_) => sym::check(false, "a written attribute type does not read back"),
            }
        }
    }
}
fn name(n: usize) -> String {
    sym::ascii(n, "name")
}
fn digits(tag: &str) -> String {
    sym::string_of(sym::param("digits", 1) as usize, b"0123456789", tag)
}

// ------------------------------------------------------------------- P14
fn capture(kind: CommandType, names: &[&str], props: &[&str]) -> Command {
    let mut a = IndexMap::new();
    for n in names {
        a.insert(n.to_string(), if kind == CommandType::Remove { NestedAttrType::Null } else { NestedAttrType::Value(AttributeType::Text) });
    }
    let mut p = IndexMap::new();
    for n in props {
        p.insert(n.to_string(), NestedValue::Value("x".into()));
    }
    Command {
        kind,
        object_kind: ObjectKind::CaptureBase(CaptureContent {
            attributes: if names.is_empty() { None } else { Some(a) },
            properties: if props.is_empty() { None } else { Some(p) },
            flagged_attributes: None,
        }),
    }
}
/// P14: add once, remove what exists, supported version.
#[no_mangle]
pub extern "C" fn h_rules() {
    if sym::choice(2, "what") == 0 {
        let n = sym::choice(7, "len") as usize;
        let mut ast = OCAAst::new();
        ast.version = sym::ascii(n, "version");
        let r = OCAValidator {}.validate(&ast, capture(CommandType::Add, &["a"], &[]));
        sym::cover("version");
        sym::check(r.is_ok() == (ast.version == "1.0.0"), "an instruction list of another version is accepted, or the supported one refused");
        return;
    }
    let mut ast = OCAAst::new();
    let (mut attrs, mut props) = (BTreeSet::new(), BTreeSet::new());
    let n = sym::param("cmds", 3);
    for i in 0..n {
        // one letter each, any two of three; both may be the same name
        let t = format!("c{}", i);
        let add = sym::choice(2, &format!("{}.add", t)) == 0;
        let what = sym::choice(3, &format!("{}.what", t));
        let mut names: Vec<String> = vec![];
        for j in 0..if what == 1 { 2 } else { 1 } {
            names.push(sym::string_of(1, b"abc", &format!("{}.name{}", t, j)));
        }
        let l: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
        let c = capture(if add { CommandType::Add } else { CommandType::Remove }, if what < 2 { &l } else { &[] }, if what == 2 { &l } else { &[] });
        let set = if what < 2 { &mut attrs } else { &mut props };
        let ok = match (add, what) {
            (true, 2) => true,
            (true, _) => names.iter().all(|x| !set.contains(x)),
            _ => names.iter().all(|x| set.contains(x)),
        };
        let r = OCAValidator {}.validate(&ast, c.clone());
        sym::cover(if r.is_ok() { "accepted" } else { "refused" });
        sym::check(r.is_ok() == ok, "an addition of what exists or a removal of what does not is accepted, or a proper one refused");
        if !ok {
            return;
        }
        for x in names {
            if add {
                set.insert(x);
            } else {
                set.remove(&x);
            }
        }
        ast.commands.push(c);
    }
    // instructions about anything else are not its business
    let k = sym::choice(21, "other") as u8;
    let c = Command { kind: CommandType::Add, object_kind: ObjectKind::from(k + 2) };
    sym::check(OCAValidator {}.validate(&ast, c).is_ok(), "an overlay instruction is refused");
}

// ------------------------------------------------------------------- P15
const DEPS: [&str; 5] = ["a", "b", "u", "c", "a1"];
fn cond_shape(tag: &str, k: u64) -> (String, Vec<&'static str>) {
    let mut s = String::new();
    let mut d = vec![];
    for i in 0..k {
        let n = DEPS[sym::choice(5, &format!("{}.dep{}", tag, i)) as usize];
        if i > 0 {
            s.push_str([" or ", " and "][(i % 2) as usize]);
        }
        let v = word(1, &format!("{}.value{}", tag, i));
        s.push_str(&format!("${{{}}} {} '{}'", n, ["==", "~=", "=="][i as usize], v));
        d.push(n);
    }
    (s, d)
}
/// P15: what is stored of a condition and when it is accepted.
#[no_mangle]
pub extern "C" fn h_condition() {
    warm(false);
    let k = sym::choice(sym::param("deps", 2) + 1, "deps");
    let (c, d) = if k == 0 { (["true", "1 == 2"][sym::choice(2, "plain") as usize].to_string(), vec![]) } else { cond_shape("x", k) };
    // c has the condition; u is nowhere defined
    let types = ["Text", "Numeric", "DateTime", "Boolean"];
    let t = types[sym::choice(sym::param("types", 4), "type") as usize];
    let text = format!("ADD ATTRIBUTE a={} b=Text c=Text a1=Numeric\nADD CONDITION ATTRS c=\"{}\"\n", t, c);
    let Some(b) = build(&text) else { return };
    let j = json_of(&b);
    let o = &j["overlays"]["conditional"];
    let (want, deps) = stored_condition(&c);
    sym::check(o["attribute_conditions"] == json!({"c": want}), "the stored condition is not the one given");
    sym::check(o["attribute_dependencies"] == json!({"c": deps}), "the dependencies are not the attributes named, each once, in order");
    sym::cover("stored");
    let ok = d.iter().all(|x| *x != "u" && *x != "c");
    let r = Validator::new().validate(&b);
    sym::cover(if ok { "accepted" } else { "rejected" });
    sym::check(r.is_ok() == ok, "a condition on unknown attributes or itself is accepted, or a proper one rejected");
}
/// P15: stored conditions with any positions and dependencies.
#[no_mangle]
pub extern "C" fn h_positions() {
    warm(true);
    let n = sym::choice(4, "deps") as usize;
    let deps: Vec<&str> = (0..n).map(|i| DEPS[sym::choice(4, &format!("dep{}", i)) as usize]).collect();
    let k = sym::param("digits", 1) as usize;
    let p = sym::string_of(k, b"0123456789", "position");
    let text = format!("ADD ATTRIBUTE a=Text b=Text c=Text\nADD CONDITION ATTRS c=\"${{a}} == 'x'\"\n");
    let Some(b) = build(&text) else { return };
    let mut j = json_of(&b);
    j["overlays"]["conditional"]["attribute_conditions"] = json!({"c": format!("${{{}}} == 'x'", p)});
    if sym::choice(2, "listed") == 0 {
        j["overlays"]["conditional"]["attribute_dependencies"] = json!({"c": deps});
    } else {
        if n > 0 {
            return;
        }
        j["overlays"]["conditional"]["attribute_dependencies"] = json!({});
    }
    reseal(&mut j);
    let Some(b) = load(serde_json::to_string(&j).unwrap().as_bytes()) else {
        sym::check(false, "a stored condition does not load");
        return;
    };
    let mut pos = 0usize;
    for c in p.bytes() {
        pos = pos * 10 + (c - b'0') as usize;
    }
    let ok = deps.iter().all(|x| *x != "u" && *x != "c") && pos < n;
    let r = Validator::new().validate(&b);
    sym::cover(if ok { "accepted" } else { "rejected" });
    if let Err(e) = &r {
        sym::show("said", &format!("{:?}", e));
    }
    sym::check(r.is_ok() == ok, "a condition referring to a missing or unknown dependency is accepted, or a proper one rejected");
    // building on it and exporting it is no crash either
    let ast = b.to_ast();
    let _ = from_ast(Some(b), &ast);
}

// ------------------------------------------------------------------- P31
/// P31: evaluation of a condition on a record.
#[no_mangle]
pub extern "C" fn h_eval() {
    warm(false);
    let x = digit("x");
    let y = digit("y");
    let k = digit("k");
    let (xv, yv, kv) = (val(&x), val(&y), val(&k));
    let (c, want): (String, Option<bool>) = match sym::choice(12, "form") {
        0 => (format!("${{x}} > {}", k), Some(xv > kv)),
        1 => (format!("${{x}} == {}", k), Some(xv == kv)),
        2 => (format!("${{x}} <= ${{y}}"), Some(xv <= yv)),
        3 => (format!("${{y}} < ${{x}} and ${{x}} < {}", k), Some(yv < xv && xv < kv)),
        4 => (format!("${{x}} < {} or ${{y}} < {}", k, k), Some(xv < kv || yv < kv)),
        5 => (format!("not (${{x}} ~= ${{y}})"), Some(xv == yv)),
        6 => (format!("'${{x}}' == '{}'", k), Some(xv == kv)),
        7 => (format!("${{x}} + ${{y}} == {}", k), Some(xv + yv == kv)),
        8 => (format!("${{y}} == ${{y}} and ${{x}} >= {}", k), Some(xv >= kv)),
        9 => ("true".into(), Some(true)),
        10 => (format!("${{x}} >"), None),
        _ => (format!("${{name}} == {}", k), None),
    };
    let mut a = Attribute::new("name".into());
    a.set_attribute_type(NestedAttrType::Value(AttributeType::Text));
    a.set_condition(c.clone());
    sym::show("condition", &c);
    let missing = sym::choice(4, "missing");
    let mut vals: BTreeMap<String, Box<dyn std::fmt::Display>> = BTreeMap::new();
    if missing & 1 == 0 {
        vals.insert("x".into(), Box::new(xv));
    }
    if missing & 2 == 0 {
        // as text or as a number: the same
        vals.insert("y".into(), Box::new(y.clone()));
    }
    vals.insert("name".into(), Box::new("1".to_string()));
    vals.insert("other".into(), Box::new(7));
    let lack = (missing & 1 != 0 && c.contains("${x}")) || (missing & 2 != 0 && c.contains("${y}"));
    let want = if lack { None } else { want };
    let r = a.check_condition(vals);
    match want {
        Some(w) => {
            sym::cover(if w { "true" } else { "false" });
            sym::check(matches!(r, Ok(v) if v == w), "a condition evaluates to something else")
        }
        None => {
            sym::cover("error");
            sym::check(r.is_err(), "a condition that cannot be evaluated has a value")
        }
    }
}
fn digit(t: &str) -> String {
    sym::string_of(1, b"0123456789", t)
}
fn val(s: &str) -> u32 {
    (s.as_bytes()[0] - b'0') as u32
}

// ------------------------------------------------------------------- P16
/// P16: exactly the missing translations are reported.
#[no_mangle]
pub extern "C" fn h_translations() {
    warm(false);
    let langs = [("en", Language::Eng, "Eng"), ("fr", Language::Fra, "Fra"), ("pl", Language::Pol, "Pol")];
    let kinds = sym::param("kinds", 1);
    let mut text = String::from("ADD ATTRIBUTE a=Text b=Text\n");
    let mut have: Vec<(&str, Vec<Vec<&str>>)> = vec![];
    let k0 = sym::choice(4, "kind");
    for k in 0..4 {
        let name = ["meta", "Label", "Information", "Entry"][k as usize];
        if k != k0 && !(kinds == 2 && k == (k0 + 1) % 4) {
            continue;
        }
        let mut per = vec![];
        for (c, _, _) in langs {
            let p = sym::choice(4, &format!("{}.{}", name, c));
            let mut l = vec![];
            let mut line = String::new();
            for (i, a) in ["a", "b"].iter().enumerate() {
                if p & (1 << i) != 0 {
                    let a = if k == 0 { ["name", "description"][i] } else { a };
                    line.push_str(&format!(" {}=\"x\"", a));
                    l.push(a);
                }
            }
            if !l.is_empty() {
                text.push_str(&match k {
                    0 => format!("ADD META {} PROPS{}\n", c, line),
                    1 => format!("ADD LABEL {} ATTRS{}\n", c, line),
                    2 => format!("ADD INFORMATION {} ATTRS{}\n", c, line),
                    _ => format!("ADD ENTRY {} ATTRS{}\n", c, line),
                });
            }
            per.push(l);
        }
        have.push((name, per));
    }
    let en = sym::choice(8, "enforced");
    let mut enforced = vec![];
    for (i, (_, l, _)) in langs.iter().enumerate() {
        if en & (1 << i) != 0 {
            enforced.push(*l);
        }
    }
    let Some(b) = build(&text) else { return };
    // what should be said: (overlay kind, language, attribute)
    let mut want: Vec<(&str, &str, Option<&str>)> = vec![];
    if en != 0 {
        for (name, per) in &have {
            if per.iter().all(|l| l.is_empty()) {
                continue; // not used at all
            }
            let all: BTreeSet<&str> = per.iter().flatten().copied().collect();
            for (i, l) in per.iter().enumerate() {
                let forced = en & (1 << i) != 0;
                if forced == l.is_empty() {
                    want.push((name, langs[i].2, None)); // missing, or present but not enforced
                }
                if !l.is_empty() {
                    for a in &all {
                        if !l.contains(a) {
                            want.push((name, langs[i].2, Some(a)));
                        }
                    }
                }
            }
        }
    }
    let mut got: Vec<String> = match Validator::new().enforce_translations(enforced).validate(&b) {
        Ok(()) => vec![],
        Err(e) => e.iter().map(|x| x.to_string()).collect(),
    };
    sym::cover(if want.is_empty() { "complete" } else { "incomplete" });
    for g in &got {
        sym::show("reported", g);
    }
    sym::check(got.len() == want.len(), "not exactly the missing translations are reported");
    for (n, l, a) in want {
        let i = got.iter().position(|g| {
            g.contains(n) && g.to_lowercase().contains(&l.to_lowercase()) && match a {
                Some(a) => g.contains(&format!("'{}'", a)),
                None => !g.contains("'"),
            }
        });
        match i {
            Some(i) => {
                got.remove(i);
            }
            None => sym::check(false, "a missing translation is not reported"),
        }
    }
}

// ------------------------------------------------------------------- P05
/// every text of a bundle that is content, as a path to it
fn leaves(v: &Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                path.push(k.clone());
                leaves(x, path, out);
                path.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                leaves(x, path, out);
                path.pop();
            }
        }
        _ => out.push(path.clone()),
    }
}
fn at<'a>(v: &'a mut Value, path: &[String]) -> &'a mut Value {
    let mut x = v;
    for p in path {
        x = match x {
            Value::Object(m) => m.get_mut(p.as_str()).unwrap(),
            Value::Array(a) => &mut a[p.parse::<usize>().unwrap()],
            _ => unreachable!(),
        };
    }
    x
}
fn swap(m: &mut Map<String, Value>, old: &str, new: &str) {
    let mut n = Map::new();
    for (k, v) in m.iter() {
        n.insert(if k == old { new.to_string() } else { k.clone() }, v.clone());
    }
    *m = n;
}
fn rejected(j: &Value) -> bool {
    let s = serde_json::to_string(j).unwrap();
    sym::show("tampered", &s);
    match load(s.as_bytes()) {
        None => true,
        Some(b) => Validator::new().validate(&b).is_err(),
    }
}
/// P05: a change of content which leaves the identifiers is detected.
#[no_mangle]
pub extern "C" fn h_tamper() {
    warm(true);
    let Some((text, m)) = program(sym::param("cmds", 1), true) else { return };
    if m.dangling() {
        return;
    }
    let Some(b) = build(&text) else { return };
    let mut j = json_of(&b);
    j.as_object_mut().unwrap().remove("v");
    let mut paths = vec![];
    leaves(&j, &mut vec![], &mut paths);
    let mut j = json_of(&b);
    match sym::choice(4, "how") {
        0 => {
            // another text at any place, one character changed to any other
            let p = &paths[sym::choice(paths.len() as u64, "place") as usize];
            let Value::String(s) = at(&mut j, p).clone() else { return };
            if s.len() == 44 && s.starts_with('E') {
                *at(&mut j, p) = json!(if s == SAID1 { SAID2 } else { SAID1 });
            } else {
                let mut v = s.clone().into_bytes();
                if v.is_empty() {
                    v.push(b'x');
                } else {
                    let i = if v.len() > 1 { sym::choice(2, "first or last") as usize * (v.len() - 1) } else { 0 };
                    // any other letter, or the same in the other case, or a blank
                    let c = if sym::param("letters", 0) == 1 { word(1, "char").into_bytes()[0] } else { [v[i] ^ 32, b' ', b'x'][sym::choice(3, "char") as usize] };
                    sym::assume(v[i] != c);
                    v[i] = c;
                }
                *at(&mut j, p) = json!(unsafe { String::from_utf8_unchecked(v) });
            }
        }
        1 => {
            // an attribute called otherwise, anywhere it is named as a member
            let all: Vec<Vec<String>> = paths.iter().filter(|p| p.len() > 1 && p[0] != "d").cloned().collect();
            let p = &all[sym::choice(all.len() as u64, "place") as usize];
            // the innermost member name on the path that is not fixed
            let Some(i) = (0..p.len()).rev().find(|i| ["a", "b", "c", "name", "description", "v0"].contains(&p[*i].as_str())) else { return };
            let new = format!("x{}", word(1, "name"));
            let old = p[i].clone();
            if let Value::Object(mm) = at(&mut j, &p[..i]) {
                swap(mm, &old, &new);
            }
        }
        2 => {
            // a part left out
            let all: Vec<Vec<String>> = paths.iter().filter(|p| p.len() > 2 && p[p.len() - 1] != "d" && p[p.len() - 1] != "type").cloned().collect();
            let p = &all[sym::choice(all.len() as u64, "place") as usize];
            let (last, up) = p.split_last().unwrap();
            match at(&mut j, up) {
                Value::Object(mm) => {
                    mm.remove(last.as_str());
                }
                Value::Array(a) => {
                    a.remove(last.parse().unwrap());
                }
                _ => return,
            }
        }
        _ => {
            // a whole overlay left out
            let Some(o) = j["overlays"].as_object_mut() else { return };
            let Some(k) = o.keys().next().cloned() else { return };
            o.remove(&k);
        }
    }
    sym::cover("tampered");
    sym::check(rejected(&j), "a changed bundle passes validation");
}
/// P05: an overlay taken from another bundle is detected, even though every
/// identifier is that of its content.
#[no_mangle]
pub extern "C" fn h_swap() {
    warm(true);
    let o = opts(true);
    let (mut t1, mut m1) = base();
    let k = kind("k");
    if k == K_ATTR || k == K_REMOVE || k == K_CLASS || k == K_FLAG || !emit(k, "c0", &o, &mut t1, &mut m1) {
        return;
    }
    if m1.dangling() {
        return;
    }
    // the same with another capture base
    let t2 = t1.replace("b=Numeric", ["b=Text", "b=Numeric z=Text"][sym::choice(2, "other") as usize]);
    let (Some(b1), Some(b2)) = (build(&t1), build(&t2)) else { return };
    let (mut j1, j2) = (json_of(&b1), json_of(&b2));
    j1["overlays"] = j2["overlays"].clone();
    let d = said_of(&j1);
    j1["d"] = json!(d);
    sym::cover("swapped");
    sym::check(rejected(&j1), "an overlay of another bundle passes validation");
}

// ------------------------------------------------------------------- P17
const ALL: &str = "ADD ATTRIBUTE a=Text b=Array[Numeric] c=refs:EJeWVGxkqxWrdGi0efOzwg1YQK8FrA-ZmtegiVEtAVcu\nADD CLASSIFICATION x\nADD FLAGGED_ATTRIBUTES a\nADD META en PROPS name=\"x\"\nADD LABEL en ATTRS a=\"x\"\nADD INFORMATION en ATTRS a=\"x\"\nADD CHARACTER_ENCODING ATTRS a=\"utf-8\"\nADD CONFORMANCE ATTRS a=\"M\"\nADD FORMAT ATTRS a=\"x\"\nADD UNIT ATTRS a=\"x\"\nADD CARDINALITY ATTRS a=\"1\"\nADD CONDITION ATTRS b=\"${a} == '1'\"\nADD ENTRY_CODE ATTRS a=[\"x\"] b={\"g\": [\"x\"]}\nADD ENTRY en ATTRS a={\"x\": \"y\"}\nADD LINK refs:EJeWVGxkqxWrdGi0efOzwg1YQK8FrA-ZmtegiVEtAVcu ATTRS a=\"b\"\nADD ATTR_FRAMING id=S label=\"L\" version=\"v\" ATTRS a={\"u\": {\"Predicate_id\": \"v\", \"Framing_justification\": \"j\"}}\n";
fn nodes(v: &Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(path.clone());
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                path.push(k.clone());
                nodes(x, path, out);
                path.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                nodes(x, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}
/// anything that can be done with a bundle that loads
fn exercise(s: &[u8]) {
    let Some(b) = load(s) else {
        sym::cover("rejected");
        return;
    };
    sym::cover("loaded");
    let _ = Validator::new().validate(&b);
    let _ = Validator::new().enforce_translations(vec![Language::Eng]).validate(&b);
    let _ = encode_checked(&b);
    let ast = b.to_ast();
    let mut ext = OCAAst::new();
    ext.commands.push(capture(CommandType::Add, &["zz"], &[]));
    let _ = from_ast(Some(b), &ext);
    let _ = from_ast(None, &ast);
    let _ = oca_file_semantics::ocafile::generate_from_ast(&ast);
}
fn encode_checked(b: &OCABundle) -> bool {
    use oca_bundle_semantics::{Encode, HashFunctionCode, SerializationFormats};
    b.encode(&HashFunctionCode::Blake3_256, &SerializationFormats::JSON).is_ok()
}
/// P17: one structural fault anywhere in a bundle with all overlay kinds.
#[no_mangle]
pub extern "C" fn h_malformed() {
    warm(true);
    let all = sym::param("all", 0) == 1;
    let (k, t) = if all { (0, ALL.to_string()) } else { one_line() };
    let Some(b) = build(&t) else { return };
    let mut j = json_of(&b);
    let mut all = vec![];
    nodes(&j, &mut vec![], &mut all);
    if k > 2 {
        all.retain(|p| p.len() > 0 && p[0] == "overlays");
    }
    let p = all[sym::choice(all.len() as u64, "place") as usize].clone();
    if p.is_empty() {
        return;
    }
    let (last, up) = p.split_last().unwrap();
    let k = sym::choice(13, "fault");
    match k {
        0 => match at(&mut j, up) {
            Value::Object(m) => {
                m.remove(last.as_str());
            }
            Value::Array(a) => {
                a.remove(last.parse().unwrap());
            }
            _ => return,
        },
        1 => match at(&mut j, up) {
            Value::Object(m) => swap(m, last, &word(2, "rename")),
            _ => return,
        },
        2 => *at(&mut j, &p) = Value::Null,
        3 => *at(&mut j, &p) = json!(1),
        4 => *at(&mut j, &p) = json!(""),
        5 => *at(&mut j, &p) = json!([]),
        6 => *at(&mut j, &p) = json!({}),
        7 => *at(&mut j, &p) = json!(true),
        8 => *at(&mut j, &p) = json!([["x"]]),
        9 => *at(&mut j, &p) = json!({"x": {"y": "z"}}),
        10 => {
            // any short text
            let s = short(&p);
            if last == "d" || last == "capture_base" {
                return; // identifiers: see 12
            }
            *at(&mut j, &p) = json!(s);
        }
        11 => {
            // the same list element twice, or a list of one
            let x = at(&mut j, &p).clone();
            *at(&mut j, &p) = json!([x.clone(), x]);
        }
        _ => {
            // an identifier that is none
            let s = short(&p);
            *at(&mut j, &p) = json!(s);
        }
    }
    exercise(serde_json::to_string(&j).unwrap().as_bytes());
}
/// a bundle with one of the instructions
fn one_line() -> (usize, String) {
    let l: Vec<&str> = ALL.lines().collect();
    let k = match sym::param("line", 0) {
        0 => sym::choice(l.len() as u64, "line"),
        x => x - 1,
    } as usize;
    let t = match k {
        0 => format!("{}\n", l[0]),
        11 | 12 => format!("ADD ATTRIBUTE a=Text b=Text\n{}\n", l[k]),
        _ => format!("ADD ATTRIBUTE a=Text\n{}\n", l[k]),
    };
    (k, t)
}
fn short(path: &[String]) -> String {
    let n = 1 + sym::choice(sym::param("n", 2), "length") as usize;
    let s = sym::ascii(n, "text");
    let said = |x: &str| x == "d" || x == "capture_base" || x == "target_bundle" || x == "attribute_entries" || x == "attribute_entry_codes";
    if s == "0" && path.iter().any(|x| said(x)) {
        sym::known("F2");
    }
    s
}
/// P17: arbitrary bytes anywhere in the text.
#[no_mangle]
pub extern "C" fn h_jsonbytes() {
    warm(true);
    let (k, t) = one_line();
    let Some(b) = build(&t) else { return };
    let mut e = encode(&b);
    let w = sym::param("w", 1) as usize;
    let from = if k < 3 { 0 } else { e.windows(10).position(|x| x == b"\"overlays\"").unwrap() };
    // what all overlays have in one of them only, if few
    let from = if k > 3 && sym::param("few", 0) == 1 { from + e[from..].windows(5).position(|x| x == b"/1.1\"").unwrap() } else { from };
    // identifiers in their first two and last characters only
    let mut at: Vec<usize> = vec![];
    let mut q = 0; // start of the current text
    for i in 0..e.len() - w {
        if e[i] == b'"' {
            q = i;
        }
        let end = (i + 1..e.len()).find(|x| e[*x] == b'"').unwrap_or(e.len());
        if i >= from && !(end - q == 45 && i > q + 2 && i + 1 < end) {
            at.push(i);
        }
    }
    let hi = sym::choice(at.len() as u64 / 200 + 1, "at/200") as usize;
    let n = at.len() - hi * 200;
    if n == 0 {
        return;
    }
    let i = at[hi * 200 + sym::choice(n.min(200) as u64, "at") as usize];
    let mut v = vec![0u8; w];
    sym::bytes(&mut v, "window");
    for (x, y) in v.into_iter().enumerate() {
        e[i + x] = y;
    }
    exercise(&e);
}
