//! The facade over its stores: history (P18), relations (P19), references by
//! name (P20), dependencies (P21), failed builds (P22), listing (P27) and
//! search (P28).
use crate::gen::*;
use crate::h_bundle::{encode, program};
use crate::sym;
use oca_ast_semantics::ast::Command;
use oca_ast_semantics::ast::OCAAst;
use oca_bundle_semantics::build::from_ast;
use oca_bundle_semantics::state::oca::OCABundle;
use oca_file_semantics::ocafile::parse_from_string;
use oca_rs::data_storage::{DataStorage, InMemoryDataStorage};
use oca_rs::facade::build::{Error, References, ValidationError};
use oca_rs::repositories::SQLiteConfig;
use oca_rs::Facade;
use said::SelfAddressingIdentifier;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

pub fn facade() -> Facade {
    Facade::new(Box::new(InMemoryDataStorage::new()), Box::new(InMemoryDataStorage::new()), SQLiteConfig::build().unwrap())
}
fn build(f: &mut Facade, text: &str) -> Option<OCABundle> {
    sym::show("ocafile", text);
    match f.build_from_ocafile(text.to_string()) {
        Ok(b) => Some(b),
        Err(_e) => {
            #[cfg(feature = "replay")]
            sym::show("errors", &format!("{:?}", _e));
            sym::check(false, "a well-formed OCAfile was rejected");
            None
        }
    }
}
fn said(b: &OCABundle) -> String {
    b.said.as_ref().unwrap().to_string()
}
fn id(s: &str) -> SelfAddressingIdentifier {
    SelfAddressingIdentifier::from_str(s).unwrap()
}
fn json(b: &OCABundle) -> Value {
    serde_json::from_slice(&encode(b)).unwrap()
}
/// a facade which has done everything once on other input
fn warmed() -> Facade {
    crate::h_bundle::warm(false);
    facade()
}

// ---------------------------------------------------------------- history

/// the history of `said` replays to it; `given` are the instructions it was
/// built with
fn history(f: &Facade, said: &str, given: &str) {
    let Ok(steps) = f.get_oca_bundle_steps(id(said)) else {
        return sym::check(false, "the history of a built bundle cannot be read");
    };
    let mut ast = OCAAst::new();
    ast.commands = steps.iter().map(|s| s.command.clone()).collect();
    let Ok(r) = from_ast(None, &ast) else {
        return sym::check(false, "the history of a built bundle cannot be replayed");
    };
    sym::check(r.oca_bundle.said == Some(id(said)), "the history replays to another bundle");
    sym::check(r.steps.len() == steps.len(), "the replay has another number of steps");
    for (a, b) in r.steps.iter().zip(&steps) {
        sym::check(a.result.said == b.result.said, "a step of the history names another bundle than its replay");
        sym::check(a.parent_said == b.parent_said, "a step of the history has another parent than its replay");
    }
    match f.get_oca_bundle_ocafile(id(said), false).map(parse_from_string) {
        Ok(Ok(a)) => match from_ast(None, &a) {
            Ok(r) => sym::check(r.oca_bundle.said == Some(id(said)), "the printed history builds another bundle"),
            Err(_) => sym::check(false, "the printed history does not build"),
        },
        _ => sym::check(false, "the history does not print as an OCAfile"),
    }
    let (Ok(g), mut seen) = (parse_from_string(given.to_string()), BTreeSet::new()) else { return };
    let Ok(g) = from_ast(None, &g) else { return };
    if g.steps.iter().all(|s| seen.insert(s.result.said.as_ref().unwrap().to_string())) {
        sym::cover("plain history");
        let a: Vec<String> = steps.iter().map(|s| command(&s.command)).collect();
        let b: Vec<String> = g.steps.iter().map(|s| command(&s.command)).collect();
        sym::check(a == b, "the history holds other instructions than were given");
    } else {
        sym::cover("instructions without effect or undoing others");
    }
}
fn command(c: &Command) -> String {
    serde_json::to_string(c).unwrap()
}

/// P18: one build, or two which share what came before.
#[no_mangle]
pub extern "C" fn h_history() {
    let mut f = warmed();
    let shape = sym::choice(sym::param("shapes", 4), "shape");
    // with a second build, the first one may be limited to a few kinds
    let p = if shape > 0 && sym::param("few", 0) == 1 {
        let (mut text, mut m) = crate::h_bundle::base();
        let k = [K_ATTR, K_LABEL, K_REMOVE, K_CARD][sym::choice(4, "c0.kind") as usize];
        emit(k, "c0", &crate::h_bundle::opts(false), &mut text, &mut m).then_some((text, m))
    } else {
        program(sym::param("cmds", 1), false)
    };
    let Some((text, mut m)) = p else { return };
    match shape {
        // alone
        0 => {
            let Some(b) = build(&mut f, &text) else { return };
            sym::cover("one build");
            history(&f, &said(&b), &text);
        }
        // the same instructions and one more
        1 | 2 => {
            let Some(b) = build(&mut f, &text) else { return };
            let mut more = String::new();
            let o = crate::h_bundle::opts(false);
            let k = [K_ATTR, K_REMOVE, K_LABEL, K_META][sym::choice(4, "more") as usize];
            if !emit(k, "m", &o, &mut more, &mut m) {
                return;
            }
            let all = format!("{}{}", text, more);
            let second = if shape == 1 { all.clone() } else { format!("FROM {}\n{}", said(&b), more) };
            let Some(c) = build(&mut f, &second) else { return };
            sym::cover(if shape == 1 { "two builds with a common start" } else { "extension" });
            history(&f, &said(&b), &text);
            history(&f, &said(&c), &all);
        }
        // what is undone afterwards
        _ => {
            let text = format!("{}ADD ATTRIBUTE z=Text\nREMOVE ATTRIBUTE z\n", text);
            let Some(b) = build(&mut f, &text) else { return };
            sym::cover("an instruction and its undoing");
            history(&f, &said(&b), &text);
            let Some(c) = build(&mut f, &format!("FROM {}\nADD META pl PROPS q=\"q\"\n", said(&b))) else { return };
            history(&f, &said(&c), &format!("{}ADD META pl PROPS q=\"q\"\n", text));
        }
    }
}

// -------------------------------------------------------------- relations

fn kind_of(o: &Value) -> String {
    let t = o["type"].as_str().unwrap();
    let mut p = t.split('/');
    match (p.next(), p.next(), p.next()) {
        (Some("spec"), Some("capture_base"), _) => "capture_base".into(),
        (Some("spec"), Some("overlays"), Some(x)) => x.into(),
        _ => t.into(),
    }
}
fn objects(b: &OCABundle) -> Vec<(String, String)> {
    let v = json(b);
    let mut r = vec![(v["d"].as_str().unwrap().to_string(), "bundle".to_string())];
    let cb = &v["capture_base"];
    r.push((cb["d"].as_str().unwrap().to_string(), kind_of(cb)));
    fn overlays(v: &Value, r: &mut Vec<(String, String)>) {
        match v {
            Value::Array(a) => a.iter().for_each(|x| overlays(x, r)),
            Value::Object(o) if o.contains_key("d") => r.push((o["d"].as_str().unwrap().to_string(), kind_of(v))),
            Value::Object(o) => o.values().for_each(|x| overlays(x, r)),
            _ => {}
        }
    }
    overlays(&v["overlays"], &mut r);
    r
}
fn kind_name(k: &oca_ast_semantics::ast::ObjectKind) -> String {
    use oca_ast_semantics::ast::{ObjectKind, OverlayType};
    match k {
        ObjectKind::OCABundle(_) => "bundle",
        ObjectKind::CaptureBase(_) => "capture_base",
        ObjectKind::Overlay(t, _) => match t {
            OverlayType::Label(_) => "label",
            OverlayType::Information(_) => "information",
            OverlayType::CharacterEncoding(_) => "character_encoding",
            OverlayType::Format(_) => "format",
            OverlayType::Meta(_) => "meta",
            OverlayType::Standard(_) => "standard",
            OverlayType::Cardinality(_) => "cardinality",
            OverlayType::Conditional(_) => "conditional",
            OverlayType::Conformance(_) => "conformance",
            OverlayType::EntryCode(_) => "entry_code",
            OverlayType::Entry(_) => "entry",
            OverlayType::Unit(_) => "unit",
            OverlayType::Link(_) => "link",
            OverlayType::AttributeFraming(_) => "attribute_framing",
            _ => "other",
        },
    }
    .into()
}

/// P19: after one or two builds, every object is related to exactly the
/// objects built with it.
#[no_mangle]
pub extern "C" fn h_relations() {
    let mut f = warmed();
    let two = sym::choice(sym::param("builds", 2), "builds");
    let Some((text, _)) = program(sym::param("cmds", 1), true) else { return };
    let mut built = vec![];
    if two == 1 {
        // shares the capture base, or an overlay, or nothing
        let first = ["ADD ATTRIBUTE a=Text b=Numeric\n", "ADD ATTRIBUTE a=Text b=Numeric\nADD LABEL pl ATTRS a=\"q\"\n", "ADD ATTRIBUTE z=Text\n"]
            [sym::choice(3, "first") as usize];
        let Some(b) = build(&mut f, first) else { return };
        built.push(b);
    }
    let Some(b) = build(&mut f, &text) else { return };
    built.push(b);
    sym::cover(if two == 1 { "two builds" } else { "one build" });
    let mut kinds: BTreeMap<String, String> = BTreeMap::new();
    let mut related: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for b in &built {
        let o = objects(b);
        let (bundle, capture, overlays) = (o[0].0.clone(), o[1].0.clone(), &o[2..]);
        for (s, k) in &o {
            kinds.insert(s.clone(), k.clone());
        }
        let mut link = |x: &String, y: &String| {
            related.entry(x.clone()).or_default().insert(y.clone());
            related.entry(y.clone()).or_default().insert(x.clone());
        };
        link(&bundle, &capture);
        for (s, _) in overlays {
            link(&bundle, s);
            link(&capture, s);
        }
    }
    for (s, k) in &kinds {
        let Some(r) = f.explore(s.clone()) else {
            return sym::check(false, "an object which was built has no relations");
        };
        sym::check(r.base_object.said == *s, "the explored object is another one");
        sym::check(kind_name(&r.base_object.object_type) == *k, "the explored object has another kind");
        let got: BTreeSet<String> = r.relations.iter().map(|o| o.said.clone()).collect();
        sym::check(r.relations.len() == got.len(), "a related object is named twice");
        sym::check(got == related[s], "an object is related to other objects than those built with it");
        for o in &r.relations {
            sym::check(kinds.get(&o.said) == Some(&kind_name(&o.object_type)), "a related object has another kind");
        }
    }
    // what is no identifier of an object has no relations
    let s = said(&built[0]);
    for t in [SAID1.to_string(), String::new(), format!("{}.metadata", s), format!("{}.", s), s[..s.len() - 1].to_string()] {
        sym::check(f.explore(t).is_none(), "relations are reported for what is no object");
    }
}

// ------------------------------------------------------ references by name

struct Names(BTreeMap<String, String>);
impl References for Names {
    fn find(&self, refn: &str) -> Option<String> {
        self.0.get(refn).cloned()
    }
    fn save(&mut self, refn: &str, value: String) {
        self.0.insert(refn.to_string(), value);
    }
}

/// P20: names at any depth, known, renamed to another bundle, or unknown.
#[no_mangle]
pub extern "C" fn h_refs() {
    let mut f = warmed();
    let again = sym::choice(2, "again") == 1;
    let mut names: BTreeMap<String, String> = BTreeMap::new();
    let mut texts = vec![("x", "-- name=x\nADD ATTRIBUTE a=Text\n"), ("xy", "-- name=xy\nADD ATTRIBUTE b=Text\n")];
    if again {
        texts.push(("x", "-- name=x\nADD ATTRIBUTE c=Text\n"));
    }
    for (n, t) in texts {
        let Some(b) = build(&mut f, t) else { return };
        names.insert(n.into(), said(&b));
    }
    let name = match sym::choice(3, "length") {
        0 => word(1, "name"),
        1 => word(2, "name"),
        _ => ["xyz", "X", "name", "a", SAID1][sym::choice(5, "other") as usize].to_string(),
    };
    let depth = sym::choice(sym::param("depth", 4), "depth") as usize;
    let at = sym::choice(4, "at");
    let typ = format!("{}refn:{}{}", "Array[".repeat(depth), name, "]".repeat(depth));
    let text = match at {
        0 => format!("ADD ATTRIBUTE r={}\n", typ),
        1 => format!("ADD ATTRIBUTE q=refn:x r={} s=Text\n", typ),
        2 => format!("ADD ATTRIBUTE q=Text\nADD LABEL en ATTRS q=\"x\"\nADD ATTRIBUTE r={}\n", typ),
        _ if depth == 0 => format!("ADD ATTRIBUTE q=Text\nADD LINK refn:{} ATTRS q=\"x\"\n", name),
        _ => return,
    };
    let own = sym::choice(3, "own") as usize;
    let text = format!("{}{}", ["", "-- name=w\n", "-- name=xy\n"][own], text);
    sym::show("ocafile", &text);
    let external = sym::choice(2, "external") == 1;
    let mut map = Names(names.clone());
    let r = if external {
        f = facade();
        f.validate_ocafile_with_external_references(text, &mut map).map(|b| b.oca_bundle)
    } else {
        match f.build_from_ocafile(text) {
            Ok(b) => Ok(b),
            Err(Error::ValidationError(e)) => Err(e),
            Err(_) => return sym::check(false, "an OCAfile is treated as deprecated"),
        }
    };
    match (names.get(&name), r) {
        (Some(s), Ok(b)) => {
            sym::cover("resolved");
            let v = json(&b);
            if at == 3 {
                let l = v["overlays"]["link"].as_array().map(|a| a.len());
                sym::check(l == Some(1), "a link overlay is missing");
                let t = v["overlays"]["link"][0]["target_bundle"].as_str();
                sym::check(t == Some(s.as_str()), "a link by name leads to another bundle");
            } else {
                let mut t = &v["capture_base"]["attributes"]["r"];
                for _ in 0..depth {
                    t = &t[0];
                }
                sym::check(t.as_str() == Some(&format!("refs:{}", s)), "a reference by name carries another identifier");
            }
            if at == 1 {
                let t = v["capture_base"]["attributes"]["q"].as_str();
                sym::check(t == Some(&format!("refs:{}", names["x"])), "another reference by name carries another identifier");
            }
            if own > 0 {
                names.insert(["", "w", "xy"][own].into(), said(&b));
            }
        }
        (None, Ok(_)) => sym::check(false, "a reference to an unknown name was resolved"),
        (Some(_), Err(_)) => sym::check(false, "a reference to a known name was rejected"),
        (None, Err(e)) => {
            sym::cover("unknown");
            match e.first() {
                Some(ValidationError::UnknownRefn(n)) => sym::check(*n == name, "another name is reported as unknown"),
                _ => sym::check(false, "an unknown name is not reported"),
            }
        }
    }
    if external {
        sym::check(map.0 == names, "the names recorded outside are other ones");
        sym::check(f.fetch_all_refs().is_ok_and(|r| r.is_empty()), "a name was recorded inside");
    } else {
        let r: BTreeMap<String, String> = f.fetch_all_refs().unwrap_or_default().into_iter().collect();
        sym::check(r == names, "the names recorded are other ones");
    }
}

// ------------------------------------------------------------ dependencies

/// P21: a graph of up to `bundles` bundles with references at any depth.
#[no_mangle]
pub extern "C" fn h_deps() {
    let mut f = warmed();
    let n = sym::param("bundles", 3) as usize;
    let mut saids: Vec<String> = vec![];
    let mut refers: Vec<Vec<usize>> = vec![];
    let missing = 99;
    for i in 0..n {
        let mut text = format!("ADD ATTRIBUTE k{}=Text\n", i);
        let mut out = vec![];
        let refs = if i == 0 { 0 } else { sym::choice(3, &format!("refs{}", i)) };
        for r in 0..refs {
            let tag = format!("{}.{}", i, r);
            // one of the bundles before, or one which was never built
            let t = sym::choice(i as u64 + 1, &format!("to{}", tag)) as usize;
            let d = sym::choice(sym::param("depth", 3), &format!("depth{}", tag)) as usize;
            let (s, t) = if t == i { (SAID1, missing) } else { (saids[t].as_str(), t) };
            let name = word(sym::param("n", 1) as usize, &format!("name{}", tag));
            text.push_str(&format!("ADD ATTRIBUTE r{}{}={}refs:{}{}\n", r, name, "Array[".repeat(d), s, "]".repeat(d)));
            out.push(t);
        }
        let Some(b) = build(&mut f, &text) else { return };
        saids.push(said(&b));
        refers.push(out);
    }
    for i in 0..n {
        let mut reach = BTreeSet::new();
        let mut todo = refers[i].clone();
        while let Some(x) = todo.pop() {
            if reach.insert(x) && x != missing {
                todo.extend(&refers[x]);
            }
        }
        match f.get_oca_bundle(id(&saids[i]), true) {
            Ok(b) => {
                sym::check(!reach.contains(&missing), "a missing dependency is not reported");
                sym::check(b.bundle.said == Some(id(&saids[i])), "another bundle was fetched");
                let got: BTreeSet<String> = b.dependencies.iter().map(said).collect();
                let want: BTreeSet<String> = reach.iter().map(|x| saids[*x].clone()).collect();
                sym::check(got == want, "other dependencies were fetched than those referred to");
                sym::cover(if want.is_empty() { "no dependencies" } else { "dependencies" });
            }
            Err(e) => {
                sym::check(reach.contains(&missing), "a bundle whose dependencies are known cannot be fetched with them");
                sym::check(e.iter().any(|e| e.contains(SAID1)), "the missing dependency is not named");
                sym::cover("missing dependency");
            }
        }
        match f.get_oca_bundle(id(&saids[i]), false) {
            Ok(b) => sym::check(b.dependencies.is_empty() && b.bundle.said == Some(id(&saids[i])), "fetching without dependencies gives something else"),
            Err(_) => sym::check(false, "a built bundle cannot be fetched"),
        }
    }
}

// ----------------------------------------------------------- failed builds

/// everything that can be asked about a store
fn all_of(f: &Facade, words: &[&str]) -> (BTreeSet<String>, usize, BTreeSet<String>, usize, BTreeMap<String, String>, Vec<usize>) {
    let b = f.fetch_all_oca_bundle(100, 1).unwrap();
    let c = f.fetch_all_capture_base(100, 1).unwrap();
    let r = f.fetch_all_refs().unwrap().into_iter().collect();
    (
        b.records.iter().map(said).collect(),
        b.metadata.total,
        c.records.iter().map(|c| c.said.as_ref().unwrap().to_string()).collect(),
        c.metadata.total,
        r,
        words.iter().map(|w| f.search_oca_bundle(None, w.to_string(), 10, 1).metadata.total).collect(),
    )
}
fn line_of(e: &ValidationError) -> Option<usize> {
    let v = serde_json::to_value(e).unwrap();
    v.get("ln").and_then(|l| l.as_u64()).map(|l| l as usize)
}
const FAULTS: [&str; 12] = [
    "ADD ATTRIBUTE d=Foo",
    "ADD ATTRIBUTE d=refn:zz",
    "ADD LABEL xx ATTRS a=\"x\"",
    "REMOVE ATTRIBUTE zz",
    "ADD LINK refn:zz ATTRS a=\"x\"",
    "ADD FOO",
    "BAR",
    "ADD ATTRIBUTE d=Array[",
    "ADD LABEL en ATTRS a=\"x",
    "ADD LINK ATTRS a=\"x\"",
    "ADD ATTR_FRAMING ATTRS a=\"x\"",
    "ADD META xx PROPS name=\"faulty\"",
];
const LINES: [&[&str]; 5] = [
    &["ADD ATTRIBUTE a=Text b=Numeric"],
    &["# a comment"],
    &[""],
    &["ADD LABEL en ATTRS a=\"x\" \\", "  b=\"y\""],
    &["ADD META en PROPS name=\"faulty\""],
];

/// P22: a faulty line anywhere between sound ones.
#[no_mangle]
pub extern "C" fn h_failed() {
    let mut f = warmed();
    let words = ["faulty", "sound"];
    let before = sym::choice(sym::param("before", 2), "before") == 0;
    if before && build(&mut f, "-- name=s\nADD ATTRIBUTE s=Text\nADD META en PROPS name=\"sound\"\n").is_none() {
        return;
    }
    let was = all_of(&f, &words);
    let named = sym::choice(2, "named") == 1;
    let fault = match sym::choice(FAULTS.len() as u64 + 1, "fault") as usize {
        i if i < FAULTS.len() => FAULTS[i].to_string(),
        _ => word(sym::param("n", 2) as usize, "junk"),
    };
    // sound lines in this order, each with a choice of being there
    let at = sym::choice(LINES.len() as u64 + 1, "at") as usize;
    let mut lines: Vec<String> = vec![];
    if named {
        lines.push("-- name=f".into());
    }
    let mut at_line = 0;
    let mut sound = String::new();
    for i in 0..=LINES.len() {
        if i == at {
            lines.push(fault.clone());
            at_line = lines.len();
        }
        if i < LINES.len() && (i == 0 || sym::choice(2, &format!("line{}", i)) == 1) {
            for l in LINES[i] {
                lines.push(l.to_string());
                if i < at {
                    sound.push_str(l);
                    sound.push('\n');
                }
            }
        }
    }
    let text = lines.join("\n") + "\n";
    sym::show("ocafile", &text);
    let e = match f.build_from_ocafile(text) {
        Ok(_) => return sym::check(false, "a faulty OCAfile was built"),
        Err(Error::ValidationError(e)) => e,
        Err(_) => return sym::check(false, "an OCAfile is treated as deprecated"),
    };
    sym::cover("rejected");
    sym::check(!e.is_empty(), "nothing is reported about a faulty OCAfile");
    let mut any = false;
    for l in e.iter().filter_map(line_of) {
        any = true;
        // a text without its closing quote goes on to the next quote
        let later = fault.ends_with("\"x") && l > at_line;
        sym::check(l == at_line || later, "the reported line is not the offending one");
    }
    if any {
        sym::cover("line reported");
    }
    sym::check(all_of(&f, &words) == was, "a failed build left something behind");
    // the sound lines before the faulty one make a bundle which nobody built
    if let Ok(a) = parse_from_string(sound) {
        if let Ok(b) = from_ast(None, &a) {
            sym::cover("sound beginning");
            for s in &b.steps {
                let s = said(&s.result);
                sym::check(f.get_oca_bundle(id(&s), false).is_err(), "a failed build left a bundle behind");
                sym::check(f.get_oca_bundle_steps(id(&s)).is_err(), "a failed build left history behind");
                sym::check(f.explore(s).is_none(), "a failed build left relations behind");
            }
            for (s, _) in objects(&b.oca_bundle) {
                sym::check(f.explore(s.clone()).is_none(), "a failed build left relations behind");
                sym::check(f.get_oca_objects(vec![s]).is_err(), "a failed build left objects behind");
            }
        }
    }
}

// ----------------------------------------------------------------- listing

const BUILDS: [&str; 6] = [
    "ADD ATTRIBUTE a=Text\n",
    "ADD ATTRIBUTE a=Text\nADD LABEL en ATTRS a=\"~\"\n",
    "ADD ATTRIBUTE b=Text\nADD META en PROPS name=\"n\"\n",
    "ADD ATTRIBUTE a=Text\nREMOVE ATTRIBUTE a\nADD ATTRIBUTE b=Text\nADD META en PROPS name=\"n\"\n",
    "ADD ATTRIBUTE c=Array[Text]\nADD LABEL en ATTRS c=\"it's \\\"q\\\"\"\n",
    "ADD CLASSIFICATION ~\n",
];

/// P27: everything built is fetched and listed once.
#[no_mangle]
pub extern "C" fn h_listing() {
    let mut f = warmed();
    let n = sym::choice(sym::param("builds", 3) + 1, "builds");
    let (mut bundles, mut captures) = (BTreeMap::new(), BTreeMap::new());
    for i in 0..n {
        let mut t = BUILDS[sym::choice(sym::param("texts", BUILDS.len() as u64), &format!("text{}", i)) as usize].to_string();
        if t.contains('~') {
            t = t.replace('~', &word(sym::param("n", 1) as usize, &format!("value{}", i)));
        }
        let Some(b) = build(&mut f, &t) else { return };
        let v = json(&b);
        captures.insert(v["capture_base"]["d"].as_str().unwrap().to_string(), v["capture_base"].clone());
        bundles.insert(said(&b), v);
    }
    sym::cover(["nothing built", "one build", "two builds", "three builds"][n as usize]);
    for (s, v) in &bundles {
        match f.get_oca_bundle(id(s), false) {
            Ok(b) => sym::check(json(&b.bundle) == *v, "another bundle is fetched than was built"),
            Err(_) => sym::check(false, "a built bundle cannot be fetched"),
        }
    }
    for (s, v) in &captures {
        match f.get_oca_objects(vec![s.clone()]) {
            Ok(o) => sym::check(o.len() == 1 && serde_json::to_value(&o[0]).unwrap() == *v, "another object is fetched than was built"),
            Err(_) => sym::check(false, "a built object cannot be fetched"),
        }
    }
    let limit = [1usize, 2, 3, 100, usize::MAX, 0][sym::choice(6, "limit") as usize];
    if limit == 0 {
        let r = f.fetch_all_oca_bundle(0, 1);
        sym::check(r.is_ok_and(|r| r.records.is_empty()), "a page of no records is not empty");
        return;
    }
    let (mut b, mut c) = (vec![], vec![]);
    for page in 1..=n as usize + 1 {
        let (Ok(x), Ok(y)) = (f.fetch_all_oca_bundle(limit, page), f.fetch_all_capture_base(limit, page)) else {
            return sym::check(false, "what was built cannot be listed");
        };
        sym::check(x.records.len() <= limit && y.records.len() <= limit, "a page is longer than asked for");
        sym::check(x.metadata.page == page && y.metadata.page == page, "another page is reported");
        sym::check(n == 0 || x.metadata.total == bundles.len(), "the total of bundles is wrong");
        sym::check(n == 0 || y.metadata.total == captures.len(), "the total of capture bases is wrong");
        b.extend(x.records.iter().map(|b| (said(b), json(b))));
        c.extend(y.records.iter().map(|c| (c.said.as_ref().unwrap().to_string(), serde_json::to_value(c).unwrap())));
        let far = f.fetch_all_oca_bundle(limit, usize::MAX);
        sym::check(far.is_ok(), "a page far beyond the end cannot be asked for");
    }
    sym::check(b.len() == bundles.len() && c.len() == captures.len(), "the pages repeat or lose records");
    sym::check(b.into_iter().collect::<BTreeMap<_, _>>() == bundles, "the listed bundles are not those built");
    sym::check(c.into_iter().collect::<BTreeMap<_, _>>() == captures, "the listed capture bases are not those built");
}

// ------------------------------------------------------------------ search

const META: [(&str, &str, &str); 7] = [
    ("en", "name=\"Passport\"", "passport"),
    ("en", "name=\"Visa\" description=\"a passport page\"", "visa a passport page"),
    ("fr", "description=\"titre de voyage\"", "titre de voyage"),
    ("en", "name=\"it's \\\"quoted\\\" - (a) AND b*\"", "it's \"quoted\" - (a) and b*"),
    ("en", "other=\"passport\"", ""),
    ("en", "name=\"pass\" description=\"port\"", "pass port"),
    ("fr", "name=\"passport\" description=\"passport passport\"", "passport passport passport"),
];
const QUERIES: [&str; 10] = ["passport", "PASSPORT", "voyage", "passportx", "eng", "quoted", "pass", "visa", "xyz", "ssp"];

/// P28: a bundle is found by what its name and description contain.
#[no_mangle]
pub extern "C" fn h_search() {
    let mut f = warmed();
    let n = 1 + sym::choice(sym::param("builds", 2), "builds") as usize;
    let mut texts: BTreeMap<String, Vec<(String, &str)>> = BTreeMap::new();
    for i in 0..n {
        let k = sym::choice(META.len() as u64, &format!("meta{}", i)) as usize;
        let mut text = format!("ADD ATTRIBUTE k{}=Text\nADD META {} PROPS {}\n", i, META[k].0, META[k].1);
        let mut has = vec![(META[k].2.to_string(), META[k].0)];
        if n == 1 && sym::choice(2, "second") == 1 {
            let k2 = sym::choice(META.len() as u64, "other") as usize;
            if META[k2].0 == META[k].0 {
                return;
            }
            text.push_str(&format!("ADD META {} PROPS {}\n", META[k2].0, META[k2].1));
            has.push((META[k2].2.to_string(), META[k2].0));
        }
        let Some(b) = build(&mut f, &text) else { return };
        texts.insert(said(&b), has);
    }
    let q = match sym::choice(2, "symbolic") {
        0 => QUERIES[sym::choice(sym::param("queries", QUERIES.len() as u64), "query") as usize].to_string(),
        // any letter at one place of a word
        _ if n == 1 => {
            let i = sym::choice(sym::param("places", 4), "place") as usize;
            format!("{}{}{}", &"pass"[..i], word(1, "query"), &"pass"[(i + 1).min(4)..])
        }
        _ => return,
    };
    let language = [None, isolang::Language::from_639_1("fr"), isolang::Language::from_639_1("en")][sym::choice(4 - n as u64, "language") as usize];
    let low = q.to_lowercase();
    let mut want: BTreeSet<String> = BTreeSet::new();
    for (s, has) in &texts {
        if has.iter().any(|(t, _)| t.contains(&low)) {
            want.insert(s.clone());
        }
    }
    sym::cover(if want.is_empty() { "nothing to find" } else { "something to find" });
    for limit in [1usize, 10] {
        let mut got = vec![];
        for page in 1..=if limit == 1 { n + 1 } else { 1 } {
            let r = f.search_oca_bundle(language, q.to_string(), limit, page);
            sym::check(r.records.len() <= limit, "a page of results is longer than asked for");
            sym::check(want.is_empty() || r.metadata.total == want.len(), "the total of results is wrong");
            got.extend(r.records.iter().map(|r| said(&r.oca_bundle)));
        }
        sym::check(got.len() == want.len(), "the pages of results repeat or lose some");
        sym::check(got.into_iter().collect::<BTreeSet<_>>() == want, "other bundles are found than those containing the query");
    }
}

/// P28: any query of up to `n` bytes has a result.
#[no_mangle]
pub extern "C" fn h_query() {
    let mut f = warmed();
    if build(&mut f, "ADD ATTRIBUTE a=Text\nADD META en PROPS name=\"it's a \\\"quoted\\\" (c) - AND d*\"\n").is_none() {
        return;
    }
    let n = 1 + sym::choice(sym::param("n", 2), "length") as usize;
    let mut v = vec![0u8; n];
    sym::bytes(&mut v, "query");
    for b in &v {
        sym::assume((*b >= 1) & (*b < 0x80));
    }
    let q = unsafe { String::from_utf8_unchecked(v) };
    let around = sym::choice(4, "around");
    let q = [q.clone(), format!("abc {}", q), format!("\"{}\"", q), format!("quo{}", q)][around as usize].clone();
    let r = f.search_oca_bundle(None, q, 10, 1);
    sym::check(r.records.len() <= 1, "one bundle is found more than once");
    sym::check(r.records.len() == r.metadata.total, "the total of results is wrong");
    sym::cover(if r.records.is_empty() { "not found" } else { "found" });
}
