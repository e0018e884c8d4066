//! Step records (P24), version records (P25) and the in-memory store (P23).
use crate::gen::*;
use crate::h_bundle::{build_ast, encode, json_of, parse, program};
use crate::sym;
use oca_ast_semantics::ast::{Command, OCAAst};
use oca_bundle_semantics::build::{from_ast, OCABuild};
use oca_bundle_semantics::state::oca::OCABundle;
use oca_dag_semantics::build_core_db_model;
use oca_dag_semantics::data_storage::DataStorage as DagStorage;
use oca_dag_semantics::versioning::{ocafile::build_oca, Graph};
use oca_file_semantics::ocafile::parse_from_string;
use oca_rs::data_storage::{DataStorage, InMemoryDataStorage, Namespace};
use oca_rs::repositories::SQLiteConfig;
use oca_rs::Facade;
use serde_json::Value;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

fn digest(b: &[u8]) -> String {
    let h = said::derivation::HashFunction::from(said::derivation::HashFunctionCode::Blake3_256);
    h.derive(b).to_string()
}
fn said(b: &OCABundle) -> String {
    b.said.as_ref().unwrap().to_string()
}
fn text<T: ToString>(s: &Option<T>) -> Option<String> {
    s.as_ref().map(|s| s.to_string())
}

// ------------------------------------------------------------ step records

enum About {
    CaptureBase,
    /// the overlay's name, and its language, target or frame
    Overlay(&'static str, Option<String>),
}
/// what an instruction of the generator is about, from its text
fn about(line: &str) -> About {
    let w: Vec<&str> = line.split(' ').collect();
    let lang = || Some(lang3(w[2]).to_string());
    match (w[0], w[1]) {
        ("ADD", "META") => About::Overlay("meta", lang()),
        ("ADD", "LABEL") => About::Overlay("label", lang()),
        ("ADD", "INFORMATION") => About::Overlay("information", lang()),
        ("ADD", "ENTRY") => About::Overlay("entry", lang()),
        ("ADD", "CHARACTER_ENCODING") => About::Overlay("character_encoding", None),
        ("ADD", "CONFORMANCE") => About::Overlay("conformance", None),
        ("ADD", "FORMAT") => About::Overlay("format", None),
        ("ADD", "UNIT") => About::Overlay("unit", None),
        ("ADD", "CARDINALITY") => About::Overlay("cardinality", None),
        ("ADD", "CONDITION") => About::Overlay("conditional", None),
        ("ADD", "ENTRY_CODE") => About::Overlay("entry_code", None),
        ("ADD", "LINK") => About::Overlay("link", Some(w[2].trim_start_matches("refs:").to_string())),
        ("ADD", "ATTR_FRAMING") => {
            let p = line.split("id=").nth(1).and_then(|r| r.split(' ').next());
            About::Overlay("attribute_framing", p.map(|p| p.to_string()))
        }
        _ => About::CaptureBase,
    }
}
fn overlays(v: &Value, r: &mut Vec<Value>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| overlays(x, r)),
        Value::Object(o) if o.contains_key("d") => r.push(v.clone()),
        Value::Object(o) => o.values().for_each(|x| overlays(x, r)),
        _ => {}
    }
}
fn find(all: &[Value], name: &str, scope: &Option<String>) -> Option<String> {
    let mut found = None;
    for o in all {
        let t = o["type"].as_str().unwrap();
        if t.split('/').nth(2) != Some(name) {
            continue;
        }
        let s = match name {
            "link" => o["target_bundle"].as_str(),
            "attribute_framing" => o["framing_metadata"]["frame_id"].as_str(),
            _ => o["language"].as_str(),
        };
        if s == scope.as_deref() {
            sym::check(found.is_none(), "two overlays for the same thing");
            found = o["d"].as_str().map(|s| s.to_string());
        }
    }
    found
}

fn steps_match(b: &OCABuild, lines: &[&str]) {
    let models = build_core_db_model(b);
    sym::check(models.len() == lines.len() && b.steps.len() == lines.len(), "not one record per instruction");
    let mut bundle: Option<String> = None;
    let mut capture: Option<String> = None;
    let mut over: BTreeMap<(&'static str, Option<String>), String> = BTreeMap::new();
    for ((m, s), line) in models.iter().zip(&b.steps).zip(lines) {
        let v = json_of(&s.result);
        let (Some(c), Some(ob)) = (&m.command, &m.oca_bundle) else {
            return sym::check(false, "a record names no instruction or no bundle");
        };
        sym::check(c.json == serde_json::to_string(&s.command).unwrap(), "a record holds another instruction");
        sym::check(c.digest.to_string() == digest(c.json.as_bytes()), "the digest of an instruction is wrong");
        sym::check(Some(ob.oca_bundle_said.to_string()) == text(&s.result.said), "a record names another bundle");
        sym::check(text(&ob.parent) == bundle, "the parent of a bundle is another one");
        bundle = Some(ob.oca_bundle_said.to_string());
        let cb = v["capture_base"]["d"].as_str().unwrap().to_string();
        sym::check(ob.capture_base_said.to_string() == cb, "a record names another capture base");
        let mut all = vec![];
        overlays(&v["overlays"], &mut all);
        let got: Vec<String> = ob.overlays_said.iter().map(|s| s.to_string()).collect();
        let mut want: Vec<String> = all.iter().map(|o| o["d"].as_str().unwrap().to_string()).collect();
        let mut sorted = got.clone();
        sorted.sort();
        want.sort();
        sym::check(sorted == want, "a record names other overlays than the bundle has");
        match about(line) {
            About::CaptureBase => {
                sym::cover("capture base step");
                let Some(r) = &m.capture_base else { return sym::check(false, "a step which changes the capture base has no record of it") };
                sym::check(m.overlay.is_none(), "a step which changes no overlay has a record of one");
                sym::check(r.capture_base_said.to_string() == cb, "the record of a capture base names another");
                sym::check(text(&r.parent) == capture, "the parent of a capture base is another one");
                sym::check(r.command_digest == c.digest, "the record of a capture base names another instruction");
                capture = Some(cb);
            }
            About::Overlay(n, scope) => {
                sym::cover("overlay step");
                sym::check(m.capture_base.is_none(), "a step which changes an overlay has a record of the capture base");
                let want = find(&all, n, &scope);
                sym::check(want.is_some() == m.overlay.is_some(), "a step has no record of the overlay its instruction describes");
                if let (Some(w), Some(r)) = (want, &m.overlay) {
                    sym::check(r.overlay_said.to_string() == w, "the record of an overlay names another overlay");
                    sym::check(r.command_digest == c.digest, "the record of an overlay names another instruction");
                    let p = over.insert((n, scope), w);
                    if p.is_some() {
                        sym::cover("overlay with a parent");
                    }
                    sym::check(text(&r.parent) == p, "the parent of an overlay is another one");
                }
            }
        }
    }
    sym::check(bundle == text(&b.oca_bundle.said), "the last record is not the built bundle");
}

/// P24: the records of a build, from nothing or from a base.
#[no_mangle]
pub extern "C" fn h_steps() {
    let Some((t, _)) = program(sym::param("cmds", 1), true) else { return };
    let from = sym::choice(2, "from") == 1;
    let t = t + if sym::param("more", 0) == 1 { "ADD LABEL en ATTRS a=\"z\"\nADD LABEL fr ATTRS a=\"y\"\n" } else { "" };
    let (base, t) = match from {
        false => (None, t.as_str()),
        true => {
            let n = t.find('\n').unwrap() + 1;
            let Some(a) = parse(&t[..n]) else { return };
            (build_ast(None, &a), &t[n..])
        }
    };
    if t.is_empty() {
        return;
    }
    // as the facade does: FROM lets the instructions refer to the base
    let mut a = if from { parse(&format!("FROM {}\n{}", SAID1, t)) } else { parse(t) };
    let Some(a) = &mut a else { return };
    if from {
        a.commands.remove(0);
    }
    let Ok(b) = from_ast(base, a) else { return sym::check(false, "a well-formed OCAfile was rejected by the builder") };
    let lines: Vec<&str> = t.lines().collect();
    steps_match(&b, &lines);
    sym::cover(if from { "from a base" } else { "from nothing" });
}

// ------------------------------------------- what the facade keeps of them

#[derive(Clone)]
struct Shared(Arc<Mutex<BTreeMap<(String, String), Vec<u8>>>>);
impl DataStorage for Shared {
    fn get(&self, namespace: Namespace, key: &str) -> Result<Option<Vec<u8>>, String> {
        Ok(self.0.lock().unwrap().get(&(namespace.as_str().to_string(), key.to_string())).cloned())
    }
    fn get_all(&self, namespace: Namespace) -> Result<HashMap<String, Vec<u8>>, String> {
        let n = namespace.as_str();
        Ok(self.0.lock().unwrap().iter().filter(|e| e.0 .0 == n).map(|(k, v)| (k.1.clone(), v.clone())).collect())
    }
    fn insert(&mut self, namespace: Namespace, key: &str, value: &[u8]) -> Result<(), String> {
        self.0.lock().unwrap().insert((namespace.as_str().to_string(), key.to_string()), value.to_vec());
        Ok(())
    }
    fn new() -> Self {
        Shared(Default::default())
    }
    fn config(&self, _config: HashMap<String, String>) -> Self {
        self.clone()
    }
}
fn framed(parts: &[Option<String>]) -> Vec<u8> {
    let mut v = vec![];
    for p in parts {
        let p = p.clone().unwrap_or_default();
        v.push(p.len() as u8);
        v.extend(p.as_bytes());
    }
    v
}

/// P24: the facade keeps the records of every build under their identifiers.
#[no_mangle]
pub extern "C" fn h_records() {
    crate::h_bundle::warm(false);
    let store = Shared::new();
    let mut f = Facade::new(Box::new(store.clone()), Box::new(InMemoryDataStorage::new()), SQLiteConfig::build().unwrap());
    let Some((t, _)) = program(sym::param("cmds", 1), true) else { return };
    let Some(a) = parse(&t) else { return };
    let Ok(b) = from_ast(None, &a) else { return };
    if f.build_from_ocafile(t).is_err() {
        return sym::check(false, "a well-formed OCAfile was rejected");
    }
    let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for m in build_core_db_model(&b) {
        let mut put = |k: String, v: Vec<u8>| want.insert(format!("core_model.{}", k), v);
        if let Some(c) = m.command {
            put(c.digest.to_string(), c.json.into_bytes());
        }
        if let Some(c) = m.capture_base {
            put(c.capture_base_said.to_string(), framed(&[text(&c.parent), Some(c.command_digest.to_string())]));
        }
        if let Some(o) = m.overlay {
            put(o.overlay_said.to_string(), framed(&[text(&o.parent), Some(o.command_digest.to_string())]));
        }
        if let Some(o) = m.oca_bundle {
            let mut p = vec![text(&o.parent), Some(o.capture_base_said.to_string())];
            p.extend(o.overlays_said.iter().map(|s| Some(s.to_string())));
            put(o.oca_bundle_said.to_string(), framed(&p));
        }
    }
    sym::cover("kept");
    let got: BTreeMap<String, Vec<u8>> = store.get_all(Namespace::CoreModel).unwrap().into_iter().collect();
    sym::check(got.len() == want.len(), "other records are kept than the build produced");
    for (k, v) in &want {
        sym::check(got.get(k) == Some(v), "a record is kept with another content");
    }
}

// --------------------------------------------------------- version records

#[derive(Clone, Default)]
struct Mem(Rc<RefCell<BTreeMap<String, Vec<u8>>>>);
impl DagStorage for Mem {
    fn get(&self, key: &str) -> Result<Option<Vec<u8>>, String> {
        Ok(self.0.borrow().get(key).cloned())
    }
    fn insert(&self, key: &str, value: &[u8]) -> Result<(), String> {
        self.0.borrow_mut().insert(key.to_string(), value.to_vec());
        Ok(())
    }
    fn open(_path: &str) -> Self {
        Mem::default()
    }
}
fn commands(t: &str) -> Option<Vec<Command>> {
    parse_from_string(t.to_string()).ok().map(|a| a.commands)
}
fn ast(c: &[Command]) -> OCAAst {
    let mut a = OCAAst::new();
    a.commands = c.to_vec();
    a
}
/// base identifier and instruction of the record of a step
fn operation(mut r: &[u8]) -> Option<(String, Command)> {
    let n = *r.first()? as usize;
    let base = String::from_utf8(r.get(1..1 + n)?.to_vec()).ok()?;
    r = &r[1 + n..];
    Some((base, serde_json::from_slice(r).ok()?))
}

/// P25: building from records, with and without a recorded base.
#[no_mangle]
pub extern "C" fn h_versions() {
    let db = Mem::default();
    let long = sym::choice(2, "long") == 1;
    let p = if long { Some(crate::h_bundle::base()) } else { program(sym::param("cmds", 1), false) };
    let Some((t, mut m)) = p else { return };
    let t = if long { format!("{}ADD META en PROPS description=\"{}\"\n", t, "x".repeat(300)) } else { t };
    sym::show("ocafile", &t);
    let Some(c) = commands(&t) else { return };
    let Ok(direct) = from_ast(None, &ast(&c)) else { return };
    let built = build_oca(Box::new(db.clone()), c.clone());
    check_records(&db, None, &c, &direct, &built);
    sym::cover(if long { "long instruction" } else { "built" });
    let b = direct.oca_bundle;
    let known = db.0.borrow().clone();
    let from = |s: &str| commands(&format!("FROM {}\n", s));
    let mut more = String::new();
    let what = sym::choice(if long { 1 } else { 4 }, "base");
    let k = [K_LABEL, K_REMOVE, K_ATTR][if what == 0 { sym::choice(3, "more") as usize } else { 0 }];
    if !emit(k, "m", &crate::h_bundle::opts(false), &mut more, &mut m) {
        return;
    }
    let Some(mut tail) = commands(&more) else { return };
    match what {
        // the bundle just recorded
        0 => {
            let Some(mut all) = from(&said(&b)) else { return };
            all.append(&mut tail);
            let Ok(direct) = from_ast(Some(b.clone()), &ast(&all[1..])) else { return };
            let built = build_oca(Box::new(db.clone()), all.clone());
            check_records(&db, Some((&b, &known)), &all[1..], &direct, &built);
            sym::cover("known base");
        }
        // one never recorded
        1 => {
            let Some(mut all) = from(SAID1) else { return };
            all.append(&mut tail);
            sym::check(build_oca(Box::new(db.clone()), all).is_err(), "an unknown base is not an error");
            sym::check(*db.0.borrow() == known, "a build from an unknown base recorded something");
            sym::cover("unknown base");
        }
        // one whose record is damaged in one byte
        2 => {
            let key = format!("oca.{}", said(&b));
            let mut r = known[&key].clone();
            let at = sym::choice(2, "at") as usize;
            let at = [r.len() / 2, 0][at];
            let mut x = [0u8];
            sym::bytes(&mut x, "damage");
            sym::assume(x[0] >= 0xfe);
            r[at] = x[0];
            db.0.borrow_mut().insert(key, r);
            let Some(mut all) = from(&said(&b)) else { return };
            all.append(&mut tail);
            sym::check(build_oca(Box::new(db.clone()), all).is_err(), "a damaged base is not an error");
            sym::cover("damaged base");
        }
        // an instruction which cannot be applied, before or after a sound one
        _ => {
            let Some(bad) = commands("ADD LABEL xx ATTRS a=\"x\"\n") else { return };
            let at = sym::choice(2, "bad at") as usize;
            let Some(mut all) = from(&said(&b)) else { return };
            let n = tail.len();
            all.append(&mut tail);
            all.insert(1 + at * n, bad[0].clone());
            sym::check(build_oca(Box::new(db.clone()), all).is_err(), "an instruction which cannot be applied is not an error");
            sym::cover("bad instruction");
        }
    }
}
fn check_records(db: &Mem, base: Option<(&OCABundle, &BTreeMap<String, Vec<u8>>)>, c: &[Command], direct: &OCABuild, built: &Result<OCABundle, String>) {
    let Ok(b) = built else { return sym::check(false, "applicable instructions do not build from records") };
    sym::check(b.said == direct.oca_bundle.said && encode(b) == encode(&direct.oca_bundle), "building from records gives another bundle");
    let r = db.0.borrow();
    let mut want = base.map(|b| b.1.clone()).unwrap_or_default();
    let mut last = base.map(|b| said(b.0)).unwrap_or_default();
    for (s, c) in direct.steps.iter().zip(c) {
        let d = said(&s.result);
        want.insert(format!("oca.{}", d), vec![]);
        want.insert(format!("oca.{}.operation", d), vec![]);
        sym::check(r.get(&format!("oca.{}", d)) == Some(&encode(&s.result)), "the bundle of a step is not recorded");
        match r.get(&format!("oca.{}.operation", d)).and_then(|r| operation(r)) {
            Some((p, o)) => {
                // a bundle reached twice keeps one of its records
                let twice = direct.steps.iter().filter(|x| x.result.said == s.result.said).count() > 1 || base.is_some_and(|b| b.0.said == s.result.said);
                sym::check(twice || p == last, "the record of a step names another bundle before it");
                sym::check(twice || serde_json::to_string(&o).unwrap() == serde_json::to_string(c).unwrap(), "the record of a step holds another instruction");
            }
            None => sym::check(false, "the record of a step cannot be read"),
        }
        last = d;
    }
    sym::check(r.keys().eq(want.keys()), "other records are kept than the steps'");
}

/// P25: versions added to the graph.
#[no_mangle]
pub extern "C" fn h_graph() {
    let db = Mem::default();
    let g = Graph { db: Box::new(db.clone()) };
    let n = sym::param("adds", 3);
    let mut parent: Vec<(String, Option<String>)> = vec![];
    let mut children: Vec<(String, Vec<String>)> = vec![];
    for i in 0..n {
        let len = 1 + sym::choice(sym::param("len", 1), &format!("len{}", i)) as usize;
        let new = word(len, &format!("new{}", i));
        let to = match sym::choice(2, &format!("rooted{}", i)) {
            0 => None,
            _ => Some(word(1, &format!("to{}", i))),
        };
        if g.add(&new, to.as_deref()).is_err() {
            return sym::check(false, "a version cannot be added");
        }
        match parent.iter_mut().find(|e| e.0 == new) {
            Some(e) => e.1 = to.clone(),
            None => parent.push((new.clone(), to.clone())),
        }
        if let Some(t) = to {
            match children.iter_mut().find(|e| e.0 == t) {
                Some(e) => e.1.push(new),
                None => children.push((t, vec![new])),
            }
        }
    }
    sym::cover("added");
    let r = db.0.borrow();
    sym::check(r.len() == parent.len() + children.len(), "other records are kept than were added");
    for (k, p) in parent {
        let want = if p.is_some() { framed(&[p]) } else { vec![] };
        sym::check(r.get(&format!("{}.upscending", k)) == Some(&want), "a version has another parent");
    }
    for (k, c) in children {
        let c: Vec<Option<String>> = c.into_iter().map(Some).collect();
        sym::check(r.get(&format!("{}.downscending", k)) == Some(&framed(&c)), "a version has other successors");
    }
}

// --------------------------------------------------------------- the store

pub fn namespace(i: u64) -> Namespace {
    match i {
        0 => Namespace::OCA,
        1 => Namespace::OCABundlesJSON,
        2 => Namespace::OCAObjectsJSON,
        3 => Namespace::CoreModel,
        4 => Namespace::OCARelations,
        _ => Namespace::OCAReferences,
    }
}

/// P23: any sequence of puts into the in-memory store.
#[no_mangle]
pub extern "C" fn h_store() {
    let mut s = InMemoryDataStorage::new();
    let mut all: Vec<(u64, String, Vec<u8>)> = vec![];
    let n = sym::param("puts", 3);
    for i in 0..n {
        let ns = sym::choice(3, &format!("ns{}", i)) * 2 + sym::param("odd", 0);
        let len = sym::choice(3, &format!("len{}", i)) as usize;
        let key = sym::ascii(len, &format!("key{}", i));
        let mut v = vec![0u8; sym::choice(2, &format!("size{}", i)) as usize + 1];
        sym::bytes(&mut v, &format!("value{}", i));
        if s.insert(namespace(ns), &key, &v).is_err() {
            return sym::check(false, "a value cannot be put");
        }
        match all.iter_mut().find(|e| e.0 == ns && e.1 == key) {
            Some(e) => e.2 = v,
            None => all.push((ns, key, v)),
        }
    }
    sym::cover("put");
    for (ns, k, v) in &all {
        sym::check(s.get(namespace(*ns), k) == Ok(Some(v.clone())), "a get returns another value than the last one put");
    }
    for ns in 0..6 {
        let Ok(l) = s.get_all(namespace(ns)) else { return sym::check(false, "a namespace cannot be listed") };
        sym::check(l.len() == all.iter().filter(|e| e.0 == ns).count(), "a namespace lists other keys than were put");
        for (_, k, v) in all.iter().filter(|e| e.0 == ns) {
            sym::check(l.get(k) == Some(v), "a namespace lists another value than the last one put");
        }
    }
    let key = sym::ascii(1, "other");
    for ns in 0..6 {
        if !all.iter().any(|e| e.0 == ns && e.1 == key) {
            sym::check(s.get(namespace(ns), &key) == Ok(None), "a get returns a value which was never put");
        }
    }
}
