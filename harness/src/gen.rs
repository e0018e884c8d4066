//! Instruction generator with an independent model of what each instruction
//! means. The OCAfile text goes to the code under test, the model to the oracle.
use crate::sym;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

pub const SAID1: &str = "EJeWVGxkqxWrdGi0efOzwg1YQK8FrA-ZmtegiVEtAVcu";
pub const SAID2: &str = "EF5ERATRBBN_ewEo9buQbznirhBmvrSSC0O2GIR4Gbfs";

#[derive(Clone, Default)]
pub struct Model {
    pub attrs: BTreeMap<String, Value>,
    pub flagged: Vec<String>,
    pub class: String,
    pub meta: BTreeMap<&'static str, BTreeMap<String, String>>,
    pub simple: BTreeMap<&'static str, BTreeMap<String, Value>>, // overlay key -> attr -> value
    pub cond: BTreeMap<String, String>,
    pub lang: BTreeMap<(&'static str, &'static str), BTreeMap<String, Value>>, // (overlay key, lang)
    pub link: BTreeMap<String, BTreeMap<String, String>>,
    pub frame: BTreeMap<String, (BTreeMap<String, String>, BTreeMap<String, Map<String, Value>>)>,
}

pub const KINDS: u64 = 17;
pub const K_ATTR: u64 = 0;
pub const K_REMOVE: u64 = 1;
pub const K_CLASS: u64 = 2;
pub const K_META: u64 = 3;
pub const K_LABEL: u64 = 4;
pub const K_INFO: u64 = 5;
pub const K_ENC: u64 = 6;
pub const K_CONF: u64 = 7;
pub const K_FORMAT: u64 = 8;
pub const K_UNIT: u64 = 9;
pub const K_CARD: u64 = 10;
pub const K_COND: u64 = 11;
pub const K_CODE: u64 = 12;
pub const K_ENTRY: u64 = 13;
pub const K_LINK: u64 = 14;
pub const K_FRAME: u64 = 15;
pub const K_FLAG: u64 = 16;

pub const KIND_NAMES: [&str; 17] = [
    "attribute", "remove attribute", "classification", "meta", "label", "information", "character_encoding", "conformance",
    "format", "unit", "cardinality", "condition", "entry_code", "entry", "link", "attr_framing", "flagged_attributes",
];

pub fn lang3(l: &str) -> &'static str {
    match l {
        "en" => "eng",
        "fr" => "fra",
        "pl" => "pol",
        _ => unreachable!(),
    }
}

/// n symbolic lower-case letters
pub fn word(n: usize, name: &str) -> String {
    let mut v = vec![0u8; n];
    sym::bytes(&mut v, name);
    for b in &v {
        sym::assume((*b >= b'a') & (*b <= b'z'));
    }
    unsafe { String::from_utf8_unchecked(v) }
}

pub struct Opts {
    /// number of symbolic characters per value
    pub n: usize,
    /// use `b` as second attribute where an instruction takes several
    pub multi: bool,
    /// how many of the attribute types are used
    pub types: u64,
}

fn pick_attr(m: &Model, tag: &str) -> Option<String> {
    let k: Vec<&String> = m.attrs.keys().collect();
    if k.is_empty() {
        return None;
    }
    let i = sym::choice(k.len() as u64, &format!("{}.attr", tag)) as usize;
    Some(k[i].clone())
}
fn pick_lang(tag: &str) -> &'static str {
    ["en", "fr"][sym::choice(2, &format!("{}.lang", tag)) as usize]
}
pub const TYPES: [&str; 8] = ["Text", "Numeric", "Boolean", "Binary", "DateTime", "Array[Text]", "refs:EJeWVGxkqxWrdGi0efOzwg1YQK8FrA-ZmtegiVEtAVcu", "Array[Array[Numeric]]"];
pub fn type_json(t: &str) -> Value {
    match t.strip_prefix("Array[") {
        Some(r) => json!([type_json(&r[..r.len() - 1])]),
        None => json!(t),
    }
}
/// a base type
pub fn pick_type(n: u64, tag: &str) -> &'static str {
    TYPES[sym::choice(n, &format!("{}.type", tag)) as usize]
}

/// one attribute, or (when several are allowed) all of them, last one first
fn pick_attrs(m: &Model, tag: &str, o: &Opts) -> Option<Vec<String>> {
    let k: Vec<String> = m.attrs.keys().cloned().collect();
    if k.is_empty() {
        return None;
    }
    let more = o.multi && k.len() > 1;
    let i = sym::choice(k.len() as u64 + more as u64, &format!("{}.attr", tag)) as usize;
    Some(if i < k.len() { vec![k[i].clone()] } else { k.into_iter().rev().collect() })
}

/// Emits one instruction of the given kind and records its meaning. Returns
/// false when the instruction is not applicable (nothing emitted).
pub fn emit(kind: u64, tag: &str, o: &Opts, text: &mut String, m: &mut Model) -> bool {
    let val = |s: &str| match o.n {
        // a fixed value, another one for each instruction
        0 => format!("w{}", &tag.bytes().map(|b| (b'a' + b % 26) as char).collect::<String>()),
        n => word(n, &format!("{}.{}", tag, s)),
    };
    match kind {
        K_ATTR => {
            let free: Vec<&str> = ["a", "b", "c"].into_iter().filter(|x| !m.attrs.contains_key(*x)).collect();
            if free.is_empty() {
                return false;
            }
            let i = sym::choice(free.len() as u64, &format!("{}.attr", tag)) as usize;
            let t = pick_type(o.types, tag);
            text.push_str(&format!("ADD ATTRIBUTE {}={}\n", free[i], t));
            m.attrs.insert(free[i].into(), type_json(t));
        }
        K_REMOVE => {
            let Some(a) = pick_attr(m, tag) else { return false };
            if m.attrs.len() < 2 {
                return false;
            }
            text.push_str(&format!("REMOVE ATTRIBUTE {}\n", a));
            m.remove(&a);
        }
        K_CLASS => {
            let v = val("class");
            text.push_str(&format!("ADD CLASSIFICATION {}\n", v));
            m.class = v;
        }
        K_META => {
            let l = pick_lang(tag);
            let w = sym::choice(2 + o.multi as u64, &format!("{}.key", tag)) as usize;
            text.push_str(&format!("ADD META {} PROPS", l));
            for k in [&["name"][..], &["description"], &["name", "description"]][w] {
                let v = val(k);
                text.push_str(&format!(" {}=\"{}\"", k, v));
                m.meta.entry(lang3(l)).or_default().insert(k.to_string(), v);
            }
            text.push('\n');
        }
        K_LABEL | K_INFO => {
            let Some(l) = pick_attrs(m, tag, o) else { return false };
            let lang = pick_lang(tag);
            let (w, k) = if kind == K_LABEL { ("LABEL", "label") } else { ("INFORMATION", "information") };
            text.push_str(&format!("ADD {} {} ATTRS", w, lang));
            for a in l {
                let v = val(&a);
                text.push_str(&format!(" {}=\"{}\"", a, v));
                m.lang.entry((k, lang3(lang))).or_default().insert(a, json!(v));
            }
            text.push('\n');
        }
        K_ENC => {
            let Some(l) = pick_attrs(m, tag, o) else { return false };
            text.push_str("ADD CHARACTER_ENCODING ATTRS");
            let mut e = sym::choice(6, &format!("{}.enc", tag)) as usize;
            for a in l {
                let v = ["utf-8", "base64", "iso-8859-1", "utf-16", "utf-16be", "utf-16le"][e % 6];
                text.push_str(&format!(" {}=\"{}\"", a, v));
                m.simple.entry("character_encoding").or_default().insert(a, json!(v));
                e += 1;
            }
            text.push('\n');
        }
        K_CONF => {
            let Some(l) = pick_attrs(m, tag, o) else { return false };
            text.push_str("ADD CONFORMANCE ATTRS");
            let mut e = sym::choice(2, &format!("{}.conf", tag)) as usize;
            for a in l {
                let v = ["M", "O"][e % 2];
                text.push_str(&format!(" {}=\"{}\"", a, v));
                m.simple.entry("conformance").or_default().insert(a, json!(v));
                e += 1;
            }
            text.push('\n');
        }
        K_FORMAT | K_UNIT | K_CARD => {
            let Some(l) = pick_attrs(m, tag, o) else { return false };
            let (w, k) = match kind {
                K_FORMAT => ("FORMAT", "format"),
                K_UNIT => ("UNIT", "unit"),
                _ => ("CARDINALITY", "cardinality"),
            };
            text.push_str(&format!("ADD {} ATTRS", w));
            for a in l {
                let v = val(&a);
                text.push_str(&format!(" {}=\"{}\"", a, v));
                m.simple.entry(k).or_default().insert(a, json!(v));
            }
            text.push('\n');
        }
        K_COND => {
            let Some(a) = pick_attr(m, tag) else { return false };
            let d: Vec<String> = m.attrs.keys().filter(|x| **x != a).cloned().collect();
            if d.is_empty() {
                return false;
            }
            let v = digit(&format!("{}.value", tag));
            // one attribute; one twice; two in reverse order
            let shape = sym::choice(if d.len() > 1 { 3 } else { 2 }, &format!("{}.shape", tag));
            let c = match shape {
                0 => format!("${{{}}} == '{}'", d[0], v),
                1 => format!("${{{}}} == '{}' or ${{{}}} ~= '7'", d[0], v, d[0]),
                _ => format!("${{{}}} == '{}' and ${{{}}} ~= '7'", d[1], v, d[0]),
            };
            text.push_str(&format!("ADD CONDITION ATTRS {}=\"{}\"\n", a, c));
            m.cond.insert(a, c);
        }
        K_CODE => {
            let Some(a) = pick_attr(m, tag) else { return false };
            let v = val("value");
            let k = sym::choice(3, &format!("{}.shape", tag));
            let z = "m".repeat(o.n);
            let (t, j) = match k {
                0 => (format!("\"{}\"", v), json!(v)),
                1 => (format!("[\"{}\", \"{}\"]", v, z), sorted(&[&v, &z])),
                _ => (format!("{{\"g1\": [\"{}\", \"{}\"], \"g0\": [\"k\"]}}", v, z), json!({"g1": [v, z], "g0": ["k"]})),
            };
            text.push_str(&format!("ADD ENTRY_CODE ATTRS {}={}\n", a, t));
            m.simple.entry("entry_code").or_default().insert(a, j);
        }
        K_ENTRY => {
            let Some(l) = pick_attrs(m, tag, o) else { return false };
            let lang = pick_lang(tag);
            let mut k = sym::choice(2, &format!("{}.shape", tag));
            text.push_str(&format!("ADD ENTRY {} ATTRS", lang));
            for a in l {
                let v = val(&a);
                let (t, j) = match k % 2 {
                    0 => (format!("\"{}\"", v), json!(v)),
                    _ => {
                        let c = val(&format!("{}.code", a));
                        let mut j = Map::new();
                        j.insert(c.clone(), json!(v));
                        j.insert("o1".into(), json!("One"));
                        (format!("{{\"{}\": \"{}\", \"o1\": \"One\"}}", c, v), Value::Object(j))
                    }
                };
                k += 1;
                text.push_str(&format!(" {}={}", a, t));
                m.lang.entry(("entry", lang3(lang))).or_default().insert(a, j);
            }
            text.push('\n');
        }
        K_LINK => {
            let Some(l) = pick_attrs(m, tag, o) else { return false };
            let t = [SAID1, SAID2][sym::choice(2, &format!("{}.target", tag)) as usize];
            text.push_str(&format!("ADD LINK refs:{} ATTRS", t));
            for a in l {
                let v = val(&a);
                text.push_str(&format!(" {}=\"{}\"", a, v));
                m.link.entry(t.into()).or_default().insert(a, v);
            }
            text.push('\n');
        }
        K_FRAME => {
            let Some(a) = pick_attr(m, tag) else { return false };
            let id = ["SNOMED", "OMOP"][sym::choice(2, &format!("{}.frame", tag)) as usize];
            let v = val("value");
            let ver = ["v1", "v2"][if o.multi { sym::choice(2, &format!("{}.ver", tag)) as usize } else { 0 }];
            text.push_str(&format!(
                "ADD ATTR_FRAMING id={} label=\"L {}\" version={} ATTRS {}={{\"http://x.y/1\": {{\"Predicate_id\": \"p:{}\", \"Framing_justification\": \"semapv:x\"}}}}\n",
                id, id, ver, a, v
            ));
            let e = m.frame.entry(id.into()).or_default();
            e.0.insert("frame_id".into(), id.into());
            e.0.insert("frame_label".into(), format!("L {}", id));
            e.0.insert("frame_version".into(), ver.into());
            e.1.entry(a)
                .or_default()
                .insert("http://x.y/1".into(), json!({"predicate_id": format!("p:{}", v), "framing_justification": "semapv:x"}));
        }
        K_FLAG => {
            let Some(l) = pick_attrs(m, tag, o) else { return false };
            text.push_str(&format!("ADD FLAGGED_ATTRIBUTES {}\n", l.join(" ")));
            m.flagged.extend(l);
            m.flagged.sort();
            m.flagged.dedup();
        }
        _ => unreachable!(),
    }
    true
}
/// a list of codes, which a bundle keeps sorted
fn sorted(l: &[&String]) -> Value {
    let mut l = l.to_vec();
    l.sort();
    json!(l)
}
fn digit(name: &str) -> String {
    let mut v = vec![0u8; 1];
    sym::bytes(&mut v, name);
    sym::assume((v[0] >= b'0') & (v[0] <= b'9'));
    unsafe { String::from_utf8_unchecked(v) }
}

/// a condition as a bundle holds it: every ${name} replaced by the position
/// of the name among the names, each listed once in order of appearance
pub fn stored_condition(c: &str) -> (String, Vec<String>) {
    let (mut out, mut deps, mut rest) = (String::new(), vec![], c);
    while let Some(s) = rest.find("${") {
        let e = rest[s..].find('}').unwrap() + s;
        let name = &rest[s + 2..e];
        let i = match deps.iter().position(|d| d == name) {
            Some(i) => i,
            None => {
                deps.push(name.to_string());
                deps.len() - 1
            }
        };
        out.push_str(&rest[..s]);
        out.push_str(&format!("${{{}}}", i));
        rest = &rest[e + 1..];
    }
    out.push_str(rest);
    (out, deps)
}

impl Model {
    /// a condition names an attribute which is not there (any more)
    pub fn dangling(&self) -> bool {
        self.cond.values().any(|c| {
            let (_, d) = stored_condition(c);
            d.iter().any(|x| !matches!(self.attrs.get(x), Some(Value::String(t)) if !t.starts_with("ref")))
        })
    }
    pub fn remove(&mut self, a: &str) {
        self.attrs.remove(a);
        self.flagged.retain(|x| x != a);
        self.cond.remove(a);
        for v in self.simple.values_mut() {
            v.remove(a);
        }
        self.simple.retain(|_, v| !v.is_empty());
        for v in self.lang.values_mut() {
            v.remove(a);
        }
        self.lang.retain(|_, v| !v.is_empty());
        for v in self.link.values_mut() {
            v.remove(a);
        }
        self.link.retain(|_, v| !v.is_empty());
        for v in self.frame.values_mut() {
            v.1.remove(a);
        }
        self.frame.retain(|_, v| !v.1.is_empty());
    }
    /// The bundle content this model stands for: capture base, then every
    /// overlay, without identifiers, as canonical text lines.
    pub fn lines(&self) -> Vec<String> {
        let mut out = vec![];
        let base = json!({"type": "spec/capture_base/1.1", "attributes": self.attrs, "classification": self.class, "flagged_attributes": self.flagged});
        out.push(format!("capture_base {}", canon(&base)));
        for (k, v) in &self.simple {
            let f = match *k {
                "character_encoding" => "attribute_character_encoding",
                "conformance" => "attribute_conformance",
                "format" => "attribute_formats",
                "unit" => "attribute_unit",
                "cardinality" => "attribute_cardinality",
                "entry_code" => "attribute_entry_codes",
                _ => unreachable!(),
            };
            out.push(format!("{} {}", k, canon(&json!({"type": format!("spec/overlays/{}/1.1", k), f: v}))));
        }
        if !self.cond.is_empty() {
            let mut c = Map::new();
            let mut d = Map::new();
            for (a, t) in &self.cond {
                let (x, y) = stored_condition(t);
                c.insert(a.clone(), json!(x));
                d.insert(a.clone(), json!(y));
            }
            out.push(format!("conditional {}", canon(&json!({"type": "spec/overlays/conditional/1.1", "attribute_conditions": c, "attribute_dependencies": d}))));
        }
        for (l, v) in &self.meta {
            let mut o = json!({"type": "spec/overlays/meta/1.1", "language": l});
            for (k, x) in v {
                o[k] = json!(x);
            }
            out.push(format!("meta {}", canon(&o)));
        }
        for ((k, l), v) in &self.lang {
            let mut o = json!({"type": format!("spec/overlays/{}/1.1", k), "language": l});
            match *k {
                "label" => {
                    o["attribute_labels"] = json!(v);
                    o["attribute_categories"] = json!([]);
                    o["category_labels"] = json!({});
                }
                "information" => o["attribute_information"] = json!(v),
                _ => o["attribute_entries"] = json!(v),
            }
            out.push(format!("{} {}", k, canon(&o)));
        }
        for (t, v) in &self.link {
            out.push(format!("link {}", canon(&json!({"type": "spec/overlays/link/1.1", "target_bundle": t, "attribute_mapping": v}))));
        }
        for (_, (md, v)) in &self.frame {
            out.push(format!("attribute_framing {}", canon(&json!({"type": "spec/overlays/attribute_framing/1.1", "framing_metadata": md, "attribute_framing": v}))));
        }
        out
    }
}

/// canonical text of a JSON value: object keys sorted, arrays of strings in
/// the order given
pub fn canon(v: &Value) -> String {
    let mut s = String::new();
    canon_into(v, &mut s);
    s
}
fn canon_into(v: &Value, s: &mut String) {
    match v {
        Value::Object(m) => {
            let mut k: Vec<&String> = m.keys().collect();
            k.sort();
            s.push('{');
            for x in k {
                s.push_str(x);
                s.push(':');
                canon_into(&m[x], s);
                s.push(';');
            }
            s.push('}');
        }
        Value::Array(a) => {
            s.push('[');
            for x in a {
                canon_into(x, s);
                s.push(',');
            }
            s.push(']');
        }
        Value::String(x) => {
            s.push('"');
            s.push_str(x);
            s.push('"');
        }
        o => s.push_str(&o.to_string()),
    }
}

/// the same canonical lines, read from bundle JSON; None when an identifier
/// is missing or an overlay does not point at the capture base
pub fn lines_of(b: &Value) -> Result<Vec<String>, &'static str> {
    let mut out = vec![];
    let o = b.as_object().ok_or("bundle is not an object")?;
    if !o.get("d").map_or(false, |d| d.is_string()) {
        return Err("bundle without identifier");
    }
    let mut cb = o.get("capture_base").and_then(|c| c.as_object()).ok_or("no capture base")?.clone();
    let cbd = cb.remove("d").ok_or("capture base without identifier")?;
    out.push(format!("capture_base {}", canon(&Value::Object(cb))));
    for (k, v) in o.get("overlays").and_then(|c| c.as_object()).ok_or("no overlays")? {
        let many = matches!(k.as_str(), "meta" | "entry" | "label" | "information" | "link" | "attribute_framing");
        let list: Vec<Value> = match v {
            Value::Array(a) if many => a.clone(),
            Value::Object(_) if !many => vec![v.clone()],
            _ => return Err("overlay group has the wrong shape"),
        };
        for ov in list {
            let mut ov = ov.as_object().ok_or("overlay is not an object")?.clone();
            if ov.remove("d").is_none() {
                return Err("overlay without identifier");
            }
            if ov.remove("capture_base") != Some(cbd.clone()) {
                return Err("overlay does not name its capture base");
            }
            out.push(format!("{} {}", k, canon(&Value::Object(ov))));
        }
    }
    Ok(out)
}
pub fn same_lines(a: &[String], b: &[String]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut used = vec![false; b.len()];
    for x in a {
        let mut hit = false;
        for (i, y) in b.iter().enumerate() {
            if !used[i] && x.len() == y.len() && x == y {
                used[i] = true;
                hit = true;
                break;
            }
        }
        if !hit {
            return false;
        }
    }
    true
}
