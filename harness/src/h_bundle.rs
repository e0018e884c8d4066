use crate::gen::*;
use crate::sym;
use oca_ast_semantics::ast::OCAAst;
use oca_bundle_semantics::build::from_ast;
use oca_bundle_semantics::controller::load_oca;
use oca_bundle_semantics::state::oca::OCABundle;
use oca_bundle_semantics::state::validator::Validator;
use oca_bundle_semantics::{Encode, HashFunctionCode, SerializationFormats};
use oca_file_semantics::ocafile::{generate_from_ast, parse_from_string};
use serde_json::{json, Value};

pub fn encode(b: &OCABundle) -> Vec<u8> {
    b.encode(&HashFunctionCode::Blake3_256, &SerializationFormats::JSON).unwrap()
}
pub fn json_of(b: &OCABundle) -> Value {
    serde_json::from_slice(&encode(b)).unwrap()
}
pub const BASE: &str = "ADD ATTRIBUTE a=Text b=Numeric\n";
pub fn base() -> (String, Model) {
    let mut m = Model::default();
    m.attrs.insert("a".into(), json!("Text"));
    m.attrs.insert("b".into(), json!("Numeric"));
    (BASE.into(), m)
}
pub fn opts(multi: bool) -> Opts {
    Opts { n: sym::param("n", 1) as usize, multi, types: sym::param("types", TYPES.len() as u64) }
}
/// a kind of instruction; parameter `kind` (1-based) narrows it to one
pub fn kind(tag: &str) -> u64 {
    let k = sym::param("kind", 0);
    if k > 0 {
        return k - 1;
    }
    sym::choice(KINDS, &format!("{}.kind", tag))
}
/// the kind of a later instruction: the same again, or one of three others,
/// or any (parameter `any`)
pub fn next_kind(k0: u64, tag: &str) -> Option<u64> {
    let name = format!("{}.kind", tag);
    if sym::param("any", 0) == 1 {
        return Some(sym::choice(KINDS, &name));
    }
    match sym::choice(4, &name) {
        0 => Some(k0),
        1 if k0 != K_ATTR => Some(K_ATTR),
        2 if k0 != K_REMOVE => Some(K_REMOVE),
        3 if k0 != K_LABEL => Some(K_LABEL),
        _ => None,
    }
}
/// the base and `cmds` further instructions of any kind
pub fn program(cmds: u64, multi: bool) -> Option<(String, Model)> {
    let o = opts(multi);
    let (mut text, mut m) = base();
    let mut k0 = None;
    for i in 0..cmds {
        let tag = format!("c{}", i);
        let k = match k0 {
            None => kind(&tag),
            Some(k) => next_kind(k, &tag)?,
        };
        k0 = k0.or(Some(k));
        if !emit(k, &tag, &o, &mut text, &mut m) {
            return None;
        }
    }
    Some((text, m))
}
pub fn parse(text: &str) -> Option<OCAAst> {
    sym::show("ocafile", text);
    match parse_from_string(text.to_string()) {
        Ok(a) => Some(a),
        Err(_) => {
            sym::check(false, "a well-formed OCAfile was rejected by the parser");
            None
        }
    }
}
pub fn build_ast(from: Option<OCABundle>, ast: &OCAAst) -> Option<OCABundle> {
    match from_ast(from, ast) {
        Ok(b) => {
            #[cfg(feature = "replay")]
            sym::show("bundle", &String::from_utf8_lossy(&encode(&b.oca_bundle)));
            Some(b.oca_bundle)
        }
        Err(_e) => {
            #[cfg(feature = "replay")]
            sym::show("errors", &format!("{:?}", _e));
            sym::check(false, "a well-formed OCAfile was rejected by the builder");
            None
        }
    }
}
pub fn build(text: &str) -> Option<OCABundle> {
    build_ast(None, &parse(text)?)
}

/// Runs the code once on a fixed input, so that what it computes lazily and
/// keeps (compiled expressions) exists before the paths fork.
pub fn warm(load: bool) {
    let t = "ADD ATTRIBUTE a=Text\nADD LABEL en ATTRS a=\"x\"\nADD CARDINALITY ATTRS a=\"1\"\n";
    let Ok(a) = parse_from_string(t.to_string()) else { return };
    let Ok(b) = from_ast(None, &a) else { return };
    let e = encode(&b.oca_bundle);
    if load {
        let mut r: &[u8] = &e;
        let _ = load_oca(&mut r);
    }
    crate::memo::ready(r"\$\{(\d+)\}", "${0} == 'x' and ${1} == 12", 12);
    crate::memo::ready(r"\$\{([^}]*)\}", "${a} == 'x' and ${b} == 12", 4);
    let _ = b.oca_bundle.to_ast();
}

/// P02: a built bundle states exactly what the instructions say.
#[no_mangle]
pub extern "C" fn h_faithful() {
    let Some((text, m)) = program(sym::param("cmds", 1), true) else { return };
    let Some(b) = build(&text) else { return };
    sym::cover("built");
    match lines_of(&json_of(&b)) {
        Ok(l) => sym::check(same_lines(&l, &m.lines()), "the bundle states something else than the OCAfile"),
        Err(e) => sym::check(false, e),
    }
}

/// P03: override, removal and re-adding on one attribute, another untouched.
#[no_mangle]
pub extern "C" fn h_override() {
    let o = opts(true);
    let (mut text, mut m) = base();
    let cmds = sym::param("cmds", 3);
    let k = kind("k");
    // any order of the three, or one of four patterns
    let few = sym::param("few", 0) == 1;
    let pat = if few { [[0, 1, 2], [0, 0, 1], [1, 2, 0], [0, 2, 1]][sym::choice(4, "pattern") as usize] } else { [0; 3] };
    for i in 0..cmds {
        let tag = format!("c{}", i);
        let what = if few { pat[i as usize] } else { sym::choice(3, &format!("{}.what", tag)) };
        let kk = match what {
            0 => k,
            1 => K_REMOVE,
            _ => K_ATTR,
        };
        if what > 0 && k == kk {
            return;
        }
        if !emit(kk, &tag, &o, &mut text, &mut m) {
            return;
        }
    }
    let Some(b) = build(&text) else { return };
    sym::cover("built");
    match lines_of(&json_of(&b)) {
        Ok(l) => sym::check(same_lines(&l, &m.lines()), "a later instruction did not decide, or something else changed"),
        Err(e) => sym::check(false, e),
    }
}

/// P01: two builds under different map iteration orders give the same bytes.
#[no_mangle]
pub extern "C" fn h_determ() {
    let o = opts(true);
    let (mut text, mut m) = base();
    let cmds = sym::param("cmds", 2);
    let k = kind("k");
    for i in 0..cmds {
        if !emit(k, &format!("c{}", i), &o, &mut text, &mut m) {
            return;
        }
    }
    let n = sym::param("orders", 2); // how many of the orders other than the identity
    let ord = [5, 1, 2, 3, 4][sym::choice(n, "order") as usize];
    sym::order(ord, 0);
    let b1 = build(&text).map(|b| encode(&b));
    sym::order(0, 0);
    let b2 = build(&text).map(|b| encode(&b));
    sym::cover("built twice");
    sym::check(b1 == b2, "two builds of one OCAfile differ");
}

pub fn said_of(v: &Value) -> String {
    let mut o = v.as_object().unwrap().clone();
    o["d"] = json!("############################################");
    let t = serde_json::to_string(&Value::Object(o)).unwrap();
    let h = said::derivation::HashFunction::from(said::derivation::HashFunctionCode::Blake3_256);
    h.derive(t.as_bytes()).to_string()
}
/// every identifier in a bundle is the digest of its content
pub fn said_ok(b: &Value) -> Result<(), &'static str> {
    let o = b.as_object().ok_or("not an object")?;
    if Some(said_of(b).as_str()) != o.get("d").and_then(|d| d.as_str()) {
        return Err("the bundle identifier is not the digest of the bundle");
    }
    let cb = o.get("capture_base").ok_or("no capture base")?;
    if Some(said_of(cb).as_str()) != cb.get("d").and_then(|d| d.as_str()) {
        return Err("the capture base identifier is not its digest");
    }
    for (_, v) in o.get("overlays").and_then(|v| v.as_object()).ok_or("no overlays")? {
        let l = match v {
            Value::Array(a) => a.clone(),
            x => vec![x.clone()],
        };
        for ov in l {
            if Some(said_of(&ov).as_str()) != ov.get("d").and_then(|d| d.as_str()) {
                return Err("an overlay identifier is not its digest");
            }
        }
    }
    Ok(())
}

/// P04: built bundles validate and their identifiers recompute.
#[no_mangle]
pub extern "C" fn h_valid() {
    let Some((text, m)) = program(sym::param("cmds", 1), true) else { return };
    let Some(b) = build(&text) else { return };
    let e = encode(&b);
    if let Err(e) = said_ok(&json_of(&b)) {
        sym::check(false, e);
        return;
    }
    let v = format!("{{\"v\":\"OCAS11JSON{:06x}_\",", e.len());
    sym::check(e.starts_with(v.as_bytes()), "the bundle does not start with its version string and size");
    sym::cover("identifiers recomputed");
    if m.dangling() {
        return; // a condition on a removed attribute
    }
    let r = Validator::new().validate(&b);
    sym::cover("validated");
    #[cfg(feature = "replay")]
    sym::show("verdict", &format!("{:?}", r));
    sym::check(r.is_ok(), "a built bundle does not validate");
}

/// P06: JSON loads back to the same bundle.
#[no_mangle]
pub extern "C" fn h_json() {
    warm(true);
    let Some((text, _)) = program(sym::param("cmds", 1), true) else { return };
    let Some(b) = build(&text) else { return };
    let e = encode(&b);
    let mut r: &[u8] = &e;
    match load_oca(&mut r) {
        Ok(l) => {
            sym::cover("loaded");
            let e2 = encode(&l);
            #[cfg(feature = "replay")]
            sym::show("loaded", &String::from_utf8_lossy(&e2));
            sym::check(e == e2, "the loaded bundle encodes differently");
            sym::check(l.said == b.said, "the loaded bundle has another identifier");
            let mut again = l.clone();
            again.fill_said();
            sym::check(again.said == b.said, "the loaded bundle recomputes to another identifier");
        }
        Err(_) => sym::check(false, "the JSON of a built bundle does not load"),
    }
}

/// P07: extending a base equals building everything at once.
#[no_mangle]
pub extern "C" fn h_from() {
    warm(true);
    let o = opts(true);
    let (mut t1, mut m) = base();
    let k0 = kind("c0");
    if !emit(k0, "c0", &o, &mut t1, &mut m) {
        return;
    }
    let Some(k1) = next_kind(k0, "c1") else { return };
    let mut t2 = String::new();
    if !emit(k1, "c1", &o, &mut t2, &mut m) {
        return;
    }
    let Some(base) = build(&t1) else { return };
    let base = if sym::param("reload", 1) == 1 {
        let e = encode(&base);
        let mut r: &[u8] = &e;
        match load_oca(&mut r) {
            Ok(l) => l,
            Err(_) => {
                sym::check(false, "the JSON of a built bundle does not load");
                return;
            }
        }
    } else {
        base
    };
    let Some(one) = build(&format!("{}{}", t1, t2)) else { return };
    // the extension as the facade reads it: FROM first, then resolved away
    let Some(mut ast) = parse(&format!("FROM {}\n{}", base.said.clone().unwrap(), t2)) else { return };
    sym::check(ast.commands.len() == 2, "FROM and one instruction are not two instructions");
    ast.commands.remove(0);
    let Some(two) = build_ast(Some(base), &ast) else { return };
    sym::cover("extended");
    sym::check(encode(&one) == encode(&two), "extending a base differs from building in one go");
}

/// P08: a bundle exported as instructions rebuilds to the same identifier.
#[no_mangle]
pub extern "C" fn h_ast() {
    warm(false);
    let Some((text, _)) = program(sym::param("cmds", 1), true) else { return };
    let Some(b) = build(&text) else { return };
    let ast = b.to_ast();
    let Some(b2) = build_ast(None, &ast) else { return };
    sym::cover("rebuilt");
    sym::check(encode(&b) == encode(&b2), "the exported instructions build another bundle");
}

/// P09: printed instructions parse back to the same instructions.
#[no_mangle]
pub extern "C" fn h_print() {
    let Some((text, _)) = program(sym::param("cmds", 1), true) else { return };
    let Some(ast) = parse(&text) else { return };
    let out = generate_from_ast(&ast);
    sym::show("printed", &out);
    sym::cover("printed");
    match parse_from_string(out) {
        Ok(a2) => sym::check(ast.commands == a2.commands, "the printed OCAfile parses to other instructions"),
        Err(_) => sym::check(false, "the printed OCAfile does not parse"),
    }
}
/// P09: the OCAfile generated for a bundle rebuilds the bundle.
#[no_mangle]
pub extern "C" fn h_print_bundle() {
    warm(false);
    let Some((text, _)) = program(sym::param("cmds", 1), true) else { return };
    let Some(b) = build(&text) else { return };
    let out = generate_from_ast(&b.to_ast());
    sym::show("printed", &out);
    let ast = match parse_from_string(out) {
        Ok(a) => a,
        Err(_) => {
            sym::check(false, "the OCAfile generated for a bundle does not parse");
            return;
        }
    };
    let Some(b2) = build_ast(None, &ast) else { return };
    sym::cover("rebuilt");
    sym::check(encode(&b) == encode(&b2), "the OCAfile generated for a bundle builds another bundle");
}

/// P12: instructions survive JSON.
#[no_mangle]
pub extern "C" fn h_cmdjson() {
    let Some((text, _)) = program(sym::param("cmds", 1), true) else { return };
    let Some(ast) = parse(&text) else { return };
    for c in &ast.commands {
        let s = serde_json::to_string(c).unwrap();
        match serde_json::from_str::<oca_ast_semantics::ast::Command>(&s) {
            Ok(d) => {
                sym::cover("read back");
                sym::check(*c == d, "an instruction changes when serialised")
            }
            Err(_) => sym::check(false, "a serialised instruction does not read back"),
        }
    }
    let s = serde_json::to_string(&ast).unwrap();
    match serde_json::from_str::<OCAAst>(&s) {
        Ok(d) => sym::check(ast.commands == d.commands && ast.version == d.version && ast.meta == d.meta, "an instruction list changes when serialised"),
        Err(_) => sym::check(false, "a serialised instruction list does not read back"),
    }
}
