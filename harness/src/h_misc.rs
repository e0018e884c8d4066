//! Transformations (P26) and the choice of the language of a file (P29).
use crate::gen::word;
use crate::h_bundle::said_of;
use crate::sym;
use oca_ast_transformation::ast::ObjectKind;
use oca_file::ocafile::{parse_from_string as parse_any, OCAAst};
use oca_file_semantics::ocafile::parse_from_string as parse_semantics;
use said::version::Encode;
use oca_file_transformation::ocafile::{generate_from_ast, parse_from_string as parse_transformation};
use serde_json::Value;

const BEFORE: [&str; 7] = ["", "# c\n", "\n \t\n", "# it's \"\n", "-- name=x\n", "\r\n", "# -- precompiler=transformation\n"];
const SPACE: [&str; 4] = ["", " ", "\t", "  "];
const BODIES: [&[&str]; 6] = [
    &["ADD ATTRIBUTE a=Text\n", "ADD LABEL en ATTRS a=\"x\"\n"],
    &["RENAME ATTRIBUTE a=b\n", "LINK ATTRIBUTE c -> d\n"],
    &["ADD ATTRIBUTE a=Text\n", "ADD LABEL en ATTRS a=\"-- precompiler=transformation\"\n"],
    &["ADD ATTRIBUTE a=Text\n", "ADD LABEL en ATTRS a=\"x\n-- precompiler=transformation\n\"\n"],
    &["ADD ATTRIBUTE a=Text b=Text\n", "ADD LABEL en ATTRS a='\n-- precompiler=transformation\n' \\\n# c\n b=\"it's\"\n"],
    &[],
];

/// P29: the directive decides, wherever it stands among comments and blanks.
#[no_mangle]
pub extern "C" fn h_precompiler() {
    let body = BODIES[sym::choice(BODIES.len() as u64, "body") as usize];
    let before = BEFORE[sym::choice(BEFORE.len() as u64, "before") as usize];
    let what = sym::choice(4, "directive");
    let mut value = String::new();
    let directive = match what {
        0 => String::new(),
        _ => {
            value = match what {
                1 => "transformation".into(),
                2 => "semantics".into(),
                _ => word(sym::param("n", 2) as usize, "value"),
            };
            // which of the places between the parts is wider
            let mut s = ["", "", "", ""];
            if let p @ 0..=3 = sym::choice(5, "place") as usize {
                s[p] = SPACE[1 + sym::choice(3, "blanks") as usize];
            }
            format!("--{}precompiler{}={}{}{}\n", s[0], s[1], s[2], value, s[3])
        }
    };
    // before everything, after comments and blanks, within the body or at its end
    let at = if what == 0 { 0 } else { sym::choice(body.len() as u64 + 2, "at") as usize };
    let mut text = String::new();
    if at == 0 {
        text.push_str(&directive);
    }
    text.push_str(before);
    for i in 0..=body.len() {
        if at == i + 1 {
            text.push_str(&directive);
        }
        if i < body.len() {
            text.push_str(body[i]);
        }
    }
    sym::show("file", &text);
    let got = parse_any(text.clone());
    match (what, got) {
        (1, Ok(OCAAst::TransformationAst(a))) => match parse_transformation(text) {
            Ok(b) => {
                sym::cover("transformation");
                sym::check(a == b, "a transformation file means something else to its parser");
            }
            Err(_) => sym::check(false, "a transformation file is rejected by its parser"),
        },
        (1, Ok(_)) => sym::check(false, "a transformation file was read as semantics"),
        (1, Err(_)) => sym::check(parse_transformation(text).is_err(), "a transformation file was rejected"),
        (0, Ok(OCAAst::SemanticsAst(a))) | (2, Ok(OCAAst::SemanticsAst(a))) => match parse_semantics(text) {
            Ok(b) => {
                sym::cover("semantics");
                sym::check(a.commands == b.commands && a.meta == b.meta && a.commands_meta == b.commands_meta, "a semantics file means something else to its parser");
            }
            Err(_) => sym::check(false, "a semantics file is rejected by its parser"),
        },
        (0, Ok(_)) | (2, Ok(_)) => sym::check(false, "a semantics file was read as a transformation"),
        (0, Err(_)) | (2, Err(_)) => {
            let r = parse_semantics(text).is_err();
            sym::check(r, "a semantics file was rejected");
        }
        (_, r) => {
            sym::cover("unknown directive");
            sym::check(r.is_err(), "a file with an unknown directive was accepted");
        }
    }
    if what < 3 && body.len() > 0 {
        // the bodies are of the language they look like
        let t = body[0].starts_with("RENAME");
        if t == (what == 1) {
            sym::cover("body of the language");
        }
    }
}

fn name(tag: &str) -> String {
    let n = sym::param("n", 1) as usize;
    let mut v = vec![0u8; n];
    sym::bytes(&mut v, tag);
    for b in &v {
        let c = *b;
        sym::assume(((c >= b'a') & (c <= b'z') | (c >= b'A') & (c <= b'Z') | (c >= b'0') & (c <= b'9') | (c == b'_') | (c == b'-')));
    }
    unsafe { String::from_utf8_unchecked(v) }
}
fn put(l: &mut Vec<(String, String)>, k: &str, v: &str) {
    match l.iter_mut().find(|e| e.0 == k) {
        Some(e) => e.1 = v.to_string(),
        None => l.push((k.into(), v.into())),
    }
}

/// P26: a transformation holds what is written.
#[no_mangle]
pub extern "C" fn h_transform() {
    let meta = sym::choice(sym::param("metas", 3), "meta");
    let mut text = String::new();
    let (mut source, mut target) = (None, None);
    if meta > 0 {
        let refs = ["", "refs:"][meta as usize - 1];
        let (s, t) = (word(1, "source"), word(1, "target"));
        text.push_str("-- precompiler=transformation\n");
        text.push_str(&format!("-- source={}{}\n-- target={}{}\n", refs, s, refs, t));
        (source, target) = (Some(s), Some(t));
    }
    let cmds = sym::param("cmds", 2);
    let mut all = vec![];
    let mut written = vec![];
    for i in 0..cmds {
        let link = sym::choice(2, &format!("c{}.link", i)) == 1;
        let pairs = 1 + sym::choice(sym::param("pairs", 2), &format!("c{}.pairs", i));
        text.push_str(if link { "LINK ATTRIBUTE" } else { "RENAME ATTRIBUTE" });
        let arrow = match (link, sym::choice(sym::param("blanks", 2), &format!("c{}.blanks", i))) {
            (false, 0) => "=",
            (false, _) => " = ",
            (true, 0) => "->",
            (true, _) => " \\\n# c\n\n -> ",
        };
        let mut own = vec![];
        for j in 0..pairs {
            let (k, v) = (name(&format!("c{}.k{}", i, j)), name(&format!("c{}.v{}", i, j)));
            text.push_str(&format!(" {}{}{}", k, arrow, v));
            put(&mut all, &k, &v);
            put(&mut own, &k, &v);
        }
        text.push('\n');
        written.push((link, own));
    }
    sym::show("file", &text);
    let Ok(ast) = parse_transformation(text) else {
        return sym::check(false, "a well-formed transformation was rejected");
    };
    sym::check(ast.commands.len() == written.len(), "not one command per instruction");
    for (c, (link, own)) in ast.commands.iter().zip(&written) {
        let attrs = match (&c.object_kind, link) {
            (ObjectKind::Link(l), true) => l.attributes.as_ref(),
            (ObjectKind::Rename(l), false) => l.attributes.as_ref(),
            _ => None,
        };
        let Some(attrs) = attrs else { return sym::check(false, "an instruction of another kind or without attributes") };
        sym::check(attrs.len() == own.len(), "not as many pairs as written");
        for (k, v) in own {
            sym::check(attrs.get(k) == Some(v), "a pair is not the one written");
        }
    }
    let out = generate_from_ast(&ast);
    sym::show("printed", &out);
    match parse_transformation(out) {
        Ok(a2) => sym::check(ast.commands == a2.commands, "the printed transformation parses to another"),
        Err(_) => sym::check(false, "the printed transformation does not parse"),
    }
    let Ok(t) = transformation_file::build::from_ast(&ast) else {
        return sym::check(false, "a well-formed transformation was not built");
    };
    sym::cover("built");
    sym::check(t.source == source && t.target == target, "the source or target is another");
    sym::check(t.attributes.len() == all.len(), "not as many attributes as written");
    for ((k, v), (k2, v2)) in all.iter().zip(&t.attributes) {
        sym::check(k == k2 && v == v2, "an attribute is not transformed as written");
    }
    let code = said::derivation::HashFunctionCode::Blake3_256;
    let v: Value = serde_json::from_slice(&t.encode(&code, &said::sad::SerializationFormats::JSON).unwrap()).unwrap();
    let d = v.get("d").and_then(|d| d.as_str()).unwrap_or("");
    sym::check(d == said_of(&v), "the identifier is not the digest of the content");
    sym::check(v["attributes"].as_object().map(|o| o.len()) == Some(all.len()), "the export has other attributes");
}

const TEMPLATES: [&str; 9] = [
    "RENAME ATTRIBUTE a=b",
    "RENAME ATTRIBUTE a = b c=d",
    "LINK ATTRIBUTE a->b",
    "LINK ATTRIBUTE a -> b c->d",
    "-- source=refs:x",
    "-- source=\"x\"",
    "-- precompiler=transformation\n-- source=x\n-- target=y\nRENAME ATTRIBUTE a=b",
    "FROM refs:x",
    "# c\nRENAME ATTRIBUTE a=b \\\n# d\n c=d",
];
/// P26: no text crashes the parser or the builder.
#[no_mangle]
pub extern "C" fn h_transform_any() {
    let t = TEMPLATES[sym::choice(TEMPLATES.len() as u64, "template") as usize].as_bytes();
    let w = sym::param("w", 1) as usize;
    let cut = sym::param("cut", 1) as usize;
    let at = sym::choice(t.len() as u64 + 1, "at") as usize;
    let mut v = t[..at].to_vec();
    let mut b = vec![0u8; w];
    sym::bytes(&mut b, "window");
    for x in &b {
        sym::assume(*x < 0x80);
    }
    v.extend(b);
    v.extend(&t[(at + cut).min(t.len())..]);
    let mut text = String::from_utf8(v).unwrap();
    if sym::choice(2, "end") == 1 {
        text.push('\n');
    }
    sym::show("file", &text);
    let _ = parse_any(text.clone());
    match parse_transformation(text) {
        Ok(ast) => {
            sym::cover("parsed");
            let out = generate_from_ast(&ast);
            match parse_transformation(out) {
                Ok(a2) => sym::check(ast.commands == a2.commands, "the printed transformation parses to another"),
                Err(_) => sym::check(false, "the printed transformation does not parse"),
            }
            match transformation_file::build::from_ast(&ast) {
                Ok(_) => sym::cover("built"),
                Err(_) => sym::cover("not built"),
            }
        }
        Err(_) => sym::cover("rejected"),
    }
}
