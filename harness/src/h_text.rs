//! Harnesses about OCAfile text as text: arbitrary bytes inside instructions
//! (P10, P09), letter case, blanks and comments (P11).
use crate::h_bundle::*;
use crate::sym;
use oca_bundle_semantics::build::from_ast;
use oca_file_semantics::ocafile::{generate_from_ast, parse_from_string};

pub const TEMPLATES: [&str; 25] = [
    "ADD ATTRIBUTE c=Text",
    "ADD ATTRIBUTE c=Array[Text]",
    "ADD ATTRIBUTE c=refn:x",
    "REMOVE ATTRIBUTE a",
    "ADD CLASSIFICATION x",
    "REMOVE CLASSIFICATION",
    "ADD META en PROPS name=\"x\"",
    "REMOVE META en PROPS name",
    "ADD LABEL en ATTRS a=\"x\"",
    "REMOVE LABEL en ATTRS a",
    "ADD INFORMATION en ATTRS a=\"x\"",
    "ADD CHARACTER_ENCODING ATTRS a=\"utf-8\"",
    "ADD CHARACTER_ENCODING PROPS x=\"y\"",
    "ADD CONFORMANCE ATTRS a=\"M\"",
    "ADD FORMAT ATTRS a=\"x\"",
    "ADD UNIT ATTRS a=\"x\"",
    "ADD CARDINALITY ATTRS a=\"1\"",
    "ADD CONDITION ATTRS a=\"${b} == '1'\"",
    "ADD ENTRY_CODE ATTRS a=[\"x\", \"y\"]",
    "ADD ENTRY_CODE ATTRS a={\"g\": [\"x\"]}",
    "ADD ENTRY en ATTRS a={\"x\": \"y\"}",
    "ADD LINK refs:EJeWVGxkqxWrdGi0efOzwg1YQK8FrA-ZmtegiVEtAVcu ATTRS a=\"b\"",
    "ADD ATTR_FRAMING id=S label=\"L\" ATTRS a={\"u\": {\"k\": \"v\"}}",
    "ADD FLAGGED_ATTRIBUTES a b",
    "-- name=x",
];
pub const REMOVED: [&str; 12] = [
    "REMOVE INFORMATION en ATTRS a=\"x\"",
    "REMOVE UNIT ATTRS a=\"x\"",
    "REMOVE CHARACTER_ENCODING ATTRS a=\"utf-8\"",
    "REMOVE FORMAT ATTRS a=\"x\"",
    "REMOVE CONFORMANCE ATTRS a=\"M\"",
    "REMOVE CONDITION ATTRS a=\"${b} == '1'\"",
    "REMOVE CARDINALITY ATTRS a=\"1\"",
    "REMOVE ENTRY_CODE ATTRS a=[\"x\", \"y\"]",
    "REMOVE ENTRY en ATTRS a={\"x\": \"y\"}",
    "REMOVE LINK refs:EJeWVGxkqxWrdGi0efOzwg1YQK8FrA-ZmtegiVEtAVcu ATTRS a=\"b\"",
    "REMOVE FLAGGED_ATTRIBUTES a b",
    "MODIFY x",
];

fn ascii_window(w: usize) -> Vec<u8> {
    let mut v = vec![0u8; w];
    sym::bytes(&mut v, "window");
    for b in &v {
        sym::assume(*b < 0x80);
    }
    v
}
/// an instruction in which `w` arbitrary bytes replace `cut` bytes at any place
fn windowed() -> String {
    let t = match sym::param("tpl", 0) {
        0 => {
            let i = sym::choice((TEMPLATES.len() + REMOVED.len()) as u64, "template") as usize;
            if i < TEMPLATES.len() { TEMPLATES[i] } else { REMOVED[i - TEMPLATES.len()] }
        }
        i => TEMPLATES[i as usize - 1],
    };
    let w = sym::param("w", 1) as usize;
    let cut = sym::param("cut", 1) as usize;
    let t = t.as_bytes();
    let at = sym::choice((t.len() + 1) as u64, "at") as usize;
    let mut v = t[..at].to_vec();
    v.extend(ascii_window(w));
    v.extend(&t[(at + cut).min(t.len())..]);
    String::from_utf8(v).unwrap()
}

/// P10: no text crashes the parser, and nothing it accepts crashes the builder.
#[no_mangle]
pub extern "C" fn h_crash() {
    let (text, _) = base();
    let text = format!("{}{}\n", text, windowed());
    sym::show("ocafile", &text);
    match parse_from_string(text) {
        Ok(ast) => {
            sym::cover("parsed");
            match from_ast(None, &ast) {
                Ok(_) => sym::cover("built"),
                Err(_) => sym::cover("rejected by the builder"),
            }
        }
        Err(_) => sym::cover("rejected by the parser"),
    }
}
/// P09 for values with any bytes the grammar accepts.
#[no_mangle]
pub extern "C" fn h_print_any() {
    let (text, _) = base();
    let text = format!("{}{}\n", text, windowed());
    sym::show("ocafile", &text);
    let Ok(ast) = parse_from_string(text) else { return };
    let out = generate_from_ast(&ast);
    sym::show("printed", &out);
    sym::cover("printed");
    match parse_from_string(out) {
        Ok(a2) => sym::check(ast.commands == a2.commands, "the printed OCAfile parses to other instructions"),
        Err(_) => sym::check(false, "the printed OCAfile does not parse"),
    }
}

const KEYWORDS: [&str; 21] = [
    "ADD", "REMOVE", "FROM", "ATTRIBUTE", "CLASSIFICATION", "META", "PROPS", "ATTRS", "LABEL", "INFORMATION", "CHARACTER_ENCODING", "CONFORMANCE",
    "FORMAT", "UNIT", "CARDINALITY", "CONDITION", "ENTRY_CODE", "ENTRY", "LINK", "ATTR_FRAMING", "FLAGGED_ATTRIBUTES",
];
/// the words of an instruction; blanks within quotes and brackets do not
/// separate words
fn words(line: &str) -> Vec<String> {
    let (mut out, mut cur, mut depth, mut quote) = (vec![], String::new(), 0, false);
    for c in line.chars() {
        match c {
            '"' => quote = !quote,
            '[' | '{' if !quote => depth += 1,
            ']' | '}' if !quote => depth -= 1,
            ' ' if !quote && depth == 0 => {
                out.push(std::mem::take(&mut cur));
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    out.push(cur);
    out
}
/// every letter of a keyword in either case
fn any_case(w: &str, tag: &str) -> String {
    let mut m = vec![0u8; w.len()];
    sym::bytes(&mut m, tag);
    let b = w.as_bytes();
    for (i, x) in m.iter_mut().enumerate() {
        sym::assume((*x & 0xdf) == 0);
        *x = if b[i] == b'_' { b'_' } else { b[i] ^ *x };
    }
    unsafe { String::from_utf8_unchecked(m) }
}
const BLANKS: [&str; 6] = ["  ", "\t", " \t  ", " \\\n", " \\\n# c\n", " \\\n\n\t# c\n  \n "];
const LINES: [&str; 6] = ["\n", " \t\n", "# c\n", "  # c \"\n", "-- name=x\n", "\r\n"];

/// P11: spelling of keywords, blanks between words, comment and empty lines.
#[no_mangle]
pub extern "C" fn h_spelling() {
    let Some((text, _)) = program(sym::param("cmds", 1), true) else { return };
    let Some(ast) = parse(&text) else { return };
    let mut out = String::new();
    let lines: Vec<&str> = text.lines().collect();
    let what = sym::choice(3, "what");
    let at = match what {
        0 => 0,
        _ => sym::choice(lines.len() as u64 + (what == 2) as u64, "line") as usize,
    };
    for (i, l) in lines.iter().enumerate() {
        if what == 2 && i == at {
            out.push_str(&extra_line());
        }
        let w = words(l);
        let gap = if what == 1 && i == at { sym::choice(w.len() as u64 + 1, "gap") as usize } else { usize::MAX };
        let mut kind = 0;
        if gap != usize::MAX {
            kind = sym::choice(BLANKS.len() as u64, "blanks") as usize;
        }
        for (j, x) in w.iter().enumerate() {
            if j > 0 {
                // gap 0 means every gap, the last one the end of the line
                out.push_str(if gap == 0 || gap == j { BLANKS[kind] } else { " " });
            }
            if what == 0 && KEYWORDS.contains(&x.as_str()) {
                out.push_str(&any_case(x, &format!("case.{}.{}", i, j)));
            } else {
                out.push_str(x);
            }
        }
        if gap == w.len() && gap > 0 {
            out.push_str(["  ", "\t", " \t", "\t\t", "   ", " \t "][kind]);
        }
        out.push('\n');
    }
    if what == 2 && at == lines.len() {
        out.push_str(&extra_line());
    }
    sym::show("respelled", &out);
    match parse_from_string(out) {
        Ok(a2) => {
            sym::cover(["case", "blanks", "lines"][what as usize]);
            sym::check(ast.commands == a2.commands, "another spelling means something else")
        }
        Err(_) => sym::check(false, "another spelling is rejected"),
    }
}
/// an empty line or a comment with arbitrary content
fn extra_line() -> String {
    let k = sym::choice(LINES.len() as u64 + 1, "extra") as usize;
    if k < LINES.len() {
        return LINES[k].into();
    }
    let mut v = vec![0u8; sym::param("w", 2) as usize];
    sym::bytes(&mut v, "comment");
    for b in &v {
        sym::assume((*b < 0x80) & (*b != b'\n') & (*b != b'\r'));
    }
    format!("#{}\n", unsafe { String::from_utf8_unchecked(v) })
}
