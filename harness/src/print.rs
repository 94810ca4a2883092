//! Pretty printer: specification model -> token list -> text with a chosen layout.
use crate::rng::Rng;
use crate::spec::*;

/// Token lists, one per item. Multi-word primitives are one token per word.
pub fn tokens(item: &Item, r: &mut Option<&mut Rng>) -> Vec<String> {
    let mut t: Vec<String> = Vec::new();
    match item {
        Item::Const { name, val } => push(&mut t, &["const", name, "=", &val.text(), ";"]),
        Item::Enum { name, members } => {
            push(&mut t, &["enum", name, "{"]);
            for (i, (m, v)) in members.iter().enumerate() {
                if i > 0 {
                    t.push(",".into());
                }
                push(&mut t, &[m, "=", &v.text()]);
            }
            push(&mut t, &["}", ";"]);
        }
        Item::Struct { name, fields } => {
            push(&mut t, &["struct", name, "{"]);
            for (n, d) in fields {
                decl(&mut t, n, d, r);
            }
            push(&mut t, &["}", ";"]);
        }
        Item::Union { name, dname, dty, arms } => {
            push(&mut t, &["union", name, "switch", "("]);
            ty(&mut t, dty, r);
            push(&mut t, &[dname, ")", "{"]);
            for a in arms {
                for l in &a.labels {
                    push(&mut t, &["case", &l.text(), ":"]);
                }
                if a.default {
                    push(&mut t, &["default", ":"]);
                }
                match &a.body {
                    None => push(&mut t, &["void", ";"]),
                    Some((n, d)) => decl(&mut t, n, d, r),
                }
            }
            push(&mut t, &["}", ";"]);
        }
        Item::Typedef { name, decl: d } => {
            t.push("typedef".into());
            decl(&mut t, name, d, r);
        }
    }
    t
}

fn push(t: &mut Vec<String>, s: &[&str]) {
    t.extend(s.iter().map(|x| x.to_string()));
}

fn ty(t: &mut Vec<String>, d: &Ty, r: &mut Option<&mut Rng>) {
    let s = match d {
        Ty::Prim(p) => match r {
            Some(r) => r.pick(p.spellings()).to_string(),
            None => p.spellings()[0].to_string(),
        },
        Ty::Str => "string".into(),
        Ty::Opaque => "opaque".into(),
        Ty::Name(n) => n.clone(),
    };
    t.extend(s.split(' ').map(|x| x.to_string()));
}

fn bound(b: &Bound) -> String {
    match b {
        Bound::Lit(n) => n.to_string(),
        Bound::Const(c) => c.clone(),
    }
}

fn decl(t: &mut Vec<String>, name: &str, d: &Decl, r: &mut Option<&mut Rng>) {
    ty(t, &d.ty, r);
    if d.opt {
        t.push("*".into());
    }
    t.push(name.into());
    match &d.kind {
        Kind::None => {}
        Kind::Fixed(b) => push(t, &["[", &bound(b), "]"]),
        Kind::Var(None) => push(t, &["<", ">"]),
        Kind::Var(Some(b)) => push(t, &["<", &bound(b), ">"]),
    }
    t.push(";".into());
}

fn word(s: &str) -> bool {
    s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
}

/// Conventional layout.
pub fn plain(spec: &Spec) -> String {
    let mut out = String::new();
    for it in &spec.items {
        let t = tokens(it, &mut None);
        out.push_str(&join(&t));
        out.push('\n');
    }
    out
}

fn join(t: &[String]) -> String {
    let mut out = String::new();
    let mut depth = 0usize;
    for (i, x) in t.iter().enumerate() {
        if x == "}" {
            depth = depth.saturating_sub(1);
        }
        if i > 0 {
            let p = &t[i - 1];
            if p == "{" || (p == ";" && x != "}") || (p == ":" && x != "void") {
                out.push('\n');
                out.push_str(&"    ".repeat(depth));
            } else if p == ";" {
                out.push('\n');
            } else if !(x == ";" || x == "," || x == "[" || x == "<" || x == "]" || x == ">" || x == ":" || x == ")"
                || p == "[" || p == "<" || p == "(" || p == "*")
            {
                out.push(' ');
            }
        }
        if x == "{" {
            depth += 1;
        }
        out.push_str(x);
    }
    out
}

const COMMENTS: &[&str] = &[
    "/* c */", "/**/", "/* ; } { */", "/* // nested */", "/* const X = 1; */", "/* * ** / */", "/***/",
    "/* union\n enum */", "/* \" ' */", "/* é ∆ */", "/* unsigned int */", "/* case 1: void; */",
    "/****/", "/*****/", "/*/*/", "/*\n * Copyright\n *\n * (c) 19xx\n **/", "/* /* */", "/*\t*/", "/*\r\n*/",
    "/*;*/", "/* \\ */", "/** doc **/", "/*0x10*/", "/* <> [] () */", "/* %#RFC */",
];
const LINE_COMMENTS: &[&str] = &[
    "//", "// c ; }", "// /* open", "// */ close", "// struct a { int b; };", "// é", "///", "////", "//*", "// \\", "//\t",
    "//int x;", "// ends with a star *", "/// doc", "//! doc", "// %#",
];
/// Words that mean something outside of comments.
const WORDS: &[&str] = &[
    "hyper", "int", "unsigned", "unsigned hyper", "unsigned int", "opaque", "string", "void", "default", "bool", "float", "double",
    "case", "switch", "struct", "union", "enum", "const", "typedef", "quadruple", "TRUE", "FALSE", "program", "version", "uint32_t", "int64_t",
    "<>", "[4]", "data<>", "x*", "= 0x10", "fn", "mod", "use", "TODO", "RFC", "default:", "case 1:", "};", "int a;", "string b<>;", "opaque c[4];",
];
const SCRAPS: &[&str] = &[
    "*", "*", "/", "/", " ", "\n", ";", "{", "}", "a", "0", "_", "\"", "'", "\\", "é", "case", "struct", "<", ">", "=", "\t", "\r", "%", "#", "\u{0}", "∆",
];

/// A comment of random scraps.
fn scrappy(r: &mut Rng, line: bool) -> String {
    let mut s: String = if r.pct(35) {
        // Prose of words.
        let n = r.range(1, 5);
        let s: Vec<&str> = (0..n).map(|_| if r.pct(75) { *r.pick(WORDS) } else { *r.pick(&["a", "not", "the", "x", "old:", "see", "-", "*"]) }).collect();
        s.join(" ")
    } else {
        let n = if r.pct(2) { r.range(500, 4000) } else { r.range(0, 12) };
        (0..n).map(|_| *r.pick(SCRAPS)).collect()
    };
    if r.pct(40) {
        s = format!(" {} ", s);
    }
    if line {
        s = s.replace(['\n', '\r'], " ");
        return format!("//{}", s);
    }
    while s.contains("*/") {
        s = s.replace("*/", "* ");
    }
    format!("/*{}*/", s)
}

fn separator(r: &mut Rng, need: bool, heavy: usize) -> String {
    let ws = |r: &mut Rng| -> String {
        if r.below(400) == 0 {
            // Very long white space.
            let w = *r.pick(&[" ", "\n", "\t", "\r\n"]);
            return w.repeat(r.range(100, 3000));
        }
        let n = r.weighted(&[60, 20, 10]) + 1;
        (0..n).map(|_| *r.pick(&[" ", " ", " ", "\t", "\n", "\n", "\r\n", "  ", "\r"])).collect()
    };
    if r.pct(heavy) {
        let mut s = ws(r);
        for _ in 0..r.range(1, 2) {
            if r.pct(60) {
                if r.pct(60) {
                    s.push_str(r.pick(COMMENTS));
                } else {
                    s.push_str(&scrappy(r, false));
                }
            } else {
                if r.pct(60) {
                    s.push_str(r.pick(LINE_COMMENTS));
                } else {
                    s.push_str(&scrappy(r, true));
                }
                s.push_str(r.pick(&["\n", "\n", "\r\n", "\n\n"]));
            }
            s.push_str(&ws(r));
        }
        s
    } else if need || r.pct(40) {
        ws(r)
    } else {
        String::new()
    }
}

/// Random layout: whitespace and whitespace-delimited comments between any two tokens;
/// separators that are not needed may disappear. `heavy` is the comment rate in percent.
pub fn layout(spec: &Spec, r: &mut Rng, respell: bool, heavy: usize) -> String {
    let mut out = separator(r, false, heavy);
    for it in &spec.items {
        let t = if respell {
            tokens(it, &mut Some(r))
        } else {
            tokens(it, &mut None)
        };
        out.push_str(&layout_tokens(&t, r, heavy));
        out.push_str(&separator(r, false, heavy));
    }
    // The text may end in a comment without a line end.
    if r.pct(heavy / 4 + 3) {
        let line = r.pct(60);
        out.push_str(&scrappy(r, line).replacen("/", " /", 1));
    }
    out
}

pub fn layout_tokens(t: &[String], r: &mut Rng, heavy: usize) -> String {
    let mut out = String::new();
    for (i, x) in t.iter().enumerate() {
        if i > 0 {
            let need = word(&t[i - 1]) && word(x);
            out.push_str(&separator(r, need, heavy));
        }
        out.push_str(x);
    }
    out
}

/// Text of one item in conventional layout, for messages.
pub fn item_text(it: &Item) -> String {
    join(&tokens(it, &mut None))
}
