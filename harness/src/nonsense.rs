//! Texts for the totality property: supported, grammatical nonsense, damaged, and texts
//! that no reading of the XDR grammar accepts.
use crate::gen::{random_spec, Prof};
use crate::parse::tokenize;
use crate::print;
use crate::rng::Rng;
use crate::spec::*;

pub struct Case {
    pub text: String,
    pub family: &'static str,
    /// The grammar rejects this text for certain.
    pub reject: bool,
}

pub fn case(seed: u64, i: u64) -> Case {
    let mut r = Rng::new(&[seed, i, 0xc14]);
    let mut c = if i < REJECTS.len() as u64 {
        Case { text: REJECTS[i as usize].to_string(), family: "rejected, fixed", reject: true }
    } else if let Some(text) = foreign(i - REJECTS.len() as u64) {
        Case { text, family: "rejected, foreign character", reject: true }
    } else {
        match r.weighted(&[8, 34, 26, 12, 19, 1]) {
            0 => {
                let s = small(seed, i, &mut r);
                Case { text: print::layout(&s, &mut r, true, 20), family: "supported", reject: false }
            }
            1 => Case { text: grammar(&mut r), family: "grammatical nonsense", reject: false },
            2 => Case { text: twisted(seed, i, &mut r), family: "twisted", reject: false },
            3 => Case { text: damaged(seed, i, &mut r), family: "damaged characters", reject: false },
            4 => Case { text: broken(seed, i, &mut r), family: "rejected", reject: true },
            _ => Case { text: scale(&mut r), family: "scale", reject: false },
        }
    };
    if giant(&c.text) {
        // Known finding KF6: fixed arrays are unrolled.
        c = Case { text: "const A = 1;".into(), family: "skipped, giant fixed array", reject: false };
    }
    c
}

fn foreign(k: u64) -> Option<String> {
    let c = FOREIGN.get((k / PLACES.len() as u64) as usize)?;
    Some(PLACES[(k % PLACES.len() as u64) as usize].replace('#', &c.to_string()))
}

/// Texts outside the grammar.
const REJECTS: &[&str] = &[
    "foo", ";", "}", "{", "const", "const A", "const A =", "const A = 1", "const = 1;", "const A 1;", "const A = ;",
    "const A = -1;", "const A == 1;", "const A = 1,", "enum e { };", "enum e { A };", "enum e { A = };", "enum e { A = 1; };",
    "enum e { A = 1, };;", "enum { A = 1 };", "enum e A = 1 };", "enum e { A = 1 }", "enum e { = 1 };", "struct { int a; };",
    "struct s { int a; }", "struct s { int; };", "struct s { a; };", "struct s { int a };", "struct s { int a;; };",
    "struct s { int a[]; };", "struct s { int a[3; };", "struct s { int a<3; };", "struct s { int a>; };", "struct s { int a[-1]; };",
    "struct s { int a[1+1]; };", "struct s { int a<<>>; };", "struct s { int **a; };", "struct s { int a, b; };",
    "struct s { int a; } x;", "struct s int a; };", "union u { case 1: int a; };", "union u switch { case 1: int a; };",
    "union u switch (int) { case 1: int a; };", "union u switch (int d) { case: int a; };", "union u switch (int d) { case 1 int a; };",
    "union u switch (int d) { 1: int a; };", "union u switch (int d) { int a; };", "union u switch (int d) { case 1: int a; }",
    "union u switch int d { case 1: int a; };", "union u switch (int d) { default int a; };", "union u switch (int d) { default: };",
    "union switch (int d) { case 1: int a; };", "typedef int;", "typedef int a", "typedef a;", "typedef int a[];", "typedef int a<;",
    "typedef struct { int a; } b;", "typedef int a b;", "/* open", "*/", "/", "// c\nfoo", "const A = 1; /* open", "const A = 1; }",
    "const A = 1; foo", "struct s { int a; }; ;", "program P { version V { void N(void) = 1; } = 1; } = 1;", "\u{0}", "\u{feff}", "@", "#include <x.h>",
    "%#include \"x.h\"", "const A = \"x\";", "const A = 'x';", "struct s { int a; /* };", "struct é { int a; };",
    "const A = 1.5;", "const A = 1 2;", "const A = +1;", "const A = (1);", "const A = 1;;", "CONST A = 1;", "Struct s { int a; };", "enum e {};",
    "enum e { A = 1, };", "enum e { , A = 1 };", "enum e { A = 1,, B = 2 };", "enum e { A = 1; B = 2 };", "enum e { A = -1 };", "enum e { A = 'a' };",
    "typedef unsigned a b;", "typedef long long a;", "typedef int a[3][4];", "typedef int a<3><4>;", "typedef int a[3]<4>;", "typedef int *a;",
    "typedef int (a);", "typedef int a, b;", "typedef unsigned int;", "typedef int int;", "typedef opaque string;", "typedef struct foo foo;",
    "typedef enum { A = 1 } e;", "typedef opaque a{3};", "typedef opaque a(3);", "typedef opaque a[3>;", "typedef opaque a<3];", "typedef opaque <3> a;",
    "struct s { opaque a[2], b[2]; };", "struct s { void; };", "struct s { struct t x; };", "struct s { enum t x; };", "struct s { unsigned long x; };",
    "struct s { int x = 1; };", "struct s { int *; };", "struct s { int x*; };", "struct s { int & x; };", "struct s { a unsigned int; };",
    "struct s { int hyper; };", "struct s { struct { int a; } b; };", "struct s { int x : 3; };", "struct s extends t { int x; };", "struct s : t { int x; };",
    "struct int { int a; };", "struct s [3] { int a; };", "struct s; ", "struct s {{ int a; }};", "int x;", "extern int x;", "const int = 1;", "const A = hyper;",
    "enum int { A = 1 };", "enum e { int = 1 };", "enum e { A = int };", "union u switch (int d) { case 1, 2: int a; };",
    "union u switch (int d) { case 1: int a; int b; };", "union u switch (int d) { case 1: { int a; } };", "union u switch (int d) { case -1: int a; };",
    "union u switch (int d) { case 'a': int a; };", "union u switch (int d) { case int: int a; };", "union u switch (int) { default: void; };",
    "union u switch (int d, int e) { default: void; };", "union u switch () { default: void; };", "union u (int d) { default: void; };",
    "union u switch (int *d) { default: void; };", "union u switch (int d[3]) { default: void; };", "union u switch (int d) { default: void };",
    "union u switch (int d) { default: void a; b };", "union u switch (int d) { else: void; };", "union u switch (int d) default: void;",
    "union u switch (enum { A = 1 } d) { default: void; };", "union u switch (int d) { case 1: struct t a; };", "struct s { int a<int>; };",
    "struct s { int a[opaque]; };", "struct s { int a<1 2>; };", "struct s { int a<1,2>; };", "struct s { int a<1..2>; };", "struct s { int a<1*2>; };",
    "/* a /* b */ */", "/*/", "/**", "/* * /", "/ * a */", "/ / a", "# comment", "-- comment", "// a\r\nb", "/* a */ b", "const A = 1; // ok\n// ok\nx",
    "const A = 1; \\", "const A\\\n = 1;", "const A = 1; __END__", "const A = 1; \u{1a}", "%const A = 1;", "% pass\nconst A = 1;", "#define A 1\nconst B = 1;",
    "namespace n { const A = 1; };", "import x; const A = 1;", "program P { } = 1;", "version V { } = 1;", "const A = 1;\nEOF", "const A = 0x 1;", "const A = 1_ 0;",
];

/// Characters that no token and no white space of XDR holds.
const FOREIGN: &[char] = &[
    '\u{1}', '\u{2}', '\u{3}', '\u{4}', '\u{5}', '\u{6}', '\u{7}', '\u{8}', '\u{b}', '\u{c}', '\u{e}', '\u{f}', '\u{10}', '\u{11}', '\u{13}', '\u{14}',
    '\u{16}', '\u{1a}', '\u{1b}', '\u{1c}', '\u{1d}', '\u{1e}', '\u{1f}', '\u{0}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{ad}', '\u{180e}', '\u{1680}',
    '\u{2000}', '\u{2003}', '\u{200b}', '\u{200c}', '\u{200d}', '\u{200e}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{2060}', '\u{3000}', '\u{feff}',
    '\u{fffd}', '\u{ffff}', '\u{10ffff}', '\u{1f600}', '!', '"', '#', '$', '%', '&', '\'', '+', '-', '.', '?', '@', '\\', '^', '`', '|', '~',
    '１', '٣', 'Ａ', 'é', 'ß', '；', '｛', '²', '½', 'Ⅷ',
];

/// Every foreign character at every kind of place outside a comment.
const PLACES: &[&str] = &[
    "#const A = 1; struct s { int a; };",
    "# const A = 1; struct s { int a; };",
    "#\nconst A = 1; struct s { int a; };",
    "const A = 1; struct s { int a; };#",
    "const A = 1; struct s { int a; };\n#",
    "const A = 1; struct s { int a; };\n#\n",
    "const A = 1; struct s { int a; };\r\n##",
    "const A = 1; /* c */#",
    "const A = 1;#struct s { int a; };",
    "const A = 1;\n#\nstruct s { int a; };",
    "const A = 1; struct s { int a#; };",
    "const A = 1; struct s { int #a; };",
    "const A = 1; struct s { int a #; };",
    "const A = 1; struct s { int#a; };",
    "const A = 1; struct s {# int a; };",
    "const A = #1; struct s { int a; };",
    "const A = 1#; struct s { int a; };",
    "const A = 1#1; struct s { int a; };",
    "const A#B = 1; struct s { int a; };",
    "const#A = 1; struct s { int a; };",
    "struct s { opaque a<#>; };",
    "struct s { opaque a<3#>; };",
    "struct s { opaque a[#3]; };",
    "struct s { opaque a#<3>; };",
    "struct s { unsigned#int a; };",
    "enum e { A = 1#, B = 2 };",
    "enum e { A = 1, #B = 2 };",
    "union u switch (int d) { case#1: void; };",
    "union u switch (int d) { case 1#: void; };",
    "union u switch (int d) { case 1: void#; };",
    "union u switch (int d#) { case 1: void; };",
    "union u switch (int d) { case 1: int x; #default: void; };",
    "#",
    " #\n",
    "//\n#",
    "/**/#/**/",
];

fn small(seed: u64, i: u64, r: &mut Rng) -> Spec {
    let p = Prof { types: (1, r.range(2, 9)), ..Prof::named(["C01", "C06", "C09"][r.below(3)]) };
    random_spec(seed ^ 0x14, i, &p)
}

fn number(s: &str) -> Option<u128> {
    match s.strip_prefix("0x").or_else(|| s.strip_prefix("0X")) {
        Some(h) => u128::from_str_radix(h, 16).ok(),
        None => s.parse().ok(),
    }
}

/// Holds a fixed array of more than 5000 elements.
fn giant(text: &str) -> bool {
    let t = tokenize(text);
    let mut big: Vec<&str> = Vec::new();
    for w in t.windows(3) {
        if w[1] == "=" {
            if number(&w[2]).map(|n| n > 5000).unwrap_or(false) {
                big.push(&w[0]);
            }
        }
    }
    t.windows(2).any(|w| w[0] == "[" && (big.contains(&w[1].as_str()) || number(&w[1]).map(|n| n > 5000).unwrap_or(false)))
}

const IDENTS: &[&str] = &[
    "a", "b", "c", "d", "A", "B", "C", "foo", "bar", "TRUE", "FALSE", "default", "void", "case", "switch", "struct", "enum", "union",
    "const", "typedef", "self", "type", "u32", "i32", "u64", "i64", "bool", "uint32_t", "int32_t", "uint64_t", "int64_t", "unsigned",
    "_", "__", "0", "1", "2", "00", "07", "9x", "0x", "0x1", "0X1", "0xZZ", "0xfg", "0xffffffff", "0x100000000", "0xffffffffffffffff",
    "2147483647", "2147483648", "4294967295", "4294967296", "18446744073709551616", "99999999999999999999999", "v", "T", "n", "Error",
    "Bytes", "Vec", "String", "Self", "intx", "opaquey", "float_", "e1", "x0", "1e5", "1_000", "u8", "char", "short", "long", "quadruple",
];
const BASIC: &[&str] = &["int", "unsigned int", "hyper", "unsigned hyper", "float", "double", "string", "opaque"];
const NUMS: &[&str] = &["0", "1", "2", "3", "7", "16", "100", "00", "012", "4294967295", "4294967296", "99999999999999999999", "65536", "5000"];

fn id(r: &mut Rng) -> String {
    if r.pct(70) {
        IDENTS[r.below(8)].to_string()
    } else {
        r.pick(IDENTS).to_string()
    }
}

fn any_ty(r: &mut Rng) -> String {
    if r.pct(45) {
        r.pick(BASIC).to_string()
    } else {
        id(r)
    }
}

fn array(r: &mut Rng) -> String {
    let n = |r: &mut Rng| if r.pct(50) { r.pick(NUMS).to_string() } else { id(r) };
    match r.below(6) {
        0 => "<>".into(),
        1 => format!("<{}>", n(r)),
        2 | 3 => format!("[{}]", n(r)),
        _ => String::new(),
    }
}

fn field(r: &mut Rng) -> String {
    let t = any_ty(r);
    let star = if r.pct(20) { "*" } else { "" };
    format!("{} {}{}{};", t, star, id(r), array(r))
}

/// Derived from the grammar with no regard to meaning.
fn grammar(r: &mut Rng) -> String {
    let mut out = String::new();
    for _ in 0..r.range(1, 7) {
        match r.below(6) {
            0 => out.push_str(&format!("const {} = {};", id(r), id(r))),
            1 => out.push_str(&format!("typedef {} {}{};", any_ty(r), id(r), array(r))),
            2 => {
                out.push_str(&format!("enum {} {{", id(r)));
                for k in 0..r.range(1, 4) {
                    if k > 0 && r.pct(90) {
                        out.push(',');
                    }
                    out.push_str(&format!(" {} = {}", id(r), id(r)));
                }
                out.push_str("};");
            }
            3 | 4 => {
                out.push_str(&format!("struct {} {{", id(r)));
                for _ in 0..r.below(5) {
                    out.push_str(&field(r));
                }
                out.push_str("};");
            }
            _ => {
                out.push_str(&format!("union {} switch ({} {}) {{", id(r), any_ty(r), id(r)));
                for _ in 0..r.below(6) {
                    let body = match r.below(4) {
                        0 => "void;".to_string(),
                        1 => String::new(),
                        _ => field(r),
                    };
                    if r.pct(20) {
                        out.push_str(&format!("default: {}", if body.is_empty() { "void;" } else { &body }));
                    } else {
                        let l = if r.pct(50) { r.pick(NUMS).to_string() } else { id(r) };
                        out.push_str(&format!("case {}: {}", l, body));
                    }
                }
                out.push_str("};");
            }
        }
        out.push('\n');
    }
    out
}

fn twisted(seed: u64, i: u64, r: &mut Rng) -> String {
    let mut s = small(seed, i, r);
    let names: Vec<String> = s.items.iter().map(|x| x.name().to_string()).collect();
    for _ in 0..r.range(1, 3) {
        let k = r.below(s.items.len());
        let other = r.pick(&names).clone();
        let odd = match r.below(4) {
            0 => "undeclared".to_string(),
            1 => other.clone(),
            2 => id(r),
            _ => "9".to_string(),
        };
        let lit = *r.pick(&[0u32, 1, 4, 5000, u32::MAX, 1 << 31]);
        let kind = match r.below(5) {
            0 => Kind::None,
            1 => Kind::Var(None),
            2 => Kind::Var(Some(if r.pct(50) { Bound::Lit(lit) } else { Bound::Const(odd.clone()) })),
            3 => Kind::Fixed(Bound::Lit(lit.min(5000))),
            _ => Kind::Fixed(Bound::Const(odd.clone())),
        };
        let ty = match r.below(5) {
            0 => Ty::Str,
            1 => Ty::Opaque,
            2 => Ty::Prim(crate::gen::prim(r)),
            3 => Ty::Name(other.clone()),
            _ => Ty::Name(odd.clone()),
        };
        let whole = r.pct(30);
        match r.below(6) {
            0 => {
                let x = s.items[k].clone();
                s.items.push(x);
            }
            1 => match &mut s.items[k] {
                Item::Const { val, .. } => {
                    *val = Num::new(r.next(), r.pct(50));
                }
                Item::Enum { members, .. } => {
                    let j = r.below(members.len());
                    match r.below(3) {
                        0 => members[j].1 = Num::new(r.next() >> r.below(40), r.pct(50)),
                        1 => members[j].0 = odd,
                        _ => {
                            let m = members[j].clone();
                            members.push(m);
                        }
                    }
                }
                Item::Struct { fields, .. } => {
                    if r.pct(10) {
                        fields.clear();
                    } else {
                        let f = (odd, Decl { ty, kind, opt: r.pct(30) });
                        let j = r.below(fields.len() + 1);
                        fields.insert(j, f);
                    }
                }
                Item::Union { dty, arms, .. } => match r.below(6) {
                    0 => *dty = ty,
                    1 => arms.clear(),
                    2 => arms.insert(0, Arm { labels: vec![], default: true, body: None }),
                    3 => arms.push(Arm { labels: vec![Label::Id(odd)], default: r.pct(20), body: Some((other, Decl { ty, kind, opt: r.pct(20) })) }),
                    4 => arms.push(Arm { labels: vec![Label::Num(r.next())], default: true, body: None }),
                    _ => {
                        if arms.is_empty() { continue; }
                        let a = r.pick(arms).clone();
                        arms.push(a);
                    }
                },
                Item::Typedef { decl, .. } => *decl = Decl { ty, kind, opt: r.pct(20) },
            },
            _ => {
                for d in s.items[k].decls_mut() {
                    if whole || r.pct(40) {
                        match r.below(3) {
                            0 => d.ty = ty.clone(),
                            1 => d.kind = kind.clone(),
                            _ => d.opt = !d.opt,
                        }
                    }
                }
            }
        }
    }
    print::plain(&s)
}

fn damaged(seed: u64, i: u64, r: &mut Rng) -> String {
    let s = small(seed, i, r);
    let mut c: Vec<char> = if r.pct(50) { print::plain(&s) } else { print::layout(&s, r, true, 20) }.chars().collect();
    const CH: &[char] = &['{', '}', ';', ',', '<', '>', '[', ']', '(', ')', '*', '/', '=', ':', '0', '9', 'x', 'a', '_', ' ', '\n', '\t', '\r', '-', '"', '\\', 'é', '\0'];
    for _ in 0..r.range(1, 6) {
        if c.is_empty() {
            break;
        }
        let k = r.below(c.len());
        match r.below(5) {
            0 => {
                c.remove(k);
            }
            1 => c.insert(k, *r.pick(CH)),
            2 => c[k] = *r.pick(CH),
            3 => c.truncate(k),
            _ => {
                let j = (k + r.below(12)).min(c.len());
                let cut: Vec<char> = c.drain(k..j).collect();
                let at = r.below(c.len() + 1);
                for (n, x) in cut.into_iter().enumerate() {
                    c.insert(at + n, x);
                }
            }
        }
    }
    c.into_iter().collect()
}

/// A supported text in which a token that the grammar needs is missing, or which holds a
/// token the grammar does not have.
fn broken(seed: u64, i: u64, r: &mut Rng) -> String {
    let s = small(seed, i, r);
    let mut t: Vec<String> = s.items.iter().flat_map(|x| print::tokens(x, &mut None)).collect();
    match r.below(4) {
        0 | 1 => {
            let need = [";", "{", "}", "=", "(", ")", "[", "]", "<", ">", ":", "const", "enum", "struct", "union", "switch", "case", "default", "typedef"];
            let w = *r.pick(&need);
            // The grammar takes `constant = 1;` for `const ant = 1;`: such texts are not invalid in it.
            let mut at: Vec<usize> = (0..t.len())
                // After a label, `default void;` is a field of a type named `default`.
                .filter(|k| !(w == ":" && t[*k - (*k > 0) as usize] == "default"))
                .filter(|k| t[*k] == w && !(w.len() > 1 && t.get(k + 1).map(|n| n.starts_with(w)).unwrap_or(false)))
                .collect();
            if at.is_empty() {
                at = (0..t.len()).filter(|k| t[*k] == ";").collect();
            }
            let k = *r.pick(&at);
            t.remove(k);
        }
        2 => {
            let k = r.below(t.len() + 1);
            let bad = ["@", "#", "$", "%", "!", "?", "-", "+", "&", "|", "^", "~", "`", "'", "\"", "\\", ".", "é", "\u{b}", "*/"];
            t.insert(k, r.pick(&bad).to_string());
        }
        _ => {
            let end = ["foo", "}", "{", ";", "int a;", "struct x", "1", "/*", "/* open", "const", "};", "void;", "default: void;"];
            t.push(r.pick(&end).to_string());
        }
    }
    if r.pct(50) {
        t.join(" ")
    } else {
        print::layout_tokens(&t, r, 10)
    }
}

fn scale(r: &mut Rng) -> String {
    let n = r.range(50, 900);
    let mut s = String::new();
    match r.below(9) {
        0 => {
            s.push_str("typedef opaque t0<>;");
            let mut v: Vec<String> = (1..n).map(|k| format!("typedef t{} t{};", k - 1, k)).collect();
            r.shuffle(&mut v);
            s.push_str(&v.join("\n"));
        }
        1 => {
            s.push_str("struct s {");
            for k in 0..n {
                s.push_str(&format!("int f{}; ", k));
            }
            s.push_str("};");
        }
        2 => {
            for k in 0..n {
                s.push_str(&format!("const C{} = {};\n", k, k));
            }
        }
        3 => {
            s.push_str("union u switch (int d) {");
            for k in 0..n {
                s.push_str(&format!("case {}: int f{}; ", k, k));
            }
            s.push_str("};");
        }
        4 => s.push_str(&format!("const {} = 1;", "A".repeat(n * 50))),
        5 => s.push_str(&format!("/*{}*/ const A = 1; //{}", "*".repeat(n * 100), "/".repeat(n * 100))),
        6 => {
            // A long chain of structs ending in an opaque, in random order.
            let mut v: Vec<String> = (1..n).map(|k| format!("struct s{} {{ s{} a; }};", k, k - 1)).collect();
            v.push("struct s0 { opaque a<>; };".into());
            r.shuffle(&mut v);
            s.push_str(&v.join("\n"));
        }
        7 => {
            // Typedef cycles.
            for k in 0..n {
                s.push_str(&format!("typedef t{} t{};", (k + 1) % n, k));
            }
            s.push_str("union u switch (t0 d) { case 1: t1 a; default: void; }; struct x { t2 a<>; t3 *b; };");
        }
        _ => {
            for k in 0..n {
                s.push_str(&format!("struct s{} {{ s{} *a; s{} *b; }};", k, (k * 7 + 1) % n, (k * 13 + 5) % n));
            }
        }
    }
    s
}
