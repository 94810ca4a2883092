//! C12 and C13: monitors over the public AST.
use fastxdr::ast::indexes::*;
use fastxdr::ast::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use xv::gen::{giant, random_spec, Prof};
use xv::json;
use xv::ops::message;
use xv::print;
use xv::rng::{fnv, Rng};
use xv::rtok::rust_tokens;
use xv::spec::*;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    match a[0].as_str() {
        "c12" => c12(n(1), n(2), n(3), &a[4]),
        "c13" => c13(n(1), n(2), n(3), n(4), n(5), &a[6]),
        x => panic!("{}", x),
    }
}

struct Log {
    f: std::fs::File,
    violations: u64,
    counts: BTreeMap<String, u64>,
    samples: Vec<String>,
    distinct: HashSet<u64>,
    evals: u64,
}

impl Log {
    fn new(p: &str) -> Log {
        Log {
            f: std::fs::File::create(p).unwrap(),
            violations: 0,
            counts: BTreeMap::new(),
            samples: vec![],
            distinct: HashSet::new(),
            evals: 0,
        }
    }
    fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.into()).or_insert(0) += n;
    }
    fn violation(&mut self, what: &str, text: &str, detail: &str) {
        self.violations += 1;
        if self.violations <= 5 {
            let t: String = text.chars().take(30000).collect();
            let o = json::obj(&[
                ("kind", json::s("violation")),
                ("what", json::s(what)),
                ("text", json::s(&t)),
                ("detail", json::s(detail)),
            ]);
            writeln!(self.f, "{}", o).unwrap();
        }
    }
    fn finish(mut self) {
        let c: Vec<String> = self.counts.iter().map(|(k, v)| format!("{}: {}", json::s(k), v)).collect();
        let o = json::obj(&[
            ("kind", json::s("stats")),
            ("evals", self.evals.to_string()),
            ("distinct", self.distinct.len().to_string()),
            ("violations", self.violations.to_string()),
            ("counts", format!("{{{}}}", c.join(", "))),
            ("samples", json::arr(&self.samples.iter().map(|s| json::s(s)).collect::<Vec<_>>())),
        ]);
        writeln!(self.f, "{}", o).unwrap();
    }
}

fn parse(t: &str) -> Result<Ast, String> {
    match catch_unwind(AssertUnwindSafe(|| Ast::new(t).map_err(|e| e.to_string()))) {
        Ok(r) => r.map_err(|e| format!("Err: {}", e)),
        Err(p) => Err(format!("panic: {}", message(p))),
    }
}

// ------------------------------------------------------------------------- C12

fn number(s: &str) -> Option<u64> {
    match s.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(h, 16).ok(),
        None => s.parse().ok(),
    }
}

/// A type, in the vocabulary of the model.
fn basic(t: &BasicType) -> String {
    match t {
        BasicType::U32 => "u32".into(),
        BasicType::U64 => "u64".into(),
        BasicType::I32 => "i32".into(),
        BasicType::I64 => "i64".into(),
        BasicType::F32 => "f32".into(),
        BasicType::F64 => "f64".into(),
        BasicType::Bool => "bool".into(),
        BasicType::String => "string".into(),
        BasicType::Opaque => "opaque".into(),
        BasicType::Ident(s) => format!("={}", s),
    }
}

fn model_ty(t: &Ty) -> String {
    match t {
        Ty::Prim(p) => p.rust().into(),
        Ty::Str => "string".into(),
        Ty::Opaque => "opaque".into(),
        Ty::Name(n) => format!("={}", n),
    }
}

fn size(s: &ArraySize) -> String {
    match s {
        ArraySize::Known(n) => n.to_string(),
        // A number is not the name of a constant.
        ArraySize::Constant(c) if c.starts_with(|x: char| x.is_ascii_digit()) => format!("constant {:?}", c),
        ArraySize::Constant(c) => c.clone(),
    }
}

fn bound(b: &Bound) -> String {
    match b {
        Bound::Lit(n) => n.to_string(),
        Bound::Const(c) => c.clone(),
    }
}

fn model_kind(k: &Kind) -> String {
    match k {
        Kind::None => "".into(),
        Kind::Fixed(b) => format!("[{}]", bound(b)),
        Kind::Var(None) => "<>".into(),
        Kind::Var(Some(b)) => format!("<{}>", bound(b)),
    }
}

fn arr(a: &ArrayType<BasicType>) -> (String, String) {
    match a {
        ArrayType::None(t) => (basic(t), "".into()),
        ArrayType::FixedSize(t, s) => (basic(t), format!("[{}]", size(s))),
        ArrayType::VariableSize(t, None) => (basic(t), "<>".into()),
        ArrayType::VariableSize(t, Some(s)) => (basic(t), format!("<{}>", size(s))),
    }
}

fn label(s: &str) -> String {
    match s.parse::<u128>() {
        Ok(n) => n.to_string(),
        Err(_) => s.into(),
    }
}

/// Everything the AST says, one fact per line.
fn facts_ast(a: &Ast) -> BTreeSet<String> {
    let mut o = BTreeSet::new();
    let mut put = |s: String| {
        let mut s = s;
        while !o.insert(s.clone()) {
            s.push_str(" (again)");
        }
    };
    for (k, v) in a.constants().0.iter() {
        match v {
            ConstantType::ConstValue(t) => match number(t) {
                Some(n) => put(format!("const {} = {}", k, n)),
                None => put(format!("const {} = {:?}", k, t)),
            },
            ConstantType::EnumValue { enum_name, variant } => put(format!("label {} -> {}::{}", k, enum_name, variant)),
        }
        match (a.constants().get(k), v) {
            (Some(ConstantType::ConstValue(x)), ConstantType::ConstValue(y)) if x == y => {}
            (Some(ConstantType::EnumValue { variant: x, enum_name: p }), ConstantType::EnumValue { variant: y, enum_name: q })
                if x == y && p == q => {}
            _ => put(format!("constant {} is not retrievable", k)),
        }
    }
    if a.constants().iter().count() != a.constants().0.len() {
        put("constants().iter() differs".into());
    }
    for (k, t) in a.types().0.iter() {
        if a.types().get(k) != Some(t) {
            put(format!("type {} is not retrievable", k));
        }
        match t {
            AstType::Enum(e) => {
                put(format!("enum {} as {}", e.name, k));
                for (i, v) in e.variants.iter().enumerate() {
                    let n = match &v.value {
                        VariantValue::Numeric(n) => n.to_string(),
                        // Only values outside the range of i32 may be kept as text.
                        VariantValue::String(s) => match number(s) {
                            Some(n) if n > i32::MAX as u64 => n.to_string(),
                            _ => format!("{:?}", s),
                        },
                    };
                    put(format!("enum {} member {} {} = {}", k, i, v.name, n));
                }
            }
            AstType::Struct(s) => {
                put(format!("struct {} as {}", s.name, k));
                for (i, f) in s.fields.iter().enumerate() {
                    let (t, b) = arr(&f.field_value);
                    put(format!("struct {} field {} {} {}{}{}", k, i, f.field_name, t, if f.is_optional { "*" } else { "" }, b));
                }
            }
            AstType::Union(u) => {
                put(format!("union {} as {} switch {} {}", u.name, k, basic(&u.switch.var_type), u.switch.var_name));
                let mut arm = |c: &UnionCase, def: bool| {
                    let (t, b) = arr(&c.field_value);
                    let mut ls: Vec<String> = c.case_values.iter().map(|l| label(l)).collect();
                    if def {
                        // The default of a default arm may be listed or implied.
                        if let Some(p) = ls.iter().position(|l| l == "default") {
                            ls.remove(p);
                        }
                    }
                    ls.sort();
                    put(format!("union {} {} {:?} {} {}{}", k, if def { "default" } else { "arm" }, ls, c.field_name, t, b));
                };
                for c in &u.cases {
                    arm(c, false);
                }
                for c in &u.default {
                    arm(c, true);
                }
                for v in &u.void_cases {
                    put(format!("union {} void {}", k, label(v)));
                }
            }
            AstType::Typedef(d) => {
                let (name, b) = arr(&d.alias);
                put(format!("typedef {} as ={} {}{}", name, k, basic(&d.target), b));
                if a.types().typedef_target(k) != Some(d) {
                    put(format!("typedef {} is not retrievable", k));
                }
            }
        }
    }
    if a.types().iter().count() != a.types().0.len() {
        put("types().iter() differs".into());
    }
    o
}

fn facts_model(s: &Spec) -> BTreeSet<String> {
    let mut o = BTreeSet::new();
    for it in &s.items {
        match it {
            Item::Const { name, val } => {
                o.insert(format!("const {} = {}", name, val.val));
            }
            Item::Enum { name, members } => {
                o.insert(format!("enum {} as {}", name, name));
                for (i, (m, v)) in members.iter().enumerate() {
                    let x = v.sym.as_ref().map(|s| format!("{:?}", s)).unwrap_or(v.val.to_string());
                    o.insert(format!("enum {} member {} {} = {}", name, i, m, x));
                    o.insert(format!("label {} -> {}::{}", m, name, m));
                }
            }
            Item::Struct { name, fields } => {
                o.insert(format!("struct {} as {}", name, name));
                for (i, (f, d)) in fields.iter().enumerate() {
                    o.insert(format!(
                        "struct {} field {} {} {}{}{}",
                        name, i, f, model_ty(&d.ty), if d.opt { "*" } else { "" }, model_kind(&d.kind)
                    ));
                }
            }
            Item::Union { name, dname, dty, arms } => {
                o.insert(format!("union {} as {} switch {} {}", name, name, model_ty(dty), dname));
                for a in arms {
                    let mut ls: Vec<String> = a.labels.iter().map(|l| l.text()).collect();
                    match &a.body {
                        None => {
                            for l in ls {
                                o.insert(format!("union {} void {}", name, l));
                            }
                            if a.default {
                                o.insert(format!("union {} void default", name));
                            }
                        }
                        Some((f, d)) => {
                            ls.sort();
                            o.insert(format!(
                                "union {} {} {:?} {} {}{}",
                                name, if a.default { "default" } else { "arm" }, ls, f, model_ty(&d.ty), model_kind(&d.kind)
                            ));
                        }
                    }
                }
            }
            Item::Typedef { name, decl } => {
                o.insert(format!("typedef ={} as ={} {}{}", name, name, model_ty(&decl.ty), model_kind(&decl.kind)));
            }
        }
    }
    o
}

/// Union arms and void labels lose the order across kinds, so duplicates cannot occur in
/// the model: labels are distinct.
fn c12(seed: u64, first: u64, n: u64, out: &str) {
    let mut log = Log::new(out);
    let k = xv::corpus::CORPUS.len() as u64;
    for i in first..first + n {
        let mut r = Rng::new(&[seed, i, 0x12]);
        let spec = if i < k {
            xv::corpus::origin(&format!("c:{}", xv::corpus::CORPUS[i as usize].0))
        } else {
            let p = Prof::named(["C01", "C06", "C05", "C08"][(i % 4) as usize]);
            let t = [(2, 5), (5, 13), (12, 26), (30, 60)][r.weighted(&[30, 50, 15, 5])];
            let mut s = random_spec(seed, i, &Prof { types: t, ..p });
            if i % 16 == 7 {
                s = giant(seed, i / 16, *r.pick(&[129, 257, 300, 513, 1025, 1500, 2049, 4097]));
            }
            arrays_anywhere(&mut s, &mut r);
            named_values(&mut s, &mut r);
            s
        };
        let want = facts_model(&spec);
        for v in 0..4 {
            let mut s = spec.clone();
            if v == 2 {
                r.shuffle(&mut s.items);
            }
            let text = match v {
                0 if i < k => xv::corpus::corpus_text(xv::corpus::CORPUS[i as usize].0).to_string(),
                0 => print::plain(&s),
                1 => print::layout(&s, &mut r, true, 15),
                2 => print::layout(&s, &mut r, true, 50),
                _ => print::layout(&s, &mut r, true, 0),
            };
            log.evals += 1;
            log.distinct.insert(fnv(&[text.as_bytes()]));
            let a = match parse(&text) {
                Ok(a) => a,
                Err(e) => {
                    log.violation("the specification is not accepted", &text, &e);
                    continue;
                }
            };
            let got = facts_ast(&a);
            log.count("facts", got.len() as u64);
            for x in &got {
                let k: Vec<&str> = x.split(' ').collect();
                let kind = match k[0] {
                    "struct" | "union" | "enum" if k.len() > 2 && k[2] != "as" => format!("fact_{}_{}", k[0], k[2]),
                    k => format!("fact_{}", k),
                };
                log.count(&kind, 1);
            }
            if got != want {
                let miss: Vec<&String> = want.difference(&got).take(6).collect();
                let extra: Vec<&String> = got.difference(&want).take(6).collect();
                log.violation("the AST differs from the declarations", &text, &format!("missing {:?} invented {:?}", miss, extra));
            } else if log.samples.len() < 3 && v == 2 && i % 5 == 0 {
                log.samples.push(format!("{} facts agree for {:?}", got.len(), text.chars().take(150).collect::<String>()));
            }
        }
    }
    log.finish();
}

/// Forms the generator does not support but the AST must record: counted arrays of
/// primitives.
fn arrays_anywhere(s: &mut Spec, r: &mut Rng) {
    for it in s.items.iter_mut() {
        if matches!(it, Item::Union { .. }) {
            continue;
        }
        for d in it.decls_mut() {
            if !d.opt && d.kind == Kind::None && matches!(d.ty, Ty::Prim(_)) && r.pct(10) {
                d.kind = if r.pct(50) { Kind::Var(None) } else { Kind::Var(Some(Bound::Lit(r.next() as u32))) };
            } else if matches!(d.kind, Kind::Fixed(_)) && r.pct(20) {
                // The AST does not unroll.
                d.kind = Kind::Fixed(Bound::Lit(*r.pick(&[255, 256, 65535, 65536, 65537, 1 << 20, i32::MAX as u32, 1 << 31, u32::MAX])));
            }
        }
    }
}

/// Members whose value is the name of a constant: the AST keeps the name.
fn named_values(s: &mut Spec, r: &mut Rng) {
    let consts: Vec<String> = s.items.iter().filter(|i| matches!(i, Item::Const { .. })).map(|i| i.name().to_string()).collect();
    for it in s.items.iter_mut() {
        if let Item::Enum { members, .. } = it {
            for m in members.iter_mut() {
                if !consts.is_empty() && r.pct(8) {
                    m.1.sym = Some(r.pick(&consts).clone());
                } else if r.pct(5) {
                    // Values beyond i32.
                    m.1 = Num::spelt(r.next() >> r.below(40), r.pct(60), r);
                }
            }
        }
    }
}

// ------------------------------------------------------------------------- C13

/// Names of all types from which an opaque is reachable.
fn want_generic(s: &Spec) -> BTreeSet<String> {
    let e = Env::new(s.clone());
    e.reach(&|d: &Decl| d.ty == Ty::Opaque).into_iter().filter(|x| x.1).map(|x| x.0).collect()
}

fn check13(log: &mut Log, s: &Spec, text: &str, emitted: bool) {
    log.evals += 1;
    let want = want_generic(s);
    log.count("types", s.items.len() as u64);
    log.count("generic_types", want.len() as u64);
    let a = match parse(text) {
        Ok(a) => a,
        Err(e) => {
            log.violation("the specification is not accepted", text, &e);
            return;
        }
    };
    let names: HashSet<&str> = s.items.iter().map(|i| i.name()).collect();
    let got: BTreeSet<String> = a.generics().0.iter().filter(|n| names.contains(n.as_str())).cloned().collect();
    if got != want {
        log.violation(
            "generics() differs from reachability",
            text,
            &format!(
                "not generic {:?} wrongly generic {:?}",
                want.difference(&got).collect::<Vec<_>>(),
                got.difference(&want).collect::<Vec<_>>()
            ),
        );
        return;
    }
    for n in &names {
        if a.generics().contains(n) != want.contains(*n) {
            log.violation("contains() differs from the index", text, n);
        }
    }
    if !emitted {
        return;
    }
    let o = match catch_unwind(AssertUnwindSafe(|| fastxdr::Generator::default().generate(text).map_err(|e| e.to_string()))) {
        Ok(Ok(o)) => o,
        _ => {
            log.count("not_generated", 1);
            return;
        }
    };
    log.count("modules", 1);
    let t = rust_tokens(&o);
    let mut seen: BTreeMap<&str, (u32, u32)> = BTreeMap::new();
    for w in 0..t.len().saturating_sub(2) {
        let decl = (t[w] == "struct" || t[w] == "enum") && names.contains(t[w + 1].as_str());
        let imp = t[w] == "for" && names.contains(t[w + 1].as_str());
        if decl || imp {
            let n = t[w + 1].as_str();
            let c = seen.entry(n).or_insert((0, 0));
            if decl {
                c.0 += 1
            } else {
                c.1 += 1
            }
            log.count("emitted_headers", 1);
            if (t[w + 2] == "<") != want.contains(n) {
                log.violation(
                    "emitted item carries the parameter exactly when it must not",
                    text,
                    &t[w.saturating_sub(12)..(w + 6).min(t.len())].join(" "),
                );
            }
        }
    }
    for i in &s.items {
        if matches!(i, Item::Const { .. }) {
            continue;
        }
        // A typedef of its own name declares no type.
        if matches!(i, Item::Typedef { name, decl } if decl.ty == Ty::Name(name.clone())) {
            continue;
        }
        let c = seen.get(i.name()).copied().unwrap_or((0, 0));
        if c.0 != 1 || c.1 < 3 {
            log.violation(
                "a type, a decoder or a size impl is missing",
                text,
                &format!("{}: {} declarations, {} impls", i.name(), c.0, c.1),
            );
        }
    }
}

/// Exhaustive graphs of `k` declarations, slice `part` of `parts`; then `n` random ones.
fn c13(seed: u64, k: u64, part: u64, parts: u64, n: u64, out: &str) {
    let mut log = Log::new(out);
    for kk in 1..=k as usize {
        const FAMILIES: [[&str; 5]; 6] = [
            ["tq", "tb", "tz", "tm", "tc"],
            ["blob_t", "node_t", "b_t", "t_t", "blob_s"],
            ["item4", "item40", "item400", "item", "ite"],
            ["Node", "node", "NODE", "nodE", "nOde"],
            ["zz_", "zz__", "_zz", "__zz", "zz"],
            ["opaque_t", "string_t", "int4", "union_s", "opaquely"],
        ];
        let targets = kk + 2;
        // Shapes: typedef, struct with one or two fields, union with an arm and a default.
        let per = if kk <= 3 { targets + 2 * targets * targets } else { targets + targets * targets };
        let total = (per as u64).pow(kk as u32);
        let mut g = part;
        while g < total {
            let mut x = g;
            let mut r = Rng::new(&[g, kk as u64, 13]);
            let family = FAMILIES[r.below(6)];
            let shift = r.below(5);
            let names: Vec<String> = (0..kk).map(|i| family[(i + shift) % 5].to_string()).collect();
            let mut items = Vec::new();
            for i in 0..kk {
                let c = (x % per as u64) as usize;
                x /= per as u64;
                let mut d = |t: usize, named_only: bool| -> Decl {
                    let ty = match t {
                        0 => Ty::Opaque,
                        1 => Ty::Prim(Prim::U32),
                        t => Ty::Name(names[t - 2].clone()),
                    };
                    // The container does not matter: taken at random, by graph.
                    let k = if named_only { 0 } else { r.below(4) };
                    match (k, &ty) {
                        (1, Ty::Name(_)) => Decl { ty, kind: Kind::None, opt: true },
                        (1, Ty::Opaque) => Decl::new(ty, Kind::Var(Some(Bound::Lit(4)))),
                        (2, Ty::Prim(_)) => Decl::new(ty, Kind::Fixed(Bound::Lit(2))),
                        (2, _) => Decl::new(ty, Kind::Var(None)),
                        (3, _) => Decl::new(ty, Kind::Fixed(Bound::Lit(2))),
                        _ => Decl::plain(ty),
                    }
                };
                let name = names[i].clone();
                items.push(if c < targets {
                    let mut decl = d(c, false);
                    decl.opt = false;
                    Item::Typedef { name, decl }
                } else if c < targets + targets * targets {
                    let c = c - targets;
                    let fields = vec![("x".to_string(), d(c % targets, false)), ("y".to_string(), d(c / targets, false))];
                    Item::Struct { name, fields }
                } else {
                    let c = c - targets - targets * targets;
                    Item::Union {
                        name,
                        dname: "d".into(),
                        dty: Ty::Prim(Prim::U32),
                        arms: vec![
                            Arm { labels: vec![Label::Num(1)], default: false, body: Some(("x".into(), d(c % targets, true))) },
                            Arm { labels: vec![], default: true, body: Some(("y".into(), d(c / targets, true))) },
                        ],
                    }
                });
            }
            let s = Spec { items };
            let text = print::plain(&s);
            log.distinct.insert(g * 8 + kk as u64);
            check13(&mut log, &s, &text, g % 40 == 7);
            log.count(&format!("graphs_of_{}", kk), 1);
            g += parts;
        }
    }
    // Long chains and ladders.
    let mut job = 0u64;
    for len in (1..=40).chain([48, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513, 1025, 2050]) {
        for order in 0..3 {
            for shape in 0..5 {
                job += 1;
                if job % parts != part || (len > 600 && shape > 1) {
                    continue;
                }
                let mut r = Rng::new(&[seed, len as u64, order, shape, 0x13c]);
                let s = chain(&mut r, len, order, shape);
                let text = print::plain(&s);
                log.distinct.insert(fnv(&[text.as_bytes()]));
                check13(&mut log, &s, &text, len <= 66 || (len < 300 && shape == 0));
                log.count("long_chains", 1);
            }
        }
    }
    // Random graphs.
    for i in 0..n {
        let idx = i * parts + part;
        let mut r = Rng::new(&[seed, idx, 0x13]);
        let s = if i % 24 == 10 {
            giant(seed, i / 24 + part, *r.pick(&[129, 257, 300, 513, 1025]))
        } else if i % 3 == 2 {
            random_spec(seed, idx, &Prof { types: (8, 40), ..Prof::named("C01") })
        } else {
            graph(&mut r)
        };
        let text = if i % 2 == 0 { print::plain(&s) } else { print::layout(&s, &mut r, true, 10) };
        log.distinct.insert(fnv(&[text.as_bytes()]));
        if log.samples.len() < 3 && i % 11 == 5 {
            let g = want_generic(&s);
            log.samples.push(format!("{} of {} types generic in {:?}", g.len(), s.items.len(), text.chars().take(150).collect::<String>()));
        }
        check13(&mut log, &s, &text, true);
        log.count("random_graphs", 1);
    }
    log.finish();
}

/// `len` types in a row: every one holds the one before, the first an opaque or not.
fn chain(r: &mut Rng, len: usize, order: u64, shape: u64) -> Spec {
    let names: Vec<String> = (0..len).map(|i| format!("{}{}", ["n", "A", "zz", "m_"][r.below(4)], i)).collect();
    let end = match r.below(8) {
        0 => Ty::Str,
        1 => Ty::Prim(Prim::U32),
        _ => Ty::Opaque,
    };
    let mut items = Vec::new();
    for i in 0..len {
        let name = names[i].clone();
        let ty = if i == 0 { end.clone() } else { Ty::Name(names[i - 1].clone()) };
        let prim = Decl::plain(Ty::Prim(Prim::U32));
        let s = if shape == 4 { r.below(4) as u64 } else { shape };
        items.push(match s {
            0 => {
                // A typedef of a string or primitive names no array.
                let kind = match r.below(4) {
                    0 if i > 0 => Kind::Fixed(Bound::Lit(1)),
                    1 if i > 0 => Kind::Var(None),
                    _ => Kind::None,
                };
                Item::Typedef { name, decl: Decl::new(ty, kind) }
            }
            1 => {
                let opt = i > 0 && r.pct(40);
                let kind = if i > 0 && !opt && r.pct(40) { Kind::Var(None) } else { Kind::None };
                let mut fields = vec![("x".to_string(), Decl { ty, kind, opt })];
                if r.pct(50) {
                    fields.insert(r.below(2), ("y".to_string(), prim));
                }
                Item::Struct { name, fields }
            }
            2 => {
                let mut arms = vec![Arm { labels: vec![Label::Num(1)], default: false, body: None }];
                let default = r.pct(40);
                arms.push(Arm {
                    labels: if default { vec![] } else { vec![Label::Num(2), Label::Num(3)] },
                    default,
                    body: Some(("x".into(), Decl::plain(ty))),
                });
                Item::Union { name, dname: "d".into(), dty: Ty::Prim(Prim::U32), arms }
            }
            _ => {
                // A rung: also two below, or back to the top.
                let far = if i > 1 { Ty::Name(names[i - 2].clone()) } else { Ty::Prim(Prim::Bool) };
                let mut fields = vec![("x".to_string(), Decl::plain(ty)), ("y".to_string(), Decl::plain(far))];
                if r.pct(30) {
                    fields.push(("z".to_string(), Decl { ty: Ty::Name(names[len - 1].clone()), kind: Kind::None, opt: true }));
                }
                Item::Struct { name, fields }
            }
        });
    }
    match order {
        0 => {}
        1 => items.reverse(),
        _ => r.shuffle(&mut items),
    }
    Spec { items }
}

/// A large graph: few opaque leaves, long chains, diamonds, cycles, random order.
fn graph(r: &mut Rng) -> Spec {
    let n = r.range(4, 60);
    let mut names: Vec<String> = (0..n).map(|i| format!("{}{}", ["n", "A", "zz", "m_"][r.below(4)], i)).collect();
    r.shuffle(&mut names);
    let chainy = r.pct(50);
    let leaves: Vec<usize> = (0..r.below(4)).map(|_| r.below(n)).collect();
    let mut items = Vec::new();
    for i in 0..n {
        let target = |r: &mut Rng| -> Ty {
            let j = if chainy && i > 0 && r.pct(80) {
                i - 1
            } else if i > 0 && r.pct(80) {
                r.below(i)
            } else {
                r.below(n)
            };
            Ty::Name(names[j].clone())
        };
        let leaf = leaves.contains(&i);
        let ty = |r: &mut Rng| -> Ty {
            match r.below(10) {
                0 => Ty::Prim(Prim::U32),
                1 => Ty::Str,
                _ => target(r),
            }
        };
        let kind = |r: &mut Rng| match r.below(4) {
            0 => Kind::Var(None),
            1 => Kind::Var(Some(Bound::Lit(3))),
            2 => Kind::Fixed(Bound::Lit(2)),
            _ => Kind::None,
        };
        let name = names[i].clone();
        match r.below(3) {
            0 => {
                let ty = if leaf { Ty::Opaque } else { ty(r) };
                let kind = if ty == Ty::Str { Kind::Var(None) } else { kind(r) };
                items.push(Item::Typedef { name, decl: Decl::new(ty, kind) });
            }
            1 => {
                let mut fields = Vec::new();
                for f in 0..r.range(1, 4) {
                    let ty = ty(r);
                    let kind = if ty == Ty::Str { Kind::None } else { kind(r) };
                    let opt = matches!(ty, Ty::Name(_)) && r.pct(30);
                    fields.push((format!("f{}", f), Decl { ty, kind: if opt { Kind::None } else { kind }, opt }));
                }
                if leaf {
                    let k = r.below(fields.len() + 1);
                    fields.insert(k, ("leaf".into(), Decl::new(Ty::Opaque, kind(r))));
                }
                items.push(Item::Struct { name, fields });
            }
            _ => {
                let mut arms = Vec::new();
                let m = r.range(1, 4);
                let at = r.below(m + 1);
                for f in 0..m {
                    let body = if r.pct(25) {
                        None
                    } else if leaf && f == at {
                        Some(("x".to_string(), Decl::plain(Ty::Opaque)))
                    } else {
                        Some(("x".to_string(), Decl::plain(ty(r))))
                    };
                    let mut labels = vec![Label::Num(2 * f as u64)];
                    if r.pct(30) {
                        labels.push(Label::Num(2 * f as u64 + 1));
                    }
                    arms.push(Arm { labels, default: false, body });
                }
                if at == m && leaf {
                    arms.push(Arm { labels: vec![], default: true, body: Some(("x".into(), Decl::plain(Ty::Opaque))) });
                } else if r.pct(40) {
                    let body = if r.pct(50) { None } else { Some(("x".to_string(), Decl::plain(ty(r)))) };
                    arms.push(Arm { labels: vec![], default: true, body });
                }
                items.push(Item::Union { name, dname: "d".into(), dty: Ty::Prim(Prim::U32), arms });
            }
        }
    }
    r.shuffle(&mut items);
    Spec { items }
}
