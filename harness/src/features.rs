//! What shapes of declarations a specification holds: the reach of the generators.
use crate::spec::*;
use std::collections::BTreeSet;

fn bound(b: &Bound, env: &Env) -> &'static str {
    let n = env.bound(b);
    match b {
        Bound::Lit(_) => match n {
            0 => "0",
            1..=3 => "1-3",
            4..=255 => "small",
            256..=65535 => "medium",
            _ => "large",
        },
        Bound::Const(_) => match n {
            0 => "const 0",
            1..=3 => "const 1-3",
            4..=255 => "const small",
            256..=65535 => "const medium",
            _ => "const large",
        },
    }
}

fn kind(d: &Decl, env: &Env) -> String {
    let k = match &d.kind {
        Kind::None => String::new(),
        Kind::Fixed(b) => format!("[{}]", bound(b, env)),
        Kind::Var(None) => "<>".into(),
        Kind::Var(Some(b)) => format!("<{}>", bound(b, env)),
    };
    format!("{}{}", k, if d.opt { "*" } else { "" })
}

/// `plain` drops the bounds of what is behind a name.
fn shape(t: &Ty, env: &Env, fuel: usize) -> String {
    match t {
        Ty::Prim(p) => p.rust().into(),
        Ty::Str => "string".into(),
        Ty::Opaque => "opaque".into(),
        Ty::Name(n) => match env.item(n) {
            Some(Item::Enum { .. }) => "enum".into(),
            Some(Item::Struct { .. }) => if env.generic(n) { "struct<T>" } else { "struct" }.into(),
            Some(Item::Union { .. }) => if env.generic(n) { "union<T>" } else { "union" }.into(),
            Some(Item::Typedef { decl, .. }) => {
                if fuel == 0 {
                    "typedef...".into()
                } else {
                    let k = match decl.kind {
                        Kind::None => "",
                        Kind::Fixed(_) => "[n]",
                        Kind::Var(None) => "<>",
                        Kind::Var(Some(_)) => "<n>",
                    };
                    format!("typedef({}{}{})", shape(&decl.ty, env, fuel - 1), k, if decl.opt { "*" } else { "" })
                }
            }
            _ => "?".into(),
        },
    }
}

fn class(d: &Decl) -> &'static str {
    match (&d.kind, d.opt) {
        (_, true) => "*",
        (Kind::None, _) => "",
        (Kind::Fixed(_), _) => "[]",
        (Kind::Var(None), _) => "<>",
        (Kind::Var(_), _) => "<n>",
    }
}

/// The name a declaration ends at, behind typedefs that only rename.
fn chain(t: &Ty, env: &Env) -> Option<(usize, String)> {
    let (mut t, mut n) = (t, 0);
    loop {
        match t {
            Ty::Name(x) => match env.item(x) {
                Some(Item::Typedef { decl, .. }) if decl.kind == Kind::None && !decl.opt && n < 50 => {
                    t = &decl.ty;
                    n += 1;
                }
                _ => return Some((n, x.clone())),
            },
            _ => return None,
        }
    }
}

fn holds(env: &Env, d: &Decl) -> bool {
    match &d.ty {
        Ty::Opaque => true,
        Ty::Name(n) => env.generic(n),
        _ => false,
    }
}

/// `n` of the random specifications that between them hold as much as possible.
pub fn cover(profile: &str, seed: u64, first: usize, n: usize, pool: usize, held: &[&str]) -> Vec<String> {
    let mut seen: std::collections::HashSet<String> = held.iter().flat_map(|o| of(&crate::corpus::origin(o))).collect();
    let mut all: Vec<(String, Vec<String>, f64)> = (first..first + pool)
        .map(|i| {
            let o = format!("r:{}:{}:{}", profile, seed, i);
            let s = crate::corpus::origin(&o);
            let f = of(&s).into_iter().collect();
            let size = s.items.iter().map(|i| 1 + i.decls().len()).sum::<usize>() as f64;
            (o, f, (20.0 + size).sqrt())
        })
        .collect();
    let mut out = Vec::new();
    while out.len() < n && !all.is_empty() {
        let gain = |x: &(String, Vec<String>, f64)| x.1.iter().filter(|f| !seen.contains(*f)).count() as f64 / x.2;
        let mut best = 0;
        let mut most = -1.0;
        for (k, x) in all.iter().enumerate() {
            let g = gain(x);
            if g > most {
                most = g;
                best = k;
            }
        }
        let x = all.swap_remove(best);
        seen.extend(x.1);
        out.push(x.0);
    }
    out
}

pub fn of(spec: &Spec) -> BTreeSet<String> {
    let env = Env::new(spec.clone());
    let mut out = BTreeSet::new();
    let pos: std::collections::HashMap<&str, usize> = spec.items.iter().enumerate().map(|(k, i)| (i.name(), k)).collect();
    for (at, i) in spec.items.iter().enumerate() {
        let add = |out: &mut BTreeSet<String>, place: String, d: &Decl| {
            out.insert(format!("{} {}{}", place, shape(&d.ty, &env, 2), kind(d, &env)));
            for (_, n) in chain(&d.ty, &env) {
                // What an element, a link or a member holds in turn.
                let c = class(d);
                if let Some(x @ (Item::Struct { .. } | Item::Union { .. })) = env.item(&n) {
                    let w = place.split(' ').next().unwrap();
                    for e in x.decls() {
                        out.insert(format!("{}{} of what holds {}{}", w, c, shape(&e.ty, &env, 1), class(e)));
                        if let Ty::Name(m) = &e.ty {
                            for f in env.item(m).map(|i| i.decls()).unwrap_or_default() {
                                out.insert(format!("{}{} of what holds {} of {}{}", if w == "typedef" { w } else { "field" }, c, class(e), shape(&f.ty, &env, 0), class(f)));
                            }
                        }
                    }
                }
            }
            if let Ty::Name(n) = &d.ty {
                let p = pos.get(n.as_str()).copied().unwrap_or(0);
                let o = if p < at { "earlier" } else if p == at { "itself" } else { "later" };
                out.insert(format!("{} refers to {} {}", place.split(' ').next().unwrap(), o, shape(&d.ty, &env, 1)));
            }
        };
        match i {
            Item::Struct { fields, .. } => {
                let n = fields.len();
                out.insert(format!("struct of {}{}", match n { 0..=12 => n.to_string(), 13..=16 => "13-16".into(), 17..=32 => "17-32".into(), _ => "more".to_string() }, if env.generic(i.name()) { "<T>" } else { "" }));
                for (k, f) in fields.iter().enumerate() {
                    if RESERVED.contains(&f.0.as_str()) {
                        out.insert(format!("field named {}", f.0));
                    }
                    add(&mut out, "field".into(), &f.1);
                    let p = if fields.len() == 1 { "only" } else if k == 0 { "first" } else if k + 1 == fields.len() { "last" } else { continue };
                    if env.generic(i.name()) && fields.len() <= 12 {
                        let only: Vec<usize> = fields.iter().enumerate().filter(|(_, f)| holds(&env, &f.1)).map(|x| x.0).collect();
                        out.insert(format!("struct of {} with T in {:?}", fields.len(), if only.len() == 1 { only } else { vec![] }));
                    }
                    add(&mut out, format!("field {}", p), &Decl { ty: f.1.ty.clone(), kind: match f.1.kind { Kind::None => Kind::None, Kind::Fixed(_) => Kind::Fixed(Bound::Lit(4)), _ => Kind::Var(None) }, opt: f.1.opt });
                }
            }
            Item::Typedef { decl, .. } => add(&mut out, "typedef".into(), decl),
            Item::Union { dty, arms, .. } => {
                let d = shape(dty, &env, 2);
                let many = |n: usize| match n { 0..=3 => n.to_string(), 4..=8 => "4-8".into(), 9..=16 => "9-16".into(), _ => "more".to_string() };
                let data = arms.iter().filter(|a| a.body.is_some() && !a.default).count();
                let voids = arms.iter().filter(|a| a.body.is_none() && !a.default).count();
                let default = arms.iter().find(|a| a.default).map(|a| if a.body.is_some() { "a default" } else { "a void default" }).unwrap_or("no default");
                out.insert(format!("union of {} with {} arms and {}", d, many(data), default));
                out.insert(format!("union with {} arms, {} void ones and {}", many(data), many(voids), default));
                let longest = arms.iter().map(|a| a.labels.len()).max().unwrap_or(0);
                out.insert(format!("union with a group of {} and {}", many(longest), default));
                if let Some(a) = arms.iter().find(|a| a.default) {
                    out.insert(format!("union with {} labels and {}", many(a.labels.len()), default));
                    out.insert(format!("union of {} with {} labels and {}", d, many(a.labels.len().min(2)), default));
                }
                let last = arms.iter().rposition(|a| a.body.is_some()).unwrap_or(0);
                let before: usize = arms[..last].iter().filter(|a| a.body.is_none()).map(|a| a.labels.len()).sum();
                out.insert(format!("union with {} void labels before {} of its data arms", before.min(9), many(data)));
                if env.generic(i.name()) {
                    let only: Vec<usize> = arms.iter().enumerate().filter(|(_, a)| a.body.as_ref().map(|b| holds(&env, &b.1)).unwrap_or(false)).map(|x| x.0).collect();
                    if arms.len() <= 9 {
                        out.insert(format!("union of {} arms and {} with T in {:?}", arms.len(), default, if only.len() == 1 { only } else { vec![] }));
                    }
                }
                let mut t = dty.clone();
                let mut depth = 0;
                while let Ty::Name(n) = &t {
                    match env.item(n) {
                        Some(Item::Typedef { decl, .. }) if depth < 5 => t = decl.ty.clone(),
                        _ => break,
                    }
                    depth += 1;
                }
                out.insert(format!("union of {} behind {}", shape(&t, &env, 0), depth));
                for a in arms {
                    let l: BTreeSet<&str> = a
                        .labels
                        .iter()
                        .map(|l| match l {
                            Label::Num(_) => "number",
                            Label::Id(n) if n == "TRUE" || n == "FALSE" => "truth",
                            Label::Id(n) if env.konst(n).is_some() => "const",
                            Label::Id(_) => "member",
                        })
                        .collect();
                    let l = format!("{}{}{}", l.into_iter().collect::<Vec<_>>().join("+"), if a.labels.len() > 1 { " group" } else { "" }, if a.default { " default" } else { "" });
                    match &a.body {
                        None => {
                            out.insert(format!("arm of {} {} void", d, l));
                        }
                        Some(b) => {
                            add(&mut out, format!("arm {}", l), &b.1);
                            add(&mut out, format!("arm of {}", d), &b.1);
                        }
                    }
                }
            }
            Item::Enum { members, .. } => {
                out.insert(format!("enum of {}", match members.len() { 1 => "1", 2..=12 => "2-12", 13..=256 => "13-256", _ => "more" }));
            }
            Item::Const { .. } => {}
        }
    }
    out
}
