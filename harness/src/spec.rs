//! Declaration model of an XDR specification. Knows nothing of fastxdr.
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Prim {
    U32,
    I32,
    U64,
    I64,
    F32,
    F64,
    Bool,
}

impl Prim {
    pub fn rust(self) -> &'static str {
        match self {
            Prim::U32 => "u32",
            Prim::I32 => "i32",
            Prim::U64 => "u64",
            Prim::I64 => "i64",
            Prim::F32 => "f32",
            Prim::F64 => "f64",
            Prim::Bool => "bool",
        }
    }
    pub fn size(self) -> usize {
        match self {
            Prim::U64 | Prim::I64 | Prim::F64 => 8,
            _ => 4,
        }
    }
    pub fn spellings(self) -> &'static [&'static str] {
        match self {
            Prim::U32 => &["unsigned int", "uint32_t", "u32", "unsigned"],
            Prim::I32 => &["int", "int32_t", "i32"],
            Prim::U64 => &["unsigned hyper", "uint64_t", "u64"],
            Prim::I64 => &["hyper", "int64_t", "i64"],
            Prim::F32 => &["float"],
            Prim::F64 => &["double"],
            Prim::Bool => &["bool"],
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Prim(Prim),
    Str,
    Opaque,
    Name(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Bound {
    Lit(u32),
    Const(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    None,
    Fixed(Bound),
    Var(Option<Bound>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Decl {
    pub ty: Ty,
    pub kind: Kind,
    pub opt: bool,
}

impl Decl {
    pub fn plain(ty: Ty) -> Decl {
        Decl { ty, kind: Kind::None, opt: false }
    }
    pub fn new(ty: Ty, kind: Kind) -> Decl {
        Decl { ty, kind, opt: false }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Num {
    pub val: u64,
    /// Spelt in hexadecimal (constants and enum values only).
    pub hex: bool,
    /// Spelling of the digits: leading zeros, and upper case ones.
    pub zeros: usize,
    pub upper: bool,
    /// Spelt as the name of a constant (C12 only).
    pub sym: Option<String>,
}

impl Num {
    pub fn new(val: u64, hex: bool) -> Num {
        Num { val, hex, zeros: 0, upper: false, sym: None }
    }
    /// One of the spellings of `val`.
    pub fn spelt(val: u64, hex: bool, r: &mut crate::rng::Rng) -> Num {
        let odd = hex && r.pct(35);
        Num { val, hex, zeros: if odd { r.below(4) } else { 0 }, upper: odd && r.pct(60), sym: None }
    }
    pub fn text(&self) -> String {
        if let Some(s) = &self.sym {
            s.clone()
        } else if self.hex {
            let d = if self.upper { format!("{:X}", self.val) } else { format!("{:x}", self.val) };
            format!("0x{}{}", "0".repeat(self.zeros), d)
        } else {
            format!("{}", self.val)
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Label {
    Num(u64),
    Id(String),
}

impl Label {
    pub fn text(&self) -> String {
        match self {
            Label::Num(n) => n.to_string(),
            Label::Id(s) => s.clone(),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Arm {
    pub labels: Vec<Label>,
    pub default: bool,
    /// None is void.
    pub body: Option<(String, Decl)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Const { name: String, val: Num },
    Enum { name: String, members: Vec<(String, Num)> },
    Struct { name: String, fields: Vec<(String, Decl)> },
    Union { name: String, dname: String, dty: Ty, arms: Vec<Arm> },
    Typedef { name: String, decl: Decl },
}

impl Item {
    pub fn name(&self) -> &str {
        match self {
            Item::Const { name, .. }
            | Item::Enum { name, .. }
            | Item::Struct { name, .. }
            | Item::Union { name, .. }
            | Item::Typedef { name, .. } => name,
        }
    }
    /// The declarators an item is made of.
    pub fn decls(&self) -> Vec<&Decl> {
        match self {
            Item::Struct { fields, .. } => fields.iter().map(|f| &f.1).collect(),
            Item::Union { arms, .. } => arms.iter().filter_map(|a| a.body.as_ref().map(|b| &b.1)).collect(),
            Item::Typedef { decl, .. } => vec![decl],
            _ => vec![],
        }
    }
    pub fn decls_mut(&mut self) -> Vec<&mut Decl> {
        match self {
            Item::Struct { fields, .. } => fields.iter_mut().map(|f| &mut f.1).collect(),
            Item::Union { arms, .. } => arms.iter_mut().filter_map(|a| a.body.as_mut().map(|b| &mut b.1)).collect(),
            Item::Typedef { decl, .. } => vec![decl],
            _ => vec![],
        }
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Spec {
    pub items: Vec<Item>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Disc {
    Prim(Prim),
    Enum(String),
}

/// One variant of the Rust enum documented for a union.
#[derive(Clone, Debug)]
pub struct Variant {
    pub rust: String,
    /// None for default.
    pub disc: Option<i64>,
    pub body: Option<Decl>,
}

pub struct Env {
    pub spec: Spec,
    idx: HashMap<String, usize>,
    members: HashMap<String, (String, i64)>,
    generic: HashMap<String, bool>,
}

/// A typedef fastxdr does not emit: a primitive aliased to its own name.
pub fn is_self_typedef(name: &str, d: &Decl) -> bool {
    matches!(&d.ty, Ty::Prim(p) if p.spellings().contains(&name))
}

impl Env {
    pub fn new(spec: Spec) -> Env {
        let mut idx = HashMap::new();
        let mut members = HashMap::new();
        for (i, it) in spec.items.iter().enumerate() {
            idx.insert(it.name().to_string(), i);
            if let Item::Enum { name, members: ms } = it {
                for (m, v) in ms {
                    members.insert(m.clone(), (name.clone(), v.val as i64));
                }
            }
        }
        let mut e = Env { spec, idx, members, generic: HashMap::new() };
        e.generic = e.reach(&|d: &Decl| d.ty == Ty::Opaque);
        e
    }

    /// Names of the struct/union/typedef declarations from which a declarator with `p` is
    /// reachable, by depth first search from every name (no fixpoint iteration).
    pub fn reach(&self, p: &dyn Fn(&Decl) -> bool) -> HashMap<String, bool> {
        let mut out = HashMap::new();
        for it in &self.spec.items {
            if matches!(it, Item::Const { .. } | Item::Enum { .. }) {
                continue;
            }
            let mut seen = std::collections::HashSet::new();
            let mut todo = vec![it.name().to_string()];
            let mut hit = false;
            while let Some(n) = todo.pop() {
                if !seen.insert(n.clone()) {
                    continue;
                }
                if let Some(x) = self.item(&n) {
                    for d in x.decls() {
                        if p(d) {
                            hit = true;
                        }
                        if let Ty::Name(m) = &d.ty {
                            todo.push(m.clone());
                        }
                    }
                }
            }
            out.insert(it.name().to_string(), hit);
        }
        out
    }

    pub fn item(&self, n: &str) -> Option<&Item> {
        self.idx.get(n).map(|i| &self.spec.items[*i])
    }
    pub fn generic(&self, n: &str) -> bool {
        self.generic.get(n).copied().unwrap_or(false)
    }
    pub fn konst(&self, n: &str) -> Option<u64> {
        match self.item(n) {
            Some(Item::Const { val, .. }) => Some(val.val),
            _ => None,
        }
    }
    pub fn member(&self, n: &str) -> Option<&(String, i64)> {
        self.members.get(n)
    }
    pub fn bound(&self, b: &Bound) -> u64 {
        match b {
            Bound::Lit(n) => *n as u64,
            Bound::Const(c) => self.konst(c).expect("bound constant"),
        }
    }
    /// Maximum of a counted declarator.
    pub fn max(&self, k: &Kind) -> Option<u64> {
        match k {
            Kind::Var(Some(b)) => Some(self.bound(b)),
            _ => None,
        }
    }
    pub fn disc(&self, t: &Ty) -> Disc {
        let mut t = t.clone();
        for _ in 0..1000 {
            match &t {
                Ty::Prim(p) => return Disc::Prim(*p),
                Ty::Name(n) => match self.item(n) {
                    Some(Item::Enum { name, .. }) => return Disc::Enum(name.clone()),
                    Some(Item::Typedef { decl, .. }) => t = decl.ty.clone(),
                    _ => panic!("bad discriminant {}", n),
                },
                _ => panic!("bad discriminant"),
            }
        }
        panic!("discriminant cycle")
    }
    pub fn label_value(&self, l: &Label) -> i64 {
        match l {
            Label::Num(n) => *n as i64,
            Label::Id(s) => match s.as_str() {
                "TRUE" => 1,
                "FALSE" => 0,
                s => self
                    .konst(s)
                    .map(|v| v as i64)
                    .or_else(|| self.member(s).map(|m| m.1))
                    .unwrap_or_else(|| panic!("unresolved label {}", s)),
            },
        }
    }
    /// The variants documented for a union and, per label that falls through into a
    /// default with data, the discriminant that selects `default`.
    pub fn variants(&self, arms: &[Arm]) -> Vec<Variant> {
        let mut out = Vec::new();
        for a in arms {
            let body = a.body.as_ref().map(|b| b.1.clone());
            if !(a.default && body.is_some()) {
                for l in &a.labels {
                    out.push(Variant {
                        rust: variant_name(&l.text()),
                        disc: Some(self.label_value(l)),
                        body: body.clone(),
                    });
                }
            }
            if a.default {
                out.push(Variant { rust: "default".into(), disc: None, body: body.clone() });
            }
        }
        out
    }
    /// All discriminant values a union declares.
    pub fn declared(&self, arms: &[Arm]) -> Vec<i64> {
        arms.iter().flat_map(|a| a.labels.iter().map(|l| self.label_value(l))).collect()
    }
    pub fn type_names(&self) -> Vec<String> {
        self.spec
            .items
            .iter()
            .filter(|i| match i {
                Item::Const { .. } => false,
                Item::Typedef { name, decl } => !is_self_typedef(name, decl),
                _ => true,
            })
            .map(|i| i.name().to_string())
            .collect()
    }
    /// Smallest encoded size of a declarator (used to keep specs finite and small).
    pub fn min_size(&self, d: &Decl, fuel: usize) -> u64 {
        if fuel == 0 {
            return 1 << 40;
        }
        if d.opt {
            return 4;
        }
        let one = |fuel| match &d.ty {
            Ty::Prim(p) => p.size() as u64,
            Ty::Str | Ty::Opaque => 4,
            Ty::Name(n) => self.min_item(n, fuel - 1),
        };
        match &d.kind {
            Kind::Var(_) => 4,
            Kind::Fixed(b) if d.ty == Ty::Opaque => (self.bound(b) + 3) / 4 * 4,
            Kind::Fixed(b) => self.bound(b).saturating_mul(one(fuel)),
            Kind::None => one(fuel),
        }
    }
    pub fn min_item(&self, n: &str, fuel: usize) -> u64 {
        if fuel == 0 {
            return 1 << 40;
        }
        match self.item(n) {
            Some(Item::Struct { fields, .. }) => {
                fields.iter().map(|f| self.min_size(&f.1, fuel)).fold(0, |a, b| a.saturating_add(b))
            }
            Some(Item::Union { arms, dty, .. }) => {
                let d = match self.disc(dty) {
                    Disc::Prim(p) => p.size() as u64,
                    _ => 4,
                };
                d + arms
                    .iter()
                    .map(|a| a.body.as_ref().map(|b| self.min_size(&b.1, fuel)).unwrap_or(0))
                    .min()
                    .unwrap_or(0)
            }
            Some(Item::Typedef { decl, .. }) => self.min_size(decl, fuel),
            _ => 4,
        }
    }
    /// Rust type documented for a declarator; `c` is the byte container.
    pub fn rust_ty(&self, d: &Decl, c: &str) -> String {
        let one = match &d.ty {
            Ty::Prim(p) => p.rust().to_string(),
            Ty::Str => "String".into(),
            Ty::Opaque => c.to_string(),
            Ty::Name(n) => self.rust_name(n, c),
        };
        let one = match (&d.ty, &d.kind) {
            (Ty::Str, _) | (Ty::Opaque, _) | (_, Kind::None) => one,
            (_, Kind::Fixed(b)) => format!("[{}; {}]", one, self.bound(b)),
            (_, Kind::Var(_)) => format!("Vec<{}>", one),
        };
        if d.opt {
            format!("Option<Box<{}>>", one)
        } else {
            one
        }
    }
    pub fn rust_name(&self, n: &str, c: &str) -> String {
        if self.generic(n) {
            format!("xdr::{}<{}>", n, c)
        } else {
            format!("xdr::{}", n)
        }
    }
}

pub const RESERVED: &[&str] = &[
    "as", "async", "await", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern",
    "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub",
    "ref", "return", "Self", "self", "static", "struct", "super", "trait", "true", "type", "union",
    "unsafe", "use", "where", "while", "abstract", "become", "box", "do", "final", "macro",
    "override", "priv", "try", "typeof", "unsized", "virtual", "yield",
];

/// Documented Rust name of a struct field.
pub fn field_name(n: &str) -> String {
    if RESERVED.contains(&n) {
        format!("{}_v", n)
    } else {
        n.to_string()
    }
}

/// Documented Rust name of a union variant.
pub fn variant_name(l: &str) -> String {
    if l.starts_with(|c: char| c.is_ascii_digit()) {
        format!("v_{}", l)
    } else {
        l.to_string()
    }
}
