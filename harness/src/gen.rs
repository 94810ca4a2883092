//! Random specifications in the supported subset.
use crate::rng::Rng;
use crate::spec::*;
use std::collections::HashSet;

#[derive(Clone, Debug)]
pub struct Prof {
    pub types: (usize, usize),
    /// Allow bare inline `opaque x;` (never below a counted array).
    pub bare: bool,
    /// Weight of opaque/string declarators, in percent of the default.
    pub payload: usize,
    pub unions: usize,
    pub optional: usize,
    pub counted: usize,
    pub bounded: usize,
}

impl Prof {
    pub fn named(n: &str) -> Prof {
        let p = Prof { types: (5, 13), bare: true, payload: 100, unions: 100, optional: 100, counted: 100, bounded: 50 };
        match n {
            "C03" => Prof { bare: false, counted: 150, ..p },
            "C05" => Prof { payload: 200, counted: 160, bounded: 80, ..p },
            "C06" => Prof { unions: 300, optional: 150, types: (6, 14), ..p },
            "C08" => Prof { payload: 300, counted: 150, ..p },
            "C09" => Prof { counted: 250, payload: 150, ..p },
            "C04" => Prof { counted: 150, optional: 150, payload: 150, ..p },
            _ => p,
        }
    }
}

const TYPE_WORDS: &[&str] = &[
    "int_set", "unsigned_pair", "voided", "structure", "string_t", "opaque_ref", "hyperlink",
    "doubled", "floaty", "booly", "enumerated", "unionize", "typedefs", "constant", "switcher",
    "caseload", "defaulted", "nfs_fh", "READ4args", "CB_GETATTR4res", "Node", "entry", "verifier4",
    "a", "Zz", "unsigned_", "inty", "stateid4", "rec", "list", "blob", "hdr_t", "GSS", "X509",
];
const FIELD_WORDS: &[&str] = &[
    "type", "match", "async", "self", "ref", "move", "try", "final", "box", "yield", "loop", "in",
    "a", "b", "v", "c", "d", "n", "int_x", "unsigned_y", "opaque_len", "stringy", "voided", "data",
    "value", "next", "entry", "cookie", "fattr4", "case_id", "default_x", "switch_y", "structs",
    "enum_z", "uniontype", "UPPER", "mixedCase", "x1", "length", "flags", "hyper_q", "floaty",
    "double_d", "bool_b", "inner", "max", "limit", "sum", "out", "len", "status", "typedef_",
];
const MEMBER_WORDS: &[&str] = &[
    "NFS4_OK", "OP_READ", "TRUEX", "FALSEY", "int_m", "voidy", "SET_TO_CLIENT_TIME4", "mA", "caseX",
    "defaultX", "A", "Bb", "x_", "UNSIGNED", "opaqueM", "NF4DIR",
];

/// Words of the language and of the runtime.
const TAKEN: &[&str] = &[
    "unsigned", "int", "hyper", "float", "double", "string", "opaque", "bool", "void", "struct", "union", "enum", "switch", "case",
    "default", "const", "typedef", "u32", "u64", "i32", "i64", "f32", "f64", "TRUE", "FALSE", "Error", "Bytes", "String", "Option", "Vec",
    "Box", "Result", "Ok", "Err", "Some", "None", "T", "TryFrom", "WireSize", "DeserialiserExt", "Buf", "uint32_t", "int32_t", "uint64_t",
    "int64_t", "length", "quadruple", "usize", "str", "char", "u8", "Self",
];

struct Namer {
    used: HashSet<String>,
}

impl Namer {
    /// A name unused in the global scope (types, constants, members).
    fn global(&mut self, r: &mut Rng, words: &[&str]) -> String {
        loop {
            let w = r.pick(words);
            let n = if r.pct(6) && !self.used.is_empty() { self.twin(r) } else if r.pct(12) { odd_name(r) } else if r.pct(12) && w.len() > 3 {
                format!("{}{}", w, r.pick(&["", "_t", "_ref", "4args", "4res", "_s", "Type", "_", "s", "_v", "_list", "T", "Error"]))
            } else { match r.below(3) {
                0 => format!("{}{}", w, r.below(100)),
                1 => format!("{}_{}", w, r.below(30)),
                _ => format!("{}{}x", w, r.below(10)),
            } };
            if !TAKEN.contains(&n.as_str()) && !RESERVED.contains(&n.as_str()) && self.used.insert(n.clone()) {
                return n;
            }
        }
    }
    /// A name that differs from another one by case, by an underscore or by its end only.
    fn twin(&self, r: &mut Rng) -> String {
        let mut all: Vec<&String> = self.used.iter().collect();
        all.sort();
        let n = *r.pick(&all);
        match r.below(6) {
            0 => n.to_uppercase(),
            1 => n.to_lowercase(),
            2 => n.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect(),
            3 => n.clone() + "_",
            4 => n.clone() + &r.below(10).to_string(),
            _ => n.replace('_', ""),
        }
    }
}

/// Names of every shape that an identifier may have, clear of what the runtime uses.
fn odd_name(r: &mut Rng) -> String {
    let mut n = "_".repeat([0, 0, 0, 1, 2][r.below(5)]);
    n.push_str(r.pick(&["q", "Q", "zq", "Zq", "J"]));
    const TAIL: &[u8] = b"abcxyzABCXYZ0129__";
    let len = match r.below(10) {
        0 => r.range(60, 70),
        1 => r.range(250, 262),
        _ => r.range(1, 9),
    };
    if len > 20 {
        // Alike but for the end.
        n = "Qlong_".to_string() + &"x".repeat(len - 2);
    }
    for _ in 0..if len > 20 { 3 } else { len } {
        n.push(TAIL[r.below(TAIL.len())] as char);
    }
    // Twins that differ in case or by an underscore only are different names.
    match r.below(8) {
        0 => n.push('_'),
        1 => n.push_str("__"),
        2 => n = n.to_lowercase(),
        3 => n = n.to_uppercase(),
        _ => {}
    }
    n
}

fn bound_small(r: &mut Rng, consts: &[(String, u64)], lo: u32, hi: u32, pconst: usize) -> Bound {
    let c: Vec<&(String, u64)> = consts.iter().filter(|c| c.1 >= lo as u64 && c.1 <= hi as u64).collect();
    if !c.is_empty() && r.pct(pconst) {
        Bound::Const(r.pick(&c).0.clone())
    } else {
        Bound::Lit(r.range(lo as usize, hi as usize) as u32)
    }
}

/// The size of a fixed array: mostly small, rarely past the sizes that the standard
/// library or an unrolled decoder might treat specially.
fn fixed(r: &mut Rng, consts: &[(String, u64)], hi: u32) -> Bound {
    if r.pct(94) {
        return bound_small(r, consts, 1, hi, 40);
    }
    match hi {
        0..=4 => bound_small(r, consts, 5, 40, 40),
        5..=12 => bound_small(r, consts, 13, 140, 40),
        _ => bound_small(r, consts, 41, 5000, 40),
    }
}

/// A bound of a counted declarator: mostly small, sometimes large.
fn bound_var(r: &mut Rng, consts: &[(String, u64)], p: &Prof) -> Option<Bound> {
    if !r.pct(p.bounded) {
        return None;
    }
    Some(match r.weighted(&[60, 15, 15, 10, 6]) {
        0 => bound_small(r, consts, 1, 12, 50),
        4 => bound_small(r, consts, 0, 0, 50),
        1 => bound_small(r, consts, 13, 300, 60),
        2 => {
            if consts.is_empty() {
                Bound::Lit(7)
            } else {
                Bound::Const(r.pick(consts).0.clone())
            }
        }
        _ => Bound::Lit(match r.below(12) {
            // No power of anything.
            0..=3 => r.range(300, 70_000) as u32,
            4 => r.range(70_001, 1_000_000) as u32,
            _ => *r.pick(&[255, 256, 1023, 1024, 4096, 65535, 65536, 1 << 20, i32::MAX as u32, u32::MAX, 128, 2]),
        }),
    })
}

pub fn random_spec(seed: u64, idx: u64, p: &Prof) -> Spec {
    let mut r = Rng::new(&[seed, idx, 0x5bec]);
    let mut nm = Namer { used: HashSet::new() };
    let mut items = Vec::new();

    // Constants: small ones for bounds, arbitrary ones for labels.
    let mut consts: Vec<(String, u64)> = Vec::new();
    for _ in 0..r.range(1, 5) {
        let v = match r.weighted(&[50, 20, 20, 10]) {
            0 => r.range(1, 12) as u64,
            1 => r.range(13, 300) as u64,
            2 => r.next() % (1 << 31),
            _ => *r.pick(&[0u64, 0x7fffffff, 65536, 65535, 0xffffffff, 0x80000000]),
        };
        let v = if v == 0 && r.pct(50) { 3 } else { v };
        let name = nm.global(&mut r, &["MAX_LEN", "const_c", "NFS4_FHSIZE", "LIMIT", "int_K", "k", "COUNT_"]);
        consts.push((name.clone(), v));
        items.push(Item::Const { name, val: Num::spelt(v, r.pct(40), &mut r) });
    }
    let bconsts = consts.clone();

    // Enums.
    let mut enums: Vec<(String, Vec<(String, Num)>)> = Vec::new();
    for _ in 0..r.range(1, 3) {
        let name = nm.global(&mut r, TYPE_WORDS);
        let mut used = HashSet::new();
        let mut ms = Vec::new();
        let n = if r.pct(3) { r.range(60, 140) } else if r.pct(10) { r.range(10, 24) } else { r.range(1, 8) };
        let style = r.below(3);
        for k in 0..n {
            let v = match style {
                0 => k as u64,
                1 => r.range(0, 40) as u64,
                _ => *r.pick(&[0u64, 1, 2, 255, 256, 65535, 65536, 10001, 0x7fffffff, 0x7ffffffe, 77, 1 << 30]),
            };
            if used.insert(v) {
                let hex = r.pct(30);
                ms.push((nm.global(&mut r, MEMBER_WORDS), Num::spelt(v, hex, &mut r)));
            }
        }
        enums.push((name.clone(), ms.clone()));
        items.push(Item::Enum { name, members: ms });
    }

    // Plan the compound types: by-value references go to lower indexes only.
    let n = r.range(p.types.0, p.types.1);
    let mut names: Vec<String> = Vec::new();
    let mut kinds: Vec<usize> = Vec::new();
    for _ in 0..n {
        names.push(nm.global(&mut r, TYPE_WORDS));
        kinds.push(r.weighted(&[45, 30 * p.unions / 100, 40]));
    }
    let mut built: Vec<Item> = Vec::new();
    // Chains of names for what a union may be switched on.
    let mut renamed: Vec<String> = Vec::new();
    if r.pct(30 * p.unions / 100) {
        let mut t = match r.weighted(&[40, 30, 10, 20]) {
            0 => Ty::Prim(if r.pct(50) { Prim::U64 } else { Prim::I64 }),
            1 => Ty::Name(r.pick(&enums).0.clone()),
            2 => Ty::Prim(Prim::Bool),
            _ => Ty::Prim(if r.pct(50) { Prim::U32 } else { Prim::I32 }),
        };
        for _ in 0..r.range(1, 5) {
            let name = nm.global(&mut r, TYPE_WORDS);
            built.push(Item::Typedef { name: name.clone(), decl: Decl::plain(t) });
            t = Ty::Name(name.clone());
            renamed.push(name);
        }
    }
    for i in 0..n {
        // Everything that may be held by value: enums and lower types.
        let lower: Vec<String> = enums.iter().map(|e| e.0.clone()).chain(renamed.iter().cloned()).chain(names[..i].iter().cloned()).collect();
        let any: Vec<String> = enums.iter().map(|e| e.0.clone()).chain(names.iter().cloned()).collect();
        let pick_lower = |r: &mut Rng| {
            // Prefer recent types, to build deep chains.
            if r.pct(50) {
                lower[lower.len() - 1 - r.below(lower.len().min(3))].clone()
            } else {
                r.pick(&lower).clone()
            }
        };
        let it = match kinds[i] {
            0 => {
                let nf = if r.pct(1) { r.range(40, 90) } else if r.pct(6) { r.range(12, 30) } else if r.pct(14) { r.range(7, 11) } else { r.range(1, 6) };
                let mut used: HashSet<String> = HashSet::new();
                let mut fields = Vec::new();
                for _ in 0..nf {
                    let mut fname = if r.pct(3) && !fields.is_empty() {
                        // Another case of a name that is there.
                        let f: &(String, Decl) = r.pick(&fields);
                        let (u, l) = (f.0.to_uppercase(), f.0.to_lowercase());
                        if f.0 == u { l } else { u }
                    } else if r.pct(8) { odd_name(&mut r) } else { r.pick(FIELD_WORDS).to_string() };
                    while !used.insert(field_name(&fname)) {
                        fname = format!("{}{}", r.pick(FIELD_WORDS), r.below(1000));
                    }
                    let w = [
                        30,
                        9 * p.payload / 100,
                        15 * p.payload / 100,
                        20,
                        5,
                        6,
                        13 * p.counted / 100,
                        9 * p.optional / 100,
                        3 * p.optional / 100,
                    ];
                    let d = match r.weighted(&w) {
                        0 => Decl::plain(Ty::Prim(prim(&mut r))),
                        1 => match r.below(3) {
                            0 => Decl::plain(Ty::Str),
                            1 => Decl::new(Ty::Str, Kind::Var(None)),
                            _ => Decl::new(Ty::Str, Kind::Var(bound_var(&mut r, &bconsts, p))),
                        },
                        2 => match r.weighted(&[30, 25, 35, if p.bare { 15 } else { 0 }]) {
                            0 => Decl::new(Ty::Opaque, Kind::Fixed(fixed(&mut r, &bconsts, 40))),
                            1 => Decl::new(Ty::Opaque, Kind::Var(None)),
                            2 => Decl::new(Ty::Opaque, Kind::Var(bound_var(&mut r, &bconsts, p))),
                            _ => Decl::plain(Ty::Opaque),
                        },
                        3 => Decl::plain(Ty::Name(pick_lower(&mut r))),
                        4 => Decl::new(Ty::Name(pick_lower(&mut r)), Kind::Fixed(fixed(&mut r, &bconsts, 4))),
                        5 => Decl::new(Ty::Prim(prim(&mut r)), Kind::Fixed(fixed(&mut r, &bconsts, 12))),
                        6 => Decl::new(
                            Ty::Name(if r.pct(70) { pick_lower(&mut r) } else { r.pick(&any).clone() }),
                            Kind::Var(bound_var(&mut r, &bconsts, p)),
                        ),
                        7 => {
                            let t = match r.below(3) {
                                0 => names[i].clone(),
                                1 => pick_lower(&mut r),
                                _ => r.pick(&any).clone(),
                            };
                            Decl { ty: Ty::Name(t), kind: Kind::None, opt: true }
                        }
                        _ => Decl {
                            ty: if r.pct(30) { Ty::Str } else { Ty::Prim(prim(&mut r)) },
                            kind: Kind::None,
                            opt: true,
                        },
                    };
                    fields.push((fname, d));
                }
                Item::Struct { name: names[i].clone(), fields }
            }
            1 => union(&mut r, p, &names[i], &enums, &consts, &built, &pick_lower),
            _ => {
                let d = match r.weighted(&[10, 7, 7, 7, 6, 10, 25, 6, 8, 14 * p.counted / 100]) {
                    0 => Decl::plain(Ty::Prim(prim(&mut r))),
                    1 => Decl::plain(Ty::Opaque),
                    2 => Decl::new(Ty::Opaque, Kind::Var(None)),
                    3 => Decl::new(Ty::Opaque, Kind::Var(bound_var(&mut r, &bconsts, p))),
                    4 => Decl::new(Ty::Opaque, Kind::Fixed(fixed(&mut r, &bconsts, 40))),
                    5 => match r.below(3) {
                        0 => Decl::plain(Ty::Str),
                        1 => Decl::new(Ty::Str, Kind::Var(None)),
                        _ => Decl::new(Ty::Str, Kind::Var(bound_var(&mut r, &bconsts, p))),
                    },
                    6 => Decl::plain(Ty::Name(pick_lower(&mut r))),
                    7 => Decl::new(Ty::Prim(prim(&mut r)), Kind::Fixed(fixed(&mut r, &bconsts, 12))),
                    8 => Decl::new(Ty::Name(pick_lower(&mut r)), Kind::Fixed(fixed(&mut r, &bconsts, 4))),
                    _ => {
                        // A counted array may refer upwards, but a typedef must not be
                        // its own only content: Vec makes it finite.
                        let mut t = if r.pct(75) { pick_lower(&mut r) } else { r.pick(&any).clone() };
                        if t == names[i] {
                            t = pick_lower(&mut r);
                        }
                        Decl::new(Ty::Name(t), Kind::Var(bound_var(&mut r, &bconsts, p)))
                    }
                };
                Item::Typedef { name: names[i].clone(), decl: d }
            }
        };
        built.push(it);
    }
    items.extend(built);
    let mut spec = Spec { items };
    repair(&mut spec);
    r.shuffle(&mut spec.items);
    spec
}

pub fn prim(r: &mut Rng) -> Prim {
    *r.pick(&[Prim::U32, Prim::I32, Prim::U64, Prim::I64, Prim::F32, Prim::F64, Prim::Bool, Prim::U32])
}

fn union(
    r: &mut Rng,
    p: &Prof,
    name: &str,
    enums: &[(String, Vec<(String, Num)>)],
    consts: &[(String, u64)],
    built: &[Item],
    pick_lower: &dyn Fn(&mut Rng) -> String,
) -> Item {
    // Typedef chains usable as a discriminant.
    let mut aliases: Vec<(String, Ty, usize)> = Vec::new();
    for it in built {
        if let Item::Typedef { name, decl } = it {
            if decl.kind != Kind::None || decl.opt {
                continue;
            }
            match &decl.ty {
                Ty::Prim(q) if !matches!(q, Prim::F32 | Prim::F64) => aliases.push((name.clone(), decl.ty.clone(), 1)),
                Ty::Name(t) => {
                    if enums.iter().any(|e| e.0 == *t) {
                        aliases.push((name.clone(), decl.ty.clone(), 1));
                    } else if let Some(a) = aliases.iter().find(|a| a.0 == *t).cloned() {
                        aliases.push((name.clone(), a.1, a.2 + 1));
                    }
                }
                _ => {}
            }
        }
    }
    let (dty, base) = match r.weighted(&[20, 12, 14, 8, 30, if aliases.is_empty() { 0 } else { 35 }]) {
        0 => (Ty::Prim(Prim::U32), Ty::Prim(Prim::U32)),
        1 => (Ty::Prim(Prim::I32), Ty::Prim(Prim::I32)),
        2 => (Ty::Prim(Prim::Bool), Ty::Prim(Prim::Bool)),
        3 => {
            let q = Ty::Prim(if r.pct(50) { Prim::U64 } else { Prim::I64 });
            (q.clone(), q)
        }
        4 => {
            let e = Ty::Name(r.pick(enums).0.clone());
            (e.clone(), e)
        }
        _ => {
            let a = if r.pct(60) { r.pick(&aliases).clone() } else { aliases.iter().max_by_key(|a| a.2).unwrap().clone() };
            (Ty::Name(a.0), a.1)
        }
    };

    // Candidate labels with distinct values and distinct texts.
    let mut labels: Vec<(Label, u64)> = Vec::new();
    let add = |l: Label, v: u64, labels: &mut Vec<(Label, u64)>| {
        if !labels.iter().any(|x| x.1 == v || x.0.text() == l.text()) {
            labels.push((l, v));
        }
    };
    match &base {
        Ty::Prim(Prim::Bool) => {
            let t = r.pct(50);
            for b in [t, !t] {
                if r.pct(85) || labels.is_empty() {
                    if r.pct(90) {
                        add(Label::Id(if b { "TRUE" } else { "FALSE" }.into()), b as u64, &mut labels);
                    } else {
                        add(Label::Num(b as u64), b as u64, &mut labels);
                    }
                }
            }
        }
        Ty::Name(e) => {
            let ms = &enums.iter().find(|x| x.0 == *e).unwrap().1;
            for (m, v) in ms {
                if r.pct(85) || labels.is_empty() {
                    match r.weighted(&[85, 10, 5]) {
                        1 => add(Label::Num(v.val), v.val, &mut labels),
                        2 => match consts.iter().find(|c| c.1 == v.val) {
                            Some(c) => add(Label::Id(c.0.clone()), v.val, &mut labels),
                            None => add(Label::Id(m.clone()), v.val, &mut labels),
                        },
                        _ => add(Label::Id(m.clone()), v.val, &mut labels),
                    }
                }
            }
        }
        Ty::Prim(q) => {
            let lim: u64 = match q {
                Prim::U32 => u32::MAX as u64,
                Prim::I32 => i32::MAX as u64,
                _ => i64::MAX as u64,
            };
            let n = if r.pct(2) { r.range(30, 80) } else if r.pct(8) { r.range(8, 20) } else if r.pct(20) { r.range(5, 9) } else { r.range(1, 6) };
            for _ in 0..n {
                match r.weighted(&[60, 20, 20]) {
                    1 => {
                        let c = r.pick(consts).clone();
                        if c.1 <= lim {
                            add(Label::Id(c.0), c.1, &mut labels)
                        }
                    }
                    2 => {
                        let e = r.pick(enums);
                        let m = r.pick(&e.1).clone();
                        if m.1.val <= lim {
                            add(Label::Id(m.0), m.1.val, &mut labels)
                        }
                    }
                    _ => {
                        let v = match r.below(8) {
                            0 => lim,
                            1 => 1 << 31,
                            2 => (1 << 32) + r.below(5) as u64,
                            3 => r.next(),
                            _ if n > 20 => r.below(300) as u64,
                            _ => r.below(12) as u64,
                        };
                        if v <= lim {
                            add(Label::Num(v), v, &mut labels)
                        }
                    }
                }
            }
            if labels.is_empty() {
                add(Label::Num(1), 1, &mut labels);
            }
        }
        _ => unreachable!(),
    }
    r.shuffle(&mut labels);

    // Partition the labels into fall-through groups.
    let mut arms: Vec<Arm> = Vec::new();
    let mut k = 0;
    let void = *r.pick(&[30, 30, 5, 60]);
    let body = |r: &mut Rng| -> Option<(String, Decl)> {
        if r.pct(void) {
            return None;
        }
        let d = match r.weighted(&[40, 12 * p.payload / 100, if p.bare { 7 } else { 0 }, 45]) {
            0 => Decl::plain(Ty::Prim(prim(r))),
            1 => Decl::plain(Ty::Str),
            2 => Decl::plain(Ty::Opaque),
            _ => Decl::plain(Ty::Name(pick_lower(r))),
        };
        Some((r.pick(FIELD_WORDS).to_string(), d))
    };
    while k < labels.len() {
        let n = if r.pct(2) { r.range(6, 12) } else if r.pct(33) { r.range(2, 5) } else { 1 };
        let g: Vec<Label> = labels[k..(k + n).min(labels.len())].iter().map(|l| l.0.clone()).collect();
        k += n;
        arms.push(Arm { labels: g, default: false, body: body(r) });
    }
    if r.pct(45) {
        let b = body(r);
        if r.pct(25) && arms.len() > 1 {
            // The last group falls through into the default.
            let most = r.range(1, 6);
            while arms.len() > 2 && arms[arms.len() - 1].labels.len() < most {
                let a = arms.pop().unwrap();
                arms.last_mut().unwrap().labels.extend(a.labels);
            }
            let a = arms.last_mut().unwrap();
            a.default = true;
            a.body = b;
        } else {
            arms.push(Arm { labels: vec![], default: true, body: b });
        }
    }
    let dname = match r.below(10) {
        0 => consts[0].0.clone(),
        1 => "v".to_string(),
        2 => "type".to_string(),
        3 => built.last().map(|i| i.name().to_string()).unwrap_or_else(|| "c".into()),
        _ => r.pick(FIELD_WORDS).to_string(),
    };
    Item::Union { name: name.to_string(), dname, dty, arms }
}

/// Types that hold a bare inline opaque, directly or not.
pub fn tainted(env: &Env) -> HashSet<String> {
    let mut direct: HashSet<String> = HashSet::new();
    for it in &env.spec.items {
        if matches!(it, Item::Struct { .. } | Item::Union { .. })
            && it.decls().iter().any(|d| d.ty == Ty::Opaque && d.kind == Kind::None)
        {
            direct.insert(it.name().to_string());
        }
    }
    loop {
        let mut more = Vec::new();
        for it in &env.spec.items {
            if direct.contains(it.name()) {
                continue;
            }
            if it.decls().iter().any(|d| matches!(&d.ty, Ty::Name(n) if direct.contains(n))) {
                more.push(it.name().to_string());
            }
        }
        if more.is_empty() {
            return direct;
        }
        direct.extend(more);
    }
}

/// Make a random spec finite, small and free of the known finding about bare opaques
/// below counted arrays.
fn repair(spec: &mut Spec) {
    let env = Env::new(spec.clone());
    let t = tainted(&env);
    let bad = spec.items.iter().any(|i| {
        i.decls().iter().any(|d| matches!((&d.ty, &d.kind), (Ty::Name(n), Kind::Var(_)) if t.contains(n)))
    });
    if bad {
        for it in spec.items.iter_mut() {
            let is_union = matches!(it, Item::Union { .. });
            let is_td = matches!(it, Item::Typedef { .. });
            for d in it.decls_mut() {
                if !is_td && d.ty == Ty::Opaque && d.kind == Kind::None {
                    if is_union {
                        d.ty = Ty::Str;
                    } else {
                        d.kind = Kind::Var(None);
                    }
                }
            }
        }
    }
    // Bound the smallest encoding (nested fixed arrays multiply).
    for _ in 0..20 {
        let env = Env::new(spec.clone());
        let big: HashSet<String> =
            env.type_names().into_iter().filter(|n| env.min_item(n, 60) > 6000).collect();
        if big.is_empty() {
            break;
        }
        for it in spec.items.iter_mut() {
            if big.contains(it.name()) {
                for d in it.decls_mut() {
                    if matches!(d.kind, Kind::Fixed(_)) && matches!(d.ty, Ty::Name(_)) {
                        d.kind = Kind::None;
                    } else if matches!(d.kind, Kind::None) && matches!(d.ty, Ty::Name(_)) {
                        d.ty = Ty::Prim(Prim::U32);
                    }
                }
            }
        }
    }
}

/// A specification with one huge dimension: `n` members, fields, arms, labels, constants
/// or declarations. Whatever is looked for may be in the first, the last or any place.
pub fn giant(seed: u64, idx: u64, n: usize) -> Spec {
    let mut r = Rng::new(&[seed, idx, n as u64, 0x61a]);
    let r = &mut r;
    let long = "x".repeat(if r.pct(30) { r.range(50, 300) } else { 0 });
    let name = |s: &str, k: usize| format!("{}{}_{}", s, long, k);
    let at = match r.below(4) {
        0 => 0,
        1 => r.below(n),
        _ => n - 1,
    };
    let opaque = |r: &mut Rng| match r.below(3) {
        0 => Decl::new(Ty::Opaque, Kind::Fixed(Bound::Lit(5))),
        1 => Decl::new(Ty::Opaque, Kind::Var(Some(Bound::Lit(9)))),
        _ => Decl::new(Ty::Opaque, Kind::Var(None)),
    };
    let hot = r.pct(70);
    let small = |r: &mut Rng| match r.weighted(&[60, 10, 10, 10, 10, 5]) {
        0 => Decl::plain(Ty::Prim(prim(r))),
        1 => Decl::plain(Ty::Str),
        2 => Decl::new(Ty::Prim(prim(r)), Kind::Fixed(Bound::Lit(2))),
        3 => Decl::plain(Ty::Name("Small".into())),
        4 => Decl { ty: Ty::Name("Small".into()), kind: Kind::None, opt: true },
        _ => Decl::new(Ty::Name("Small".into()), Kind::Var(Some(Bound::Lit(300)))),
    };
    let arm = |r: &mut Rng| match r.weighted(&[20, 40, 20, 20]) {
        0 => None,
        1 => Some(Decl::plain(Ty::Prim(prim(r)))),
        2 => Some(Decl::plain(Ty::Str)),
        _ => Some(Decl::plain(Ty::Name("Small".into()))),
    };
    let mut items = vec![
        Item::Struct { name: "Small".into(), fields: vec![("x".into(), Decl::plain(Ty::Prim(Prim::U32)))] },
        Item::Typedef { name: "Raw".into(), decl: opaque(r) },
        Item::Const { name: "SOMEWHERE".into(), val: Num::new(n as u64 + 7, r.pct(50)) },
    ];
    let holder = |t: &str| Item::Struct {
        name: "Holder".into(),
        fields: vec![
            ("x".into(), Decl::plain(Ty::Name(t.into()))),
            ("y".into(), Decl { ty: Ty::Name(t.into()), kind: Kind::None, opt: true }),
            ("z".into(), Decl::new(Ty::Name(t.into()), Kind::Var(None))),
        ],
    };
    match idx % 8 {
        k @ (0 | 6) => {
            // A large enum, and a union over it.
            let step = r.range(1, 3) as u64;
            let mut members: Vec<(String, Num)> = (0..n).map(|i| (name("M", i), Num::spelt(i as u64 * step, r.pct(20), r))).collect();
            if r.pct(50) {
                r.shuffle(&mut members);
            }
            let mut arms = Vec::new();
            let labels: Vec<Label> = members.iter().map(|m| Label::Id(m.0.clone())).collect();
            if k == 0 {
                arms.push(Arm { labels: vec![labels[at].clone()], default: false, body: Some(("x".into(), if hot { Decl::plain(Ty::Name("Raw".into())) } else { Decl::plain(Ty::Str) })) });
                arms.push(Arm { labels: vec![], default: true, body: None });
            } else {
                let mut i = 0;
                while i < n {
                    let g = if r.pct(5) { r.range(1, 80) } else { r.range(1, 3) };
                    let j = (i + g).min(n);
                    let mut d = arm(r);
                    if hot && (i..j).contains(&at) {
                        d = Some(Decl::plain(Ty::Name("Raw".into())));
                    }
                    arms.push(Arm { labels: labels[i..j].to_vec(), default: false, body: d.map(|d| ("x".into(), d)) });
                    i = j;
                }
            }
            items.push(Item::Enum { name: "Large".into(), members });
            items.push(Item::Union { name: "Choice".into(), dname: "d".into(), dty: Ty::Name("Large".into()), arms });
            items.push(holder("Large"));
        }
        k @ (1 | 7) => {
            let fields = (0..n)
                .map(|i| {
                    let d = if hot && i == at { opaque(r) } else if k == 1 { Decl::plain(Ty::Prim(prim(r))) } else { small(r) };
                    (name("f", i), d)
                })
                .collect();
            items.push(Item::Struct { name: "Large".into(), fields });
            items.push(holder("Large"));
        }
        2 => {
            let base = if r.pct(50) { 0 } else { 1000 };
            let mut arms: Vec<Arm> = (0..n)
                .map(|i| {
                    let d = if hot && i == at { Some(Decl::plain(Ty::Name("Raw".into()))) } else { arm(r) };
                    Arm { labels: vec![Label::Num(base + i as u64)], default: false, body: d.map(|d| ("x".into(), d)) }
                })
                .collect();
            if r.pct(50) {
                r.shuffle(&mut arms);
            }
            if r.pct(50) {
                arms.push(Arm { labels: vec![], default: true, body: arm(r).map(|d| ("x".into(), d)) });
            }
            items.push(Item::Union { name: "Large".into(), dname: "d".into(), dty: Ty::Prim(*r.pick(&[Prim::U32, Prim::I32, Prim::U64])), arms });
            items.push(holder("Large"));
        }
        3 => {
            // One group of many labels, with data or void, next to others.
            let labels = |a: usize, b: usize| (a..b).map(|i| Label::Num(i as u64)).collect::<Vec<_>>();
            let body = if hot { Some(("x".into(), Decl::plain(Ty::Name("Raw".into())))) } else { arm(r).map(|d| ("x".into(), d)) };
            let mut arms = vec![
                Arm { labels: labels(0, n / 2), default: false, body },
                Arm { labels: labels(n / 2, n), default: false, body: None },
                Arm { labels: labels(n, n + 1), default: false, body: Some(("y".into(), Decl::plain(Ty::Str))) },
            ];
            r.shuffle(&mut arms);
            if r.pct(40) {
                arms.push(Arm { labels: vec![], default: true, body: Some(("z".into(), Decl::plain(Ty::Prim(Prim::U32)))) });
            }
            items.push(Item::Union { name: "Large".into(), dname: "d".into(), dty: Ty::Prim(Prim::U32), arms });
            items.push(holder("Large"));
        }
        4 => {
            // Many constants, used as bounds and labels.
            let v0 = r.range(1, 50);
            for i in 0..n {
                items.push(Item::Const { name: name("K", i), val: Num::spelt((v0 + i) as u64, r.pct(30), r) });
            }
            let c = |i: usize| Bound::Const(name("K", i));
            let fields = vec![
                ("a".into(), Decl::new(Ty::Opaque, Kind::Fixed(c(at)))),
                ("b".into(), Decl::new(Ty::Str, Kind::Var(Some(c(n - 1 - at))))),
                ("c".into(), Decl::new(Ty::Prim(Prim::U32), Kind::Fixed(c(r.below(10))))),
                ("d".into(), Decl::new(Ty::Name("Small".into()), Kind::Var(Some(c(r.below(n)))))),
                ("e".into(), Decl::new(Ty::Opaque, Kind::Var(Some(c(r.below(n)))))),
            ];
            items.push(Item::Struct { name: "Large".into(), fields });
            let mut arms: Vec<Arm> = Vec::new();
            for i in [0, n / 2, n - 1] {
                arms.push(Arm { labels: vec![Label::Id(name("K", i))], default: false, body: arm(r).map(|d| ("x".into(), d)) });
            }
            items.push(Item::Union { name: "Choice".into(), dname: "d".into(), dty: Ty::Prim(Prim::I32), arms });
        }
        _ => {
            // Many declarations, each of a few fields, in blocks that refer to each other.
            for i in 0..n {
                let below = |r: &mut Rng| if i == 0 || r.pct(40) { Ty::Prim(prim(r)) } else { Ty::Name(name("T", if i % 7 == 0 { r.below(i) } else { i - 1 })) };
                let ty = if hot && i == at { Ty::Opaque } else { below(r) };
                let nm = name("T", i);
                items.push(match r.below(3) {
                    0 => {
                        let kind = if ty == Ty::Opaque { Kind::Var(None) } else { Kind::None };
                        Item::Typedef { name: nm, decl: Decl::new(ty, kind) }
                    }
                    1 => {
                        let kind = if ty == Ty::Opaque { Kind::Var(None) } else { Kind::None };
                        Item::Struct { name: nm, fields: vec![("x".into(), Decl::new(ty, kind)), ("y".into(), Decl::plain(Ty::Prim(prim(r))))] }
                    }
                    _ => {
                        let ty = if ty == Ty::Opaque { Ty::Name("Raw".into()) } else { ty };
                        Item::Union {
                            name: nm,
                            dname: "d".into(),
                            dty: Ty::Prim(Prim::U32),
                            arms: vec![
                                Arm { labels: vec![Label::Num(i as u64)], default: false, body: Some(("x".into(), Decl::plain(ty))) },
                                Arm { labels: vec![], default: true, body: None },
                            ],
                        }
                    }
                });
            }
        }
    }
    if r.pct(70) {
        r.shuffle(&mut items);
    }
    Spec { items }
}

/// All small shapes: numbers of data arms, void labels and kinds of default (0, 1); numbers
/// of fields and where the opaque one is (2); kinds of type in every container as a field
/// (3), a typedef (4) and behind names (5); middling sizes of everything (6).
pub fn matrix(seed: u64, idx: usize) -> Spec {
    let mut rng = Rng::new(&[seed, idx as u64, 0x3a7]);
    let r = &mut rng;
    let lit = |n: u32| Bound::Lit(n);
    let c = |s: &str| Bound::Const(s.to_string());
    let name = |s: &str| Ty::Name(s.to_string());
    let td = |n: &str, d: Decl| Item::Typedef { name: n.to_string(), decl: d };
    let field = |n: &str, d: Decl| (n.to_string(), d);
    let members: Vec<(String, Num)> = (0..16).map(|k| (format!("M{}", k), Num::spelt(k * [1, 3, 257][(seed % 3) as usize], r.pct(30), r))).collect();
    let mut items = vec![
        Item::Const { name: "ONE".into(), val: Num::new(1, false) },
        Item::Const { name: "LEN".into(), val: Num::spelt(3, r.pct(50), r) },
        Item::Const { name: "SOME".into(), val: Num::new(r.range(4, 9) as u64, false) },
        Item::Enum { name: "Color".into(), members: members.clone() },
        Item::Struct { name: "Flat".into(), fields: vec![field("x", Decl::plain(Ty::Prim(prim(r)))), field("y", Decl::plain(Ty::Str))] },
        Item::Struct { name: "Raw".into(), fields: vec![field("x", Decl::plain(Ty::Prim(prim(r)))), field("y", Decl::new(Ty::Opaque, Kind::Var(None)))] },
        Item::Union {
            name: "Pick".into(),
            dname: "k".into(),
            dty: Ty::Prim(Prim::U32),
            arms: vec![
                Arm { labels: vec![Label::Num(1)], default: false, body: Some(field("a", Decl::plain(Ty::Prim(Prim::U64)))) },
                Arm { labels: vec![], default: true, body: None },
            ],
        },
        Item::Union {
            name: "RawPick".into(),
            dname: "k".into(),
            dty: Ty::Prim(Prim::Bool),
            arms: vec![
                Arm { labels: vec![Label::Id("TRUE".into())], default: false, body: Some(field("a", Decl::plain(name("Raw")))) },
                Arm { labels: vec![Label::Id("FALSE".into())], default: false, body: None },
            ],
        },
        td("Word", Decl::plain(Ty::Prim(Prim::U32))),
        td("Long", Decl::plain(Ty::Prim(Prim::I64))),
        td("Truth", Decl::plain(Ty::Prim(Prim::Bool))),
        td("Real", Decl::plain(Ty::Prim(Prim::F64))),
        td("Text", Decl::new(Ty::Str, Kind::Var(None))),
        td("ShortText", Decl::new(Ty::Str, Kind::Var(Some(lit(5))))),
        td("Blob", Decl::new(Ty::Opaque, Kind::Var(None))),
        td("ShortBlob", Decl::new(Ty::Opaque, Kind::Var(Some(c("LEN"))))),
        td("Handle", Decl::new(Ty::Opaque, Kind::Fixed(lit(6)))),
        td("Words", Decl::new(name("Word"), Kind::Var(None))),
        td("Pair", Decl::new(Ty::Prim(Prim::U64), Kind::Fixed(lit(2)))),
        td("Flats", Decl::new(name("Flat"), Kind::Var(Some(lit(4))))),
        td("Raws", Decl::new(name("Raw"), Kind::Var(None))),
        td("TwoRaws", Decl::new(name("Raw"), Kind::Fixed(lit(2)))),
        td("Shade", Decl::plain(name("Color"))),
        td("Shades", Decl::plain(name("Shade"))),
        td("Verdict", Decl::plain(name("Truth"))),
        td("Longer", Decl::plain(name("Long"))),
        td("Longest", Decl::plain(name("Longer"))),
        td("Words2", Decl::plain(name("Word"))),
    ];
    const NAMED: &[&str] = &[
        "Color", "Flat", "Raw", "Pick", "RawPick", "Word", "Long", "Truth", "Real", "Text", "ShortText", "Blob", "ShortBlob", "Handle",
        "Words", "Pair", "Flats", "Raws", "TwoRaws", "Shade", "Longest",
    ];
    const PRIMS: &[Prim] = &[Prim::U32, Prim::I32, Prim::U64, Prim::I64, Prim::F32, Prim::F64, Prim::Bool];
    let counted = [None, Some(lit(1)), Some(lit(3)), Some(c("ONE")), Some(c("SOME"))];
    let sizes = [lit(1), lit(2), lit(5), c("ONE"), c("LEN")];
    // Every declaration there is.
    let mut all: Vec<Decl> = Vec::new();
    for p in PRIMS {
        all.push(Decl::plain(Ty::Prim(*p)));
        all.push(Decl { ty: Ty::Prim(*p), kind: Kind::None, opt: true });
        all.extend(sizes.iter().map(|b| Decl::new(Ty::Prim(*p), Kind::Fixed(b.clone()))));
    }
    all.push(Decl::plain(Ty::Str));
    all.push(Decl { ty: Ty::Str, kind: Kind::None, opt: true });
    for t in [Ty::Str, Ty::Opaque] {
        all.extend(counted.iter().map(|b| Decl::new(t.clone(), Kind::Var(b.clone()))));
    }
    all.extend(sizes.iter().map(|b| Decl::new(Ty::Opaque, Kind::Fixed(b.clone()))));
    for t in NAMED {
        all.push(Decl::plain(name(t)));
        all.push(Decl { ty: name(t), kind: Kind::None, opt: true });
        all.extend(counted.iter().map(|b| Decl::new(name(t), Kind::Var(b.clone()))));
        all.extend(sizes.iter().map(|b| Decl::new(name(t), Kind::Fixed(b.clone()))));
    }
    let dry = |r: &mut Rng| match r.below(5) {
        0 => Decl::plain(Ty::Str),
        1 => Decl::plain(name(*r.pick(&["Color", "Flat", "Pick", "Word", "Longest", "ShortText", "Flats", "Words"]))),
        _ => Decl::plain(Ty::Prim(prim(r))),
    };
    let wet = |r: &mut Rng| Decl::plain(name(*r.pick(&["Raw", "RawPick", "Blob", "ShortBlob", "Handle", "Raws", "TwoRaws"])));
    let mut more: Vec<Item> = Vec::new();
    match idx {
        0 | 1 => {
            // Names of names of names.
            for k in 0..20 {
                let of = |s: &str, first: &str| if k == 0 { name(first) } else { Ty::Name(format!("{}{}", s, k - 1)) };
                more.push(td(&format!("Far{}", k), Decl::plain(of("Far", "Long"))));
                more.push(td(&format!("Hue{}", k), Decl::plain(of("Hue", "Color"))));
            }
            let mut turn = r.below(12);
            for data in 0..6usize {
                for void in 0..6usize {
                    for default in 0..3 {
                        if data + void == 0 || (data + void + default) % 2 != idx {
                            continue;
                        }
                        turn += 1;
                        let (dty, kind) = match turn % 12 {
                            0 => (Ty::Prim(Prim::U32), 0),
                            1 => (Ty::Prim(Prim::I32), 0),
                            2 => (name("Color"), 1),
                            3 => (Ty::Prim(Prim::U64), 2),
                            4 => (Ty::Prim(Prim::I64), 2),
                            5 => (name("Shade"), 1),
                            6 => (name("Shades"), 1),
                            7 => (name("Word"), 0),
                            8 => (name("Words2"), 0),
                            9 => (name(if r.pct(50) { "Longest" } else { "Longer" }), 2),
                            10 if r.pct(50) => (Ty::Name(format!("Hue{}", r.below(20))), 1),
                            10 => (Ty::Name(format!("Far{}", r.below(20))), 2),
                            _ if data + void <= 2 => ([Ty::Prim(Prim::Bool), name("Truth"), name("Verdict")][r.below(3)].clone(), 3),
                            _ => (Ty::Prim(Prim::U32), 0),
                        };
                        // Void labels alone or in groups, anywhere between the data arms.
                        let mut arms: Vec<Option<bool>> = vec![Some(true); data];
                        let mut left = void;
                        let mut groups: Vec<(bool, usize)> = Vec::new();
                        while left > 0 {
                            let g = if r.pct(60) { 1 } else { r.range(1, left) };
                            groups.push((false, g));
                            left -= g;
                        }
                        groups.extend(arms.drain(..).map(|_| (true, if kind == 3 { 1 } else { *r.pick(&[1, 1, 1, 2, 3]) })));
                        r.shuffle(&mut groups);
                        let total: usize = groups.iter().map(|g| g.1).sum();
                        let mut labels: Vec<Label> = match kind {
                            1 => members.iter().map(|m| Label::Id(m.0.clone())).collect(),
                            3 => vec![Label::Id("TRUE".into()), Label::Id("FALSE".into())],
                            _ => {
                                let mut v: HashSet<u64> = HashSet::new();
                                // 1, 3 and SOME have names.
                                while v.len() < total {
                                    v.insert(match r.below(6) {
                                        0 => r.next() % (1 << 31),
                                        1 if kind == 2 => r.next() % (1 << 62),
                                        _ => 10 + r.below(40) as u64,
                                    });
                                }
                                let mut v: Vec<u64> = v.into_iter().collect();
                                v.sort();
                                let mut l: Vec<Label> = v.into_iter().map(Label::Num).collect();
                                for n in ["ONE", "LEN", "SOME"] {
                                    if r.pct(25) {
                                        l.push(Label::Id(n.into()));
                                    }
                                }
                                l
                            }
                        };
                        r.shuffle(&mut labels);
                        let hot = r.below(data + 2);
                        let mut seen = 0;
                        let mut out: Vec<Arm> = Vec::new();
                        for (is, n) in groups {
                            let n = n.min(labels.len());
                            if n == 0 {
                                continue;
                            }
                            let l: Vec<Label> = labels.drain(..n).collect();
                            let body = if is {
                                seen += 1;
                                Some(field(&format!("f{}", seen), if seen == hot + 1 { wet(r) } else { dry(r) }))
                            } else {
                                None
                            };
                            out.push(Arm { labels: l, default: false, body });
                        }
                        match default {
                            1 if r.pct(30) && out.len() > 1 => {
                                let a = out.last_mut().unwrap();
                                a.default = true;
                                a.body = None;
                            }
                            1 => out.push(Arm { labels: vec![], default: true, body: None }),
                            2 => out.push(Arm { labels: vec![], default: true, body: Some(field("other", if hot == data { wet(r) } else { dry(r) })) }),
                            _ => {}
                        }
                        more.push(Item::Union { name: format!("U{}{}{}", data, void, default), dname: "which".into(), dty, arms: out });
                    }
                }
            }
        }
        2 => {
            for n in 1..=12usize {
                let mut at: Vec<Option<usize>> = vec![Some(0), Some(n / 2), Some(n - 1), None];
                at.dedup();
                for at in at {
                    let mut fields = Vec::new();
                    for k in 0..n {
                        let mut d = if at == Some(k) { wet(r) } else { dry(r) };
                        if r.pct(20) {
                            d.opt = true;
                        } else if d.ty != Ty::Str && r.pct(15) {
                            d.kind = Kind::Fixed(r.pick(&sizes).clone());
                        }
                        fields.push(field(&format!("f{}", k), d));
                    }
                    more.push(Item::Struct { name: format!("S{}_{}", n, at.map(|a| a.to_string()).unwrap_or("no".into())), fields });
                }
            }
        }
        3 => {
            r.shuffle(&mut all);
            for (k, g) in all.chunks(5).enumerate() {
                more.push(Item::Struct { name: format!("S{}", k), fields: g.iter().enumerate().map(|(i, d)| field(&format!("f{}", i), d.clone())).collect() });
            }
        }
        4 => {
            for (k, d) in all.iter().enumerate() {
                if !d.opt && r.pct(60) {
                    more.push(td(&format!("T{}", k), d.clone()));
                }
            }
        }
        6 => {
            // Middling sizes: of enums, unions, groups of labels, structs, arrays and payloads.
            for (k, &n) in [7usize, 8, 9, 12, 13, 16, 17, 31, 32, 33, 64, 65, 100].iter().enumerate() {
                let at = r.range(0, 5) as u64;
                let values: Vec<u64> = match (k + seed as usize) % 4 {
                    0 => (0..n as u64).collect(),
                    1 => (0..n as u64).map(|m| at + m).collect(),
                    2 => (0..n as u64).map(|m| if m as usize > n / 2 { m + 1 + at } else { m }).collect(),
                    _ => (0..n as u64).map(|m| m * 1_000_003 % 2_000_000_011).collect(),
                };
                let mut order: Vec<usize> = (0..n).collect();
                if r.pct(40) {
                    r.shuffle(&mut order);
                }
                let e = format!("E{}", n);
                let names: Vec<String> = (0..n).map(|m| format!("E{}_{}", n, m)).collect();
                more.push(Item::Enum { name: e.clone(), members: order.iter().map(|m| (names[*m].clone(), Num::spelt(values[*m], r.pct(30), r))).collect() });
                let by_member = |r: &mut Rng, spare: usize| -> (Ty, Vec<Label>) {
                    // Members of an enum with some to spare, or numbers.
                    if r.pct(50) && spare < n {
                        (Ty::Name(e.clone()), names.iter().take(n - spare).map(|m| Label::Id(m.clone())).collect())
                    } else {
                        let p = *r.pick(&[Prim::U32, Prim::I32, Prim::U64, Prim::I64]);
                        (Ty::Prim(p), (0..n - spare).map(|m| Label::Num(10 + 7 * m as u64)).collect())
                    }
                };
                // n void labels, alone or together, and a default.
                for default in 1..3 {
                    let (dty, mut l) = by_member(r, default - 1);
                    let mut arms = vec![Arm { labels: vec![l.pop().unwrap()], default: false, body: Some(field("f", dry(r))) }];
                    if r.pct(50) {
                        arms.push(Arm { labels: l, default: false, body: None });
                    } else {
                        arms.extend(l.into_iter().map(|l| Arm { labels: vec![l], default: false, body: None }));
                    }
                    arms.push(Arm { labels: vec![], default: true, body: if default == 1 { None } else { Some(field("other", dry(r))) } });
                    more.push(Item::Union { name: format!("V{}{}", default, n), dname: "which".into(), dty, arms });
                }
                // n data labels, alone and together.
                let (dty, l) = by_member(r, 1);
                let hot = r.below(3 * n);
                let mut arms: Vec<Arm> = l
                    .into_iter()
                    .enumerate()
                    .map(|(m, l)| Arm { labels: vec![l], default: false, body: Some(field(&format!("f{}", m), if m == hot { wet(r) } else { dry(r) })) })
                    .collect();
                match (k + seed as usize) % 3 {
                    0 => {}
                    1 => arms.push(Arm { labels: vec![], default: true, body: None }),
                    _ => arms.push(Arm { labels: vec![], default: true, body: Some(field("other", dry(r))) }),
                }
                more.push(Item::Union { name: format!("D{}", n), dname: "which".into(), dty, arms });
                let (dty, l) = by_member(r, 2);
                let body = Some(field("f", if r.pct(50) { wet(r) } else { dry(r) }));
                let mut arms = vec![Arm { labels: l, default: false, body }];
                if r.pct(50) {
                    arms.push(Arm { labels: vec![], default: true, body: None });
                }
                more.push(Item::Union { name: format!("G{}", n), dname: "which".into(), dty, arms });
                // n fields; arrays of n; payloads of n.
                let at = r.below(2 * n);
                let fields = (0..n).map(|m| field(&format!("f{}", m), if m == at { wet(r) } else { dry(r) })).collect();
                more.push(Item::Struct { name: format!("Q{}", n), fields });
                let of = |r: &mut Rng| name(*r.pick(&["Flat", "Raw", "Word", "Color", "Pick", "Blob"]));
                more.push(Item::Struct {
                    name: format!("A{}", n),
                    fields: vec![
                        field("a", Decl::new(Ty::Prim(prim(r)), Kind::Fixed(lit(n as u32)))),
                        field("b", Decl::new(of(r), Kind::Fixed(lit(n as u32)))),
                        field("c", Decl::new(of(r), Kind::Var(Some(lit(n as u32))))),
                        field("d", Decl::new(Ty::Str, Kind::Var(Some(lit(n as u32))))),
                        field("e", Decl::new(Ty::Opaque, Kind::Var(Some(lit(n as u32))))),
                        field("f", Decl::new(Ty::Opaque, Kind::Fixed(lit(n as u32)))),
                    ],
                });
                more.push(td(&format!("O{}", n), Decl::new(Ty::Opaque, Kind::Fixed(lit(n as u32)))));
                more.push(td(&format!("P{}", n), Decl::new(Ty::Opaque, Kind::Var(Some(lit(n as u32))))));
                more.push(td(&format!("S{}", n), Decl::new(Ty::Str, Kind::Var(Some(lit(n as u32))))));
                more.push(td(&format!("L{}", n), Decl::new(of(r), Kind::Var(Some(lit(n as u32))))));
                more.push(td(&format!("F{}", n), Decl::new(of(r), Kind::Fixed(lit(n as u32)))));
            }
            for n in [255u32, 257, 1023, 4097, 65_533, 65_537, 131_071, 262_147] {
                more.push(td(&format!("Wide{}", n), Decl::new(Ty::Opaque, Kind::Fixed(lit(n)))));
                more.push(td(&format!("Up{}", n), Decl::new(if n % 3 == 1 { Ty::Str } else { Ty::Opaque }, Kind::Var(Some(lit(n))))));
                more.push(Item::Struct { name: format!("Holds{}", n), fields: vec![field("x", Decl::new(Ty::Opaque, Kind::Fixed(lit(n)))), field("y", Decl::plain(Ty::Prim(Prim::U32)))] });
            }
        }
        _ => {
            // Names of names, as fields, in arrays, as arms and as links.
            for (k, d) in all.iter().enumerate() {
                if d.opt || r.pct(65) {
                    continue;
                }
                let t = format!("T{}", k);
                more.push(td(&t, d.clone()));
                let t = if r.pct(40) {
                    more.push(td(&format!("V{}", k), Decl::plain(name(&t))));
                    format!("V{}", k)
                } else {
                    t
                };
                let d = match r.below(5) {
                    0 => Decl::plain(name(&t)),
                    1 => Decl { ty: name(&t), kind: Kind::None, opt: true },
                    2 => Decl::new(name(&t), Kind::Fixed(r.pick(&sizes).clone())),
                    3 => Decl::new(name(&t), Kind::Var(r.pick(&counted).clone())),
                    _ => {
                        let arms = vec![
                            Arm { labels: vec![Label::Id("TRUE".into())], default: false, body: Some(field("a", Decl::plain(name(&t)))) },
                            Arm { labels: vec![Label::Id("FALSE".into())], default: false, body: None },
                        ];
                        more.push(Item::Union { name: format!("H{}", k), dname: "k".into(), dty: Ty::Prim(Prim::Bool), arms });
                        continue;
                    }
                };
                more.push(Item::Struct { name: format!("H{}", k), fields: vec![field("f", d), field("g", Decl::plain(Ty::Prim(prim(r))))] });
            }
        }
    }
    items.extend(more);
    let mut spec = Spec { items };
    repair(&mut spec);
    r.shuffle(&mut spec.items);
    spec
}
