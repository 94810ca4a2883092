//! Values, the RFC 4506 reference encoder (with a field map) and a reference decoder.
use crate::rng::Rng;
use crate::spec::*;
use std::fmt::Write;

/// An opaque leaf; `ptr` is where a decoded leaf lives, and is not part of the value.
#[derive(Clone, Debug)]
pub struct Op {
    pub data: Vec<u8>,
    pub ptr: usize,
}
impl PartialEq for Op {
    fn eq(&self, o: &Op) -> bool {
        self.data == o.data
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    U32(u32),
    I32(i32),
    U64(u64),
    I64(i64),
    /// Floats by their bits.
    F32(u32),
    F64(u64),
    Bool(bool),
    Enum(i64),
    Str(String),
    Opaque(Op),
    Arr(Vec<V>),
    Opt(Option<Box<V>>),
    Struct(Vec<V>),
    /// Rust variant name and payload. The discriminant on the wire of a default arm is
    /// not part of the decoded value, so it is kept apart and not compared.
    Union { variant: String, disc: Wire, body: Option<Box<V>> },
    New(Box<V>),
    /// What Debug shows, where the module has not the documented items.
    Text(String),
}

#[derive(Clone, Copy, Debug)]
pub struct Wire(pub i64);
impl PartialEq for Wire {
    fn eq(&self, _: &Wire) -> bool {
        true
    }
}

impl V {
    pub fn op(data: &[u8]) -> V {
        V::Opaque(Op { data: data.to_vec(), ptr: data.as_ptr() as usize })
    }
    pub fn items(&self) -> &[V] {
        match self {
            V::Arr(v) | V::Struct(v) => v,
            _ => panic!("items of {:?}", self),
        }
    }
    pub fn inner(&self) -> &V {
        match self {
            V::New(v) => v,
            _ => panic!("inner"),
        }
    }
    /// Opaque leaves in wire order.
    pub fn opaques<'a>(&'a self, out: &mut Vec<&'a Op>) {
        match self {
            V::Opaque(o) => out.push(o),
            V::Arr(v) | V::Struct(v) => v.iter().for_each(|x| x.opaques(out)),
            V::Opt(Some(v)) | V::New(v) => v.opaques(out),
            V::Union { body: Some(b), .. } => b.opaques(out),
            _ => {}
        }
    }
    pub fn short(&self) -> String {
        struct Cut(String);
        impl Write for Cut {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                for c in s.chars() {
                    if self.0.len() >= 600 {
                        return Err(std::fmt::Error);
                    }
                    self.0.push(c);
                }
                Ok(())
            }
        }
        let mut c = Cut(String::new());
        match write!(c, "{:?}", self) {
            Ok(()) => c.0,
            Err(_) => c.0 + "...",
        }
    }
}

impl Drop for V {
    // Long optional chains must not overflow the monitor's own stack.
    fn drop(&mut self) {
        let mut todo: Vec<V> = Vec::new();
        fn take(v: &mut V, todo: &mut Vec<V>) {
            match v {
                V::Arr(x) | V::Struct(x) => todo.append(x),
                V::Opt(o) => {
                    if let Some(b) = o.take() {
                        todo.push(*b)
                    }
                }
                V::Union { body, .. } => {
                    if let Some(b) = body.take() {
                        todo.push(*b)
                    }
                }
                V::New(b) => {
                    if !matches!(**b, V::Bool(_)) {
                        todo.push(std::mem::replace(&mut **b, V::Bool(false)))
                    }
                }
                _ => {}
            }
        }
        take(self, &mut todo);
        while let Some(mut v) = todo.pop() {
            take(&mut v, &mut todo);
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Role {
    Scalar,
    Bool,
    Enum(String),
    /// Union name.
    Disc(String),
    Marker,
    /// Length of a counted opaque ('o'), string ('s') or array ('a'), and its maximum.
    Len(char, Option<u64>),
    Opaque,
    Str,
    Pad,
}

#[derive(Clone, Debug)]
pub struct Mark {
    pub off: usize,
    pub len: usize,
    pub role: Role,
}

#[derive(Clone, Debug, Default)]
pub struct Enc {
    pub bytes: Vec<u8>,
    pub map: Vec<Mark>,
    /// Number of bare inline `opaque x;` declarators encoded.
    pub bare: usize,
}

impl Enc {
    fn word(&mut self, b: &[u8], role: Role) {
        self.map.push(Mark { off: self.bytes.len(), len: b.len(), role });
        self.bytes.extend_from_slice(b);
    }
    fn payload(&mut self, b: &[u8], role: Role) {
        self.map.push(Mark { off: self.bytes.len(), len: b.len(), role });
        self.bytes.extend_from_slice(b);
        let p = (4 - b.len() % 4) % 4;
        if p > 0 {
            self.map.push(Mark { off: self.bytes.len(), len: p, role: Role::Pad });
            self.bytes.extend(std::iter::repeat(0).take(p));
        }
    }
}

pub fn encode_item(env: &Env, name: &str, v: &V) -> Enc {
    let mut e = Enc::default();
    enc_item(env, name, v, &mut e);
    e
}

fn enc_item(env: &Env, name: &str, v: &V, e: &mut Enc) {
    match (env.item(name).unwrap_or_else(|| panic!("type {}", name)), v) {
        (Item::Enum { .. }, V::Enum(n)) => e.word(&(*n as u32).to_be_bytes(), Role::Enum(name.into())),
        (Item::Struct { fields, .. }, V::Struct(vs)) => {
            for (f, v) in fields.iter().zip(vs) {
                if f.1.ty == Ty::Opaque && f.1.kind == Kind::None {
                    e.bare += 1;
                }
                enc_decl(env, &f.1, v, e);
            }
        }
        (Item::Union { dty, arms, .. }, V::Union { variant, disc, body }) => {
            let role = Role::Disc(name.into());
            match env.disc(dty) {
                Disc::Prim(Prim::U64) | Disc::Prim(Prim::I64) => e.word(&disc.0.to_be_bytes(), role),
                _ => e.word(&(disc.0 as u32).to_be_bytes(), role),
            }
            if let Some(b) = body {
                let vs = env.variants(arms);
                let d = vs.iter().find(|x| x.rust == *variant).unwrap().body.clone().unwrap();
                if d.ty == Ty::Opaque && d.kind == Kind::None {
                    e.bare += 1;
                }
                enc_decl(env, &d, b, e);
            }
        }
        (Item::Typedef { decl, .. }, V::New(v)) => enc_decl(env, decl, v, e),
        (i, v) => panic!("value {:?} of {:?}", v, i),
    }
}

fn enc_decl(env: &Env, d: &Decl, v: &V, e: &mut Enc) {
    if d.opt {
        if let V::Opt(o) = v {
            e.word(&(o.is_some() as u32).to_be_bytes(), Role::Marker);
            if let Some(x) = o {
                enc_one(env, &d.ty, x, e);
            }
            return;
        }
        panic!("optional");
    }
    match (&d.ty, &d.kind, v) {
        (Ty::Opaque, Kind::Fixed(_), V::Opaque(o)) => e.payload(&o.data, Role::Opaque),
        (Ty::Opaque, k, V::Opaque(o)) => {
            e.word(&(o.data.len() as u32).to_be_bytes(), Role::Len('o', env.max(k)));
            e.payload(&o.data, Role::Opaque)
        }
        (Ty::Str, k, V::Str(s)) => {
            e.word(&(s.len() as u32).to_be_bytes(), Role::Len('s', env.max(k)));
            e.payload(s.as_bytes(), Role::Str)
        }
        (t, Kind::None, v) => enc_one(env, t, v, e),
        (t, Kind::Fixed(_), V::Arr(vs)) => vs.iter().for_each(|v| enc_one(env, t, v, e)),
        (t, k, V::Arr(vs)) => {
            e.word(&(vs.len() as u32).to_be_bytes(), Role::Len('a', env.max(k)));
            vs.iter().for_each(|v| enc_one(env, t, v, e))
        }
        x => panic!("value {:?}", x),
    }
}

fn enc_one(env: &Env, t: &Ty, v: &V, e: &mut Enc) {
    match (t, v) {
        (_, V::U32(n)) => e.word(&n.to_be_bytes(), Role::Scalar),
        (_, V::I32(n)) => e.word(&n.to_be_bytes(), Role::Scalar),
        (_, V::U64(n)) => e.word(&n.to_be_bytes(), Role::Scalar),
        (_, V::I64(n)) => e.word(&n.to_be_bytes(), Role::Scalar),
        (_, V::F32(n)) => e.word(&n.to_be_bytes(), Role::Scalar),
        (_, V::F64(n)) => e.word(&n.to_be_bytes(), Role::Scalar),
        (_, V::Bool(b)) => e.word(&(*b as u32).to_be_bytes(), Role::Bool),
        (Ty::Name(n), v) => enc_item(env, n, v, e),
        (Ty::Str, V::Str(_)) | (Ty::Opaque, V::Opaque(_)) => enc_decl(env, &Decl::plain(t.clone()), v, e),
        x => panic!("value {:?}", x),
    }
}

// ---------------------------------------------------------------- reference decoder

#[derive(Clone, Debug, PartialEq)]
pub enum Er {
    InvalidLength,
    NonUtf8,
    InvalidBoolean,
    UnknownVariant(i32),
    UnknownOption(u32),
    Other(String),
}

pub struct Dec<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    /// Give up on values with more elements than this (monitor's own limit).
    pub budget: usize,
}

impl<'a> Dec<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], Er> {
        if self.b.len() - self.pos < n {
            return Err(Er::InvalidLength);
        }
        let s = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    fn u32(&mut self) -> Result<u32, Er> {
        Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn u64(&mut self) -> Result<u64, Er> {
        Ok(u64::from_be_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn payload(&mut self, n: u64) -> Result<&'a [u8], Er> {
        let pad = (4 - n % 4) % 4;
        if ((self.b.len() - self.pos) as u64) < n + pad {
            return Err(Er::InvalidLength);
        }
        let s = self.take(n as usize)?;
        self.take(pad as usize)?;
        Ok(s)
    }
    fn prim(&mut self, p: Prim) -> Result<V, Er> {
        Ok(match p {
            Prim::U32 => V::U32(self.u32()?),
            Prim::I32 => V::I32(self.u32()? as i32),
            Prim::U64 => V::U64(self.u64()?),
            Prim::I64 => V::I64(self.u64()? as i64),
            Prim::F32 => V::F32(self.u32()?),
            Prim::F64 => V::F64(self.u64()?),
            Prim::Bool => match self.u32()? {
                0 => V::Bool(false),
                1 => V::Bool(true),
                _ => return Err(Er::InvalidBoolean),
            },
        })
    }
    pub fn item(&mut self, env: &Env, name: &str) -> Result<V, Er> {
        match env.item(name).unwrap() {
            Item::Enum { members, .. } => {
                let d = self.u32()? as i32;
                if members.iter().any(|m| m.1.val as i64 == d as i64) {
                    Ok(V::Enum(d as i64))
                } else {
                    Err(Er::UnknownVariant(d))
                }
            }
            Item::Struct { fields, .. } => {
                let mut v = Vec::new();
                for f in fields {
                    v.push(self.decl(env, &f.1)?);
                }
                Ok(V::Struct(v))
            }
            Item::Typedef { decl, .. } => Ok(V::New(Box::new(self.decl(env, decl)?))),
            Item::Union { dty, arms, .. } => {
                let disc = match env.disc(dty) {
                    Disc::Enum(e) => match self.item(env, &e)? {
                        V::Enum(n) => n,
                        _ => unreachable!(),
                    },
                    Disc::Prim(p) => match self.prim(p)? {
                        V::U32(n) => n as i64,
                        V::I32(n) => n as i64,
                        V::U64(n) => n as i64,
                        V::I64(n) => n,
                        V::Bool(b) => b as i64,
                        _ => unreachable!(),
                    },
                };
                let vs = env.variants(arms);
                let v = vs.iter().find(|v| v.disc == Some(disc)).or_else(|| vs.iter().find(|v| v.disc.is_none()));
                match v {
                    None => Err(Er::UnknownVariant(disc as i32)),
                    Some(v) => Ok(V::Union {
                        variant: v.rust.clone(),
                        disc: Wire(disc),
                        body: match &v.body {
                            None => None,
                            Some(d) => Some(Box::new(self.decl(env, d)?)),
                        },
                    }),
                }
            }
            Item::Const { .. } => panic!("const"),
        }
    }
    fn one(&mut self, env: &Env, t: &Ty) -> Result<V, Er> {
        match t {
            Ty::Prim(p) => self.prim(*p),
            Ty::Name(n) => self.item(env, n),
            _ => self.decl(env, &Decl::plain(t.clone())),
        }
    }
    fn decl(&mut self, env: &Env, d: &Decl) -> Result<V, Er> {
        if d.opt {
            return Ok(V::Opt(match self.u32()? {
                0 => None,
                1 => Some(Box::new(self.one(env, &d.ty)?)),
                m => return Err(Er::UnknownOption(m)),
            }));
        }
        match (&d.ty, &d.kind) {
            (Ty::Opaque, Kind::Fixed(b)) => Ok(V::op(self.payload(env.bound(b))?)),
            (Ty::Opaque, k) | (Ty::Str, k) => {
                let n = self.u32()? as u64;
                if env.max(k).map(|m| n > m).unwrap_or(false) {
                    return Err(Er::InvalidLength);
                }
                let b = self.payload(n)?;
                if d.ty == Ty::Opaque {
                    Ok(V::op(b))
                } else {
                    String::from_utf8(b.to_vec()).map(V::Str).map_err(|_| Er::NonUtf8)
                }
            }
            (t, Kind::None) => self.one(env, t),
            (t, Kind::Fixed(b)) => {
                let mut v = Vec::new();
                for _ in 0..env.bound(b) {
                    v.push(self.one(env, t)?);
                }
                Ok(V::Arr(v))
            }
            (t, k) => {
                let n = self.u32()? as u64;
                if env.max(k).map(|m| n > m).unwrap_or(false) {
                    return Err(Er::InvalidLength);
                }
                let mut v = Vec::new();
                for _ in 0..n {
                    v.push(self.one(env, t)?);
                    self.budget = self.budget.checked_sub(1).ok_or(Er::Other("budget".into()))?;
                }
                Ok(V::Arr(v))
            }
        }
    }
}

/// Reference decoding of a whole item: value (or error) and bytes consumed.
pub fn ref_decode(env: &Env, name: &str, b: &[u8]) -> (Result<V, Er>, usize) {
    let mut d = Dec { b, pos: 0, budget: 1 << 22 };
    let r = d.item(env, name);
    (r, d.pos)
}

// ---------------------------------------------------------------- value generation

#[derive(Clone, Debug)]
pub struct Vg {
    /// Longest array and payload generated at random.
    pub arr: usize,
    pub pay: usize,
    pub depth: usize,
    /// Prefer lengths equal to the declared maximum.
    pub at_max: bool,
    /// Remaining leaves this value may create.
    pub fuel: usize,
}

impl Vg {
    pub fn normal() -> Vg {
        Vg { arr: 4, pay: 18, depth: 7, at_max: false, fuel: 4000 }
    }
    pub fn minimal() -> Vg {
        Vg { arr: 0, pay: 0, depth: 0, at_max: false, fuel: 0 }
    }
}

thread_local! {
    /// Counted declarators visited since the last reset, as (kind, maximum, smallest
    /// encoding of one element).
    pub static VISITED: std::cell::RefCell<Vec<(char, Option<u64>, usize)>> = const { std::cell::RefCell::new(Vec::new()) };
    /// Length forced on the n-th counted declarator visited.
    pub static FORCE: std::cell::Cell<Option<(usize, u64)>> = const { std::cell::Cell::new(None) };
}

/// Generates with the length of the `k`-th counted declarator forced to `n`.
pub fn forced<T>(force: Option<(usize, u64)>, f: impl FnOnce() -> T) -> (T, Vec<(char, Option<u64>, usize)>) {
    VISITED.with(|v| v.borrow_mut().clear());
    FORCE.with(|x| x.set(force));
    let t = f();
    FORCE.with(|x| x.set(None));
    (t, VISITED.with(|v| std::mem::take(&mut *v.borrow_mut())))
}

fn visit(kind: char, max: Option<u64>, min: impl FnOnce() -> usize) -> Option<u64> {
    VISITED.with(|v| {
        let mut v = v.borrow_mut();
        if v.len() < 1 << 16 {
            // Only the first few are ever forced to be long.
            let m = if v.len() < 12 { min() } else { 0 };
            v.push((kind, max, m));
        }
        FORCE.with(|x| x.get()).filter(|f| f.0 + 1 == v.len()).map(|f| f.1)
    })
}

fn payload_len(r: &mut Rng, g: &Vg, kind: char, max: Option<u64>) -> usize {
    if let Some(n) = visit(kind, max, || 1) {
        return n as usize;
    }
    let cap = max.unwrap_or(u32::MAX as u64);
    if g.at_max && cap <= 5000 && g.fuel > 0 {
        return cap as usize;
    }
    let n = match r.below(12) {
        0 => 0,
        1 if max.is_some() && cap <= 400 => cap as usize,
        2 if max.is_some() && cap <= 400 => (cap as usize).saturating_sub(1),
        _ => r.below(g.pay + 1),
    };
    (n as u64).min(cap) as usize
}

pub fn bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(8) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 if r.pct(50) => vec![r.next() as u8; n],
        2 => (0..n).map(|k| if k % 4 == 3 { r.below(6) as u8 } else { 0 }).collect(),
        3 => (0..n).map(|_| b' ' + r.below(95) as u8).collect(),
        _ if n > 1 << 18 => {
            let block: Vec<u8> = (0..65_521).map(|_| r.next() as u8).collect();
            block.iter().copied().cycle().take(n).collect()
        }
        _ => (0..n).map(|_| r.next() as u8).collect(),
    }
}

/// Texts that something might take for more than text.
const WORDS: &[&str] = &[
    "\u{1b}[0m", "%00", "%s", "%", "&amp;", "&", "\\n", "\\0", "\\u0000", "\\", "\"", "'", "NaN", "null", "true", "0", "1", "-1", "../", "/", " ", "  ", "\n",
    "\r\n", "\r", "\t", "\u{85}", "\u{2028}", "\u{200b}", "\u{202e}", "e\u{301}", "\u{e9}", "\u{fb01}", "\u{130}", "\u{df}", "K", "\u{212a}", "A", "a", "ZZ", "{}", "$x", "\u{7f}",
    "\u{1F468}\u{200d}\u{1F469}", "\u{10ffff}", "\u{fffe}", "\u{feff}", "\0",
];

/// A string of exactly `n` bytes, with multi-byte characters and NULs.
pub fn string(r: &mut Rng, n: usize) -> String {
    if n > 1 << 18 {
        let block = string(r, 65_521);
        let end = string(r, n % block.len());
        let mut s = block.repeat(n / block.len());
        s.push_str(&end);
        return s;
    }
    let mut s = String::new();
    // Mixed text, or text that is special as a whole or at one of its ends.
    let style = r.weighted(&[50, 12, 8, 6, 6, 6, 6, 6, 10, 8]);
    let head: &str = match style {
        3 => *r.pick(&["\u{feff}", " ", "\t", "\0", "\r\n", "\u{301}"]),
        _ => "",
    };
    let tail: &str = match style {
        2 => *r.pick(&["é", "∆", "\u{1F600}", "\u{7f}"]),
        4 => *r.pick(&["\0", "\0\0", "\0\0\0"]),
        5 => *r.pick(&[" ", "\n", "\r\n", "\t ", "\u{3000}", "\u{fffd}"]),
        _ => "",
    };
    let (head, tail) = if head.len() + tail.len() <= n { (head, tail) } else { ("", "") };
    s.push_str(head);
    let n = n - tail.len();
    while s.len() < n {
        let left = n - s.len();
        match style {
            0 | 3 => {}
            6 => {
                s.push('\0');
                continue;
            }
            8 => {
                // Any scalar value, each class as likely.
                let c = match r.below(7) {
                    0 => r.below(32) as u32,
                    1 => r.below(128) as u32,
                    2 => 0x7f + r.below(0x22) as u32,
                    3 => r.below(0x800) as u32,
                    4 => 0x2000 + r.below(0x70) as u32,
                    5 => r.below(0x1_0000) as u32,
                    _ => r.below(0x11_0000) as u32,
                };
                let c = char::from_u32(c).unwrap_or('?');
                s.push(if c.len_utf8() <= left { c } else { r.below(128) as u8 as char });
                continue;
            }
            9 => {
                let w = *r.pick(WORDS);
                s.push_str(if w.len() <= left { w } else { "x" });
                continue;
            }
            7 if left >= 3 => {
                s.push(*r.pick(&['\u{800}', '\u{ffff}', '\u{fffd}', '\u{d7ff}', '\u{e000}']));
                continue;
            }
            _ => {
                s.push((b' ' + r.below(95) as u8) as char);
                continue;
            }
        }
        match r.below(6) {
            0 if left >= 2 => s.push('é'),
            1 if left >= 3 => s.push('∆'),
            2 if left >= 4 => s.push('\u{1F600}'),
            3 if r.pct(20) => s.push('\0'),
            4 if left >= 2 && r.pct(20) => s.push('\u{80}'),
            _ => s.push((b' ' + r.below(95) as u8) as char),
        }
    }
    s.push_str(tail);
    s
}

pub fn gen_prim(r: &mut Rng, p: Prim) -> V {
    let w = match r.below(8) {
        6 => r.next() >> r.below(64),
        7 => !(r.next() >> r.below(64)),
        0 => 0,
        1 => u64::MAX,
        2 => *r.pick(&[
            1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0xffffff, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe,
            0xffffffff, 1 << 32, (1 << 32) | 1, 0xffffffff_00000000, 0x80000000_00000000 | 1, i64::MAX as u64, 1 << 63, u64::MAX - 1, 1 << 53, (1 << 53) + 1,
        ]),
        _ => r.next(),
    };
    match p {
        Prim::U32 => V::U32(w as u32),
        Prim::I32 => V::I32(w as i32),
        Prim::U64 => V::U64(w),
        Prim::I64 => V::I64(w as i64),
        Prim::F32 => V::F32(match r.below(5) {
            0 => *r.pick(&[0x7fc00000, 0xffc00001, 0x80000000, 0x7f800000, 0xff800000, 1, 0x7fa00000, 0x00800000, 0x807fffff, 0x7f7fffff, 0xff7fffff, 0x3f800000, 0xbf800000, 0x4b800000, 0x7fffffff]),
            _ => w as u32,
        }),
        Prim::F64 => V::F64(match r.below(5) {
            0 => *r.pick(&[
                0x7ff8000000000000, 0xfff8000000000001, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 1, 0x7ff4000000000000, 0x0010000000000000,
                0x800fffffffffffff, 0x7fefffffffffffff, 0xffefffffffffffff, 0x3ff0000000000000, 0xbff0000000000000, 0x4340000000000000,
                0x7fffffffffffffff, 0x47efffffe0000000, 0x3fb999999999999a,
            ]),
            _ => w,
        }),
        Prim::Bool => V::Bool(w & 1 == 1),
    }
}

pub fn gen_item(env: &Env, name: &str, r: &mut Rng, g: &mut Vg) -> V {
    match env.item(name).unwrap_or_else(|| panic!("type {}", name)) {
        Item::Enum { members, .. } => V::Enum(r.pick(members).1.val as i64),
        Item::Struct { fields, .. } => V::Struct(fields.iter().map(|f| gen_decl(env, &f.1, r, g)).collect()),
        Item::Typedef { decl, .. } => V::New(Box::new(gen_decl(env, decl, r, g))),
        Item::Union { arms, .. } => {
            let vs = env.variants(arms);
            let k = r.below(vs.len());
            gen_variant(env, name, k, r, g)
        }
        Item::Const { .. } => panic!("const"),
    }
}

/// A value of union `name` using its `k`-th variant.
pub fn gen_variant(env: &Env, name: &str, k: usize, r: &mut Rng, g: &mut Vg) -> V {
    if let Some(Item::Union { arms, dty, .. }) = env.item(name) {
        let vs = env.variants(arms);
        let mut k = k;
        let mut disc = vs[k].disc;
        if disc.is_none() {
            disc = default_disc(env, arms, dty, r);
            if disc.is_none() {
                // Every discriminant has its own label: the default is unreachable.
                k = vs.iter().position(|v| v.disc.is_some()).unwrap();
                disc = vs[k].disc;
            }
        }
        return V::Union {
            variant: vs[k].rust.clone(),
            disc: Wire(disc.unwrap()),
            body: vs[k].body.as_ref().map(|d| Box::new(gen_decl(env, d, r, g))),
        };
    }
    panic!("union {}", name)
}

/// A discriminant that selects the default arm, if there is one.
pub fn default_disc(env: &Env, arms: &[Arm], dty: &Ty, r: &mut Rng) -> Option<i64> {
    let own: Vec<i64> = env.variants(arms).iter().filter_map(|v| v.disc).collect();
    let cand: Vec<i64> = match env.disc(dty) {
        Disc::Prim(Prim::Bool) => vec![0, 1],
        Disc::Enum(e) => match env.item(&e) {
            Some(Item::Enum { members, .. }) => members.iter().map(|m| m.1.val as i64).collect(),
            _ => vec![],
        },
        Disc::Prim(p) => {
            let mut c: Vec<i64> = Vec::new();
            for d in env.declared(arms) {
                c.extend([d, d.wrapping_add(1), d.wrapping_sub(1)]);
            }
            c.extend([0, 1, 2, 3, 5, 100, 0x7fffffff, 0x80000000, 0xffffffff, -1, i32::MIN as i64]);
            let w = r.next();
            c.extend([w as i64, w as u32 as i64, w as i32 as i64]);
            c.into_iter()
                .filter(|x| match p {
                    Prim::U32 => *x >= 0 && *x <= u32::MAX as i64,
                    Prim::I32 => *x >= i32::MIN as i64 && *x <= i32::MAX as i64,
                    _ => true,
                })
                .collect()
        }
    };
    let cand: Vec<i64> = cand.into_iter().filter(|x| !own.contains(x)).collect();
    if cand.is_empty() {
        None
    } else {
        Some(*r.pick(&cand))
    }
}

pub fn gen_decl(env: &Env, d: &Decl, r: &mut Rng, g: &mut Vg) -> V {
    g.fuel = g.fuel.saturating_sub(1);
    if d.opt {
        let some = g.depth > 0 && g.fuel > 0 && r.pct(60);
        return V::Opt(if some {
            let mut h = Vg { depth: g.depth - 1, ..g.clone() };
            let v = gen_one(env, &d.ty, r, &mut h);
            g.fuel = h.fuel;
            Some(Box::new(v))
        } else {
            None
        });
    }
    match (&d.ty, &d.kind) {
        (Ty::Opaque, Kind::Fixed(b)) => V::op(&bytes(r, env.bound(b) as usize)),
        (Ty::Opaque, k) => {
            let n = payload_len(r, g, 'o', env.max(k));
            V::op(&bytes(r, n))
        }
        (Ty::Str, k) => {
            let n = payload_len(r, g, 's', env.max(k));
            V::Str(string(r, n))
        }
        (t, Kind::None) => gen_one(env, t, r, g),
        (t, Kind::Fixed(b)) => V::Arr((0..env.bound(b)).map(|_| gen_one(env, t, r, g)).collect()),
        (t, k) => {
            let max = env.max(k).unwrap_or(u32::MAX as u64);
            let n = if let Some(n) = visit('a', env.max(k), || match t {
                Ty::Name(n) => env.min_item(n, 60) as usize,
                _ => 4,
            }) {
                n
            } else if g.depth == 0 || g.fuel == 0 {
                0
            } else if g.at_max && max <= 64 {
                max
            } else {
                match r.below(8) {
                    0 if max <= 20 && g.fuel > 1000 => max,
                    _ => (r.below(g.arr + 1) as u64).min(max),
                }
            };
            let mut h = Vg { depth: g.depth.saturating_sub(1), at_max: g.at_max && r.pct(50), ..g.clone() };
            let v = (0..n).map(|_| gen_one(env, t, r, &mut h)).collect();
            g.fuel = h.fuel;
            V::Arr(v)
        }
    }
}

fn gen_one(env: &Env, t: &Ty, r: &mut Rng, g: &mut Vg) -> V {
    match t {
        Ty::Prim(p) => gen_prim(r, *p),
        Ty::Name(n) => gen_item(env, n, r, g),
        _ => gen_decl(env, &Decl::plain(t.clone()), r, g),
    }
}

/// Directed values of a declarator: lengths of every residue, minima and maxima, both
/// states of optionals, boundary scalars.
pub fn directed_decl(env: &Env, d: &Decl, r: &mut Rng) -> Vec<V> {
    let mut out = Vec::new();
    let lens = |max: Option<u64>| -> Vec<usize> {
        let mut v: Vec<u64> = (0..=9).collect();
        if let Some(m) = max {
            v.retain(|x| *x <= m);
            if m <= 70000 {
                for x in [m, m.saturating_sub(1), m.saturating_sub(2), m.saturating_sub(3)] {
                    if !v.contains(&x) {
                        v.push(x);
                    }
                }
            }
        }
        v.into_iter().map(|x| x as usize).collect()
    };
    if d.opt {
        out.push(V::Opt(None));
        for _ in 0..2 {
            out.push(V::Opt(Some(Box::new(gen_one(env, &d.ty, r, &mut Vg::normal())))));
        }
        out.push(V::Opt(Some(Box::new(gen_one(env, &d.ty, r, &mut Vg::minimal())))));
        return out;
    }
    match (&d.ty, &d.kind) {
        (Ty::Opaque, Kind::Fixed(_)) => {
            out.push(gen_decl(env, d, r, &mut Vg::normal()));
            out.push(gen_decl(env, d, r, &mut Vg::normal()));
        }
        (Ty::Opaque, k) => {
            for n in lens(env.max(k)) {
                out.push(V::op(&bytes(r, n)));
            }
        }
        (Ty::Str, k) => {
            for n in lens(env.max(k)) {
                out.push(V::Str(string(r, n)));
            }
        }
        (Ty::Prim(p), Kind::None) => {
            let mut seen: Vec<V> = Vec::new();
            for _ in 0..40 {
                let v = gen_prim(r, *p);
                if !seen.contains(&v) && seen.len() < 14 {
                    seen.push(v);
                }
            }
            out.append(&mut seen);
        }
        (Ty::Name(n), Kind::None) => match env.item(n) {
            Some(Item::Union { arms, .. }) => {
                for k in 0..env.variants(arms).len() {
                    out.push(gen_variant(env, n, k, r, &mut Vg::normal()));
                }
            }
            Some(Item::Enum { members, .. }) => {
                out.extend(members.iter().take(30).map(|m| V::Enum(m.1.val as i64)));
            }
            _ => {
                for _ in 0..3 {
                    out.push(gen_item(env, n, r, &mut Vg::normal()));
                }
                out.push(gen_item(env, n, r, &mut Vg::minimal()));
            }
        },
        (_, Kind::Fixed(_)) => {
            for _ in 0..2 {
                out.push(gen_decl(env, d, r, &mut Vg::normal()));
            }
        }
        (t, k) => {
            let max = env.max(k);
            let mut ns: Vec<u64> = (0..=5).filter(|x| max.map(|m| *x <= m).unwrap_or(true)).collect();
            if let Some(m) = max {
                if m <= 300 {
                    for x in [m, m.saturating_sub(1)] {
                        if !ns.contains(&x) {
                            ns.push(x);
                        }
                    }
                }
            }
            for n in ns {
                let mut g = Vg { fuel: 3000, depth: 3, arr: 2, ..Vg::normal() };
                out.push(V::Arr((0..n).map(|_| gen_one(env, t, r, &mut g)).collect()));
            }
        }
    }
    out
}

/// Directed values of a type: every field (arm, ...) varied with the rest random.
pub fn directed_item(env: &Env, name: &str, r: &mut Rng) -> Vec<V> {
    let mut out = Vec::new();
    match env.item(name).unwrap() {
        Item::Enum { members, .. } => out.extend(members.iter().map(|m| V::Enum(m.1.val as i64))),
        Item::Typedef { decl, .. } => {
            out.extend(directed_decl(env, decl, r).into_iter().map(|v| V::New(Box::new(v))))
        }
        Item::Struct { fields, .. } => {
            for i in 0..fields.len() {
                for v in directed_decl(env, &fields[i].1, r) {
                    let mut g = Vg { arr: 2, depth: 3, fuel: 300, ..Vg::normal() };
                    let mut v = Some(v);
                    out.push(V::Struct(
                        (0..fields.len())
                            .map(|j| if i == j { v.take().unwrap() } else { gen_decl(env, &fields[j].1, r, &mut g) })
                            .collect(),
                    ));
                }
            }
        }
        Item::Union { arms, .. } => {
            let vs = env.variants(arms);
            for (k, x) in vs.iter().enumerate() {
                let base = gen_variant(env, name, k, r, &mut Vg::normal());
                if let (Some(d), V::Union { variant, disc, .. }) = (&x.body, &base) {
                    if *variant == x.rust {
                        for v in directed_decl(env, d, r) {
                            out.push(V::Union { variant: variant.clone(), disc: *disc, body: Some(Box::new(v)) });
                        }
                    }
                }
                out.push(base);
                // Several discriminants of the default.
                if x.disc.is_none() {
                    for _ in 0..6 {
                        out.push(gen_variant(env, name, k, r, &mut Vg::normal()));
                    }
                }
            }
        }
        Item::Const { .. } => {}
    }
    out
}

/// A random short path from a type back to itself, as (type, declarator) steps through
/// optional links, counted arrays, union arms, typedefs and plain fields.
pub fn cycle(env: &Env, name: &str, r: &mut Rng) -> Option<Vec<(String, usize)>> {
    let mut from: std::collections::HashMap<String, (String, usize)> = Default::default();
    let mut todo = std::collections::VecDeque::from([name.to_string()]);
    while let Some(x) = todo.pop_front() {
        let it = env.item(&x)?;
        let decls: Vec<Option<Decl>> = match it {
            Item::Union { arms, .. } => env.variants(arms).into_iter().map(|v| v.body).collect(),
            it => it.decls().into_iter().map(|d| Some(d.clone())).collect(),
        };
        let mut idx: Vec<usize> = (0..decls.len()).collect();
        r.shuffle(&mut idx);
        for k in idx {
            let d = match &decls[k] {
                Some(d) => d,
                None => continue,
            };
            let ok = d.opt || matches!(d.kind, Kind::None) || matches!(&d.kind, k @ Kind::Var(_) if env.max(k) != Some(0));
            let m = match &d.ty {
                Ty::Name(m) if ok => m,
                _ => continue,
            };
            if m == name {
                let mut path = vec![(x.clone(), k)];
                let mut at = x.clone();
                while at != name {
                    let p = from[&at].clone();
                    at = p.0.clone();
                    path.push(p);
                }
                path.reverse();
                return Some(path);
            }
            if !from.contains_key(m) && matches!(env.item(m), Some(Item::Struct { .. } | Item::Union { .. } | Item::Typedef { .. })) {
                from.insert(m.clone(), (x.clone(), k));
                todo.push_back(m.clone());
            }
        }
    }
    None
}

/// A value of a recursive type nested `n` times, in at most about `cap` bytes.
pub fn chain(env: &Env, name: &str, n: usize, cap: usize, r: &mut Rng) -> Option<V> {
    let path = cycle(env, name, r)?;
    chain_along(env, name, &path, n, cap, r)
}

pub fn chain_along(env: &Env, name: &str, path: &[(String, usize)], n: usize, cap: usize, r: &mut Rng) -> Option<V> {
    // The decoder measures every element of a counted array after reading it: nesting
    // through arrays costs it quadratic time.
    let counted = path.iter().any(|(x, k)| {
        matches!(env.item(x), Some(Item::Struct { .. } | Item::Typedef { .. }))
            && env.item(x).unwrap().decls().get(*k).is_some_and(|d| matches!(d.kind, Kind::Var(_)))
    });
    let n = if counted { n.min(1200) } else { n };
    let mut g = Vg { arr: 0, pay: 3, depth: 0, at_max: false, fuel: 0 };
    let mut cur = gen_item(env, name, r, &mut g);
    let base = encode_item(env, name, &cur).bytes.len();
    let mut rounds = n;
    let mut done = 0;
    while done < rounds {
        for (x, k) in path.iter().rev() {
            cur = wrap(env, x, *k, cur, r, &mut g)?;
        }
        done += 1;
        if done == 1 {
            let link = encode_item(env, name, &cur).bytes.len().saturating_sub(base).max(4);
            rounds = n.min(cap / link + 1);
            if counted {
                rounds = rounds.min(((12_000_000 / link) as f64).sqrt() as usize).max(n.min(130));
            }
        }
    }
    Some(cur)
}

/// A value of `x` that holds `v` in its `k`-th declarator.
fn wrap(env: &Env, x: &str, k: usize, v: V, r: &mut Rng, g: &mut Vg) -> Option<V> {
    fn hold(d: &Decl, v: V) -> V {
        match (d.opt, &d.kind) {
            (true, _) => V::Opt(Some(Box::new(v))),
            (_, Kind::Var(_)) => V::Arr(vec![v]),
            _ => v,
        }
    }
    Some(match env.item(x)? {
        Item::Struct { fields, .. } => {
            let mut v = Some(v);
            V::Struct(
                (0..fields.len())
                    .map(|j| {
                        if j == k {
                            hold(&fields[j].1, v.take().unwrap())
                        } else {
                            gen_decl(env, &fields[j].1, r, g)
                        }
                    })
                    .collect(),
            )
        }
        Item::Typedef { decl, .. } => V::New(Box::new(hold(decl, v))),
        Item::Union { arms, dty, .. } => {
            let arm = env.variants(arms).into_iter().nth(k)?;
            let disc = match arm.disc {
                Some(d) => d,
                None => default_disc(env, arms, dty, r)?,
            };
            let v = hold(&arm.body?, v);
            V::Union { variant: arm.rust, disc: Wire(disc), body: Some(Box::new(v)) }
        }
        _ => return None,
    })
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}
