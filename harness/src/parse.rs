//! Independent recursive descent reader of the XDR subset (for the hand-written corpus).
use crate::spec::*;

struct P {
    t: Vec<String>,
    i: usize,
}

pub fn tokenize(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < c.len() {
        if c[i].is_whitespace() {
            i += 1;
        } else if c[i] == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if c[i] == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if c[i].is_ascii_alphanumeric() || c[i] == '_' {
            let j = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            out.push(c[j..i].iter().collect());
        } else {
            out.push(c[i].to_string());
            i += 1;
        }
    }
    out
}

impl P {
    fn peek(&self) -> &str {
        self.t.get(self.i).map(|s| s.as_str()).unwrap_or("")
    }
    fn next(&mut self) -> String {
        let s = self.peek().to_string();
        self.i += 1;
        s
    }
    fn want(&mut self, s: &str) {
        let n = self.next();
        assert_eq!(n, s, "corpus syntax near token {} {:?}", self.i, &self.t[self.i.saturating_sub(6)..self.i]);
    }
    fn num(s: &str) -> Num {
        match s.strip_prefix("0x") {
            Some(h) => {
                let val = u64::from_str_radix(h, 16).unwrap();
                let d = h.trim_start_matches('0').len().max(1);
                Num { val, hex: true, zeros: h.len() - d, upper: h.chars().any(|c| c.is_ascii_uppercase()), sym: None }
            }
            None => Num::new(s.parse().unwrap_or_else(|_| panic!("number {}", s)), false),
        }
    }
    fn ty(&mut self) -> Ty {
        let s = self.next();
        match s.as_str() {
            "unsigned" => match self.peek() {
                "int" => {
                    self.i += 1;
                    Ty::Prim(Prim::U32)
                }
                "hyper" => {
                    self.i += 1;
                    Ty::Prim(Prim::U64)
                }
                _ => Ty::Prim(Prim::U32),
            },
            "uint32_t" | "u32" => Ty::Prim(Prim::U32),
            "int" | "int32_t" | "i32" => Ty::Prim(Prim::I32),
            "uint64_t" | "u64" => Ty::Prim(Prim::U64),
            "hyper" | "int64_t" | "i64" => Ty::Prim(Prim::I64),
            "float" => Ty::Prim(Prim::F32),
            "double" => Ty::Prim(Prim::F64),
            "bool" => Ty::Prim(Prim::Bool),
            "string" => Ty::Str,
            "opaque" => Ty::Opaque,
            _ => Ty::Name(s),
        }
    }
    fn bound(&mut self) -> Bound {
        let s = self.next();
        match s.parse::<u32>() {
            Ok(n) => Bound::Lit(n),
            Err(_) => Bound::Const(s),
        }
    }
    fn decl(&mut self) -> (String, Decl) {
        let ty = self.ty();
        let opt = self.peek() == "*";
        if opt {
            self.i += 1;
        }
        let name = self.next();
        let kind = match self.peek() {
            "[" => {
                self.i += 1;
                let b = self.bound();
                self.want("]");
                Kind::Fixed(b)
            }
            "<" => {
                self.i += 1;
                let k = if self.peek() == ">" { None } else { Some(self.bound()) };
                self.want(">");
                Kind::Var(k)
            }
            _ => Kind::None,
        };
        self.want(";");
        (name, Decl { ty, kind, opt })
    }
}

pub fn parse(s: &str) -> Spec {
    let mut p = P { t: tokenize(s), i: 0 };
    let mut items = Vec::new();
    while p.i < p.t.len() {
        match p.next().as_str() {
            "const" => {
                let name = p.next();
                p.want("=");
                let val = P::num(&p.next());
                p.want(";");
                items.push(Item::Const { name, val });
            }
            "enum" => {
                let name = p.next();
                p.want("{");
                let mut members = Vec::new();
                loop {
                    let m = p.next();
                    p.want("=");
                    members.push((m, P::num(&p.next())));
                    if p.next() == "}" {
                        break;
                    }
                }
                p.want(";");
                items.push(Item::Enum { name, members });
            }
            "struct" => {
                let name = p.next();
                p.want("{");
                let mut fields = Vec::new();
                while p.peek() != "}" {
                    fields.push(p.decl());
                }
                p.i += 1;
                p.want(";");
                items.push(Item::Struct { name, fields });
            }
            "union" => {
                let name = p.next();
                p.want("switch");
                p.want("(");
                let dty = p.ty();
                let dname = p.next();
                p.want(")");
                p.want("{");
                let mut arms = Vec::new();
                let mut labels = Vec::new();
                let mut default = false;
                while p.peek() != "}" {
                    match p.peek() {
                        "case" => {
                            p.i += 1;
                            let s = p.next();
                            labels.push(match s.parse::<u64>() {
                                Ok(n) => Label::Num(n),
                                Err(_) => Label::Id(s),
                            });
                            p.want(":");
                        }
                        "default" => {
                            p.i += 1;
                            p.want(":");
                            default = true;
                        }
                        "void" => {
                            p.i += 1;
                            p.want(";");
                            arms.push(Arm { labels: std::mem::take(&mut labels), default, body: None });
                            default = false;
                        }
                        _ => {
                            let d = p.decl();
                            arms.push(Arm { labels: std::mem::take(&mut labels), default, body: Some(d) });
                            default = false;
                        }
                    }
                }
                p.i += 1;
                p.want(";");
                items.push(Item::Union { name, dname, dty, arms });
            }
            "typedef" => {
                let (name, decl) = p.decl();
                items.push(Item::Typedef { name, decl });
            }
            t => panic!("corpus: unexpected {:?}", t),
        }
    }
    Spec { items }
}
