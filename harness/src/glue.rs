//! Emits, from the model alone, the Rust accessor harness of a specification: it names
//! every type, field and variant of the generated module with its documented type.
use crate::spec::*;
use std::fmt::Write;

/// `gen_mod` is the path of the module that contains the generated `pub mod xdr`.
pub fn emit(env: &Env, gen_mod: &str, derive: &str) -> String {
    let mut o = String::new();
    let w = &mut o;
    let _ = writeln!(w, "#![allow(warnings)]");
    let _ = writeln!(w, "use {}::xdr;", gen_mod);
    let _ = writeln!(w, "use fastxdr::bytes::Bytes;");
    let _ = writeln!(w, "use std::convert::TryFrom;");
    let _ = writeln!(w, "use xv::value::{{V, Er, Op, Wire}};");
    let _ = writeln!(w, "use xv::ops::{{TypeOps, fixed, run_val, run_ref}};");
    // The error type.
    let _ = writeln!(
        w,
        "pub fn er(e: &xdr::Error) -> Er {{ match e {{
    xdr::Error::InvalidLength => Er::InvalidLength,
    xdr::Error::NonUtf8String(_) => Er::NonUtf8,
    xdr::Error::InvalidBoolean => Er::InvalidBoolean,
    xdr::Error::UnknownVariant(n) => {{ let n: &i32 = n; Er::UnknownVariant(*n) }}
    xdr::Error::UnknownOptionVariant(n) => {{ let n: &u32 = n; Er::UnknownOption(*n) }}
    e => Er::Other(format!(\"{{:?}}\", e)),
}} }}"
    );
    let _ = writeln!(
        w,
        "fn api<T>() where T: TryFrom<Bytes, Error = xdr::Error> + for<'a> TryFrom<&'a mut Bytes, Error = xdr::Error> + xdr::WireSize + std::fmt::Debug + PartialEq {{}}"
    );
    // What a custom derive line adds.
    let extra: Vec<&str> = ["Clone", "PartialOrd", "Ord", "Eq", "Hash"]
        .into_iter()
        .filter(|t| derive.split(|c: char| !c.is_alphanumeric()).any(|w| w == *t))
        .map(|t| if t == "Hash" { "std::hash::Hash" } else { t })
        .collect();
    let _ = writeln!(w, "fn derived<T{}>() {{}}", if extra.is_empty() { String::new() } else { format!(": {}", extra.join(" + ")) });
    let _ = writeln!(w, "trait Distinct {{}}");
    let mut ops = String::new();
    let mut api = String::new();
    for it in &env.spec.items {
        let name = it.name();
        match it {
            Item::Const { val, .. } => {
                let _ = writeln!(w, "const _: () = {{ const C: u32 = xdr::{}; assert!(C == {}u32); }};", name, val.val);
                continue;
            }
            Item::Typedef { decl, .. } if is_self_typedef(name, decl) => continue,
            _ => {}
        }
        let t = env.rust_name(name, "Bytes");
        let _ = writeln!(w, "impl Distinct for {} {{}}", t);
        if env.generic(name) {
            // The container is a parameter: any AsRef<[u8]> + Debug will do.
            let _ = writeln!(w, "fn other_{}(_: &{}) {{}}", name, env.rust_name(name, "Vec<u8>"));
        }
        let _ = writeln!(api, "    api::<{}>();", t);
        let _ = writeln!(api, "    derived::<{}>();", t);
        let _ = writeln!(
            ops,
            "    TypeOps {{ name: \"{n}\", val: |b| run_val::<{t}, xdr::Error>(b, tv_{n}, |x| xdr::WireSize::wire_size(x), er), \
             byref: |b| run_ref::<{t}, xdr::Error>(b, tv_{n}, |x| xdr::WireSize::wire_size(x), er), \
             build: |v| {{ let x = fv_{n}(v); (tv_{n}(&x), xdr::WireSize::wire_size(&x)) }}, \
             debug: |v| format!(\"{{:#?}}\", fv_{n}(v)), size_of: std::mem::size_of::<{t}>() }},",
            n = name,
            t = t
        );
        match it {
            Item::Enum { members, .. } => {
                for (m, v) in members {
                    let _ = writeln!(w, "const _: () = assert!(xdr::{}::{} as u32 == {}u32);", name, m, v.val);
                }
                let _ = writeln!(w, "pub fn tv_{}(x: &{}) -> V {{ match x {{", name, t);
                for (m, v) in members {
                    let _ = writeln!(w, "    xdr::{}::{} => V::Enum({}),", name, m, v.val);
                }
                let _ = writeln!(w, "}} }}");
                let _ = writeln!(w, "pub fn fv_{}(v: &V) -> {} {{ match v {{", name, t);
                for (m, v) in members {
                    let _ = writeln!(w, "    V::Enum({}) => xdr::{}::{},", v.val, name, m);
                }
                let _ = writeln!(w, "    v => panic!(\"{{:?}}\", v),\n}} }}");
            }
            Item::Struct { fields, .. } => {
                let _ = writeln!(w, "pub fn tv_{}(x: &{}) -> V {{", name, t);
                let pat: Vec<String> =
                    fields.iter().enumerate().map(|(i, f)| format!("{}: f{}", field_name(&f.0), i)).collect();
                let _ = writeln!(w, "    let xdr::{} {{ {} }} = x;", name, pat.join(", "));
                for (i, f) in fields.iter().enumerate() {
                    let _ = writeln!(w, "    let f{}: &{} = f{};", i, env.rust_ty(&f.1, "Bytes"), i);
                }
                let vs: Vec<String> =
                    fields.iter().enumerate().map(|(i, f)| to_v(&f.1, &format!("f{}", i))).collect();
                let _ = writeln!(w, "    V::Struct(vec![{}])\n}}", vs.join(", "));
                let _ = writeln!(w, "pub fn fv_{}(v: &V) -> {} {{ let s = v.items(); xdr::{} {{", name, t, name);
                for (i, f) in fields.iter().enumerate() {
                    let _ = writeln!(w, "    {}: {},", field_name(&f.0), from_v(env, &f.1, &format!("&s[{}]", i)));
                }
                let _ = writeln!(w, "}} }}");
            }
            Item::Union { arms, .. } => {
                let vs = env.variants(arms);
                let _ = writeln!(w, "pub fn tv_{}(x: &{}) -> V {{ match x {{", name, t);
                for v in &vs {
                    match &v.body {
                        None => {
                            let _ = writeln!(
                                w,
                                "    xdr::{}::{} => V::Union {{ variant: \"{}\".into(), disc: Wire(0), body: None }},",
                                name, v.rust, v.rust
                            );
                        }
                        Some(d) => {
                            let _ = writeln!(
                                w,
                                "    xdr::{}::{}(b) => {{ let b: &{} = b; V::Union {{ variant: \"{}\".into(), disc: Wire(0), body: Some(Box::new({})) }} }}",
                                name, v.rust, env.rust_ty(d, "Bytes"), v.rust, to_v(d, "b")
                            );
                        }
                    }
                }
                let _ = writeln!(w, "}} }}");
                let _ = writeln!(
                    w,
                    "pub fn fv_{}(v: &V) -> {} {{ match v {{ V::Union {{ variant, body, .. }} => match (variant.as_str(), body) {{",
                    name, t
                );
                for v in &vs {
                    match &v.body {
                        None => {
                            let _ = writeln!(w, "    (\"{}\", _) => xdr::{}::{},", v.rust, name, v.rust);
                        }
                        Some(d) => {
                            let _ = writeln!(
                                w,
                                "    (\"{}\", Some(b)) => xdr::{}::{}({}),",
                                v.rust,
                                name,
                                v.rust,
                                from_v(env, d, "&**b")
                            );
                        }
                    }
                }
                let _ = writeln!(w, "    v => panic!(\"{{:?}}\", v) }}, v => panic!(\"{{:?}}\", v) }} }}");
            }
            Item::Typedef { decl, .. } => {
                let _ = writeln!(
                    w,
                    "pub fn tv_{}(x: &{}) -> V {{ let xdr::{}(b) = x; let b: &{} = b; V::New(Box::new({})) }}",
                    name,
                    t,
                    name,
                    env.rust_ty(decl, "Bytes"),
                    to_v(decl, "b")
                );
                let _ = writeln!(
                    w,
                    "pub fn fv_{}(v: &V) -> {} {{ let b = v.inner(); xdr::{}({}) }}",
                    name,
                    t,
                    name,
                    from_v(env, decl, "b")
                );
            }
            Item::Const { .. } => unreachable!(),
        }
    }
    let _ = writeln!(w, "fn assert_api() {{\n{}}}", api);
    let _ = writeln!(w, "pub static OPS: &[TypeOps] = &[\n{}];", ops);
    o
}

/// For modules without the documented items: names no field and no variant. Values are
/// known by what Debug shows.
pub fn emit_text(env: &Env, gen_mod: &str) -> String {
    let full = emit(env, gen_mod, "");
    let mut o: String = full.lines().take_while(|l| !l.starts_with("fn api<")).map(|l| format!("{}\n", l)).collect();
    o.push_str("fn text<T: std::fmt::Debug>(x: &T) -> V { V::Text(format!(\"{:?}\", x)) }\n");
    o.push_str("pub static OPS: &[TypeOps] = &[\n");
    for it in &env.spec.items {
        let name = it.name();
        match it {
            Item::Const { .. } => continue,
            Item::Typedef { decl, .. } if is_self_typedef(name, decl) => continue,
            _ => {}
        }
        let _ = writeln!(
            o,
            "    TypeOps {{ name: \"{n}\", val: |b| run_val::<{t}, xdr::Error>(b, text::<{t}>, |x| xdr::WireSize::wire_size(x), er), \
             byref: |b| run_ref::<{t}, xdr::Error>(b, text::<{t}>, |x| xdr::WireSize::wire_size(x), er), \
             build: |_| unreachable!(), debug: |_| unreachable!(), size_of: std::mem::size_of::<{t}>() }},",
            n = name,
            t = env.rust_name(name, "Bytes")
        );
    }
    o.push_str("];\n");
    o
}

/// Expression of type V for `e`, an expression of reference type.
fn to_v(d: &Decl, e: &str) -> String {
    if d.opt {
        let one = Decl { opt: false, ..d.clone() };
        return format!("V::Opt({}.as_ref().map(|o| Box::new({})))", e, to_v(&one, "(&**o)"));
    }
    match (&d.ty, &d.kind) {
        (Ty::Str, _) => format!("V::Str({}.clone())", e),
        (Ty::Opaque, _) => format!("V::op(&{}[..])", e),
        (Ty::Prim(p), Kind::None) => match p {
            Prim::F32 => format!("V::F32({}.to_bits())", e),
            Prim::F64 => format!("V::F64({}.to_bits())", e),
            Prim::U32 => format!("V::U32(*{})", e),
            Prim::I32 => format!("V::I32(*{})", e),
            Prim::U64 => format!("V::U64(*{})", e),
            Prim::I64 => format!("V::I64(*{})", e),
            Prim::Bool => format!("V::Bool(*{})", e),
        },
        (Ty::Name(n), Kind::None) => format!("tv_{}({})", n, e),
        (t, _) => format!("V::Arr({}.iter().map(|e| {}).collect())", e, to_v(&Decl::plain(t.clone()), "e")),
    }
}

fn prim_from(p: Prim, e: &str) -> String {
    let (c, conv) = match p {
        Prim::U32 => ("U32", "*n"),
        Prim::I32 => ("I32", "*n"),
        Prim::U64 => ("U64", "*n"),
        Prim::I64 => ("I64", "*n"),
        Prim::F32 => ("F32", "f32::from_bits(*n)"),
        Prim::F64 => ("F64", "f64::from_bits(*n)"),
        Prim::Bool => ("Bool", "*n"),
    };
    format!("(match {} {{ V::{}(n) => {}, v => panic!(\"{{:?}}\", v) }})", e, c, conv)
}

/// Expression building the Rust value from `e`, an expression of type &V.
fn from_v(env: &Env, d: &Decl, e: &str) -> String {
    if d.opt {
        let one = Decl { opt: false, ..d.clone() };
        return format!(
            "(match {} {{ V::Opt(o) => o.as_ref().map(|o| Box::new({})), v => panic!(\"{{:?}}\", v) }})",
            e,
            from_v(env, &one, "&**o")
        );
    }
    match (&d.ty, &d.kind) {
        (Ty::Str, _) => format!("(match {} {{ V::Str(s) => s.clone(), v => panic!(\"{{:?}}\", v) }})", e),
        (Ty::Opaque, _) => {
            format!("(match {} {{ V::Opaque(o) => Bytes::from(o.data.clone()), v => panic!(\"{{:?}}\", v) }})", e)
        }
        (Ty::Prim(p), Kind::None) => prim_from(*p, e),
        (Ty::Name(n), Kind::None) => format!("fv_{}({})", n, e),
        (t, k) => {
            let one = from_v(env, &Decl::plain(t.clone()), "e");
            let it = format!("({}).items().iter().map(|e| {}).collect::<Vec<_>>()", e, one);
            match k {
                Kind::Fixed(b) => format!("fixed::<_, {}>({})", env.bound(b), it),
                _ => it,
            }
        }
    }
}
