//! The workload and the oracle of every property decided inside shard programs.
use crate::gen::tainted;
use crate::meter;
use crate::mon::{Ctx, ShardSpec};
use crate::ops::{Out, Res, TypeOps, LEAK, RAW};
use crate::rng::{fnv, Rng};
use crate::spec::*;
use crate::value::*;
use bytes::{Buf, Bytes, BytesMut};
use std::collections::HashSet;

pub fn run(ctx: &mut Ctx, env: &Env, s: &ShardSpec) {
    if s.origin.starts_with("c:kf_") {
        if ctx.part.0 == 0 {
            known(ctx, env, s);
        }
        return;
    }
    // Types below which wire_size() of a known finding decides how a counted array is
    // read (see known_findings.json, KF1).
    let t = tainted(env);
    let hit = env.reach(&|d: &Decl| matches!((&d.ty, &d.kind), (Ty::Name(n), Kind::Var(_)) if t.contains(n)));
    ctx.big = s.ops.iter().map(|o| o.size_of).max().unwrap_or(0);
    for op in s.ops {
        ctx.number += 1;
        if ctx.number % ctx.part.1 != ctx.part.0 {
            continue;
        }
        if hit.get(op.name).copied().unwrap_or(false) {
            ctx.count("types_excluded_kf1", 1);
            continue;
        }
        ctx.ty = op.name.to_string();
        ctx.count("types_observed", 1);
        let mut r = Rng::new(&[ctx.seed, ctx.spec_hash, fnv(&[op.name.as_bytes(), ctx.prop.as_bytes()])]);
        let t0 = std::time::Instant::now();
        ctx.spent = 0;
        match ctx.prop.as_str() {
            "C01" => c01(ctx, env, op, &mut r),
            "C02" => c02(ctx, env, op, &mut r),
            "C03" => c03(ctx, env, op, &mut r),
            "C04" => c04(ctx, env, op, &mut r, s),
            "C05" => c05(ctx, env, op, &mut r),
            "C06" => c06(ctx, env, op, &mut r),
            "C07" => c07(ctx, env, op, &mut r),
            "C08" => c08(ctx, env, op, &mut r),
            "C09" => c09(ctx, env, op, &mut r, s),
            p => panic!("property {}", p),
        }
        // How long the slowest type took: for tuning, never a verdict.
        let ms = t0.elapsed().as_millis() as u64;
        let m = ctx.counts.entry("max_type_ms".into()).or_insert(0);
        *m = (*m).max(ms);
        if ms > 4000 && std::env::var_os("XV_TRACE").is_some() {
            eprintln!("SLOW {} {} {} ms, size {}", ctx.spec, op.name, ms, op.size_of);
        }
        if ctx.violations > 12 {
            return;
        }
    }
    again(ctx);
}

/// A decode to be repeated: later, after failures, and next to other decodes.
pub struct Kept {
    op: &'static TypeOps,
    x: Vec<u8>,
    want: Res,
    left: usize,
}

/// Remembers what one decode gave.
fn keep(ctx: &mut Ctx, op: &'static TypeOps, x: &[u8]) {
    let all: usize = ctx.kept.iter().map(|k| k.x.len()).sum();
    if x.len() > 20_000 || all + x.len() > 400_000 || op.size_of > 1 << 14 {
        return;
    }
    let (o, left) = both(op, x);
    if let Res::Ok(v, _) = &o {
        if depth(v) > 40 {
            return;
        }
    }
    ctx.kept.push(Kept { op, x: x.to_vec(), want: o, left });
}

/// The by-value result, and how much the other form leaves.
fn both(op: &TypeOps, x: &[u8]) -> (Res, usize) {
    let o = (op.val)(b(x));
    let mut buf = b(x);
    let p = (op.byref)(&mut buf);
    (o.res, if matches!(p.res, Res::Ok(..)) { buf.remaining() } else { usize::MAX })
}

fn same(p: &Res, q: &Res) -> bool {
    match (p, q) {
        (Res::Ok(v, s), Res::Ok(w, t)) => v == w && s == t,
        (Res::Err(p), Res::Err(q)) => p == q,
        (Res::Panic(_), Res::Panic(_)) => true,
        _ => false,
    }
}

/// Whether `w` was decoded for `v`. A value known by its Debug text only is held to be,
/// unless it is another arm or member.
fn agrees(env: &Env, name: &str, v: &V, w: &V) -> bool {
    let t = match w {
        V::Text(t) => t,
        w => return v == w,
    };
    let shown = t.split(|c: char| c == '(' || c == ' ' || c == '{').next().unwrap_or("");
    match v {
        V::Union { variant, .. } => shown == variant,
        V::Enum(n) => match env.item(name) {
            Some(Item::Enum { members, .. }) => members.iter().any(|(m, k)| k.val as i64 == *n && m == shown),
            _ => true,
        },
        _ => true,
    }
}

fn brief(o: &Res) -> String {
    match o {
        Res::Ok(v, s) => format!("Ok({}) of wire_size {}", v.short(), s),
        Res::Err(e) => format!("Err({:?})", e),
        Res::Panic(m) => format!("panic: {}", m),
    }
}

/// What a decode gives depends on its bytes alone: not on the decodes, failed ones
/// included, that the thread has seen before, nor on those in other threads.
fn again(ctx: &mut Ctx) {
    let kept = std::mem::take(&mut ctx.kept);
    if kept.is_empty() {
        return;
    }
    ctx.ty = "several".into();
    let mut r = Rng::new(&[ctx.seed, ctx.spec_hash, 0xa9a]);
    // Failures, many of them.
    let mut bad: Vec<(&TypeOps, Vec<u8>)> = Vec::new();
    for k in &kept {
        if k.x.len() > 600 || k.x.is_empty() {
            continue;
        }
        for _ in 0..6 {
            let mut x = k.x.clone();
            match r.below(3) {
                k if k == 0 || x.len() < 4 => x.truncate(r.below(x.len())),
                _ => {
                    let at = r.below(x.len() / 4) * 4;
                    x[at..at + 4].copy_from_slice(&(*r.pick(BOUNDARY)).to_be_bytes());
                }
            }
            ctx.case("failing", &x);
            if matches!((k.op.val)(b(&x)).res, Res::Err(_)) {
                bad.push((k.op, x));
            }
        }
    }
    RAW.with(|x| x.set(true));
    let t0 = std::time::Instant::now();
    let rounds = n(ctx, 20_000, 100_000);
    for i in 0..rounds {
        if bad.is_empty() || (i % 64 == 0 && t0.elapsed().as_millis() > if ctx.thorough { 3000 } else { 250 }) {
            break;
        }
        let (op, x) = &bad[i % bad.len()];
        ctx.tick();
        let _ = (op.val)(b(x));
        if i % 4 == 0 {
            let _ = (op.byref)(&mut b(x));
        }
        ctx.evals += 1;
        ctx.count("repeated_failures", 1);
    }
    RAW.with(|x| x.set(false));
    for k in &kept {
        ctx.case("again", &k.x);
        let (o, left) = both(k.op, &k.x);
        ctx.evals += 1;
        ctx.count("repeated_later", 1);
        if !same(&o, &k.want) || left != k.left {
            ctx.ty = k.op.name.to_string();
            ctx.violation("the same bytes give another result later", &k.x, &format!("first {} then {}", brief(&k.want), brief(&o)));
        }
    }
    // Next to each other.
    const THREADS: usize = 6;
    let start = std::sync::Barrier::new(THREADS);
    let loops = n(ctx, 60, 600) as u128;
    let found: Vec<(u64, Option<(usize, String)>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..THREADS)
            .map(|t| {
                let (kept, bad, start) = (&kept, &bad, &start);
                let mut r = Rng::new(&[r.next(), t as u64]);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        start.wait();
                        let t0 = std::time::Instant::now();
                        let mut n = 0;
                        let mut odd = None;
                        while t0.elapsed().as_millis() < loops && odd.is_none() {
                            for _ in 0..16 {
                                let k = r.below(kept.len());
                                let (o, left) = both(kept[k].op, &kept[k].x);
                                n += 1;
                                if !same(&o, &kept[k].want) || left != kept[k].left {
                                    odd = Some((k, brief(&o)));
                                }
                                if !bad.is_empty() && r.pct(20) {
                                    let (op, x) = r.pick(bad);
                                    let _ = (op.val)(b(x));
                                }
                            }
                        }
                        (n, odd)
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (n, odd) in found {
        ctx.evals += n;
        ctx.count("repeated_in_threads", n);
        if let Some((k, o)) = odd {
            ctx.ty = kept[k].op.name.to_string();
            ctx.violation(
                "the same bytes give another result next to other decodes",
                &kept[k].x,
                &format!("alone {} next to decodes in {} threads {}", brief(&kept[k].want), THREADS, o),
            );
        }
    }
}

fn n(ctx: &Ctx, quick: usize, thorough: usize) -> usize {
    if ctx.thorough {
        thorough * ctx.scale
    } else {
        quick
    }
}

/// This type has had its share of input bytes: only small or essential cases follow.
fn spent(ctx: &Ctx) -> bool {
    ctx.spent > if ctx.thorough { 600 << 20 } else { 12 << 20 }
}

fn b(x: &[u8]) -> Bytes {
    Bytes::copy_from_slice(x)
}

fn res(o: &Out) -> String {
    match &o.res {
        Res::Ok(v, _) => format!("Ok({})", v.short()),
        Res::Err(e) => format!("Err({:?})", e),
        Res::Panic(m) => format!("panic: {}", m),
    }
}

/// Random values of several sizes.
fn random_value(env: &Env, name: &str, r: &mut Rng, k: usize) -> V {
    let mut g = match k % 6 {
        0 => Vg { arr: 12, pay: 40, depth: 4, fuel: 2500, ..Vg::normal() },
        1 => Vg { at_max: true, fuel: 2000, ..Vg::normal() },
        2 => Vg { arr: 2, pay: 5, depth: 14, ..Vg::normal() },
        3 => Vg { arr: 1, pay: 300, depth: 3, ..Vg::normal() },
        4 => Vg { fuel: 300, ..Vg::normal() },
        _ => Vg::normal(),
    };
    gen_item(env, name, r, &mut g)
}

/// Values in which one counted declarator is long: payloads of several KiB, arrays
/// of more elements than fit 16 bits.
fn long_values(env: &Env, name: &str, r: &mut Rng, cap: usize) -> Vec<V> {
    let mut out = Vec::new();
    let g0 = Vg { arr: 1, pay: 6, depth: 2, at_max: false, fuel: 40 };
    let seed = r.next();
    let gen = |f| forced(f, || gen_item(env, name, &mut Rng::new(&[seed]), &mut g0.clone()));
    let (_, seen) = gen(None);
    let mut done = HashSet::new();
    for _ in 0..4 * cap {
        if out.len() >= cap || seen.is_empty() {
            break;
        }
        let k = r.below(seen.len().min(8));
        let (kind, max, min) = seen[k];
        let s = match (kind, r.below(10)) {
            ('a', 0..=3) => *r.pick(&[255u64, 256, 257, 1023, 1024, 1025, 4096, 4097, 65_535, 65_536, 65_537, 70_000]),
            ('a', _) => 1 << r.range(6, 16),
            (_, 0..=5) => *r.pick(&[
                255u64, 256, 257, 511, 1024, 1025, 4095, 4096, 4097, 8192, 16_384, 32_767, 32_768, 65_533, 65_535, 65_536, 65_537,
                131_072, 262_145, 1 << 20, (1 << 20) + 1, 2_000_003,
            ]),
            _ => 1 << r.range(6, 21),
        };
        let s = if s.is_power_of_two() && r.pct(60) { s + r.next() % s } else { s };
        let s = max.map(|m| m.min(s)).unwrap_or(s);
        let s = if kind == 'a' { s.min((2_000_000 / min.max(4)) as u64) } else { s };
        if s >= 60 && done.insert((k, s)) {
            out.push(gen(Some((k, s))).0);
        }
    }
    out
}

/// Payloads beyond 2^24 bytes and arrays beyond 2^20 elements, on both sides of either.
fn huge_values(env: &Env, name: &str, r: &mut Rng, cap: usize) -> Vec<V> {
    let g0 = Vg { arr: 1, pay: 6, depth: 4, at_max: false, fuel: 60 };
    let mut out = Vec::new();
    for round in 0..6 * cap {
        // A value that has counted declarators to be long.
        let seed = r.next();
        let gen = |f| forced(f, || gen_item(env, name, &mut Rng::new(&[seed]), &mut g0.clone()));
        let (_, seen) = gen(None);
        let ks: Vec<usize> = (0..seen.len().min(8)).filter(|k| (seen[*k].0 == 'a') == (round % 3 == 2)).collect();
        if ks.is_empty() {
            continue;
        }
        let k = *r.pick(&ks);
        let (kind, max, min) = seen[k];
        let s = match kind {
            'a' if min > 4 => continue,
            'a' => *r.pick(&[1_000_001u64, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 1_200_000]),
            _ => *r.pick(&[10_000_001u64, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 24) + 2, (1 << 25) + 3, 20_000_000]),
        };
        out.push(gen(Some((k, max.map(|m| m.min(s)).unwrap_or(s)))).0);
        if out.len() >= cap {
            break;
        }
    }
    out
}

/// About `cap` of the values, with at least one of every variant and every member.
fn some_of(mut all: Vec<V>, cap: usize, r: &mut Rng) -> Vec<V> {
    if all.len() <= cap {
        return all;
    }
    r.shuffle(&mut all);
    let mut seen = HashSet::new();
    let (mut first, mut rest) = (Vec::new(), Vec::new());
    for v in all {
        let new = match &v {
            V::Union { variant, .. } => seen.insert((variant.clone(), 0)),
            V::Enum(x) => seen.insert((String::new(), *x)),
            _ => false,
        };
        if new { &mut first } else { &mut rest }.push(v);
    }
    rest.truncate(cap.saturating_sub(first.len()));
    first.extend(rest);
    first
}

fn values(ctx: &Ctx, env: &Env, name: &str, r: &mut Rng, random: usize) -> Vec<V> {
    let mut out = some_of(directed_item(env, name, r), if ctx.thorough { usize::MAX } else { 160 }, r);
    for k in 0..random {
        out.push(random_value(env, name, r, k));
    }
    out.extend(long_values(env, name, r, if ctx.thorough { 10 } else { 3 }));
    if ctx.spec == "c:huge" {
        out.extend(huge_values(env, name, r, if ctx.thorough { 12 } else { 3 }));
    }
    // Nested values: a few links, some hundreds, and more than any plausible limit.
    let depths = [1, r.range(2, 40), r.range(100, 300), r.range(1000, 3000), if ctx.thorough { 60_000 } else { r.range(11_000, 20_000) }];
    for d in depths {
        // Frames of a decoder hold several values: stay well within the monitor's stack.
        let d = d.min((600 << 20) / (30 * ctx.big.max(64)));
        if let Some(v) = chain(env, name, d, 1 << 20, r) {
            out.push(v);
        }
    }
    out
}

fn depth(v: &V) -> usize {
    // Iterative, long chains are deep.
    let mut best = 0;
    let mut todo = vec![(v, 1usize)];
    while let Some((v, d)) = todo.pop() {
        best = best.max(d);
        match v {
            V::Arr(x) | V::Struct(x) => todo.extend(x.iter().take(50).map(|v| (v, d + 1))),
            V::Opt(Some(x)) | V::New(x) => todo.push((x, d + 1)),
            V::Union { body: Some(x), .. } => todo.push((x, d + 1)),
            _ => {}
        }
    }
    best
}

fn observe(ctx: &mut Ctx, v: &V, e: &Enc) {
    ctx.count("bytes", e.bytes.len() as u64);
    let d = depth(v) as u64;
    let m = ctx.counts.entry("max_depth".into()).or_insert(0);
    *m = (*m).max(d);
    let m = ctx.counts.entry("max_input".into()).or_insert(0);
    *m = (*m).max(e.bytes.len() as u64);
    for x in e.map.iter().take(400) {
        let k = match &x.role {
            Role::Scalar => "leaf_scalar",
            Role::Bool => "leaf_bool",
            Role::Enum(_) => "leaf_enum",
            Role::Disc(_) => "leaf_discriminant",
            Role::Marker => "leaf_marker",
            Role::Len(_, None) => "leaf_length_unbounded",
            Role::Len(_, Some(_)) => "leaf_length_bounded",
            Role::Opaque => "leaf_opaque",
            Role::Str => "leaf_string",
            Role::Pad => "leaf_padding",
        };
        ctx.count(k, 1);
    }
}

// ------------------------------------------------------------------------- C01

fn c01(ctx: &mut Ctx, env: &Env, op: &'static TypeOps, r: &mut Rng) {
    let vs = values(ctx, env, op.name, r, n(ctx, 60, 500));
    let step = vs.len() / 4 + 1;
    for (i, v) in vs.into_iter().enumerate() {
        let e = encode_item(env, op.name, &v);
        ctx.case("decode", &e.bytes);
        let o = (op.val)(b(&e.bytes));
        ctx.eval(e.map.len() > 1, &e.bytes);
        observe(ctx, &v, &e);
        ctx.sample(|| format!("{} bytes, {}", e.bytes.len(), v.short()));
        match &o.res {
            Res::Ok(w, _) if *w == v => {
                if i % step == 0 {
                    keep(ctx, op, &e.bytes);
                }
            }
            _ => {
                ctx.violation("decoded value differs", &e.bytes, &format!("encoded {} got {}", v.short(), res(&o)));
            }
        }
    }
}

// ------------------------------------------------------------------------- C02

fn c02(ctx: &mut Ctx, env: &Env, op: &'static TypeOps, r: &mut Rng) {
    let vs = values(ctx, env, op.name, r, n(ctx, 60, 500));
    let step = vs.len() / 4 + 1;
    for (i, v) in vs.into_iter().enumerate() {
        let e = encode_item(env, op.name, &v);
        ctx.case("wire_size", &e.bytes);
        observe(ctx, &v, &e);
        let want = e.bytes.len();
        let built = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (op.build)(&v)));
        ctx.eval(e.map.len() > 1, &e.bytes);
        ctx.sample(|| format!("wire_size {} of {}", want, v.short()));
        let check = |ctx: &mut Ctx, what: &str, got: usize| {
            if got == want {
                return;
            }
            if e.bare > 0 && got == want - 4 * e.bare {
                ctx.known("KF1", "wire_size() is 4 short per inline `opaque x;` field or arm");
                ctx.count("known_kf1", 1);
                return;
            }
            ctx.violation(what, &e.bytes, &format!("{} instead of {} for {}", got, want, v.short()));
        };
        match built {
            Err(p) => ctx.violation("wire_size() panics", &e.bytes, &crate::ops::message(p)),
            Ok((w, got)) => {
                assert!(w == v, "accessors disagree: {} {}", w.short(), v.short());
                check(ctx, "wire_size() of a constructed value", got);
            }
        }
        // The same for decoded values, and the consumption of the decoder. Values that
        // do not decode as encoded are the matter of C01.
        let o = (op.val)(b(&e.bytes));
        match &o.res {
            Res::Ok(w, got) if *w == v => {
                check(ctx, "wire_size() of a decoded value", *got);
                if i % step == 0 {
                    keep(ctx, op, &e.bytes);
                }
            }
            _ => ctx.count("not_decoded", 1),
        }
        let mut buf = b(&[&e.bytes[..], &[0xa5; 12]].concat());
        let o = (op.byref)(&mut buf);
        if let Res::Ok(w, got) = &o.res {
            if *w == v {
                let used = want + 12 - buf.remaining();
                if used != want {
                    ctx.violation("bytes consumed", &e.bytes, &format!("{} instead of {}", used, want));
                }
                check(ctx, "wire_size() of a decoded value", *got);
            }
        }
    }
}

// ------------------------------------------------------------------------- C03

fn c03(ctx: &mut Ctx, env: &Env, op: &'static TypeOps, r: &mut Rng) {
    let vs = values(ctx, env, op.name, r, n(ctx, 30, 250));
    let step = vs.len() / 3 + 1;
    for (i, v) in vs.into_iter().enumerate() {
        let e = encode_item(env, op.name, &v);
        observe(ctx, &v, &e);
        let small = e.bytes.len() <= 4096;
        // Valid input, followed by nothing and by various suffixes, at various offsets.
        let sufs: Vec<Vec<u8>> = vec![
            vec![],
            vec![0; r.range(1, 9)],
            vec![0xff; r.range(1, 70)],
            e.bytes.iter().copied().take(2000).collect(),
            bytes(r, 33),
        ];
        let picks: Vec<usize> = if small { (0..sufs.len()).collect() } else { vec![i % sufs.len()] };
        for k in picks {
            let off = (i + k * 3) % 8;
            one_c03(ctx, env, op, &e.bytes, &sufs[k], off, k, Some(&v), r);
        }
        if !small {
            continue;
        }
        if i % step == 0 {
            keep(ctx, op, &e.bytes);
        }
        // Corrupted inputs: both families must still agree.
        for _ in 0..n(ctx, 6, 12) {
            let bad = corrupt(&e, r);
            if i % step == 0 && r.pct(30) {
                keep(ctx, op, &bad);
            }
            let off = r.below(8);
            let k = r.below(5);
            one_c03(ctx, env, op, &bad, &sufs[r.below(5)].clone(), off, k, None, r);
        }
    }
}

/// A damaged copy of an encoding.
fn corrupt(e: &Enc, r: &mut Rng) -> Vec<u8> {
    let mut x = e.bytes.clone();
    match r.below(5) {
        0 => x.truncate(r.below(x.len() + 1)),
        1 if !e.map.is_empty() => {
            let m = r.pick(&e.map).clone();
            if m.len > 0 {
                x[m.off + m.len - 1] ^= 1 << r.below(8);
            }
        }
        2 if !e.map.is_empty() => {
            let m = r.pick(&e.map).clone();
            if m.len >= 4 {
                let w = *r.pick(BOUNDARY);
                x[m.off..m.off + 4].copy_from_slice(&w.to_be_bytes());
            }
        }
        3 if x.len() >= 8 => {
            let k = r.below(x.len() / 4) * 4;
            x.drain(k..k + 4);
        }
        _ => {
            let k = r.below(x.len() + 1);
            let w = bytes(r, 4);
            for (i, y) in w.into_iter().enumerate() {
                x.insert(k + i, y);
            }
        }
    }
    x
}

const BOUNDARY: &[u32] =
    &[0, 1, 2, 3, 4, 5, 7, 8, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xfffffffc, 0xffffffff];

/// The buffers a view can live in; returns the view and whatever keeps it special.
fn storage(k: usize, pre: usize, x: &[u8]) -> Bytes {
    let mut all = vec![0xc3; pre];
    all.extend_from_slice(x);
    match k % 5 {
        0 => Bytes::from(all).slice(pre..),
        1 => Bytes::copy_from_slice(&all).slice(pre..),
        2 => {
            let mut m = BytesMut::with_capacity(all.len() + 100);
            m.extend_from_slice(&all);
            let mut f = m.freeze();
            f.advance(pre);
            f
        }
        3 => {
            let s: &'static [u8] = Box::leak(all.into_boxed_slice());
            Bytes::from_static(s).slice(pre..)
        }
        _ => {
            // A view with slack capacity and a longer tail behind it.
            let n = all.len();
            all.extend_from_slice(&[0x5a; 64]);
            let whole = Bytes::from(all);
            whole.slice(pre..n)
        }
    }
}

fn one_c03(
    ctx: &mut Ctx,
    env: &Env,
    op: &TypeOps,
    x: &[u8],
    suf: &[u8],
    off: usize,
    kind: usize,
    want: Option<&V>,
    r: &mut Rng,
) {
    let all = [x, suf].concat();
    let view = storage(if all.len() > 100_000 { 0 } else { kind }, off, &all);
    ctx.case("both families", &all);
    let a = (op.val)(view.clone());
    let mut buf = view.clone();
    let base = buf.as_ptr() as usize;
    let c = (op.byref)(&mut buf);
    ctx.eval(all.len() > 4, &all);
    ctx.count(["storage_vec", "storage_copied", "storage_bytesmut", "storage_static", "storage_inner"][kind % 5], 1);
    ctx.sample(|| format!("{} bytes + {} suffix at offset {}: {}", x.len(), suf.len(), off, res(&a)));
    let same = match (&a.res, &c.res) {
        (Res::Ok(p, s), Res::Ok(q, t)) => p == q && s == t,
        (Res::Err(p), Res::Err(q)) => p == q,
        (Res::Panic(_), Res::Panic(_)) => {
            // Panics are the matter of C04.
            ctx.count("panics", 1);
            return;
        }
        _ => false,
    };
    if !same {
        ctx.violation("decoder families disagree", &all, &format!("by value {} by &mut {}", res(&a), res(&c)));
        return;
    }
    match &c.res {
        Res::Ok(q, _) => {
            ctx.count("ok", 1);
            let used = all.len() - buf.len().min(all.len());
            let need = match q {
                // Known by its Debug output alone: taken at its word.
                V::Text(_) => used,
                _ => encode_item(env, op.name, q).bytes.len(),
            };
            if used != need || buf.len() > all.len() {
                ctx.violation(
                    "bytes consumed by the &mut form",
                    &all,
                    &format!("{} instead of {} for {}", used, need, q.short()),
                );
            } else if buf[..] != all[need..] || (!buf.is_empty() && buf.as_ptr() as usize != base + need) {
                ctx.violation("remaining bytes are touched", &all, &format!("after {}", q.short()));
            }
            if view[..] != all[..] {
                ctx.violation("input is modified", &all, "");
            }
            match want {
                Some(v) => {
                    // With C01 this says that neither suffix nor position matters;
                    // compared with the reference only where nothing follows.
                    let plain = (op.val)(b(x));
                    match &plain.res {
                        Res::Ok(p, _) if p == q => {}
                        _ => ctx.violation(
                            "result depends on what surrounds the value",
                            &all,
                            &format!("alone {} with {} bytes behind at offset {}: {}", res(&plain), suf.len(), off, q.short()),
                        ),
                    }
                    if need != x.len() && *q != *v {
                        ctx.count("differs_from_encoded", 1);
                    }
                }
                None if need <= all.len() => {
                    let tail = bytes(r, 9);
                    let y = [&all[..need], &tail[..]].concat();
                    let again = (op.val)(b(&y));
                    match &again.res {
                        Res::Ok(p, _) if p == q => {}
                        _ => ctx.violation("result depends on what follows", &y, &format!("{} then {}", q.short(), res(&again))),
                    }
                }
                _ => {}
            }
        }
        Res::Err(er) => {
            ctx.count(&format!("err_{}", kind_of(er)), 1);
            if want.is_some() {
                // A valid value followed by something: alone it must fail the same way.
                let plain = (op.val)(b(x));
                if !matches!(&plain.res, Res::Err(p) if p == er) {
                    ctx.violation(
                        "result depends on what surrounds the value",
                        &all,
                        &format!("alone {} with {} bytes behind: {}", res(&plain), suf.len(), res(&c)),
                    );
                }
            }
        }
        Res::Panic(_) => {}
    }
}

fn kind_of(e: &Er) -> &'static str {
    match e {
        Er::InvalidLength => "InvalidLength",
        Er::NonUtf8 => "NonUtf8String",
        Er::InvalidBoolean => "InvalidBoolean",
        Er::UnknownVariant(_) => "UnknownVariant",
        Er::UnknownOption(_) => "UnknownOptionVariant",
        Er::Other(_) => "Other",
    }
}

// ------------------------------------------------------------------------- C04

fn c04(ctx: &mut Ctx, env: &Env, op: &TypeOps, r: &mut Rng, s: &ShardSpec) {
    meter::limit(2 << 30);
    RAW.with(|x| x.set(true));
    let mut bases: Vec<Enc> = Vec::new();
    let mut vs = directed_item(env, op.name, r);
    r.shuffle(&mut vs);
    vs.truncate(n(ctx, 10, 60));
    for k in 0..n(ctx, 8, 50) {
        vs.push(random_value(env, op.name, r, k));
    }
    for v in &vs {
        bases.push(encode_item(env, op.name, v));
    }
    bases.push(encode_item(env, op.name, &gen_item(env, op.name, r, &mut Vg::minimal())));
    for e in &bases {
        probe(ctx, op, &e.bytes, "valid");
        // Truncated at any byte.
        let len = e.bytes.len();
        let cuts: Vec<usize> = if len <= 300 {
            (0..len).collect()
        } else {
            let mut c: Vec<usize> = (0..60).collect();
            c.extend((0..80).map(|_| r.below(len)));
            c.extend(len - 40..len);
            c
        };
        for c in cuts {
            probe(ctx, op, &e.bytes[..c], "truncated");
        }
        // Any field set to any value, alone, with a suffix missing, and in pairs.
        let words: Vec<&Mark> = e
            .map
            .iter()
            .filter(|m| !matches!(m.role, Role::Opaque | Role::Str | Role::Pad | Role::Scalar))
            .collect();
        let take = if ctx.thorough { 60 } else { 14 };
        let take = if spent(ctx) { 2 } else { take };
        for m in pick_some(&words, take, r) {
            let mut x = e.bytes.clone();
            let old = u32::from_be_bytes(x[m.off..m.off + 4].try_into().unwrap());
            let left = (len - m.off) as u32;
            let mut cand: Vec<u32> = BOUNDARY.to_vec();
            cand.extend([
                old.wrapping_add(1), old.wrapping_sub(1), old ^ 0x80000000, left, left.wrapping_sub(4), left + 1,
                left / 4, left / 8, r.next() as u32, 0xfffffffd, 0xfffffffe, 0x40000000, 0x3fffffff, 0x20000000,
            ]);
            if let Role::Len(_, Some(mx)) = m.role {
                cand.extend([mx as u32, (mx as u32).wrapping_add(1), (mx as u32).wrapping_sub(1)]);
            }
            for w in cand {
                x[m.off..m.off + 4].copy_from_slice(&w.to_be_bytes());
                probe(ctx, op, &x, "field");
                if r.pct(15) {
                    probe(ctx, op, &x[..r.below(len + 1)], "field, truncated");
                }
                if r.pct(10) && words.len() > 1 {
                    let o = r.pick(&words);
                    let mut y = x.clone();
                    y[o.off..o.off + 4].copy_from_slice(&r.pick(BOUNDARY).to_be_bytes());
                    probe(ctx, op, &y, "two fields");
                }
            }
        }
        for _ in 0..4 {
            let y = corrupt(e, r);
            probe(ctx, op, &y, "damaged");
        }
    }
    // Words with no relation to the type.
    for k in 0..n(ctx, 150, 1500) {
        let len = r.below(40);
        let mut x = Vec::new();
        for _ in 0..len {
            let w: u32 = match (k + r.below(3)) % 4 {
                0 => *r.pick(BOUNDARY),
                1 => r.below(4) as u32,
                2 => r.next() as u32,
                _ => 1,
            };
            x.extend(w.to_be_bytes());
        }
        x.truncate(x.len().saturating_sub(r.below(4)));
        probe(ctx, op, &x, "random");
    }
    // Long runs of the same word: deep recursion through markers, counts and arms.
    for w in [1u32, 2, 3, 0] {
        for len in [64usize, 1000, if ctx.thorough { 20_000 } else { 4000 }] {
            let x: Vec<u8> = std::iter::repeat(w.to_be_bytes()).take(len).flatten().collect();
            probe(ctx, op, &x, "run");
        }
    }
    if let Some(v) = chain(env, op.name, if ctx.thorough { 20_000 } else { 8_000 }, 4 << 20, r) {
        let e = encode_item(env, op.name, &v);
        probe(ctx, op, &e.bytes, "chain");
        probe(ctx, op, &e.bytes[..e.bytes.len() - 2], "chain, truncated");
        ctx.count("chains", 1);
    }
    // On an ordinary stack: long arrays and payloads of any type, chains of some depth.
    if op.size_of <= 16 << 10 {
        let mut on_8mb: Vec<(Vec<u8>, &str)> = Vec::new();
        if !recursive(env, op.name) {
            for v in long_values(env, op.name, r, n(ctx, 3, 8)) {
                on_8mb.push((encode_item(env, op.name, &v).bytes, "long, 8 MB stack"));
            }
        }
        if let Some(path) = cycle(env, op.name, r) {
            // KF4: the stack a chain takes is proportional to its length.
            let link: usize =
                path.iter().map(|x| s.ops.iter().find(|o| o.name == x.0).map(|o| o.size_of.max(64)).unwrap_or(64)).sum();
            let depth = ((8 << 20) / (64 * link)).min(500);
            if let Some(v) = chain_along(env, op.name, &path, depth, 1 << 20, r) {
                on_8mb.push((encode_item(env, op.name, &v).bytes, "chain, 8 MB stack"));
            }
        }
        if !on_8mb.is_empty() {
            std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, || {
                        RAW.with(|x| x.set(true));
                        meter::limit(2 << 30);
                        for (x, what) in &on_8mb {
                            probe(ctx, op, x, what);
                        }
                    })
                    .unwrap()
                    .join()
                    .unwrap();
            });
        }
    }
    RAW.with(|x| x.set(false));
}

/// A value of the type may hold values of the same type.
fn recursive(env: &Env, name: &str) -> bool {
    let mut seen = HashSet::new();
    let mut todo = vec![name.to_string()];
    while let Some(x) = todo.pop() {
        for d in env.item(&x).map(|i| i.decls()).unwrap_or_default() {
            if let Ty::Name(m) = &d.ty {
                if m == name {
                    return true;
                }
                if seen.insert(m.clone()) {
                    todo.push(m.clone());
                }
            }
        }
    }
    false
}

fn pick_some<'a, T>(v: &'a [T], k: usize, r: &mut Rng) -> Vec<&'a T> {
    let mut i: Vec<usize> = (0..v.len()).collect();
    r.shuffle(&mut i);
    i.truncate(k);
    i.sort_unstable();
    i.into_iter().map(|i| &v[i]).collect()
}

fn probe(ctx: &mut Ctx, op: &TypeOps, x: &[u8], what: &str) {
    ctx.case(what, x);
    let o = (op.val)(b(x));
    ctx.eval(x.len() >= 4, x);
    ctx.sample(|| format!("{} input of {} bytes {}: {}", what, x.len(), hex(&x[..x.len().min(48)]), match &o.res {
        Res::Ok(..) => "Ok".into(),
        Res::Err(e) => format!("{:?}", e),
        Res::Panic(m) => m.clone(),
    }));
    tally(ctx, what, &o);
    if let Res::Panic(m) = &o.res {
        ctx.violation("TryFrom<Bytes> panics", x, &format!("{} input: {}", what, m));
        return;
    }
    let mut buf = b(x);
    let o = (op.byref)(&mut buf);
    if let Res::Panic(m) = &o.res {
        ctx.violation("TryFrom<&mut Bytes> panics", x, &format!("{} input: {}", what, m));
    }
}

fn tally(ctx: &mut Ctx, what: &str, o: &Out) {
    let k = match &o.res {
        Res::Ok(..) => "Ok",
        Res::Err(e) => kind_of(e),
        Res::Panic(_) => "panic",
    };
    ctx.count(&format!("{}: {}", what, k), 1);
}

// ------------------------------------------------------------------------- C05

fn c05(ctx: &mut Ctx, env: &Env, op: &TypeOps, r: &mut Rng) {
    meter::limit(2 << 30);
    // Every counted declarator at max-1, max, max+1.
    let mut large = n(ctx, 4, 40);
    for round in 0..n(ctx, 4, 25) {
        let seed = r.next();
        let g0 = Vg { arr: 2, pay: 9, depth: 3 + round % 3, at_max: false, fuel: 150 };
        let k_union = round;
        let gen = |f| {
            forced(f, || {
                let mut r = Rng::new(&[seed]);
                match env.item(op.name) {
                    Some(Item::Union { arms, .. }) => {
                        let k = k_union % env.variants(arms).len();
                        gen_variant(env, op.name, k, &mut r, &mut g0.clone())
                    }
                    _ => gen_item(env, op.name, &mut r, &mut g0.clone()),
                }
            })
        };
        let (_, seen) = gen(None);
        let mut idx: Vec<usize> = (0..seen.len()).filter(|k| seen[*k].1.is_some()).collect();
        r.shuffle(&mut idx);
        idx.truncate(n(ctx, 10, 30));
        for k in idx {
            let (kind, max, min) = seen[k];
            let max = max.unwrap();
            // Long ones are few: what is above the maximum has to be present.
            let small = if kind == 'a' { 1500 } else { 5000 };
            let cap = if max <= small || large == 0 || spent(ctx) {
                small
            } else {
                large -= 1;
                if kind == 'a' { (300_000 / min.max(4)) as u64 } else { 1_100_000 }
            };
            for want in [max.wrapping_sub(1), max, max + 1] {
                if want > cap {
                    continue;
                }
                let (v, _) = gen(Some((k, want)));
                let e = encode_item(env, op.name, &v);
                ctx.case("forced length", &e.bytes);
                let o = (op.val)(b(&e.bytes));
                ctx.eval(true, &e.bytes);
                ctx.sample(|| format!("{} of length {} (max {}): {}", kind, want, max, res(&o)));
                ctx.count(&format!("bound_{}_{}", kind, if want > max { "above" } else if want == max { "at" } else { "below" }), 1);
                let ok = if want > max {
                    matches!(o.res, Res::Err(Er::InvalidLength))
                } else {
                    matches!(&o.res, Res::Ok(w, _) if agrees(env, op.name, &v, w))
                };
                if !ok {
                    ctx.violation(
                        "declared maximum",
                        &e.bytes,
                        &format!("length {} of a counted {} with maximum {}: {}", want, name_of(kind), max, res(&o)),
                    );
                }
                let mut buf = b(&e.bytes);
                let o2 = (op.byref)(&mut buf);
                if matches!(o2.res, Res::Err(Er::InvalidLength)) != matches!(o.res, Res::Err(Er::InvalidLength)) {
                    ctx.violation("declared maximum, &mut form", &e.bytes, &format!("by value {} by &mut {}", res(&o), res(&o2)));
                }
            }
        }
    }
    // Lengths rewritten on the wire, and strict prefixes.
    let mut vs = directed_item(env, op.name, r);
    r.shuffle(&mut vs);
    vs.truncate(n(ctx, 14, 80));
    for k in 0..n(ctx, 10, 80) {
        vs.push(random_value(env, op.name, r, k));
    }
    for v in vs {
        let e = encode_item(env, op.name, &v);
        observe(ctx, &v, &e);
        let len = e.bytes.len();
        if len > 60_000 {
            continue;
        }
        let words: Vec<&Mark> = e.map.iter().filter(|m| matches!(m.role, Role::Len(..))).collect();
        for m in pick_some(&words, n(ctx, 8, 30), r) {
            let (kind, max) = match m.role {
                Role::Len(k, mx) => (k, mx),
                _ => unreachable!(),
            };
            let left = (len - m.off - 4) as u64;
            let mut cand: Vec<u64> = vec![
                left, left + 1, left + 4, left.saturating_sub(3), left / 4 + 1, 0x7fffffff, 0x80000000, 0xfffffffc, 0xfffffffd,
                0xfffffffe, 0xffffffff, left + (1 << 16),
            ];
            if let Some(mx) = max {
                cand.extend([mx, mx + 1, mx + 3, mx.wrapping_mul(2)]);
            }
            let mut done: HashSet<u64> = HashSet::new();
            for w in cand {
                if w > u32::MAX as u64 || !done.insert(w) {
                    continue;
                }
                let mut x = e.bytes.clone();
                x[m.off..m.off + 4].copy_from_slice(&(w as u32).to_be_bytes());
                ctx.case("length word", &x);
                let o = (op.val)(b(&x));
                ctx.eval(true, &x);
                let (rf, _) = ref_decode(env, op.name, &x);
                match (&rf, &o.res) {
                    // What must be rejected is not rejected by a panic; other panics are C04's.
                    (a, Res::Panic(_)) if !matches!(a, Err(Er::InvalidLength)) => ctx.count("panics", 1),
                    (Ok(v), Res::Ok(w, _)) if agrees(env, op.name, v, w) => ctx.count("word_accepted", 1),
                    (Err(Er::InvalidLength), Res::Err(Er::InvalidLength)) => ctx.count("word_rejected", 1),
                    // Other errors of what follows: any order of detection is fine.
                    (Err(Er::Other(_)), _) => ctx.count("word_undecided", 1),
                    (Err(a), Res::Err(Er::InvalidLength)) if *a != Er::InvalidLength => ctx.count("word_rejected_other", 1),
                    (Err(a), Res::Err(c)) if a == c && !over(w, max, kind, left) => ctx.count("word_rejected_other", 1),
                    // 64 bit discriminants do not fit the error.
                    (Err(Er::UnknownVariant(_)), Res::Err(Er::UnknownVariant(_))) => ctx.count("word_rejected_other", 1),
                    _ => ctx.violation(
                        "length beyond the maximum or the data",
                        &x,
                        &format!(
                            "{} length at offset {} set to {} (max {:?}, {} bytes follow): expected {} got {}",
                            name_of(kind), m.off, w, max, left, short(&rf), res(&o)
                        ),
                    ),
                }
            }
        }
        // Strict prefixes.
        let cuts: Vec<usize> = if len <= 200 || (ctx.thorough && len <= 1500) {
            (0..len).collect()
        } else {
            let mut c: Vec<usize> = Vec::new();
            for m in e.map.iter().take(40) {
                c.extend([m.off, m.off + m.len - (m.len > 0) as usize, m.off + m.len / 2]);
            }
            c.extend([len - 1, len - 2, len - 3, len - 4, len / 2]);
            c.retain(|x| *x < len);
            c.sort_unstable();
            c.dedup();
            c
        };
        let mut mark = 0;
        for c in cuts {
            let x = &e.bytes[..c];
            ctx.case("prefix", x);
            let o = (op.val)(b(x));
            ctx.eval(c > 0, x);
            while mark < e.map.len() && e.map[mark].off + e.map[mark].len <= c {
                mark += 1;
            }
            let role = e.map.get(mark).map(|m| &m.role);
            let payload = matches!(role, Some(Role::Opaque) | Some(Role::Str) | Some(Role::Pad));
            match &o.res {
                Res::Err(Er::InvalidLength) => ctx.count("prefix_rejected", 1),
                Res::Err(_) if !payload => ctx.count("prefix_rejected_other", 1),
                Res::Panic(_) if !payload => ctx.count("panics", 1),
                _ => ctx.violation(
                    "strict prefix",
                    x,
                    &format!("{} of {} bytes (cut in {:?}): {}", c, len, role, res(&o)),
                ),
            }
        }
    }
}

fn over(w: u64, max: Option<u64>, kind: char, left: u64) -> bool {
    max.map(|m| w > m).unwrap_or(false) || (kind != 'a' && w > left)
}

fn name_of(k: char) -> &'static str {
    match k {
        'o' => "opaque",
        's' => "string",
        _ => "array",
    }
}

fn short(r: &Result<V, Er>) -> String {
    match r {
        Ok(v) => format!("Ok({})", v.short()),
        Err(e) => format!("Err({:?})", e),
    }
}

// ------------------------------------------------------------------------- C06

fn c06(ctx: &mut Ctx, env: &Env, op: &TypeOps, r: &mut Rng) {
    meter::limit(2 << 30);
    let mut vs = some_of(directed_item(env, op.name, r), n(ctx, 120, 600), r);
    for k in 0..n(ctx, 25, 200) {
        vs.push(random_value(env, op.name, r, k));
    }
    let own = env.item(op.name).map(|i| i.decls().iter().any(|d| d.ty == Ty::Str)).unwrap_or(false);
    let vs_len = vs.len();
    let mut texts = if own { n(ctx, 2, 12) } else { (r.pct(10)) as usize };
    for v in vs {
        let e = encode_item(env, op.name, &v);
        if e.bytes.len() > 20_000 {
            continue;
        }
        observe(ctx, &v, &e);
        // As encoded: every declared discriminant selects its own arm.
        judge(ctx, env, op, &e.bytes, "declared", true);
        if texts > 0 && e.bytes.len() < 2000 {
            if let Some(k) = (0..e.map.len()).find(|k| matches!(e.map[*k].role, Role::Len('s', _))) {
                texts -= 1;
                invalid_texts(ctx, env, op, &e.bytes, &e.map[k], r);
            }
        }
        let words: Vec<&Mark> = e
            .map
            .iter()
            .filter(|m| {
                matches!(m.role, Role::Bool | Role::Enum(_) | Role::Disc(_) | Role::Marker)
                    || (m.role == Role::Str && m.len > 0)
            })
            .collect();
        // Some words even when the budget is used up: the late arms of a union.
        let many = if spent(ctx) { 1 } else if vs_len > 300 { n(ctx, 2, 10) } else { n(ctx, 12, 40) };
        for m in pick_some(&words, many, r) {
            let old = &e.bytes[m.off..m.off + m.len];
            let mut x = e.bytes.clone();
            match &m.role {
                Role::Str => {
                    for k in 0..3 {
                        let mut x = e.bytes.clone();
                        let s = &mut x[m.off..m.off + m.len];
                        bad_utf8(s, k, r);
                        if std::str::from_utf8(s).is_err() {
                            judge(ctx, env, op, &x, "string", true);
                        }
                    }
                    continue;
                }
                Role::Disc(u) if m.len == 8 => {
                    let (arms, _) = union_of(env, u);
                    let mut cand: Vec<u64> = vec![0, 1, u64::MAX, 1 << 32, 1 << 63, i64::MAX as u64, 0xffffffff];
                    let all = env.declared(arms);
                    for d in pick_some(&all, 24, r) {
                        let d = *d as u64;
                        cand.extend([d, d ^ (1 << 32), d ^ (1 << 63), d.wrapping_add(1), d & 0xffffffff, d << 32]);
                    }
                    for w in cand {
                        x[m.off..m.off + 8].copy_from_slice(&w.to_be_bytes());
                        let known = all.contains(&(w as i64)) || has_default(arms);
                        judge(ctx, env, op, &x, "discriminant", !known);
                    }
                    continue;
                }
                role => {
                    let old = u32::from_be_bytes(old.try_into().unwrap());
                    let mut cand: Vec<u32> = vec![
                        0, 1, 2, 3, 0xff, 0x100, 0x101, 0x10000, 0x10001, 0x1000000, 0x1000001, 0x7fffffff,
                        0x80000000, 0x80000001, 0xffffffff, 0xfffffffe, old.wrapping_add(1), old.wrapping_sub(1),
                        old ^ 0x80000000, old ^ 0x100, old ^ 0x10000, old.swap_bytes(), r.next() as u32,
                    ];
                    if !spent(ctx) {
                        cand.extend((0..32).flat_map(|k| [1u32 << k, old ^ 1 << k]));
                    }
                    let what = match role {
                        Role::Bool => "boolean",
                        Role::Marker => "marker",
                        Role::Enum(t) => {
                            if let Some(Item::Enum { members, .. }) = env.item(t) {
                                for m in pick_some(members, 20, r) {
                                    let d = m.1.val as u32;
                                    cand.extend([d, d.wrapping_add(1), d.wrapping_sub(1), d ^ 0x80000000]);
                                }
                            }
                            "enum"
                        }
                        Role::Disc(u) => {
                            let (arms, _) = union_of(env, u);
                            let all = env.declared(arms);
                            for d in pick_some(&all, 24, r) {
                                let d = *d as u32;
                                cand.extend([d, d.wrapping_add(1), d.wrapping_sub(1), d ^ 0x80000000]);
                            }
                            "discriminant"
                        }
                        _ => unreachable!(),
                    };
                    cand.sort_unstable();
                    cand.dedup();
                    for w in cand {
                        x[m.off..m.off + 4].copy_from_slice(&w.to_be_bytes());
                        // The word itself decides only when it is not a declared one.
                        let (rf, at) = ref_decode(env, op.name, &x);
                        let decides = at == m.off + 4 && matches!(&rf, Err(e) if *e != Er::InvalidLength);
                        judge(ctx, env, op, &x, what, decides);
                    }
                }
            }
        }
    }
}

fn has_default(arms: &[Arm]) -> bool {
    arms.iter().any(|a| a.default)
}

fn union_of<'a>(env: &'a Env, u: &str) -> (&'a [Arm], &'a Ty) {
    match env.item(u) {
        Some(Item::Union { arms, dty, .. }) => (arms, dty),
        _ => panic!("union"),
    }
}

/// Replaces the string behind the length word `m` by invalid text of many lengths, the
/// invalid sequence at its start, end and inside, behind ASCII or multi-byte text.
fn invalid_texts(ctx: &mut Ctx, env: &Env, op: &TypeOps, x: &[u8], m: &Mark, r: &mut Rng) {
    let max = match m.role {
        Role::Len(_, max) => max.unwrap_or(u64::MAX),
        _ => return,
    };
    let old = u32::from_be_bytes([x[m.off], x[m.off + 1], x[m.off + 2], x[m.off + 3]]) as usize;
    let rest = &x[m.off + 4 + old + (4 - old % 4) % 4..];
    const BAD: &[&[u8]] = &[
        &[0xff], &[0x80], &[0xbf], &[0xc0], &[0xc1, 0x81], &[0xf5, 0x80, 0x80, 0x80], &[0xc3], &[0xe2, 0x82], &[0xf0, 0x9f, 0x98],
        &[0xed, 0xa0, 0x80], &[0xe0, 0x80, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xc3, 0x28], &[0xe2, 0x28, 0xa1], &[0xfe],
    ];
    for l in [1usize, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000] {
        if l as u64 > max {
            break;
        }
        let bad = *r.pick(BAD);
        if bad.len() > l {
            continue;
        }
        let mut at = vec![0, l - bad.len(), r.below(l - bad.len() + 1)];
        at.dedup();
        for at in at {
            let mut t: Vec<u8> = if r.pct(60) {
                (0..l).map(|_| b' ' + r.below(95) as u8).collect()
            } else {
                string(r, at).into_bytes()
            };
            t.resize(l, b'z');
            t[at..at + bad.len()].copy_from_slice(bad);
            if std::str::from_utf8(&t).is_ok() {
                continue;
            }
            let mut y = x[..m.off].to_vec();
            y.extend_from_slice(&(l as u32).to_be_bytes());
            y.extend_from_slice(&t);
            y.resize(y.len() + (4 - l % 4) % 4, 0);
            y.extend_from_slice(rest);
            judge(ctx, env, op, &y, "text", true);
        }
    }
}

fn bad_utf8(s: &mut [u8], k: usize, r: &mut Rng) {
    let i = r.below(s.len());
    match k {
        0 => s[i] = *r.pick(&[0xff, 0xfe, 0xc0, 0xc1, 0xf5, 0x80, 0xbf]),
        1 => {
            // Truncated sequence at the end.
            let l = s.len();
            s[l - 1] = *r.pick(&[0xc3, 0xe2, 0xf0]);
        }
        _ => {
            // A surrogate, or an overlong form.
            let seq: &[u8] = *r.pick(&[&[0xed, 0xa0, 0x80][..], &[0xc0, 0xaf][..], &[0xe0, 0x80, 0x80][..], &[0xf4, 0x90, 0x80, 0x80][..]]);
            let i = if s.len() >= seq.len() { r.below(s.len() - seq.len() + 1) } else { 0 };
            for (j, x) in seq.iter().enumerate() {
                if i + j < s.len() {
                    s[i + j] = *x;
                }
            }
        }
    }
}

/// Compares one decode with the reference; `exact` demands the same error.
fn judge(ctx: &mut Ctx, env: &Env, op: &TypeOps, x: &[u8], what: &str, exact: bool) {
    ctx.case(what, x);
    let (rf, _) = ref_decode(env, op.name, x);
    let o = (op.val)(b(x));
    ctx.eval(true, x);
    ctx.sample(|| format!("{}: {} -> {}", what, hex(&x[..x.len().min(48)]), res(&o)));
    let ok = match (&rf, &o.res) {
        (Err(Er::Other(_)), _) => true,
        (_, Res::Panic(_)) => {
            // A panic on an undeclared word is not the required error.
            !exact
        }
        (Ok(v), Res::Ok(w, _)) => agrees(env, op.name, v, w),
        (Err(a), Res::Err(c)) if exact => {
            a == c || (wide(env, op.name, a) && matches!(c, Er::UnknownVariant(_)))
        }
        (Err(_), Res::Err(_)) => true,
        _ => false,
    };
    match &rf {
        Ok(_) => ctx.count(&format!("{}: accepted", what), 1),
        Err(e) => ctx.count(&format!("{}: {}", what, kind_of(e)), 1),
    }
    if !ok {
        ctx.violation(what, x, &format!("expected {} got {}", short(&rf), res(&o)));
        return;
    }
    if exact {
        let mut buf = b(x);
        let o2 = (op.byref)(&mut buf);
        let same = match (&o.res, &o2.res) {
            (Res::Ok(v, _), Res::Ok(w, _)) => v == w,
            (Res::Err(a), Res::Err(c)) => a == c,
            _ => false,
        };
        if !same {
            ctx.violation(what, x, &format!("expected {} got {} from the &mut form", short(&rf), res(&o2)));
        }
    }
}

/// A 64 bit discriminant does not fit UnknownVariant(i32): its payload is not specified.
fn wide(env: &Env, name: &str, e: &Er) -> bool {
    if !matches!(e, Er::UnknownVariant(_)) {
        return false;
    }
    let mut seen = HashSet::new();
    let mut todo = vec![name.to_string()];
    while let Some(x) = todo.pop() {
        if !seen.insert(x.clone()) {
            continue;
        }
        if let Some(Item::Union { dty, .. }) = env.item(&x) {
            if matches!(env.disc(dty), Disc::Prim(Prim::U64) | Disc::Prim(Prim::I64)) {
                return true;
            }
        }
        if let Some(i) = env.item(&x) {
            for d in i.decls() {
                if let Ty::Name(m) = &d.ty {
                    todo.push(m.clone());
                }
            }
        }
    }
    false
}

// ------------------------------------------------------------------------- C07

/// Names, order and shapes as `{:#?}` shows them.
fn debug_shape(env: &Env, name: &str, v: &V, ind: usize, out: &mut String) {
    let pad = |n: usize| "    ".repeat(n);
    match (env.item(name).unwrap(), v) {
        (Item::Enum { members, .. }, V::Enum(x)) => {
            out.push_str(&members.iter().find(|m| m.1.val as i64 == *x).unwrap().0)
        }
        (Item::Struct { fields, .. }, V::Struct(vs)) => {
            out.push_str(name);
            out.push_str(" {\n");
            for (f, x) in fields.iter().zip(vs) {
                out.push_str(&pad(ind + 1));
                out.push_str(&field_name(&f.0));
                out.push_str(": ");
                debug_decl(env, &f.1, x, ind + 1, out);
                out.push_str(",\n");
            }
            out.push_str(&pad(ind));
            out.push('}');
        }
        (Item::Typedef { decl, .. }, V::New(x)) => {
            out.push_str(name);
            out.push_str("(\n");
            out.push_str(&pad(ind + 1));
            debug_decl(env, decl, x, ind + 1, out);
            out.push_str(",\n");
            out.push_str(&pad(ind));
            out.push(')');
        }
        (Item::Union { arms, .. }, V::Union { variant, body, .. }) => {
            out.push_str(variant);
            if let Some(x) = body {
                let d = env.variants(arms).into_iter().find(|y| y.rust == *variant).unwrap().body.unwrap();
                out.push_str("(\n");
                out.push_str(&pad(ind + 1));
                debug_decl(env, &d, x, ind + 1, out);
                out.push_str(",\n");
                out.push_str(&pad(ind));
                out.push(')');
            }
        }
        _ => panic!("shape"),
    }
}

fn debug_decl(env: &Env, d: &Decl, v: &V, ind: usize, out: &mut String) {
    let pad = |n: usize| "    ".repeat(n);
    let leaf = |v: &V| match v {
        V::U32(n) => format!("{:?}", n),
        V::I32(n) => format!("{:?}", n),
        V::U64(n) => format!("{:?}", n),
        V::I64(n) => format!("{:?}", n),
        V::F32(n) => format!("{:?}", f32::from_bits(*n)),
        V::F64(n) => format!("{:?}", f64::from_bits(*n)),
        V::Bool(n) => format!("{:?}", n),
        V::Str(s) => format!("{:?}", s),
        V::Opaque(o) => format!("{:?}", Bytes::from(o.data.clone())),
        v => panic!("leaf {:?}", v),
    };
    match v {
        V::Opt(None) => out.push_str("None"),
        V::Opt(Some(x)) => {
            out.push_str("Some(\n");
            out.push_str(&pad(ind + 1));
            debug_decl(env, &Decl { opt: false, ..d.clone() }, x, ind + 1, out);
            out.push_str(",\n");
            out.push_str(&pad(ind));
            out.push(')');
        }
        V::Arr(vs) => {
            if vs.is_empty() {
                out.push_str("[]");
                return;
            }
            out.push_str("[\n");
            for x in vs {
                out.push_str(&pad(ind + 1));
                debug_decl(env, &Decl::plain(d.ty.clone()), x, ind + 1, out);
                out.push_str(",\n");
            }
            out.push_str(&pad(ind));
            out.push(']');
        }
        v => match &d.ty {
            Ty::Name(n) => debug_shape(env, n, v, ind, out),
            _ => out.push_str(&leaf(v)),
        },
    }
}

fn c07(ctx: &mut Ctx, env: &Env, op: &TypeOps, r: &mut Rng) {
    for k in 0..n(ctx, 6, 30) {
        let v = random_value(env, op.name, r, 4 + k % 2);
        let mut want = String::new();
        debug_shape(env, op.name, &v, 0, &mut want);
        ctx.case("debug", &[]);
        let got = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (op.debug)(&v))) {
            Ok(g) => g,
            Err(p) => {
                ctx.violation("Debug panics", &[], &crate::ops::message(p));
                continue;
            }
        };
        ctx.eval(true, got.as_bytes());
        if got != want {
            ctx.violation("declared shape (names and order as Debug shows them)", &[], &format!("expected\n{}\ngot\n{}", want, got));
        }
    }
}

// ------------------------------------------------------------------------- C08

fn c08(ctx: &mut Ctx, env: &Env, op: &TypeOps, r: &mut Rng) {
    if !env.generic(op.name) {
        ctx.count("types_without_opaque", 1);
        return;
    }
    let vs = values(ctx, env, op.name, r, n(ctx, 50, 400));
    for (i, v) in vs.into_iter().enumerate() {
        let e = encode_item(env, op.name, &v);
        let marks: Vec<&Mark> = e.map.iter().filter(|m| m.role == Role::Opaque).collect();
        let off = i % 5;
        let view = storage(if e.bytes.len() > 100_000 { 0 } else { i }, off, &e.bytes);
        let (lo, hi) = (view.as_ptr() as usize, view.as_ptr() as usize + view.len());
        let mut buf = view.clone();
        for fam in ["TryFrom<Bytes>", "TryFrom<&mut Bytes>"] {
            ctx.case(fam, &e.bytes);
            let o = if fam == "TryFrom<Bytes>" { (op.val)(view.clone()) } else { (op.byref)(&mut buf) };
            ctx.eval(marks.iter().any(|m| m.len > 0), &e.bytes);
            let w = match &o.res {
                Res::Ok(w, _) => w,
                _ => {
                    ctx.count("not_decoded", 1);
                    continue;
                }
            };
            let mut leaves = Vec::new();
            w.opaques(&mut leaves);
            let exact = *w == v && leaves.len() == marks.len();
            for (k, l) in leaves.iter().enumerate() {
                if l.data.is_empty() {
                    ctx.count("leaves_empty", 1);
                    continue;
                }
                ctx.count("leaves", 1);
                if l.data.len() > 16 {
                    ctx.count("leaves_above_16_bytes", 1);
                }
                let bad = if exact {
                    l.ptr != lo + marks[k].off
                } else {
                    // Decoded differently (C01): it must still be a view.
                    l.ptr < lo || l.ptr + l.data.len() > hi
                };
                if bad {
                    ctx.violation(
                        "opaque is not a view at its wire offset",
                        &e.bytes,
                        &format!(
                            "{}: leaf {} of {} bytes at input{:+}, wire offset {}",
                            fam, k, l.data.len(), l.ptr as i128 - lo as i128,
                            marks.get(k).map(|m| m.off as i64).unwrap_or(-1)
                        ),
                    );
                    break;
                }
            }
            ctx.sample(|| format!("{} opaque leaves in {} bytes", leaves.len(), e.bytes.len()));
        }
    }
}

// ------------------------------------------------------------------------- C09

fn c09(ctx: &mut Ctx, env: &Env, op: &TypeOps, r: &mut Rng, s: &ShardSpec) {
    meter::limit(512 << 20);
    RAW.with(|x| x.set(true));
    // S: the largest in-memory size of a type or of a fixed array of this specification.
    let size = |n: &str| s.ops.iter().find(|o| o.name == n).map(|o| o.size_of).unwrap_or(8);
    let mut big = 64usize;
    for o in s.ops {
        big = big.max(o.size_of);
    }
    let mut fixed = 0usize;
    for it in &env.spec.items {
        for d in it.decls() {
            if let Kind::Fixed(k) = &d.kind {
                let el = match &d.ty {
                    Ty::Name(n) => size(n),
                    Ty::Opaque => 1,
                    _ => 8,
                };
                fixed += env.bound(k) as usize * el;
            }
        }
    }
    let limit = |len: usize| 8 * big * (len / 4) + 16 * big + 4 * len + fixed + 1024;
    let mut vs = directed_item(env, op.name, r);
    r.shuffle(&mut vs);
    vs.truncate(n(ctx, 20, 120));
    for k in 0..n(ctx, 14, 100) {
        vs.push(random_value(env, op.name, r, k));
    }
    vs.push(gen_item(env, op.name, r, &mut Vg::minimal()));
    vs.extend(long_values(env, op.name, r, n(ctx, 2, 6)));
    if ctx.spec == "c:huge" {
        vs.extend(huge_values(env, op.name, r, n(ctx, 2, 6)));
    }
    let mut worst = 0f64;
    let mut go = |ctx: &mut Ctx, x: &[u8], what: &str| {
        ctx.case(what, x);
        for fam in 0..2 {
            let o = if fam == 0 { (op.val)(b(x)) } else { (op.byref)(&mut b(x)) };
            let m = limit(x.len());
            worst = worst.max(o.requested as f64 / m as f64);
            ctx.count("allocations", o.allocs as u64);
            if o.requested > m {
                ctx.violation(
                    "memory requested",
                    x,
                    &format!("{} bytes requested for {} bytes of input (bound {}), {} input", o.requested, x.len(), m, what),
                );
            }
            if fam == 0 {
                tally(ctx, what, &o);
            }
        }
        ctx.eval(x.len() >= 4, x);
    };
    for v in &vs {
        let e = encode_item(env, op.name, v);
        go(ctx, &e.bytes, "valid");
        let words: Vec<&Mark> = e.map.iter().filter(|m| matches!(m.role, Role::Len(..))).collect();
        for m in pick_some(&words, n(ctx, 8, 30), r) {
            let max = match m.role {
                Role::Len(_, x) => x,
                _ => None,
            };
            let mut cand = vec![
                0xffffffffu64, 0x80000000, 0x7fffffff, 0x40000000, 0x10000000, 0x1000000, 0x100000, 0x10000, 0x1000, 0x100000f,
                r.next() & 0xfffffff,
            ];
            if let Some(x) = max {
                cand.extend([x, x.saturating_sub(1), x / 2, x / 3]);
            }
            for w in cand {
                if w > u32::MAX as u64 {
                    continue;
                }
                let mut x = e.bytes.clone();
                x[m.off..m.off + 4].copy_from_slice(&(w as u32).to_be_bytes());
                if x.len() < 400 || !spent(ctx) {
                    go(ctx, &x, "length word");
                }
                if m.off > 400 && spent(ctx) {
                    continue;
                }
                // With nothing behind it.
                go(ctx, &x[..m.off + 4], "length word, no data");
                go(ctx, &x[..(m.off + 8).min(x.len())], "length word, one word");
            }
        }
        if words.len() > 1 {
            // All the lengths at once.
            let mut x = e.bytes.clone();
            for m in &words {
                let w: u32 = match m.role {
                    Role::Len(_, Some(x)) if r.pct(70) => x as u32,
                    _ => *r.pick(&[0x10000, 0x1000000, 0xffffff, 0x7fffffff]),
                };
                x[m.off..m.off + 4].copy_from_slice(&w.to_be_bytes());
            }
            go(ctx, &x, "all lengths");
        }
    }
    for _ in 0..n(ctx, 30, 300) {
        let len = r.below(12);
        let x: Vec<u8> = (0..len)
            .flat_map(|_| r.pick(&[1u32, 2, 0x10000, 0x7fffffff, 0xffffffff, 0x100000]).to_be_bytes())
            .collect();
        go(ctx, &x, "random");
    }
    let w = (worst * 1e6) as u64;
    let m = ctx.counts.entry("max_ppm_of_bound".into()).or_insert(0);
    *m = (*m).max(w);
    RAW.with(|x| x.set(false));
}

// ------------------------------------------------------------------------- known findings

fn known(ctx: &mut Ctx, env: &Env, s: &ShardSpec) {
    match (s.origin, ctx.prop.as_str()) {
        ("c:kf_bare", "C03") => {
            // holder { bare items<>; } with one element of 3 bytes, then other data.
            let op = s.ops.iter().find(|o| o.name == "holder").unwrap();
            let v = V::Struct(vec![V::Arr(vec![V::Struct(vec![V::op(b"abc")])])]);
            let e = encode_item(env, "holder", &v);
            let mut x = e.bytes.clone();
            x.extend([0x55; 16]);
            ctx.ty = "holder".into();
            ctx.case("known finding", &x);
            let mut buf = b(&x);
            let o = (op.byref)(&mut buf);
            let used = x.len() - buf.len();
            ctx.eval(true, &x);
            match &o.res {
                Res::Ok(w, _) if (*w == v || matches!(w, V::Text(_))) && used == e.bytes.len() => {}
                Res::Ok(w, _) if (*w == v || matches!(w, V::Text(_))) && used == e.bytes.len() - 4 => {
                    ctx.known("KF1", "the &mut form consumes 4 bytes too few after a counted array of structs with an inline `opaque x;`: `struct bare { opaque x; }; struct holder { bare items<>; };`");
                }
                r => ctx.violation("the &mut form on a counted array of structs with an inline opaque", &x, &format!("{:?}, consumed {}", r, used)),
            }
        }
        ("c:kf_bare", "C01") => {
            // holder { bare items<>; } with two elements of 3 and 5 bytes.
            let op = s.ops.iter().find(|o| o.name == "holder").unwrap();
            let el = |x: &[u8]| V::Struct(vec![V::op(x)]);
            let v = V::Struct(vec![V::Arr(vec![el(b"abc"), el(b"defgh")])]);
            let e = encode_item(env, "holder", &v);
            ctx.ty = "holder".into();
            ctx.case("known finding", &e.bytes);
            let o = (op.val)(b(&e.bytes));
            ctx.eval(true, &e.bytes);
            if matches!(&o.res, Res::Panic(_)) {
                ctx.violation("decoding panics", &e.bytes, &format!("{:?}", o.res));
            } else if !matches!(&o.res, Res::Ok(w, _) if *w == v) {
                ctx.known("KF1", "counted array of structs with an inline `opaque x;` does not decode: `struct bare { opaque x; }; struct holder { bare items<>; };`");
            }
        }
        ("c:kf_bare", "C02") => {
            let op = s.ops.iter().find(|o| o.name == "bare").unwrap();
            let v = V::Struct(vec![V::op(b"abc")]);
            let e = encode_item(env, "bare", &v);
            ctx.ty = "bare".into();
            ctx.case("known finding", &e.bytes);
            let (_, got) = (op.build)(&v);
            ctx.eval(true, &e.bytes);
            if got == e.bytes.len() - 4 {
                ctx.known("KF1", "wire_size() is 4 short per inline `opaque x;` field or arm");
            } else if got != e.bytes.len() {
                ctx.violation("wire_size() of a constructed value", &e.bytes, &format!("{} instead of {}", got, e.bytes.len()));
            }
        }
        ("c:kf_chain", "KF4") => {
            // A valid chain of a million optional links, on a stack of 8 MB.
            let op = s.ops.iter().find(|o| o.name == "node").unwrap();
            let mut x: Vec<u8> = Vec::new();
            for _ in 0..1_000_000 {
                x.extend(7u32.to_be_bytes());
                x.extend(1u32.to_be_bytes());
            }
            x.extend(7u32.to_be_bytes());
            x.extend(0u32.to_be_bytes());
            ctx.ty = "node".into();
            ctx.case("known finding", &[]);
            RAW.with(|r| r.set(true));
            LEAK.with(|r| r.set(true));
            let _ = (op.val)(Bytes::from(x));
            ctx.eval(true, b"chain");
        }
        _ => {}
    }
}
