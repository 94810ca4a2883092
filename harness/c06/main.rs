//! Every 32-bit word (thorough), or millions of them (quick), in every position where
//! only declared words are accepted: booleans, enums, optional markers, discriminants.
use fastxdr::bytes::Bytes;
use std::convert::TryFrom;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
include!("c06_gen.rs");
use xdr::*;

/// What a decode gave, without allocation.
#[derive(Debug, PartialEq, Clone, Copy)]
enum O {
    Bool(bool),
    Val(u32),
    Arm(&'static str, u32),
    None,
    Some(u32),
    BadBool,
    Variant(i32),
    Option(u32),
    Length,
    Other,
}

fn er(e: Error) -> O {
    match e {
        Error::InvalidBoolean => O::BadBool,
        Error::UnknownVariant(v) => O::Variant(v as i32),
        Error::UnknownOptionVariant(v) => O::Option(v as u32),
        Error::InvalidLength => O::Length,
        _ => O::Other,
    }
}

fn col(c: &color) -> u32 {
    match c {
        color::RED => 0,
        color::GREEN => 1,
        color::BYTE => 255,
        color::MID => 65536,
        color::FAR => 0x7fffffff,
    }
}

const COLORS: [u32; 5] = [0, 1, 255, 65536, 0x7fffffff];

/// The word that follows.
const NEXT: u32 = 1;

macro_rules! dec {
    ($t:ty, $b:expr, $family:expr) => {
        if $family {
            <$t>::try_from($b)
        } else {
            let mut b = $b;
            <$t>::try_from(&mut b)
        }
    };
}

const KINDS: [&str; 12] = [
    "bool", "typedef bool", "enum", "typedef enum", "marker", "marker of enum", "int union", "unsigned union",
    "default union", "enum union", "alias union", "bool union",
];

fn expected(k: usize, w: u32) -> O {
    let declared = COLORS.contains(&w);
    match k {
        0 | 1 => match w {
            0 => O::Bool(false),
            1 => O::Bool(true),
            _ => O::BadBool,
        },
        2 | 3 => {
            if declared {
                O::Val(w)
            } else {
                O::Variant(w as i32)
            }
        }
        // link: n, marker; the word is the marker, what follows is a link without next.
        4 => match w {
            0 => O::None,
            1 => O::Some(NEXT),
            _ => O::Option(w),
        },
        5 => match w {
            0 => O::None,
            1 => O::Some(1),
            _ => O::Option(w),
        },
        6 => match w {
            0 => O::Arm("v_0", NEXT),
            1 => O::Arm("v_1", 0),
            7 => O::Arm("v_7", 0),
            65536 => O::Arm("v_65536", 1),
            0x7fffffff => O::Arm("TOP", 0),
            _ => O::Variant(w as i32),
        },
        7 => match w {
            0 => O::Arm("v_0", 0),
            2 => O::Arm("v_2", NEXT),
            0x80000000 => O::Arm("v_2147483648", NEXT),
            0xffffffff => O::Arm("HIGH", 0),
            _ => O::Variant(w as i32),
        },
        8 => match w {
            3 => O::Arm("v_3", 0),
            256 => O::Arm("v_256", NEXT),
            _ => O::Arm("default", NEXT),
        },
        9 => match w {
            0 => O::Arm("RED", NEXT),
            1 => O::Arm("GREEN", 0),
            0x7fffffff => O::Arm("FAR", 0),
            _ => O::Variant(w as i32),
        },
        10 => match w {
            255 => O::Arm("BYTE", 0),
            _ if declared => O::Arm("default", NEXT),
            _ => O::Variant(w as i32),
        },
        _ => match w {
            0 => O::Arm("FALSE", 0),
            1 => O::Arm("TRUE", NEXT),
            _ => O::BadBool,
        },
    }
}

fn observed(k: usize, b: Bytes, f: bool) -> O {
    let r: Result<O, Error> = match k {
        0 => dec!(flag, b, f).map(|x| O::Bool(x.b)),
        1 => dec!(tflag, b, f).map(|x| O::Bool(x.0)),
        2 => dec!(color, b, f).map(|x| O::Val(col(&x))),
        3 => dec!(tcolor, b, f).map(|x| O::Val(col(&x.0))),
        4 => dec!(link, b, f).map(|x| match x.next {
            None => O::None,
            Some(l) => {
                if l.next.is_some() {
                    O::Other
                } else {
                    O::Some(l.n)
                }
            }
        }),
        5 => dec!(maybe, b, f).map(|x| match x.c {
            None => O::None,
            Some(c) => O::Some(col(&c)),
        }),
        6 => dec!(by_int, b, f).map(|x| match x {
            by_int::v_0(a) => O::Arm("v_0", a),
            by_int::v_1 => O::Arm("v_1", 0),
            by_int::v_7 => O::Arm("v_7", 0),
            by_int::v_65536(b) => O::Arm("v_65536", b as u32),
            by_int::TOP => O::Arm("TOP", 0),
        }),
        7 => dec!(by_uint, b, f).map(|x| match x {
            by_uint::v_0 => O::Arm("v_0", 0),
            by_uint::v_2(a) => O::Arm("v_2", a),
            by_uint::v_2147483648(a) => O::Arm("v_2147483648", a),
            by_uint::HIGH => O::Arm("HIGH", 0),
        }),
        8 => dec!(by_default, b, f).map(|x| match x {
            by_default::v_3 => O::Arm("v_3", 0),
            by_default::v_256(a) => O::Arm("v_256", a),
            by_default::default(a) => O::Arm("default", a),
        }),
        9 => dec!(by_enum, b, f).map(|x| match x {
            by_enum::RED(a) => O::Arm("RED", a),
            by_enum::GREEN => O::Arm("GREEN", 0),
            by_enum::FAR => O::Arm("FAR", 0),
        }),
        10 => dec!(by_alias, b, f).map(|x| match x {
            by_alias::BYTE => O::Arm("BYTE", 0),
            by_alias::default(a) => O::Arm("default", a),
        }),
        _ => dec!(by_bool, b, f).map(|x| match x {
            by_bool::TRUE(a) => O::Arm("TRUE", a),
            by_bool::FALSE => O::Arm("FALSE", 0),
        }),
    };
    r.unwrap_or_else(er)
}

/// Words per buffer: word i of a buffer is at 16 * i, followed by 1, 0 and 0.
const CHUNK: usize = 4096;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap();
    let thorough = get("--tier") == "thorough";
    let seed: u64 = get("--seed").parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    // Quick: words near zero, near the powers of two and near the top, and one word of
    // every 128 with an offset that depends on the seed and on the block.
    let next = AtomicU64::new(0);
    let blocks: Vec<(u64, u64, u64)> = {
        let mut v = Vec::new();
        if thorough {
            for k in 0..(1u64 << 32) / CHUNK as u64 {
                v.push((k * CHUNK as u64, 1, CHUNK as u64));
            }
        } else {
            for k in 0..33 {
                let lo = (1u64 << k).saturating_sub(CHUNK as u64);
                v.push((lo, 1, CHUNK as u64));
                v.push(((1u64 << k).min((1 << 32) - CHUNK as u64), 1, CHUNK as u64));
            }
            for k in 0..8192u64 {
                let mut x = (seed << 20) ^ k;
                x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
                x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
                v.push((k * (1 << 19) + (x >> 33) % 128, 128, CHUNK as u64));
            }
        }
        v
    };
    let counts: Vec<[AtomicU64; 3]> = (0..KINDS.len()).map(|_| Default::default()).collect();
    let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
    let stop = AtomicBool::new(false);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                if i >= blocks.len() || stop.load(Ordering::Relaxed) {
                    return;
                }
                let (lo, step, n) = blocks[i];
                let words: Vec<u32> = (0..n).map(|k| lo + k * step).filter(|w| *w <= u32::MAX as u64).map(|w| w as u32).collect();
                // The word, 1 and zeros; for `link` a first word goes before.
                let mut raw = vec![0u8; 20 * words.len()];
                for (k, w) in words.iter().enumerate() {
                    raw[20 * k + 3] = 9;
                    raw[20 * k + 4..20 * k + 8].copy_from_slice(&w.to_be_bytes());
                    raw[20 * k + 11] = NEXT as u8;
                }
                let buf = Bytes::from(raw);
                for kind in 0..KINDS.len() {
                    let mut ok = 0;
                    let mut err = 0;
                    for (k, w) in words.iter().enumerate() {
                        let from = if kind == 4 { 20 * k } else { 20 * k + 4 };
                        let want = expected(kind, *w);
                        for f in [true, false] {
                            // Only one family on most words of an exhaustive run.
                            if thorough && !f && k % 16 != 0 && want != O::Other {
                                continue;
                            }
                            let v = buf.slice(from..20 * k + 20);
                            let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| observed(kind, v, f)));
                            match got {
                                Ok(g) if g == want => match g {
                                    O::BadBool | O::Variant(_) | O::Option(_) => err += 1,
                                    _ => ok += 1,
                                },
                                g => {
                                    let mut b = bad.lock().unwrap();
                                    b.push(format!(
                                        "{{\"kind\": \"violation\", \"what\": \"{}\", \"detail\": \"word 0x{:08x}: expected {} got {} ({})\"}}",
                                        KINDS[kind],
                                        w,
                                        format!("{:?}", want).replace('"', ""),
                                        format!("{:?}", g.ok()).replace('"', ""),
                                        if f { "TryFrom<Bytes>" } else { "TryFrom<&mut Bytes>" }
                                    ));
                                    if b.len() > 10 {
                                        stop.store(true, Ordering::Relaxed);
                                        return;
                                    }
                                }
                            }
                        }
                    }
                    counts[kind][0].fetch_add(ok, Ordering::Relaxed);
                    counts[kind][1].fetch_add(err, Ordering::Relaxed);
                    counts[kind][2].fetch_add(words.len() as u64, Ordering::Relaxed);
                }
            });
        }
    });
    let mut out = std::fs::File::create(get("--out")).unwrap();
    let bad = bad.into_inner().unwrap();
    for b in bad.iter().take(10) {
        writeln!(out, "{}", b).unwrap();
    }
    let c: Vec<String> = KINDS
        .iter()
        .zip(&counts)
        .map(|(k, c)| {
            format!(
                "\"words: {}: accepted\": {}, \"words: {}: rejected\": {}",
                k,
                c[0].load(Ordering::Relaxed),
                k,
                c[1].load(Ordering::Relaxed)
            )
        })
        .collect();
    let evals: u64 = counts.iter().map(|c| c[0].load(Ordering::Relaxed) + c[1].load(Ordering::Relaxed)).sum();
    let distinct = if thorough {
        counts.iter().map(|c| c[2].load(Ordering::Relaxed)).sum()
    } else {
        let mut w: Vec<u64> = blocks.iter().flat_map(|(lo, step, n)| (0..*n).map(move |k| lo + k * step)).filter(|w| *w < 1 << 32).collect();
        w.sort_unstable();
        w.dedup();
        (w.len() * KINDS.len()) as u64
    };
    writeln!(
        out,
        "{{\"kind\": \"stats\", \"evals\": {}, \"distinct\": {}, \"violations\": {}, \"counts\": {{{}}}}}",
        evals,
        distinct,
        bad.len(),
        c.join(", ")
    )
    .unwrap();
    out.flush().unwrap();
    std::process::exit(0);
}
