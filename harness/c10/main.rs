//! C10: the readers and size helpers of the generated module, driven directly.
#![allow(warnings)]
#[path = "c10_gen.rs"]
mod gen;
use fastxdr::bytes::Bytes;
use gen::xdr::{self, DeserialiserExt, Error, WireSize};
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use xv::json;
use xv::rng::{fnv, Rng};

#[derive(Debug, PartialEq, Clone)]
struct U1(u8);
impl TryFrom<Bytes> for U1 {
    type Error = Error;
    fn try_from(b: Bytes) -> Result<Self, Error> {
        b.first().map(|x| U1(*x)).ok_or(Error::InvalidLength)
    }
}
impl WireSize for U1 {
    fn wire_size(&self) -> usize {
        1
    }
}
/// Three bytes.
#[derive(Debug, PartialEq, Clone)]
struct U3(u8, u8, u8);
impl TryFrom<Bytes> for U3 {
    type Error = Error;
    fn try_from(b: Bytes) -> Result<Self, Error> {
        if b.len() < 3 {
            return Err(Error::InvalidLength);
        }
        Ok(U3(b[0], b[1], b[2]))
    }
}
impl WireSize for U3 {
    fn wire_size(&self) -> usize {
        3
    }
}

/// Of a size that does not fit 32 bits with its neighbours.
struct Wide(usize);
impl WireSize for Wide {
    fn wire_size(&self) -> usize {
        self.0
    }
}

fn pad(n: usize) -> usize {
    (n + 3) / 4 * 4
}

struct Mon {
    out: std::fs::File,
    evals: u64,
    oks: u64,
    errs: u64,
    violations: u64,
    distinct: std::collections::HashSet<u64>,
    counts: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
}

impl Mon {
    fn bad(&mut self, reader: &str, case: String, detail: String, input: &[u8]) {
        self.violations += 1;
        if self.violations > 12 {
            return;
        }
        let o = json::obj(&[
            ("kind", json::s("violation")),
            ("origin", json::s("c10")),
            ("type", json::s(reader)),
            ("what", json::s(&format!("{} {}", reader, case))),
            ("detail", json::s(&detail)),
            ("input_len", input.len().to_string()),
            ("input_hex", json::s(&xv::value::hex(&input[..input.len().min(512)]))),
        ]);
        writeln!(self.out, "{}", o).unwrap();
    }

    /// `want`: None when the reader must fail, otherwise the value and the advance.
    fn check<T: PartialEq + std::fmt::Debug>(
        &mut self,
        reader: &'static str,
        case: &dyn Fn() -> String,
        view: &Bytes,
        want: Option<(T, usize)>,
        f: &dyn Fn(&mut Bytes) -> Result<T, Error>,
    ) -> Option<Error> {
        self.evals += 1;
        *self.counts.entry(reader).or_insert(0) += 1;
        let h = fnv(&[reader.as_bytes(), case().as_bytes(), &view[..]]);
        self.distinct.insert(h);
        let mut b = view.clone();
        let end = view.as_ptr() as usize + view.len();
        match catch_unwind(AssertUnwindSafe(|| f(&mut b))) {
            Err(p) => {
                self.bad(reader, case(), format!("panic: {}", xv::ops::message(p)), view);
                None
            }
            Ok(Err(e)) => {
                self.errs += 1;
                if let Some((v, n)) = want {
                    self.bad(reader, case(), format!("Err({:?}), expected Ok({:?}) advancing by {}", e, v, n), view);
                }
                Some(e)
            }
            Ok(Ok(v)) => {
                self.oks += 1;
                match want {
                    None => self.bad(reader, case(), format!("Ok({:?}), expected an error", v), view),
                    Some((w, n)) => {
                        let moved = view.len() as i64 - b.len() as i64;
                        if v != w {
                            self.bad(reader, case(), format!("Ok({:?}), expected Ok({:?})", v, w), view);
                        } else if moved != n as i64 {
                            self.bad(reader, case(), format!("advanced by {}, expected {}", moved, n), view);
                        } else if b[..] != view[n..] || (!b.is_empty() && b.as_ptr() as usize != end - b.len()) {
                            self.bad(reader, case(), format!("the rest of the buffer is {:?}, expected {:?}", b, &view[n..]), view);
                        } else if self.samples.len() < 3 && self.evals % 1009 == 17 {
                            self.samples.push(format!("{} {} on {} bytes: Ok, advanced by {}", reader, case(), view.len(), n));
                        }
                    }
                }
                None
            }
        }
    }
}

/// A view of `data[..r]` in a larger allocation: what follows is there, but not in the view.
fn view(data: &[u8], r: usize, lead: usize) -> Bytes {
    let mut v = vec![0xA5u8; lead];
    v.extend_from_slice(data);
    v.extend_from_slice(&[0x5A; 64]);
    Bytes::from(v).slice(lead..lead + r)
}

fn word(n: u32, rest: &[u8]) -> Vec<u8> {
    let mut v = n.to_be_bytes().to_vec();
    v.extend_from_slice(rest);
    v
}

fn utf8(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    while s.len() < n {
        let c = match r.below(5) {
            0 => '\u{e9}',
            1 => '\u{20ac}',
            2 => '\u{1f980}',
            3 => '\0',
            _ => (b'a' + r.below(26) as u8) as char,
        };
        if s.len() + c.len_utf8() <= n {
            s.push(c);
        } else {
            s.push('z');
        }
    }
    s
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let seed: u64 = get("--seed").unwrap().parse().unwrap();
    let thorough = get("--tier").unwrap() == "thorough";
    std::panic::set_hook(Box::new(|_| {}));
    let mut m = Mon {
        out: std::fs::File::create(get("--out").unwrap()).unwrap(),
        evals: 0,
        oks: 0,
        errs: 0,
        violations: 0,
        distinct: Default::default(),
        counts: Default::default(),
        samples: vec![],
    };
    let mut r = Rng::new(&[seed, 10]);
    let top = if thorough { 97 } else { 41 };

    // Scalars: every r, words from boundaries and at random.
    let mut words: Vec<u64> = vec![0, 1, 2, 0xff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x0100_0000, 0x1_0000_0000,
        0x8000_0000_0000_0000, u64::MAX, i64::MAX as u64, 0x0000_0001_0000_0000, 0x7ff8_0000_0000_0001, 0xfff0_0000_0000_0000,
        0x7fc0_0001_0000_0000, 0x0102_0304_0506_0708];
    for _ in 0..200 {
        words.push(r.next());
    }
    for w in &words {
        for rest in 0..6 {
            let mut data = w.to_be_bytes().to_vec();
            data.extend_from_slice(&[0x77; 8][..rest]);
            for lead in [0, 1, 4] {
                for len in 0..=data.len() {
                    let v = view(&data, len, lead);
                    let hi = (*w >> 32) as u32;
                    let c = || format!("r={}", len);
                    let four = len >= 4;
                    let eight = len >= 8;
                    m.check("read_u32", &c, &v, four.then_some((hi, 4)), &|b| b.read_u32());
                    m.check("read_i32", &c, &v, four.then_some((hi as i32, 4)), &|b| b.read_i32());
                    m.check("read_f32", &c, &v, four.then_some((hi, 4)), &|b| b.read_f32().map(|x| x.to_bits()));
                    m.check("read_u64", &c, &v, eight.then_some((*w, 8)), &|b| b.read_u64());
                    m.check("read_i64", &c, &v, eight.then_some((*w as i64, 8)), &|b| b.read_i64());
                    m.check("read_f64", &c, &v, eight.then_some((*w, 8)), &|b| b.read_f64().map(|x| x.to_bits()));
                    let bool_ok = four && hi < 2;
                    m.check("read_bool", &c, &v, bool_ok.then_some((hi == 1, 4)), &|b| b.read_bool());
                }
            }
        }
    }

    // Fixed opaque: every (n, r).
    let data: Vec<u8> = (0..1024).map(|_| 1 + (r.next() % 255) as u8).collect();
    for n in 0..=top {
        for len in 0..=n + 8 {
            for lead in [0, 3] {
                let v = view(&data, len, lead);
                let want = (len >= pad(n)).then(|| (data[..n].to_vec(), pad(n)));
                m.check("read_bytes", &|| format!("n={} r={}", n, len), &v, want, &|b| b.read_bytes(n).map(|x| x.to_vec()));
            }
        }
    }
    let huge: Vec<usize> = (0..9)
        .flat_map(|k| [usize::MAX - k, (1 << 63) + k, (1usize << 63) - 1 - k, (1 << 32) - 1 - k + 4, (1 << 31) + k, (1usize << 31) - 1 - k, (1 << 16) + k])
        .collect();
    for n in &huge {
        for len in (0..=16).chain([40, 64]) {
            let v = view(&data, len, 0);
            m.check("read_bytes", &|| format!("n={} r={}", n, len), &v, None, &|b| b.read_bytes(*n).map(|x| x.to_vec()));
        }
    }

    // Counted opaque and string: every (n, r, max).
    let maxima = |n: usize, all: bool| -> Vec<Option<usize>> {
        let mut v = vec![None, Some(u32::MAX as usize), Some(usize::MAX)];
        if all {
            v.extend((0..=top + 1).map(Some));
        } else {
            v.extend([0, n.saturating_sub(1), n, n + 1].map(Some));
        }
        v
    };
    for n in 0..=top {
        let text = utf8(&mut r, n);
        let raw = word(n as u32, &data);
        let mut txt = word(n as u32, text.as_bytes());
        txt.extend_from_slice(&[0xff; 64]); // The padding is not part of the string.
        for len in 0..=4 + n + 8 {
            let v = view(&raw, len, len % 5);
            let t = view(&txt, len, len % 3);
            for max in maxima(n, true) {
                let fits = len >= 4 && len - 4 >= pad(n) && max.map(|x| n <= x).unwrap_or(true);
                let c = || format!("n={} r={} max={:?}", n, len, max);
                let want = fits.then(|| (data[..n].to_vec(), 4 + pad(n)));
                m.check("read_variable_bytes", &c, &v, want, &|b| b.read_variable_bytes(max).map(|x| x.to_vec()));
                let want = fits.then(|| (text.clone(), 4 + pad(n)));
                m.check("read_string", &c, &t, want, &|b| b.read_string(max));
            }
        }
        // Not UTF-8, at every position.
        for at in 0..n {
            for bad in [0x80u8, 0xc0, 0xff, 0xed] {
                let mut t = vec![b'a'; n];
                t[at] = bad;
                t.resize(pad(n) + 8, 0);
                let v = view(&word(n as u32, &t), 4 + pad(n), 0);
                m.check("read_string", &|| format!("n={} byte {:#x} at {}", n, bad, at), &v, None, &|b| b.read_string(None));
            }
        }
    }
    let claims: Vec<u32> = (0..9)
        .flat_map(|k| [u32::MAX - k, (1 << 31) + k, (1u32 << 31) - 1 - k, (1 << 30) + k, (1u32 << 30) - 1 - k, (1 << 16) + k, (1 << 24) + k])
        .collect();
    for n in &claims {
        let raw = word(*n, &data);
        for len in (0..=24).chain([60, 64]) {
            let v = view(&raw, len, 1);
            for max in maxima(*n as usize, false) {
                let c = || format!("n={} r={} max={:?}", n, len, max);
                m.check("read_variable_bytes", &c, &v, None, &|b| b.read_variable_bytes(max).map(|x| x.to_vec()));
                m.check("read_string", &c, &v, None, &|b| b.read_string(max));
                m.check("read_variable_array<4>", &c, &v, None, &|b| b.read_variable_array::<xdr::e4>(max).map(|x| x.len()));
                m.check("read_variable_array<1>", &c, &v, None, &|b| b.read_variable_array::<U1>(max).map(|x| x.len()));
                m.check("read_variable_array<var>", &c, &v, None, &|b| b.read_variable_array::<xdr::ev<Bytes>>(max).map(|x| x.len()));
            }
        }
    }
    // Larger payloads: every residue and page-ish sizes.
    for n in [255usize, 256, 257, 4093, 4094, 4095, 4096, 65535, 65536, 65537, 1 << 20] {
        let big: Vec<u8> = (0..pad(n) + 16).map(|i| b' ' + (i % 90) as u8).collect();
        let raw = word(n as u32, &big);
        for len in [4 + n - 1, 4 + n, 4 + pad(n) - 1, 4 + pad(n), 4 + pad(n) + 5] {
            let v = view(&raw, len, 2);
            for max in maxima(n, false) {
                let fits = len - 4 >= pad(n) && max.map(|x| n <= x).unwrap_or(true);
                let c = || format!("n={} r={} max={:?}", n, len, max);
                m.check("read_variable_bytes", &c, &v, fits.then(|| (fnv(&[&big[..n]]), 4 + pad(n))), &|b| b.read_variable_bytes(max).map(|x| fnv(&[&x[..]])));
                m.check("read_string", &c, &v, fits.then(|| (fnv(&[&big[..n]]), 4 + pad(n))), &|b| b.read_string(max).map(|x| fnv(&[x.as_bytes()])));
            }
        }
    }

    // Counted arrays: elements of 1, 3, 4, 8 bytes and of variable size.
    let ntop = if thorough { 41 } else { 21 };
    for n in 0..=ntop {
        // (bytes, values) of each element type
        let mut var: Vec<u8> = vec![];
        let mut vars: Vec<Vec<u8>> = vec![];
        let mut str_: Vec<u8> = vec![];
        let mut strs: Vec<(String, u32)> = vec![];
        for i in 0..n {
            let l = (i * 7 + n) % 6;
            let p: Vec<u8> = (0..l).map(|k| (i * 16 + k) as u8).collect();
            var.extend(word(l as u32, &p));
            var.resize(pad(var.len()), 0);
            vars.push(p);
            let s = utf8(&mut r, l);
            str_.extend(word(l as u32, s.as_bytes()));
            str_.resize(pad(str_.len()), 0);
            str_.extend((i as u32).to_be_bytes());
            strs.push((s, i as u32));
        }
        let be32 = |k: usize| u32::from_be_bytes(data[4 * k..4 * k + 4].try_into().unwrap());
        let be64 = |k: usize| i64::from_be_bytes(data[8 * k..8 * k + 8].try_into().unwrap());
        let full = |sum: usize| word(n as u32, &data[..]);
        let mut maxes: Vec<Option<usize>> = vec![None, Some(u32::MAX as usize), Some(usize::MAX)];
        maxes.extend((0..=ntop + 1).map(Some));
        for max in maxes {
            let allowed = max.map(|x| n <= x).unwrap_or(true);
            let lens = |sum: usize| -> Vec<usize> { (0..=4 + sum + 8).collect() };
            let raw = full(0);
            for len in lens(n) {
                let c = || format!("n={} r={} max={:?}", n, len, max);
                let v = view(&raw, len, len % 4);
                let fits = allowed && len >= 4 + pad(n);
                m.check("read_variable_array<1>", &c, &v, fits.then(|| (data[..n].iter().map(|x| U1(*x)).collect::<Vec<_>>(), 4 + pad(n))), &|b| b.read_variable_array::<U1>(max));
            }
            for len in lens(3 * n) {
                let c = || format!("n={} r={} max={:?}", n, len, max);
                let v = view(&raw, len, len % 4);
                let fits = allowed && len >= 4 + pad(3 * n);
                m.check("read_variable_array<3>", &c, &v, fits.then(|| ((0..n).map(|k| U3(data[3 * k], data[3 * k + 1], data[3 * k + 2])).collect::<Vec<_>>(), 4 + pad(3 * n))), &|b| b.read_variable_array::<U3>(max));
            }
            for len in lens(4 * n) {
                let c = || format!("n={} r={} max={:?}", n, len, max);
                let v = view(&raw, len, len % 4);
                let fits = allowed && len >= 4 + 4 * n;
                m.check("read_variable_array<4>", &c, &v, fits.then(|| ((0..n).map(be32).collect::<Vec<_>>(), 4 + 4 * n)), &|b| b.read_variable_array::<xdr::e4>(max).map(|x| x.into_iter().map(|e| e.a).collect()));
            }
            if max.map(|x| x.saturating_add(2) >= n).unwrap_or(true) {
                for len in lens(8 * n) {
                    let c = || format!("n={} r={} max={:?}", n, len, max);
                    let v = view(&raw, len, len % 4);
                    let fits = allowed && len >= 4 + 8 * n;
                    m.check("read_variable_array<8>", &c, &v, fits.then(|| ((0..n).map(be64).collect::<Vec<_>>(), 4 + 8 * n)), &|b| b.read_variable_array::<xdr::e8>(max).map(|x| x.into_iter().map(|e| e.a).collect()));
                }
                let vr = word(n as u32, &[&var[..], &[9; 16]].concat());
                for len in lens(var.len()) {
                    let c = || format!("n={} r={} max={:?}", n, len, max);
                    let v = view(&vr, len, len % 4);
                    let fits = allowed && len >= 4 + var.len();
                    m.check("read_variable_array<var>", &c, &v, fits.then(|| (vars.clone(), 4 + var.len())), &|b| b.read_variable_array::<xdr::ev<Bytes>>(max).map(|x| x.into_iter().map(|e| e.v.to_vec()).collect()));
                }
                let sr = word(n as u32, &[&str_[..], &[9; 16]].concat());
                for len in lens(str_.len()) {
                    let c = || format!("n={} r={} max={:?}", n, len, max);
                    let v = view(&sr, len, len % 4);
                    let fits = allowed && len >= 4 + str_.len();
                    m.check("read_variable_array<str>", &c, &v, fits.then(|| (strs.clone(), 4 + str_.len())), &|b| b.read_variable_array::<xdr::es>(max).map(|x| x.into_iter().map(|e| (e.v, e.k)).collect()));
                }
            }
        }
    }

    // Long arrays: counts around powers of two, complete and one byte or element short.
    for n in [255usize, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 70001] {
        let big: Vec<u8> = (0..16 * n + 16).map(|i| (i * 31 + i / 251) as u8).collect();
        let raw = word(n as u32, &big);
        let mut var: Vec<u8> = word(n as u32, &[]);
        let mut lens = vec![];
        for i in 0..n {
            let l = (i * 5 + i / 7) % 9;
            var.extend(word(l as u32, &big[i..i + l]));
            var.resize(pad(var.len()), 0);
            lens.push(l);
        }
        let be32 = |k: usize| u32::from_be_bytes(big[4 * k..4 * k + 4].try_into().unwrap());
        let be64 = |k: usize| i64::from_be_bytes(big[8 * k..8 * k + 8].try_into().unwrap());
        for max in maxima(n, false) {
            let allowed = max.map(|x| n <= x).unwrap_or(true);
            for cut in [0i64, -1, -4, -8, 1, 8] {
                let at = |size: usize| (4 + size as i64 + cut) as usize;
                let c = || format!("n={} r=whole{:+} max={:?}", n, cut, max);
                let fits = allowed && cut >= 0;
                let v = view(&raw, at(pad(n)), 3);
                m.check("read_variable_array<1>", &c, &v, fits.then(|| (fnv(&[&big[..n]]), 4 + pad(n))), &|b| b.read_variable_array::<U1>(max).map(|x| fnv(&[&x.iter().map(|u| u.0).collect::<Vec<_>>()[..]])));
                let v = view(&raw, at(pad(3 * n)), 1);
                m.check("read_variable_array<3>", &c, &v, fits.then(|| (fnv(&[&big[..3 * n]]), 4 + pad(3 * n))), &|b| b.read_variable_array::<U3>(max).map(|x| fnv(&[&x.iter().flat_map(|u| [u.0, u.1, u.2]).collect::<Vec<_>>()[..]])));
                let v = view(&raw, at(4 * n), 0);
                m.check("read_variable_array<4>", &c, &v, fits.then(|| ((n, true), 4 + 4 * n)), &|b| b.read_variable_array::<xdr::e4>(max).map(|x| (x.len(), x.iter().enumerate().all(|(k, e)| e.a == be32(k)))));
                let v = view(&raw, at(8 * n), 0);
                m.check("read_variable_array<8>", &c, &v, fits.then(|| ((n, true), 4 + 8 * n)), &|b| b.read_variable_array::<xdr::e8>(max).map(|x| (x.len(), x.iter().enumerate().all(|(k, e)| e.a == be64(k)))));
                // What follows must not complete the last element: it is cut off by the view.
                let mut whole = var.clone();
                whole.extend([7; 16]);
                let v = view(&whole, (var.len() as i64 + cut) as usize, 2);
                m.check("read_variable_array<var>", &c, &v, fits.then(|| ((n, true), var.len())), &|b| b.read_variable_array::<xdr::ev<Bytes>>(max).map(|x| (x.len(), x.iter().enumerate().all(|(k, e)| e.v[..] == big[k..k + lens[k]]))));
            }
        }
    }

    // Payloads beyond 2^24, and beyond 32 bits: untouched zero pages, so nothing is copied.
    {
        let mut zero = vec![0u8; (1usize << 32) + 64];
        zero[0..4].copy_from_slice(&u32::MAX.to_be_bytes());
        let all = Bytes::from(zero);
        let base = all.as_ptr() as usize;
        for n in [(1usize << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 5, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 6] {
            for r in [n - 1, n, pad(n) - (n % 4 != 0) as usize, pad(n), pad(n) + 1, pad(n) + 9, 5] {
                let v = all.slice(7..7 + r);
                let mut b = v.clone();
                m.evals += 1;
                *m.counts.entry("read_bytes").or_insert(0) += 1;
                m.distinct.insert(fnv(&[b"huge", &n.to_le_bytes(), &r.to_le_bytes()]));
                let got = catch_unwind(AssertUnwindSafe(|| b.read_bytes(n)));
                let good = match &got {
                    Ok(Ok(x)) => {
                        m.oks += 1;
                        r >= pad(n) && x.len() == n && x.as_ptr() as usize == base + 7 && r - b.len() == pad(n)
                    }
                    Ok(Err(_)) => {
                        m.errs += 1;
                        r < pad(n)
                    }
                    Err(_) => false,
                };
                if !good {
                    let d = match got {
                        Ok(Ok(x)) => format!("Ok with {} bytes, advanced by {}", x.len(), r - b.len()),
                        Ok(Err(e)) => format!("Err({:?})", e),
                        Err(p) => format!("panic: {}", xv::ops::message(p)),
                    };
                    m.bad("read_bytes", format!("n={} r={}", n, r), d, &[]);
                }
            }
        }
        let n = u32::MAX as usize;
        for (r, max) in [(4 + pad(n), None), (4 + pad(n), Some(n)), (4 + pad(n), Some(n - 1)), (4 + pad(n) - 1, None), (4 + n - 1, None), (4 + pad(n) + 3, None)] {
            let mut b = all.slice(..r);
            m.evals += 1;
            *m.counts.entry("read_variable_bytes").or_insert(0) += 1;
            let want = r >= 4 + pad(n) && max.map(|x| n <= x).unwrap_or(true);
            let got = catch_unwind(AssertUnwindSafe(|| b.read_variable_bytes(max).map(|x| x.len()).map_err(|_| ()))).map_err(xv::ops::message);
            let good = match got {
                Ok(Ok(l)) => want && l == n && r - b.len() == 4 + pad(n),
                Ok(Err(())) => !want,
                Err(_) => false,
            };
            if !good {
                m.bad("read_variable_bytes", format!("n={} r={} max={:?}", n, r, max), format!("{:?}", got), &[]);
            }
        }
    }

    // Sequences of readers on one buffer.
    for _ in 0..if thorough { 200_000 } else { 20_000 } {
        let mut data = vec![];
        let mut script = vec![];
        for _ in 0..r.range(2, 7) {
            let k = r.below(6);
            let n = r.below(11);
            match k {
                0 => data.extend((n as u32).to_be_bytes()),
                1 => data.extend((n as u64).to_be_bytes()),
                2 => data.extend(((n % 2) as u32).to_be_bytes()),
                3 => {
                    data.extend((0..n).map(|x| x as u8 ^ 0x30));
                    data.resize(pad(data.len()), 0);
                }
                _ => {
                    data.extend(word(n as u32, &(0..n).map(|x| x as u8 ^ 0x30).collect::<Vec<_>>()));
                    data.resize(pad(data.len()), 0);
                }
            }
            script.push((k, n));
        }
        let total = data.len();
        let cut = if r.pct(50) { total } else { r.below(total + 1) };
        let v = view(&data, cut, r.below(5));
        // Replays the script on the model of the position.
        let run = |b: &mut Bytes| -> Result<(), Error> {
            for (k, n) in &script {
                let want: Vec<u8> = (0..*n).map(|x| x as u8 ^ 0x30).collect();
                let good = match k {
                    0 => b.read_u32()? == *n as u32,
                    1 => b.read_u64()? == *n as u64,
                    2 => b.read_bool()? == (n % 2 == 1),
                    3 => b.read_bytes(*n)?[..] == want[..],
                    4 => b.read_variable_bytes(Some(*n))?[..] == want[..],
                    _ => b.read_string(None)?.as_bytes() == &want[..],
                };
                if !good {
                    return Err(Error::Unknown(format!("wrong value from step {:?}", (k, n))));
                }
            }
            Ok(())
        };
        let e = m.check("sequence", &|| format!("{:?} r={}/{}", script, cut, total), &v, (cut == total).then_some(((), total)), &run);
        if let Some(Error::Unknown(e)) = e {
            m.bad("sequence", format!("{:?} r={}/{}", script, cut, total), e, &v);
        }
    }

    // WireSize of what the standard containers hold.
    let mut sizes = 0u64;
    let mut size = |m: &mut Mon, what: &str, got: Result<usize, Box<dyn std::any::Any + Send>>, want: usize| {
        m.evals += 1;
        sizes += 1;
        m.distinct.insert(fnv(&[what.as_bytes(), &want.to_le_bytes()]));
        match got {
            Ok(n) if n == want => {}
            Ok(n) => m.bad("wire_size", what.to_string(), format!("{}, expected {}", n, want), &[]),
            Err(p) => m.bad("wire_size", what.to_string(), format!("panic: {}", xv::ops::message(p)), &[]),
        }
    };
    macro_rules! ws {
        ($what:expr, $e:expr, $want:expr) => {
            size(&mut m, &$what, catch_unwind(AssertUnwindSafe(|| WireSize::wire_size($e))), $want)
        };
    }
    for k in [0u32, 1, 7, u32::MAX] {
        ws!(format!("u32 {}", k), &k, 4);
        ws!(format!("i32 {}", k), &(k as i32), 4);
        ws!(format!("f32 {}", k), &f32::from_bits(k), 4);
        ws!(format!("bool {}", k), &(k == 1), 4);
        ws!(format!("u64 {}", k), &(k as u64 * 3), 8);
        ws!(format!("i64 {}", k), &(k as i64), 8);
        ws!(format!("f64 {}", k), &(k as f64), 8);
        ws!(format!("Box<u32> {}", k), &Box::new(k), 4);
        ws!(format!("Box<u64> {}", k), &Box::new(k as u64), 8);
        ws!(format!("Some(u32) {}", k), &Some(k), 8);
        ws!(format!("Some(u64) {}", k), &Some(k as u64), 12);
        ws!(format!("Some(Box<bool>) {}", k), &Some(Box::new(k == 0)), 8);
    }
    ws!("None::<u32>".to_string(), &None::<u32>, 4);
    ws!("None::<u64>".to_string(), &None::<u64>, 4);
    ws!("None::<Box<String>>".to_string(), &None::<Box<String>>, 4);
    for n in 0..=if thorough { 300 } else { 70 } {
        let s: String = utf8(&mut r, n);
        let p = pad(n);
        ws!(format!("String of {} bytes", n), &s, 4 + p);
        ws!(format!("Box<String> of {}", n), &Box::new(s.clone()), 4 + p);
        ws!(format!("Some(Box<String>) of {}", n), &Some(Box::new(s.clone())), 8 + p);
        ws!(format!("[u8] of {}", n), &data[..n], p);
        ws!(format!("Vec<u8> of {}", n), &data[..n].to_vec(), 4 + p);
        ws!(format!("Some(Vec<u8>) of {}", n), &Some(data[..n].to_vec()), 8 + p);
        ws!(format!("Vec<u32> of {}", n), &vec![n as u32; n], 4 + 4 * n);
        ws!(format!("[u32] of {}", n), &vec![n as u32; n][..], 4 * n);
        ws!(format!("Vec<i64> of {}", n), &vec![n as i64; n], 4 + 8 * n);
        ws!(format!("[f64] of {}", n), &vec![0f64; n][..], 8 * n);
        ws!(format!("Vec<bool> of {}", n), &vec![true; n], 4 + 4 * n);
        ws!(format!("Vec<Option<u64>> of {}", n), &(0..n).map(|k| (k % 3 == 0).then_some(k as u64)).collect::<Vec<_>>(), 4 + (0..n).map(|k| if k % 3 == 0 { 12 } else { 4 }).sum::<usize>());
        ws!(format!("Vec<String> of {}", n), &(0..n).map(|k| s[..0].to_string() + &"x".repeat(k)).collect::<Vec<_>>(), 4 + (0..n).map(|k| 4 + pad(k)).sum::<usize>());
        ws!(format!("[String] of {}", n), &(0..n).map(|k| "x".repeat(k)).collect::<Vec<_>>()[..], (0..n).map(|k| 4 + pad(k)).sum::<usize>());
        ws!(format!("Vec<Vec<u8>> of {}", n), &(0..n).map(|k| vec![0u8; k]).collect::<Vec<_>>(), 4 + (0..n).map(|k| 4 + pad(k)).sum::<usize>());
        ws!(format!("Vec<Vec<u32>> of {}", n), &(0..n).map(|k| vec![0u32; k]).collect::<Vec<_>>(), 4 + (0..n).map(|k| 4 + 4 * k).sum::<usize>());
        ws!(format!("Box<Vec<Box<u32>>> of {}", n), &Box::new((0..n).map(|k| Box::new(k as u32)).collect::<Vec<_>>()), 4 + 4 * n);
        ws!(format!("[generated] of {}", n), &(0..n).map(|k| xdr::es { v: "y".repeat(k), k: 0 }).collect::<Vec<_>>()[..], (0..n).map(|k| 8 + pad(k)).sum::<usize>());
        ws!(format!("Option<Box<generated>> of {}", n), &Some(Box::new(xdr::es { v: s.clone(), k: 0 })), 12 + p);
        ws!(format!("generated opaque of {}", n), &xdr::ev { v: Bytes::from(data[..n].to_vec()) }, 4 + p);
    }

    for k in [(1usize << 31) - 4, 1 << 31, (1 << 32) - 4, 1 << 32, (1 << 32) + 1, (1 << 33) + 2, (1 << 40) + 3] {
        for n in 0..4usize {
            let x: Vec<Wide> = (0..n).map(|_| Wide(k)).collect();
            ws!(format!("[{} bytes; {}]", k, n), &x[..], pad(k * n));
            ws!(format!("Vec of {} times {} bytes", n, k), &x, 4 + pad(k * n));
            ws!(format!("Some(Vec) of {} times {} bytes", n, k), &Some(x), 8 + pad(k * n));
        }
        ws!(format!("Box of {} bytes", k), &Box::new(Wide(k)), k);
        ws!(format!("Some of {} bytes", k), &Some(Wide(k)), 4 + k);
    }
    for n in [254usize, 255, 256, 257, 1021, 1022, 1023, 1024, 65533, 65534, 65535, 65536, 65537, (1 << 20) + 1] {
        ws!(format!("String of {} bytes", n), &"q".repeat(n), 4 + pad(n));
        ws!(format!("Vec<u8> of {}", n), &vec![0u8; n], 4 + pad(n));
        ws!(format!("[u8] of {}", n), &vec![0u8; n][..], pad(n));
        ws!(format!("Vec<f32> of {}", n), &vec![0f32; n], 4 + 4 * n);
        ws!(format!("[u64] of {}", n), &vec![0u64; n][..], 8 * n);
        ws!(format!("Vec<String> of {}", n), &vec!["abcde".to_string(); n], 4 + 12 * n);
        ws!(format!("Vec<None> of {}", n), &vec![None::<u64>; n], 4 + 4 * n);
        ws!(format!("Vec<Some> of {}", n), &vec![Some(1u64); n], 4 + 12 * n);
    }
    ws!("Some(None)".to_string(), &Some(None::<u64>), 8);
    ws!("Some(Some(u32))".to_string(), &Some(Some(1u32)), 12);
    ws!("None::<Option<u64>>".to_string(), &None::<Option<u64>>, 4);
    ws!("Box<Option<Box<f64>>>".to_string(), &Box::new(Some(Box::new(f64::NAN))), 12);

    // Every word, for the boolean reader.
    let threads = 8u64;
    let total = 1u64 << 32;
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            std::thread::spawn(move || {
                let (lo, hi) = (total / threads * t, total / threads * (t + 1));
                const CHUNK: u64 = 1 << 16;
                let mut bad: Vec<(u32, String)> = vec![];
                let (mut ok, mut seen) = (0u64, 0u64);
                let mut at = lo;
                while at < hi {
                    let mut v = Vec::with_capacity(4 * CHUNK as usize);
                    for w in at..at + CHUNK {
                        v.extend_from_slice(&(w as u32).to_be_bytes());
                    }
                    let chunk = Bytes::from(v);
                    let start = chunk.as_ptr() as usize;
                    let mut cur = chunk.clone();
                    for k in 0..CHUNK {
                        let w = (at + k) as u32;
                        seen += 1;
                        let before = cur.len();
                        let r = catch_unwind(AssertUnwindSafe(|| cur.read_bool()));
                        let good = match (&r, w) {
                            (Ok(Ok(false)), 0) | (Ok(Ok(true)), 1) => {
                                ok += 1;
                                before - cur.len() == 4
                            }
                            (Ok(Err(_)), w) => w > 1,
                            _ => false,
                        };
                        if !good && bad.len() < 3 {
                            bad.push((w, format!("{:?}", r.map_err(xv::ops::message))));
                        }
                        if before - cur.len() != 4 {
                            // An error may leave the buffer anywhere: start again at the next word.
                            cur = chunk.slice(4 * (k as usize + 1)..);
                        }
                    }
                    at += CHUNK;
                }
                (ok, seen, bad)
            })
        })
        .collect();
    let mut boolean = 0;
    for h in hs {
        let (ok, seen, bad) = h.join().unwrap();
        boolean += seen;
        m.oks += ok;
        m.errs += seen - ok;
        for (w, d) in bad {
            m.bad("read_bool", format!("word {:#x}", w), d, &w.to_be_bytes());
        }
    }
    let mut counts: Vec<String> = m.counts.iter().map(|(k, v)| format!("{}: {}", json::s(k), v)).collect();
    counts.push(format!("\"boolean_words\": {}", boolean));
    counts.push(format!("\"wire_size\": {}", sizes));
    counts.push(format!("\"ok\": {}", m.oks));
    counts.push(format!("\"err\": {}", m.errs));
    let o = json::obj(&[
        ("kind", json::s("stats")),
        ("evals", (m.evals + boolean).to_string()),
        ("distinct", m.distinct.len().to_string()),
        ("violations", m.violations.to_string()),
        ("counts", format!("{{{}}}", counts.join(", "))),
        ("known", "{}".into()),
        ("samples", json::arr(&m.samples.iter().map(|s| json::s(s)).collect::<Vec<_>>())),
    ]);
    writeln!(m.out, "{}", o).unwrap();
}
