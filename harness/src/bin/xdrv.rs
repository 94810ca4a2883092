//! Drives fastxdr::Generator: emission for the shards, C11, C14, and the library side of C15.
use fastxdr::Generator;
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use xv::gen::{giant, random_spec, Prof};
use xv::json;
use xv::nonsense;
use xv::ops::message;
use xv::print;
use xv::rng::{fnv, Rng};
use xv::rtok::rust_tokens;
use xv::spec::*;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if std::env::var("XV_TRACE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    match args[0].as_str() {
        "emit" => emit(&args[1], args[2].parse().unwrap(), &args[3], &args[4..]),
        "text" => print!("{}", xv::corpus::text(&args[1])),
        "features" => {
            for o in &args[1..] {
                for f in xv::features::of(&xv::corpus::origin(o)) {
                    println!("{}", f);
                }
            }
        }
        "cover" => {
            let n = |k: usize| args[k].parse::<usize>().unwrap();
            let held: Vec<&str> = args[6..].iter().map(|a| a.as_str()).collect();
            for o in xv::features::cover(&args[1], n(2) as u64, n(3), n(4), n(5), &held) {
                println!("{}", o);
            }
        }
        "spec" => println!("{:#?}", xv::corpus::origin(&args[1])),
        "gen" => {
            for f in &args[1..] {
                let t = std::fs::read_to_string(f).unwrap();
                match Generator::default().generate(&t) {
                    Ok(o) => print!("{}", o),
                    Err(e) => {
                        eprintln!("{}", e);
                        std::process::exit(1)
                    }
                }
            }
        }
        "c11" => c11(args[1].parse().unwrap(), args[2].parse().unwrap(), args[3].parse().unwrap(), &args[4], &args[5]),
        "c11text" => print!("{}", print::plain(&spec_of(args[1].parse().unwrap(), args[2].parse().unwrap()))),
        "c14" => c14(args[1].parse().unwrap(), args[2].parse().unwrap(), args[3].parse().unwrap(), &args[4], &args[5]),
        "c14text" => print!("{}", nonsense::case(args[1].parse().unwrap(), args[2].parse().unwrap()).text),
        a => panic!("{}", a),
    }
}

fn run(g: &Generator, t: &str) -> Result<Result<String, String>, String> {
    catch_unwind(AssertUnwindSafe(|| g.generate(t).map_err(|e| e.to_string()))).map_err(message)
}

/// Writes s<N>_gen.rs (exactly what the generator returns) and s<N>_glue.rs.
fn emit(dir: &str, first: usize, derive: &str, origins: &[String]) {
    for (i, o) in origins.iter().enumerate() {
        let id = first + i;
        let text = xv::corpus::text(o);
        let g = if derive.is_empty() { Generator::default() } else { Generator::default().with_derive(derive) };
        let (ok, err) = match run(&g, &text) {
            Ok(Ok(s)) => {
                let env = Env::new(xv::corpus::origin(o));
                std::fs::write(format!("{}/s{}_gen.rs", dir, id), &s).unwrap();
                let glue = xv::glue::emit(&env, &format!("crate::s{}_gen", id), derive);
                std::fs::write(format!("{}/s{}_glue.rs", dir, id), glue).unwrap();
                let text = xv::glue::emit_text(&env, &format!("crate::s{}_gen", id));
                std::fs::write(format!("{}/s{}_text.rs", dir, id), text).unwrap();
                (true, String::new())
            }
            Ok(Err(e)) => (false, format!("Err: {}", e)),
            Err(p) => (false, format!("panic: {}", p)),
        };
        println!(
            "{}",
            json::obj(&[
                ("id", id.to_string()),
                ("origin", json::s(o)),
                ("ok", ok.to_string()),
                ("err", json::s(&err)),
                ("text", json::s(&text)),
            ])
        );
    }
}

// ------------------------------------------------------------------------- C11

/// The items inside the module, as sorted token strings.
fn items(s: &str) -> Vec<String> {
    let t = rust_tokens(s);
    let mut out = Vec::new();
    let mut cur: Vec<String> = Vec::new();
    let mut depth = 0i32;
    let start = t.iter().position(|x| x == "{").map(|p| p + 1).unwrap_or(0);
    for x in &t[start..] {
        match x.as_str() {
            "{" | "(" | "[" => depth += 1,
            "}" | ")" | "]" => depth -= 1,
            _ => {}
        }
        if depth < 0 {
            break;
        }
        cur.push(x.clone());
        if depth == 0 && (x == ";" || x == "}") {
            out.push(cur.join(" "));
            cur.clear();
        }
    }
    if !cur.is_empty() {
        out.push(cur.join(" "));
    }
    out.sort();
    out
}

fn prof(i: u64) -> Prof {
    let p = Prof::named(["C01", "C06", "C08", "C09"][(i % 4) as usize]);
    if i % 29 == 5 {
        Prof { types: (60, 140), ..p }
    } else if i % 7 == 3 {
        Prof { types: (12, 26), ..p }
    } else {
        p
    }
}

fn spec_of(seed: u64, i: u64) -> Spec {
    let k = xv::corpus::CORPUS.len() as u64;
    if i < k {
        xv::corpus::origin(&format!("c:{}", xv::corpus::CORPUS[i as usize].0))
    } else if i % 41 == 9 {
        giant(seed, i / 41, [129, 257, 300, 513, 1025][(i % 5) as usize])
    } else {
        random_spec(seed, i, &prof(i))
    }
}

/// `mode`: "full" for all the monitors, "hash" only prints the hash of every output,
/// "rev" the same in the reverse order.
fn c11(seed: u64, first: u64, n: u64, mode: &str, out: &str) {
    let mut f = std::fs::File::create(out).unwrap();
    let mut idx: Vec<u64> = (first..first + n).collect();
    if mode == "rev" {
        idx.reverse();
    }
    let texts: BTreeMap<u64, String> = idx.iter().map(|i| (*i, print::plain(&spec_of(seed, *i)))).collect();
    let mut outs: BTreeMap<u64, String> = BTreeMap::new();
    let g = Generator::default();
    let (mut evals, mut relaid, mut permuted, mut violations, mut nitems, mut twins) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut distinct = std::collections::HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    for i in &idx {
        evals += 1;
        let o = match run(&g, &texts[i]) {
            Ok(Ok(o)) => o,
            Ok(Err(e)) => format!("Err {}", e),
            Err(e) => format!("panic {}", e),
        };
        writeln!(f, "{}", json::obj(&[
            ("kind", json::s("hash")), ("i", i.to_string()), ("h", json::s(&format!("{:016x}", fnv(&[o.as_bytes()])))), ("len", o.len().to_string()),
        ])).unwrap();
        outs.insert(*i, o);
    }
    let mut report = |f: &mut std::fs::File, i: u64, what: &str, a: &str, b: &str, detail: String| {
        violations += 1;
        if violations <= 6 {
            writeln!(f, "{}", json::obj(&[
                ("kind", json::s("violation")), ("i", i.to_string()), ("what", json::s(what)), ("text", json::s(a)), ("other", json::s(b)),
                ("detail", json::s(&detail)),
            ])).unwrap();
        }
    };
    if mode == "full" {
        // Again, in another order, with other generators in between and from threads.
        let threads: Vec<_> = (0..4u64)
            .map(|k| {
                let mut order: Vec<u64> = idx.clone();
                let texts = texts.clone();
                std::thread::spawn(move || {
                    Rng::new(&[seed, k, 0xc11]).shuffle(&mut order);
                    let g = Generator::default();
                    let c = Generator::default().with_derive("#[derive(Debug, PartialEq, Clone)]");
                    let mut o = Vec::new();
                    for i in order {
                        if k == 1 {
                            let _ = run(&c, &texts[&i]);
                            let _ = run(&g, "struct s { broken");
                        }
                        o.push((i, run(&g, &texts[&i])));
                    }
                    o
                })
            })
            .collect();
        for t in threads {
            for (i, o) in t.join().unwrap() {
                evals += 1;
                let o = match o {
                    Ok(Ok(o)) => o,
                    Ok(Err(e)) => format!("Err {}", e),
                    Err(e) => format!("panic {}", e),
                };
                if o != outs[&i] {
                    report(&mut f, i, "output differs between two calls in one process", &texts[&i], &texts[&i], diff(&o, &outs[&i]));
                }
            }
        }
        for i in &idx {
            let spec = spec_of(seed, *i);
            let want = items(&outs[i]);
            nitems += want.len() as u64;
            let mut r = Rng::new(&[seed, *i, 0x11]);
            for k in 0..8 {
                let mut s = spec.clone();
                let text = if k < 4 {
                    relaid += 1;
                    print::layout(&s, &mut r, false, [5, 25, 60, 100][k])
                } else {
                    permuted += 1;
                    match k {
                        4 => s.items.reverse(),
                        5 => s.items.sort_by_key(|x| x.name().to_string()),
                        _ => r.shuffle(&mut s.items),
                    }
                    if k == 7 {
                        print::layout(&s, &mut r, false, 30)
                    } else {
                        print::plain(&s)
                    }
                };
                evals += 1;
                distinct.insert(fnv(&[text.as_bytes()]));
                let what = if k < 4 { "layout changes the generated items" } else { "declaration order changes the generated items" };
                match run(&g, &text) {
                    Ok(Ok(o)) => {
                        let got = items(&o);
                        if got != want {
                            let d = item_diff(&want, &got);
                            report(&mut f, *i, what, &texts[i], &text, d);
                        } else if samples.len() < 3 && k == 2 {
                            samples.push(format!("{} items equal under layout {:?}", got.len(), &text[..text.char_indices().nth(160).map(|x| x.0).unwrap_or(text.len())]));
                        }
                    }
                    Ok(Err(e)) if !outs[i].starts_with("Err ") => report(&mut f, *i, what, &texts[i], &text, format!("Err {}", e)),
                    Err(e) if !outs[i].starts_with("panic ") => report(&mut f, *i, what, &texts[i], &text, format!("panic {}", e)),
                    _ => {}
                }
            }
            // Twins: texts alike in length and in all but one letter, one after the other on
            // one generator. Each output is its own text's.
            for k in 0..3 {
                let with = |c: char| match k {
                    0 => format!("{}\nconst ZZTWIN{} = 7;\n", texts[i], c),
                    1 => format!("struct ZZTWINS {{ int zztwin{}; }};\n{}", c, texts[i]),
                    _ => format!("{}\nunion ZZTWINU switch (int k) {{ case 1: hyper x; case 2: string ZZ; }};\nenum ZZTWIN{} {{ ZZM{} = 1 }};", texts[i], c, c),
                };
                let o: Vec<_> = ['A', 'B', 'A'].iter().map(|c| run(&g, &with(*c))).collect();
                evals += 3;
                twins += 1;
                if let [Ok(Ok(a)), Ok(Ok(b)), Ok(Ok(again))] = &o[..] {
                    let (from, to): (&[&str], &[&str]) = (&["ZZTWINA", "zztwinA", "ZZMA"], &["ZZTWINB", "zztwinB", "ZZMB"]);
                    let mut renamed = a.clone();
                    for (x, y) in from.iter().zip(to) {
                        renamed = renamed.replace(x, y);
                    }
                    if a != again {
                        report(&mut f, *i, "output differs between two calls in one process", &with('A'), &with('B'), diff(again, a));
                    } else if items(&renamed) != items(b) {
                        let d = item_diff(&items(&renamed), &items(b));
                        report(&mut f, *i, "the output is not what the text declares, after a text much like it", &with('B'), &with('A'), d);
                    }
                }
            }
        }
    }
    writeln!(f, "{}", json::obj(&[
        ("kind", json::s("stats")), ("evals", evals.to_string()), ("relaid", relaid.to_string()), ("permuted", permuted.to_string()), ("twins", twins.to_string()),
        ("items", nitems.to_string()), ("distinct", distinct.len().to_string()), ("violations", violations.to_string()),
        ("samples", json::arr(&samples.iter().map(|s| json::s(s)).collect::<Vec<_>>())),
    ])).unwrap();
}

fn diff(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("first difference: {:?} / {:?}", x, y);
        }
    }
    "lengths differ".into()
}

fn item_diff(want: &[String], got: &[String]) -> String {
    let a: Vec<&String> = want.iter().filter(|x| !got.contains(x)).take(2).collect();
    let b: Vec<&String> = got.iter().filter(|x| !want.contains(x)).take(2).collect();
    let mut s = format!("{} items / {} items; only in the first: {:?}; only in the second: {:?}", want.len(), got.len(), a, b);
    if s.len() > 3000 {
        let mut n = 3000;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
    }
    s
}

// ------------------------------------------------------------------------- C14

fn c14(seed: u64, first: u64, n: u64, progress: &str, out: &str) {
    use std::os::unix::fs::FileExt;
    let mut f = std::fs::File::create(out).unwrap();
    let p = std::fs::File::create(progress).unwrap();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct = std::collections::HashSet::new();
    let mut violations = 0;
    let mut samples: Vec<String> = Vec::new();
    // Watchdog: one case that uses 40 s of CPU time does not terminate.
    static CASE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    std::thread::spawn(|| {
        let mut last = (0, xv::mon::cpu());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let i = CASE.load(std::sync::atomic::Ordering::Relaxed);
            if i != last.0 {
                last = (i, xv::mon::cpu());
            } else if xv::mon::cpu() - last.1 > 40.0 {
                eprintln!("HANG: one case used more than 40 s of CPU time");
                std::process::exit(78);
            }
        }
    });
    // A modest stack: generators run on ordinary threads.
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        for i in first..first + n {
            // A panic out here is not the generator's.
            let c = match catch_unwind(|| nonsense::case(seed, i)) {
                Ok(c) => c,
                Err(e) => {
                    eprintln!("case {}: {}", i, message(e));
                    std::process::exit(79)
                }
            };
            CASE.store(i + 1, std::sync::atomic::Ordering::Relaxed);
            p.write_all_at(format!("{:020}", i).as_bytes(), 0).unwrap();
            let r = catch_unwind(AssertUnwindSafe(|| fastxdr::ast::Ast::new(&c.text).map(|_| ()).map_err(|e| e.to_string())))
                .map_err(message);
            let g = run(&Generator::default(), &c.text);
            let bad = match (&r, &g) {
                (Err(m), _) => Some(format!("Ast::new panics: {}", m)),
                (_, Err(m)) => Some(format!("generate panics: {}", m)),
                (Ok(Ok(())), Ok(_)) if c.reject => Some("Ast::new accepts a text the grammar rejects".into()),
                (_, Ok(Ok(_))) if c.reject => Some("generate accepts a text the grammar rejects".into()),
                _ => None,
            };
            let k = match &g {
                Ok(Ok(_)) => "Ok",
                Ok(Err(_)) => "Err",
                Err(_) => "panic",
            };
            *counts.entry(format!("{}: {}", c.family, k)).or_insert(0) += 1;
            distinct.insert(fnv(&[c.text.as_bytes()]));
            if samples.len() < 3 && i % 97 == 13 {
                samples.push(format!("{} -> {}: {:?}", c.family, k, c.text.chars().take(200).collect::<String>()));
            }
            if let Some(m) = bad {
                violations += 1;
                if violations <= 5 {
                    writeln!(f, "{}", json::obj(&[
                        ("kind", json::s("violation")), ("i", i.to_string()), ("what", json::s(&m)), ("family", json::s(c.family)),
                        ("text", json::s(&c.text.chars().take(20000).collect::<String>())),
                    ])).unwrap();
                }
            }
        }
        let cs: Vec<String> = counts.iter().map(|(k, v)| format!("{}: {}", json::s(k), v)).collect();
        writeln!(f, "{}", json::obj(&[
            ("kind", json::s("stats")), ("evals", n.to_string()), ("distinct", distinct.len().to_string()),
            ("violations", violations.to_string()), ("counts", format!("{{{}}}", cs.join(", "))),
            ("samples", json::arr(&samples.iter().map(|s| json::s(s)).collect::<Vec<_>>())),
        ])).unwrap();
    }).unwrap();
    t.join().unwrap();
}
