//! Hand-written specifications and the origin of every specification.
use crate::gen::{random_spec, Prof};
use crate::parse::parse;
use crate::spec::Spec;

macro_rules! corpus {
    ($($n:literal),* $(,)?) => {
        pub static CORPUS: &[(&str, &str)] = &[$(($n, include_str!(concat!("../corpus/", $n, ".x")))),*];
    };
}
include!("../corpus/list.rs");

/// "c:<name>" is a corpus file, "r:<profile>:<seed>:<index>" a random specification,
/// "g:<seed>:<index>:<n>" one with `n` of something, "m:<seed>:<index>" all small shapes.
pub fn origin(o: &str) -> Spec {
    let p: Vec<&str> = o.split(':').collect();
    match p[0] {
        "c" => parse(corpus_text(p[1])),
        "r" => random_spec(p[2].parse().unwrap(), p[3].parse().unwrap(), &Prof::named(p[1])),
        "g" => crate::gen::giant(p[1].parse().unwrap(), p[2].parse().unwrap(), p[3].parse().unwrap()),
        "m" => crate::gen::matrix(p[1].parse().unwrap(), p[2].parse().unwrap()),
        _ => panic!("origin {}", o),
    }
}

pub fn corpus_text(n: &str) -> &'static str {
    CORPUS.iter().find(|c| c.0 == n).unwrap_or_else(|| panic!("corpus {}", n)).1
}

/// The text given to the generator.
pub fn text(o: &str) -> String {
    match o.strip_prefix("c:") {
        Some(n) => corpus_text(n).to_string(),
        None => crate::print::plain(&origin(o)),
    }
}
