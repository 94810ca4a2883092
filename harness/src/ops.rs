//! Operations on one generated type, as seen by the monitors.
use crate::meter;
use crate::value::{Er, V};
use bytes::Bytes;
use std::convert::TryFrom;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct TypeOps {
    pub name: &'static str,
    pub val: fn(Bytes) -> Out,
    pub byref: fn(&mut Bytes) -> Out,
    /// Builds the Rust value of a model value: read back, and its wire_size().
    pub build: fn(&V) -> (V, usize),
    pub debug: fn(&V) -> String,
    pub size_of: usize,
}

#[derive(Debug)]
pub enum Res {
    /// Decoded value (unless conversion is switched off) and its wire_size().
    Ok(V, usize),
    Err(Er),
    Panic(String),
}

#[derive(Debug)]
pub struct Out {
    pub res: Res,
    /// Bytes requested from the allocator during the decode call.
    pub requested: usize,
    pub allocs: usize,
}

pub fn fixed<T, const N: usize>(v: Vec<T>) -> [T; N] {
    v.try_into().ok().expect("array length")
}

thread_local! {
    /// When set, decoded values are dropped without being converted.
    pub static RAW: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    /// When set, decoded values are leaked (dropping deep chains recurses).
    pub static LEAK: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn message(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

fn finish<T, E>(
    r: std::thread::Result<Result<T, E>>,
    m: (usize, usize),
    conv: fn(&T) -> V,
    size: fn(&T) -> usize,
    er: fn(&E) -> Er,
) -> Out {
    let res = match r {
        Err(p) => Res::Panic(message(p)),
        Ok(Err(e)) => Res::Err(er(&e)),
        Ok(Ok(t)) => {
            if RAW.with(|r| r.get()) {
                if LEAK.with(|r| r.get()) {
                    std::mem::forget(t);
                }
                Res::Ok(V::Bool(true), 0)
            } else {
                match catch_unwind(AssertUnwindSafe(|| size(&t))) {
                    Ok(n) => Res::Ok(conv(&t), n),
                    Err(p) => Res::Panic(format!("wire_size(): {}", message(p))),
                }
            }
        }
    };
    Out { res, requested: m.0, allocs: m.1 }
}

pub fn run_val<T, E>(b: Bytes, conv: fn(&T) -> V, size: fn(&T) -> usize, er: fn(&E) -> Er) -> Out
where
    T: TryFrom<Bytes, Error = E>,
{
    meter::start();
    let r = catch_unwind(AssertUnwindSafe(|| T::try_from(b)));
    let m = meter::stop();
    finish(r, m, conv, size, er)
}

pub fn run_ref<T, E>(b: &mut Bytes, conv: fn(&T) -> V, size: fn(&T) -> usize, er: fn(&E) -> Er) -> Out
where
    T: for<'a> TryFrom<&'a mut Bytes, Error = E>,
{
    meter::start();
    let r = catch_unwind(AssertUnwindSafe(|| T::try_from(b)));
    let m = meter::stop();
    finish(r, m, conv, size, er)
}
