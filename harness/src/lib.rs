//! Shared plumbing of the conformance harness.
pub mod anymesh;
pub mod mock;
pub use serde_json::{json, Map, Value};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Out {
    w: BufWriter<File>,
}

impl Out {
    pub fn ev(&mut self, v: Value) {
        writeln!(self.w, "{}", v).expect("write trace");
    }
    pub fn flush(&mut self) {
        self.w.flush().unwrap();
    }
}

/// Runs `f` for each case in the file given as first argument, writing events to the second.
/// `f` must start each session with an event carrying `"new":1`.
pub fn run(mut f: impl FnMut(&Value, &mut Out)) {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let mut out = Out { w: BufWriter::new(File::create(&args[2]).unwrap_or_else(|e| die(&format!("{e}")))) };
    let inp = BufReader::new(File::open(&args[1]).unwrap_or_else(|e| die(&format!("{e}"))));
    for line in inp.lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(&line).unwrap_or_else(|e| die(&format!("bad case {line}: {e}")));
        f(&v, &mut out);
        out.flush();
    }
}

pub fn die(msg: &str) -> ! {
    eprintln!("harness error: {msg}");
    std::process::exit(2)
}

/// Run code under test; a panic is an observation, not a failure of the harness.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

pub fn us(v: &Value) -> usize {
    v.as_u64().unwrap_or_else(|| die(&format!("expected unsigned, got {v}"))) as usize
}
pub fn int(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| die(&format!("expected int, got {v}")))
}
pub fn st(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| die(&format!("expected string, got {v}")))
}
pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| die(&format!("expected array, got {v}")))
}
pub fn uvec(v: &Value) -> Vec<usize> {
    arr(v).iter().map(us).collect()
}
pub fn ivec(v: &Value) -> Vec<i64> {
    arr(v).iter().map(int).collect()
}
pub fn uvecs(v: &Value) -> Vec<Vec<usize>> {
    arr(v).iter().map(uvec).collect()
}
pub fn ivecs(v: &Value) -> Vec<Vec<i64>> {
    arr(v).iter().map(ivec).collect()
}

/// An f64 that must be an exact integer multiple of 1/scale; anything else becomes a marker that the
/// specification never accepts (2000000011 is outside every range the models use).
pub const NOT_EXACT: i64 = 2_000_000_011;
pub fn exact(x: f64, scale: f64) -> i64 {
    let y = x * scale;
    if y.is_finite() && y == y.round() && y.abs() < 1.0e9 {
        y as i64
    } else if y > 0.0 {
        NOT_EXACT
    } else if y < 0.0 {
        -NOT_EXACT
    } else {
        -NOT_EXACT - 1
    }
}
/// An f64 that must be within `tol` (relative to scale 1) of an integer multiple of 1/scale.
pub fn near(x: f64, scale: f64, tol: f64) -> i64 {
    let y = x * scale;
    if y.is_finite() && y.abs() < 1.0e9 && (y - y.round()).abs() <= tol {
        y.round() as i64
    } else {
        NOT_EXACT
    }
}
/// An f64 rounded to the grid 1/scale (for comparisons with an explicit tolerance in the specification).
pub fn grid(x: f64, scale: f64) -> i64 {
    let y = x * scale;
    if y.is_finite() && y.abs() < 1.0e9 {
        y.round() as i64
    } else {
        NOT_EXACT
    }
}

// All coordinates of a case are multiplied by a power of two (`"scale"`: its exponent), and what is observed is
// divided by it: exactly, so that the answers must be the same ones.
thread_local! { static SCALE: std::cell::Cell<f64> = std::cell::Cell::new(1.0); }
pub fn sc() -> f64 {
    SCALE.with(|s| s.get())
}
pub fn set_scale(case: &Value) {
    SCALE.with(|s| s.set(2.0f64.powi(case["scale"].as_i64().unwrap_or(0) as i32)));
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
