//! Trace log, seeded choices and small helpers.
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha12Rng;
pub use serde_json::{json, Value};
use std::io::Write;
use std::sync::{Arc, Mutex};

pub type R = ChaCha12Rng;

pub fn rng(seed: u64, stream: u64) -> R {
    let mut r = R::seed_from_u64(seed);
    r.set_stream(stream);
    r
}

pub fn choose<'a, T>(r: &mut R, v: &'a [T]) -> &'a T {
    &v[r.gen_range(0..v.len())]
}

/// Event log. Events are appended under one lock: their order is the order of the trace.
#[derive(Clone)]
pub struct Log(Arc<Mutex<Vec<Value>>>);

impl Log {
    pub fn new() -> Self {
        Log(Arc::new(Mutex::new(Vec::new())))
    }
    pub fn push(&self, v: Value) {
        self.0.lock().unwrap().push(v);
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().len()
    }
    pub fn write(&self, path: &str) {
        let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
        for v in self.0.lock().unwrap().iter() {
            serde_json::to_writer(&mut f, v).unwrap();
            f.write_all(b"\n").unwrap();
        }
        f.flush().unwrap();
    }
}

/// Where the traces of a scenario go: files `<dir>/<scenario>-<k>.ndjson`.
pub struct Out {
    pub dir: String,
    pub name: String,
    pub k: usize,
}

impl Out {
    pub fn write(&mut self, tag: &str, log: &Log) {
        log.write(&format!("{}/{}-{:03}-{}.ndjson", self.dir, self.name, self.k, tag));
        self.k += 1;
    }
}

pub struct Args {
    pub seed: u64,
    pub thorough: bool,
    pub input: Option<String>,
    pub out: Out,
    pub scratch: String,
    pub extra: Vec<String>,
}

impl Args {
    /// Behaviours generated from the specification, one JSON value per line.
    pub fn inputs(&self) -> Vec<Value> {
        match &self.input {
            None => Vec::new(),
            Some(f) => std::fs::read_to_string(f).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect(),
        }
    }
}

/// 64-bit FNV-1a, as text.
pub fn digest(data: &[u8]) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{:016x}", h)
}

pub fn hex(data: &[u8]) -> String {
    let mut s = String::with_capacity(2 * data.len() + 1);
    s.push('x');
    for b in data {
        s.push_str(&format!("{:02x}", b));
    }
    s
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Runs code under test; a panic is an observation, not a failure of the harness.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(panic_text)
}

pub fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .build()
        .unwrap()
}

pub fn runtime_mt(k: usize) -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread()
        .worker_threads(k)
        .enable_all()
        .build()
        .unwrap()
}
