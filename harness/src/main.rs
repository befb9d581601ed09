//! Executes cases (one JSON object per line) against the real fuel-tx and records what it did.
//!
//!   fuelspec-harness exec CASES OUT [SKIP]
//!
//! Each output line is the case with an added "obs" record. A panic in the code under test is an
//! observation ({"panic": message}), a panic whose message starts with "harness:" is a tool error.

mod common;
mod life;
mod ops;
mod proj;
mod rcpt;
mod rel;

use fuel_crypto::{PublicKey, SecretKey};
use fuel_types::Address;
use proj::*;
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};

/// Counts live and peak bytes so that the memory a decoder asks for can be observed.
struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            let n = LIVE.fetch_add(l.size(), Ordering::Relaxed) + l.size();
            PEAK.fetch_max(n, Ordering::Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            let n = LIVE.fetch_add(l.size(), Ordering::Relaxed) + l.size();
            PEAK.fetch_max(n, Ordering::Relaxed);
        }
        p
    }
}
#[global_allocator]
static A: Counting = Counting;

/// Runs f and returns the peak number of bytes allocated on top of what was live before.
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.load(Ordering::Relaxed);
    PEAK.store(base, Ordering::Relaxed);
    let r = f();
    (r, PEAK.load(Ordering::Relaxed).saturating_sub(base))
}

thread_local!(static LAST: RefCell<String> = RefCell::new(String::new()));

/// Runs f; Err(message) if it panicked. Harness errors abort the run.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => {
            let m = LAST.with(|l| l.borrow().clone());
            if m.contains("harness:") {
                eprintln!("{m}");
                std::process::exit(2);
            }
            Err(m)
        }
    }
}

/// Like guarded, as an observation.
pub fn obs(f: impl FnOnce() -> Value) -> Value {
    match guarded(f) {
        Ok(v) => v,
        Err(m) => json!({"panic": m}),
    }
}

pub fn key(n: u64) -> SecretKey {
    // Deterministic keys: the scalar n+1 in the low bytes with a fixed pattern above it.
    let mut b = [0x11u8; 32];
    b[24..].copy_from_slice(&(n + 1).to_be_bytes());
    SecretKey::try_from(&b[..]).expect("harness: key")
}

pub fn key_owner(n: u64) -> Address {
    // Deliberately not Input::owner (which is under test): SHA-256 of the public key bytes.
    let pk = PublicKey::from(&key(n));
    let h = fuel_crypto::Hasher::hash(AsRef::<[u8]>::as_ref(&pk));
    Address::from(*h)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 || args[1] != "exec" {
        eprintln!("usage: fuelspec-harness exec CASES OUT [SKIP]");
        std::process::exit(2);
    }
    panic::set_hook(Box::new(|i| {
        let m = i.to_string().replace('\n', " ");
        LAST.with(|l| *l.borrow_mut() = m);
    }));
    let skip: usize = args.get(4).map(|s| s.parse().unwrap()).unwrap_or(0);
    let cases = std::io::BufReader::new(std::fs::File::open(&args[2]).expect("cases"));
    let out = std::fs::OpenOptions::new().create(true).append(true).open(&args[3]).expect("out");
    let mut out = std::io::BufWriter::new(out);
    for (n, line) in cases.lines().enumerate() {
        let line = line.expect("line");
        if n < skip || line.trim().is_empty() {
            continue;
        }
        let mut case: Value = serde_json::from_str(&line).unwrap_or_else(|e| {
            eprintln!("harness: line {n}: {e}");
            std::process::exit(2)
        });
        let op = gs(&case, "op").to_string();
        let o = obs(|| ops::run(&op, &mut case));
        case.as_object_mut().unwrap().insert("obs".into(), o);
        writeln!(out, "{case}").expect("write");
        // An abort (out of memory, stack overflow) must leave everything before it on disk.
        out.flush().expect("flush");
    }
}
