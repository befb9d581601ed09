//! Adds to recorded executions (op "twin") what the build without the standard library does.
//!
//!   fuelspec-twin TRACE OUT
#![allow(dead_code, unused_imports)]

#[path = "../../harness/src/common.rs"]
mod common;
#[path = "../../harness/src/proj.rs"]
mod proj;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{self, AssertUnwindSafe};

pub fn obs(f: impl FnOnce() -> Value) -> Value {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(_) => json!({"panic": "panics"}),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        if m.contains("harness:") {
            eprintln!("{m}");
            std::process::exit(2);
        }
    }));
    let cases = std::io::BufReader::new(std::fs::File::open(&args[1]).expect("trace"));
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("out"));
    for line in cases.lines() {
        let mut c: Value = serde_json::from_str(&line.expect("line")).expect("json");
        if c["op"] == "twin" && c["obs"].get("std").is_some() {
            let tx = proj::tx_from(&c["tx"]);
            let s = common::summary(&c, &tx);
            c["obs"]["nostd"] = s;
        }
        writeln!(out, "{c}").expect("write");
    }
}
