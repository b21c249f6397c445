#[cfg(not(feature = "with-amm"))]
#[path = "absent.rs"]
mod amm;
#[cfg(not(feature = "with-farming"))]
#[path = "absent.rs"]
mod farming;
#[cfg(feature = "with-amm")]
extern crate amm;
#[cfg(feature = "with-farming")]
extern crate farming;

mod ops;
mod svm;
mod world;

use serde_json::Value;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};

fn main() {
    svm::install();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| &s[..]) {
        Some("replay") => {
            let mut w = world::World::default();
            let input = BufReader::new(File::open(&args[2]).unwrap());
            let mut out = BufWriter::new(File::create(&args[3]).unwrap());
            for line in input.lines() {
                let line = line.unwrap();
                if line.trim().is_empty() {
                    continue;
                }
                let e: Value = serde_json::from_str(&line).unwrap();
                let r = ops::exec(&mut w, &e);
                writeln!(out, "{}", r).unwrap();
            }
        }
        // events with their depth ("d") in a tree, parents first; every branch
        // goes on from the accounts its parent left behind
        Some("tree") => {
            let input = BufReader::new(File::open(&args[2]).unwrap());
            let mut out = BufWriter::new(File::create(&args[3]).unwrap());
            let mut stack: Vec<(usize, world::World)> = vec![];
            let mut n = 0;
            // events at which a previous attempt died
            let crashing: Vec<usize> = std::env::var("CRASHING")
                .unwrap_or_default()
                .split(',')
                .filter_map(|s| s.parse().ok())
                .collect();
            for line in input.lines() {
                let line = line.unwrap();
                n += 1;
                let e: Value = serde_json::from_str(&line).unwrap();
                let d = e["d"].as_u64().unwrap() as usize;
                stack.truncate(d);
                let (par, mut w) = stack.last().cloned().unwrap_or_default();
                let mut r = if crashing.contains(&n) {
                    ops::crashed(&e)
                } else {
                    ops::exec(&mut w, &e)
                };
                r["par"] = par.into();
                writeln!(out, "{}", r).unwrap();
                // what was observed is not lost if the process dies
                out.flush().unwrap();
                stack.push((n, w));
                if svm::hopeless() {
                    break;
                }
            }
        }
        // one event per line in, one observed event per line out
        Some("serve") => {
            let mut w = world::World::default();
            let stdin = std::io::stdin();
            let stdout = std::io::stdout();
            let mut out = BufWriter::new(stdout.lock());
            for line in stdin.lock().lines() {
                let e: Value = serde_json::from_str(&line.unwrap()).unwrap();
                writeln!(out, "{}", ops::exec(&mut w, &e)).unwrap();
                out.flush().unwrap();
                if svm::hopeless() {
                    break;
                }
            }
        }
        _ => {
            eprintln!("usage: harness replay IN OUT | tree IN OUT | serve");
            std::process::exit(2);
        }
    }
}
