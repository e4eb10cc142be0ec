//! One simulated life of the metrics aggregator. `metsim met <scenario.json> <life> <log>`
#![allow(dead_code)]
mod util;
use serde::Deserialize;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::Duration;
use symbolicator_service::{metric, metrics};
use util::*;

#[derive(Debug, Clone, Deserialize)]
struct Step { id: u64, #[serde(default)] us: u64, kind: String, name: usize, tags: Vec<String>, val: u64 }
#[derive(Debug, Clone, Deserialize)]
struct Thread { #[serde(default)] us: u64, steps: Vec<Step>, #[serde(default)] after: Option<usize> }
#[derive(Debug, Clone, Deserialize)]
struct Life { prefix: String, tags: BTreeMap<String, String>, threads: Vec<Thread>, settle: u64 }

const NAMES: &[&str] = &["a", "b.c", "caches.file.hit", "downloads_total"];

fn emit(s: &Step) {
    let (n, t) = (NAMES[s.name], &s.tags);
    macro_rules! with { ($m:ident, $op:tt, $v:expr) => {
        match t.len() {
            0 => metric!($m(n) $op $v),
            1 => metric!($m(n) $op $v, "k" => &t[0]),
            2 => metric!($m(n) $op $v, "k" => &t[0], "other" => &t[1]),
            3 => metric!($m(n) $op $v, "k" => &t[0], "other" => &t[1], "third" => &t[2]),
            _ => metric!($m(n) $op $v, "k" => &t[0], "other" => &t[1], "third" => &t[2], "fourth" => &t[3]),
        }
    } }
    match &*s.kind {
        "counter" => with!(counter, +=, s.val as i64),
        "gauge" => with!(gauge, =, s.val),
        "timer" => with!(timer, =, Duration::from_micros(s.val)),
        "raw" => with!(time_raw, =, s.val),
        "histogram" => with!(histogram, =, s.val),
        "set" => metrics::with_client(|l| match t.len() {
            0 => l.emit_set(n, s.val, &[]),
            1 => l.emit_set(n, s.val, &[("k", &t[0])]),
            2 => l.emit_set(n, s.val, &[("k", &t[0]), ("other", &t[1])]),
            3 => l.emit_set(n, s.val, &[("k", &t[0]), ("other", &t[1]), ("third", &t[2])]),
            _ => l.emit_set(n, s.val, &[("k", &t[0]), ("other", &t[1]), ("third", &t[2]), ("fourth", &t[3])]),
        }),
        k => panic!("kind {k}"),
    }
}

fn sleep(us: u64) { if us > 0 { std::thread::sleep(Duration::from_micros(us)) } }

fn work(t: &Thread) {
    sleep(t.us);
    for s in &t.steps {
        sleep(s.us);
        log("rec", json!({"i": s.id}));
        emit(s);
        log("done", json!({"i": s.id}));
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (scn, nlife, logp) = (a[2].as_str(), a[3].parse::<usize>().unwrap(), a[4].as_str());
    open_log(logp);
    panic_log();
    cadence::HOOK.set(|l| log("line", json!({"l": l}))).unwrap();
    let scn: Value = serde_json::from_slice(&std::fs::read(scn).unwrap()).unwrap();
    let life: Life = serde_json::from_value(scn["lives"][nlife].clone()).unwrap();
    log("start", json!({}));
    metrics::configure_statsd(&life.prefix, "127.0.0.1:8125", life.tags.clone());
    // threads that follow each other run one after the other, as threads of their own
    let mut chains: Vec<Vec<Thread>> = vec![];
    let mut at: Vec<usize> = vec![];
    for t in &life.threads {
        match t.after {
            Some(p) if p < at.len() => { let c = at[p]; chains[c].push(t.clone()); at.push(c) }
            _ => { at.push(chains.len()); chains.push(vec![t.clone()]) }
        }
    }
    let hs: Vec<_> = chains.into_iter().map(|c| std::thread::spawn(move || for t in c { std::thread::spawn(move || work(&t)).join().unwrap() })).collect();
    for h in hs { h.join().unwrap() }
    log("settle", json!({}));
    sleep(life.settle * 1000);
    log("end", json!({}));
    exit(0);
}
