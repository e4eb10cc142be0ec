//! One simulated life of the request service. `reqsim req <scenario.json> <life> <log>`
#![allow(dead_code, unused_imports)]
mod service;
mod util;

use serde::Deserialize;
use serde_json::{json, Value};
use service::{RequestId, RequestOptions, RequestService, SymbolicationResponse};
use simwork::Work;
use std::collections::HashMap;
use std::io::{Seek, Write};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use util::*;

#[derive(Debug, Clone, Deserialize)]
struct Op {
    /// ms after the start
    at: u64,
    op: String,
    id: u64,
    #[serde(default)] kind: String,
    #[serde(default)] work: Work,
    #[serde(default)] cands: bool,
    /// the request to ask for
    #[serde(default)] req: Option<u64>,
    #[serde(default)] timeout: Option<u64>,
    #[serde(default)] abandon: Option<u64>,
}
#[derive(Debug, Clone, Deserialize)]
struct Life { ops: Vec<Op>, web: usize, cpu: usize, #[serde(default)] max: Option<usize>, settle: u64, #[serde(default)] rt: bool }

fn show(r: &SymbolicationResponse, id: RequestId) -> Value {
    match r {
        SymbolicationResponse::Pending { request_id, .. } => json!({"k": "pending", "same": request_id.to_string() == id.to_string()}),
        SymbolicationResponse::Completed(c) => json!({"k": "completed", "v": serde_json::to_value(c).unwrap()}),
        SymbolicationResponse::Failed { message } => json!({"k": "failed", "m": message}),
        SymbolicationResponse::Timeout => json!({"k": "timeout"}),
        SymbolicationResponse::InternalError => json!({"k": "internal"}),
    }
}

fn create(svc: &RequestService, op: &Op) -> Result<RequestId, service::MaxRequestsError> {
    let options = RequestOptions { dif_candidates: op.cands, apply_source_context: true };
    let work = op.work.clone();
    match &*op.kind {
        "native" => svc.symbolicate_stacktraces(symbolicator_native::interface::SymbolicateStacktraces { work }, options),
        "minidump" => svc.process_minidump(symbolicator_native::interface::ProcessMinidump { work }, options),
        "js" => svc.symbolicate_js_stacktraces(symbolicator_js::interface::SymbolicateJsStacktraces { work }),
        "jvm" => svc.symbolicate_jvm_stacktraces(symbolicator_proguard::interface::SymbolicateJvmStacktraces { work }),
        _ => {
            let mut f = tempfile::tempfile().unwrap();
            f.write_all(&serde_json::to_vec(&work).unwrap()).unwrap();
            f.rewind().unwrap();
            svc.process_apple_crash_report(None, Default::default(), f, Arc::new([]), Default::default(), options)
        }
    }
}

type Ids = Arc<Mutex<HashMap<u64, Option<RequestId>>>>;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (scn, nlife, logp) = (a[2].as_str(), a[3].parse::<usize>().unwrap(), a[4].as_str());
    open_log(logp);
    panic_log();
    simwork::LOG.set(log).unwrap();
    let scn: Value = serde_json::from_slice(&std::fs::read(scn).unwrap()).unwrap();
    let life: Life = serde_json::from_value(scn["lives"][nlife].clone()).unwrap();
    log("start", json!({"life": nlife}));
    let rt = |n: usize| tokio::runtime::Builder::new_multi_thread().worker_threads(n).enable_time().max_blocking_threads(2).build().unwrap();
    let (web, cpu) = (rt(life.web), rt(life.cpu));
    let config: symbolicator_service::config::Config = serde_json::from_value(json!({"max_concurrent_requests": life.max})).unwrap();
    let svc = { let _g = web.enter(); RequestService::create(config, web.handle().clone(), if life.rt { cpu.handle().clone() } else { web.handle().clone() }).unwrap() };
    let ids: Ids = Default::default();
    web.block_on(async {
        let t0 = tokio::time::Instant::now();
        log("go", json!({}));
        let mut tasks = vec![];
        for op in life.ops.clone() {
            let (svc, ids) = (svc.clone(), ids.clone());
            tasks.push((op.id, tokio::spawn(async move {
                tokio::time::sleep_until(t0 + Duration::from_millis(op.at)).await;
                match &*op.op {
                    "create" => {
                        log("create", json!({"r": op.id}));
                        let r = create(&svc, &op);
                        log("created", json!({"r": op.id, "ok": r.is_ok()}));
                        let _q = quiet();
                        ids.lock().unwrap().insert(op.id, r.ok());
                    }
                    "poll" => {
                        let id = match op.req {
                            None => None,
                            Some(q) => loop {
                                let got = { let _q = quiet(); ids.lock().unwrap().get(&q).copied() };
                                match got { Some(x) => break x, None => tokio::time::sleep(Duration::from_millis(1)).await }
                            },
                        };
                        let known = id.is_some();
                        let id = id.unwrap_or_else(|| RequestId::new(uuid::Uuid::from_u128(op.id as u128 + 77)));
                        log("poll", json!({"r": op.id, "known": known}));
                        let f = svc.get_response(id, op.timeout);
                        let r = match op.abandon { None => Some(f.await), Some(ms) => tokio::time::timeout(Duration::from_millis(ms), f).await.ok() };
                        match r {
                            None => log("answer", json!({"r": op.id, "aband": true})),
                            Some(x) => { let v = x.map_or(json!({"k": "unknown"}), |x| show(&x, id)); log("answer", json!({"r": op.id, "v": v})) }
                        }
                    }
                    o => panic!("op {o}"),
                }
            })));
        }
        let last = life.ops.iter().map(|o| o.at).max().unwrap_or(0);
        let end = t0 + Duration::from_millis(last) + Duration::from_secs(3600);
        for (id, t) in tasks {
            match tokio::time::timeout_at(end, t).await {
                Err(_) => log("hang", json!({"r": id})),
                Ok(Err(e)) => log("answer", json!({"r": id, "panic": e.is_panic()})),
                Ok(Ok(())) => {}
            }
        }
        log("settle", json!({}));
        tokio::time::sleep(Duration::from_millis(life.settle)).await;
    });
    log("end", json!({}));
    exit(0);
}
