//! One simulated life of JVM symbolication. `jvmsim svc <scenario.json> <life> <log>`
#![allow(dead_code)]
mod cachefam;
mod net;
mod svcfam;
mod util;

use serde::Deserialize;
use serde_json::{json, Value};
use std::sync::Arc;
use symbolic::debuginfo::sourcebundle::{SourceBundleWriter, SourceFileInfo};
use symbolicator_proguard::interface::{JvmException, JvmModule, JvmStacktrace, SymbolicateJvmStacktraces};
use symbolicator_proguard::ProguardService;
use symbolicator_service::services::SharedServices;

#[derive(Deserialize)]
struct Q { exceptions: Vec<JvmException>, stacktraces: Vec<JvmStacktrace>, modules: Vec<JvmModule>, context: bool, package: Option<String>, classes: Vec<Arc<str>> }

fn bundle(v: &Value) -> Vec<u8> {
    let mut buf = std::io::Cursor::new(vec![]);
    let mut w = SourceBundleWriter::start(&mut buf).unwrap();
    w.set_attribute("debug_id", v["debug_id"].as_str().unwrap());
    for f in v["files"].as_array().unwrap() {
        let mut i = SourceFileInfo::default();
        i.set_url(f[0].as_str().unwrap().into());
        w.add_file(f[0].as_str().unwrap().replace("~/", "files/_/_/"), f[1].as_str().unwrap().as_bytes(), i).unwrap();
    }
    w.finish().unwrap();
    buf.into_inner()
}
fn setup(s: &SharedServices) -> svcfam::Ext {
    let svc = Arc::new(ProguardService::new(s));
    Box::new(move |sources, scope, v| {
        let svc = svc.clone();
        Box::pin(async move {
            let q: Q = serde_json::from_value(v).expect("request");
            let r = svc.symbolicate_jvm(SymbolicateJvmStacktraces { platform: None, scope, sources, exceptions: q.exceptions, stacktraces: q.stacktraces, modules: q.modules, apply_source_context: q.context, release_package: q.package, classes: q.classes }).await;
            json!({"v": serde_json::to_value(&r).unwrap()})
        })
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (scn, life, logp) = (a[2].as_str(), a[3].parse::<usize>().unwrap(), a[4].as_str());
    util::open_log(logp);
    util::panic_log();
    svcfam::SETUP.set(setup).ok();
    svcfam::CONTENT.set(bundle).ok();
    let scn: Value = serde_json::from_slice(&std::fs::read(scn).unwrap()).unwrap();
    svcfam::run(scn, life);
    util::exit(0);
}
