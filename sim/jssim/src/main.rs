//! One simulated life of JavaScript symbolication. `jssim js <scenario.json> <life> <log>`
#![allow(dead_code)]
mod net;
mod util;
use net::{Act, Net, NetCfg};
use serde::Deserialize;
use serde_json::{json, Value};
use simnet::{Plan, Req};
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::Duration;
use symbolic::debuginfo::sourcebundle::{SourceBundleWriter, SourceFileInfo};
use symbolicator_js::interface::{JsModule, JsStacktrace, SymbolicateJsStacktraces};
use symbolicator_js::SourceMapService;
use symbolicator_service::caching;
use symbolicator_service::config::Config;
use symbolicator_service::services::SharedServices;
use symbolicator_service::types::{Scope, ScrapingConfig};
use symbolicator_sources::SentrySourceConfig;
use util::*;

#[derive(Debug, Clone, Deserialize)]
struct Op {
    at: u64,
    op: String,
    id: u64,
    #[serde(default)] abandon: Option<u64>,
    #[serde(default)] ns: i64,
    #[serde(default)] scope: Option<String>,
    #[serde(default)] src: usize,
    #[serde(default)] release: Option<String>,
    #[serde(default)] dist: Option<String>,
    #[serde(default)] modules: Vec<JsModule>,
    #[serde(default)] stacktraces: Vec<JsStacktrace>,
    #[serde(default)] scraping: Option<ScrapingConfig>,
    #[serde(default)] context: bool,
    #[serde(default)] key: String,
    #[serde(default)] val: Value,
}
#[derive(Debug, Clone, Deserialize)]
struct Life {
    #[serde(default = "one")] workers: usize,
    ops: Vec<Op>,
    #[serde(default)] settle: u64,
    #[serde(default)] kill: Option<u64>,
    #[serde(default)] chaos: u64,
    #[serde(default)] net: NetCfg,
    /// what the servers hold from this life on
    #[serde(default)] files: BTreeMap<String, Value>,
}
fn one() -> usize { 1 }

/// An artifact of a project, as the lookup endpoint knows it.
#[derive(Debug, Clone, Deserialize)]
struct Entry { r#type: String, id: String, url: String, #[serde(default)] abs_path: String, #[serde(default)] headers: BTreeMap<String, String>, #[serde(default)] resolved_with: Option<String>,
    #[serde(default)] debug_ids: Vec<String>, #[serde(default)] release: Option<String>, #[serde(default)] dist: Option<String>, #[serde(default)] urls: Vec<String> }

fn content(v: &Value) -> Vec<u8> {
    if let Some(t) = v.get("text") { return t.as_str().unwrap().as_bytes().to_vec() }
    if let Some(a) = v.get("noise") { return noise(a[0].as_u64().unwrap(), a[1].as_u64().unwrap() as usize) }
    let mut buf = std::io::Cursor::new(vec![]);
    let mut w = SourceBundleWriter::start(&mut buf).unwrap();
    for f in v["bundle"].as_array().unwrap() {
        let mut i = SourceFileInfo::default();
        if let Some(t) = f["type"].as_str() { i.set_ty(serde_json::from_value(json!(t)).unwrap()) }
        if let Some(u) = f["url"].as_str() { i.set_url(u.into()) }
        for (k, v) in f["headers"].as_object().into_iter().flatten() { i.add_header(k.clone(), v.as_str().unwrap().into()) }
        w.add_file(f["path"].as_str().unwrap(), f["text"].as_str().unwrap().as_bytes(), i).unwrap();
    }
    w.finish().unwrap();
    let mut b = buf.into_inner();
    if let Some(n) = v["cut"].as_u64() { b.truncate(n as usize) }
    b
}

struct Servers { files: std::sync::Mutex<BTreeMap<String, Vec<u8>>>, sources: Vec<(SentrySourceConfig, Vec<Entry>)> }
impl Servers {
    fn serve(&self, req: &Req, _: &Act) -> Option<Plan> {
        let mut url = req.url.clone();
        url.set_fragment(None);
        for (s, entries) in &self.sources {
            let mut base = url.clone();
            base.set_query(None);
            if base != s.url { continue }
            if req.header("authorization") != Some(&format!("Bearer {}", s.token)) { continue }
            let q: Vec<(String, String)> = url.query_pairs().into_owned().collect();
            if q.iter().any(|p| p.0 == "download") { break }
            let get = |k: &str| q.iter().find(|p| p.0 == k).map(|p| p.1.clone());
            let all = |k: &str| -> Vec<String> { q.iter().filter(|p| p.0 == k).map(|p| p.1.clone()).collect() };
            let (ids, stems, rel, dist) = (all("debug_id"), all("url"), get("release"), get("dist"));
            let hit: Vec<Value> = entries.iter().filter(|e| e.debug_ids.iter().any(|d| ids.contains(d)) || (rel.is_some() && e.release == rel && (e.dist.is_none() || e.dist == dist) && e.urls.iter().any(|u| stems.iter().any(|s| u.contains(s.as_str())))))
                .map(|e| { let mut v = json!({"type": e.r#type, "id": e.id, "url": e.url}); if e.r#type == "file" { v["abs_path"] = json!(e.abs_path); v["headers"] = json!(e.headers) } if let Some(r) = &e.resolved_with { v["resolved_with"] = json!(r) } v }).collect();
            log("lookup", json!({"id": req.id, "q": url.query(), "tok": s.token, "hit": hit.iter().map(|h| h["id"].clone()).collect::<Vec<_>>()}));
            let mut p = Plan::ok(serde_json::to_vec(&hit).unwrap());
            p.headers.push(("content-type".into(), "application/json".into()));
            return Some(p);
        }
        if self.sources.iter().any(|s| url.as_str().starts_with(s.0.url.as_str())) {
            let ok = self.sources.iter().any(|s| url.as_str().starts_with(s.0.url.as_str()) && req.header("authorization") == Some(&format!("Bearer {}", s.0.token)));
            if !ok { return Some(Plan::status(401)) }
        }
        let data = self.files.lock().unwrap().get(url.as_str()).cloned()?;
        let range = req.header("range").and_then(|r| r.strip_prefix("bytes=")).and_then(|r| r.split_once('-')).and_then(|(a, b)| Some((a.parse::<usize>().ok()?, if b.is_empty() { usize::MAX } else { b.parse::<usize>().ok()? })));
        Some(match range {
            Some((a, _)) if a >= data.len() => { let mut p = Plan::status(416); p.headers.push(("content-range".into(), format!("bytes */{}", data.len()))); p.headers.push(("content-length".into(), "0".into())); p }
            Some((a, b)) => { let b = b.min(data.len() - 1); let mut p = Plan::ok(data[a..=b].to_vec()); p.status = 206; p.headers.push(("content-range".into(), format!("bytes {a}-{b}/{}", data.len()))); p }
            None => Plan::ok(data),
        })
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (scn, nlife, logp) = (a[2].as_str(), a[3].parse::<usize>().unwrap(), a[4].as_str());
    open_log(logp);
    panic_log();
    let scn: Value = serde_json::from_slice(&std::fs::read(scn).unwrap()).unwrap();
    let life: Life = serde_json::from_value(scn["lives"][nlife].clone()).expect("life");
    let config: Config = serde_json::from_value(scn["config"].clone()).expect("config");
    let sources: Vec<(SentrySourceConfig, Vec<Entry>)> = scn["projects"].as_array().unwrap().iter().map(|p| (serde_json::from_value(p["source"].clone()).unwrap(), serde_json::from_value(p["entries"].clone()).unwrap())).collect();
    let mut files = BTreeMap::new();
    let all = std::iter::once(&scn["files"]).chain((0..=nlife).map(|i| &scn["lives"][i]["files"]));
    for m in all { for (k, v) in m.as_object().into_iter().flatten() { if v.is_null() { files.remove(k); } else { files.insert(k.clone(), content(v)); } } }
    let servers = Arc::new(Servers { files: std::sync::Mutex::new(files), sources: sources.clone() });
    simnet::set_handler(Arc::new(Net::new(life.net.clone(), { let s = servers.clone(); Box::new(move |r, a| s.serve(r, a)) })));
    if life.chaos > 0 { moka::chaos::set(scn["seed"].as_u64().unwrap() + nlife as u64, life.chaos); }
    log("start", json!({"life": nlife}));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(life.workers).enable_time().max_blocking_threads(4).build().unwrap();
    let shared = match SharedServices::new(config.clone(), rt.handle().clone()) { Ok(s) => s, Err(e) => { log("nostart", json!({"err": format!("{e:#}")})); exit(3) } };
    let svc = SourceMapService::new(&shared);
    let sources: Vec<Arc<SentrySourceConfig>> = sources.into_iter().map(|s| Arc::new(s.0)).collect();
    rt.block_on(async {
        let t0 = tokio::time::Instant::now();
        log("go", json!({}));
        if let Some(k) = life.kill { tokio::spawn(async move { tokio::time::sleep_until(t0 + Duration::from_millis(k)).await; log("kill", json!({})); exit(77) }); }
        let mut tasks = vec![];
        for op in life.ops.clone() {
            let (svc, sources, config, servers) = (svc.clone(), sources.clone(), config.clone(), servers.clone());
            tasks.push((op.id, tokio::spawn(async move {
                tokio::time::sleep_until(t0 + Duration::from_millis(op.at)).await;
                log("req", json!({"r": op.id, "op": op.op}));
                match &*op.op {
                    "wall" => { wall_jump(op.ns); log("wall", json!({"ns": op.ns})); log("res", json!({"r": op.id})) }
                    "put" => { let _q = quiet(); servers.files.lock().unwrap().insert(op.key.clone(), content(&op.val)); log("res", json!({"r": op.id})) }
                    "cleanup" => { let r = tokio::task::spawn_blocking(move || caching::cleanup(config, false)).await.unwrap(); log("res", json!({"r": op.id, "ok": r.is_ok()})) }
                    _ => {
                        let req = SymbolicateJsStacktraces {
                            platform: None, scope: op.scope.clone().map_or(Scope::Global, |s| Scope::Scoped(s.into())), source: sources[op.src].clone(), release: op.release.clone(), dist: op.dist.clone(),
                            stacktraces: op.stacktraces.clone(), modules: op.modules.clone(), scraping: op.scraping.clone().unwrap_or_default(), apply_source_context: op.context,
                        };
                        let f = svc.symbolicate_js(req);
                        let r = match op.abandon { None => Some(f.await), Some(ms) => tokio::time::timeout(Duration::from_millis(ms), f).await.ok() };
                        let _q = quiet();
                        log("res", match r { None => json!({"r": op.id, "aband": true}), Some(r) => json!({"r": op.id, "v": serde_json::to_value(&r).unwrap()}) });
                    }
                }
            })));
        }
        let last = life.ops.iter().map(|o| o.at).max().unwrap_or(0);
        let end = t0 + Duration::from_millis(last) + Duration::from_secs(6 * 3600);
        for (id, t) in tasks {
            match tokio::time::timeout_at(end, t).await {
                Err(_) => log("hang", json!({"r": id})),
                Ok(Err(e)) => log("res", json!({"r": id, "panic": e.is_panic()})),
                Ok(Ok(())) => {}
            }
        }
        log("settle", json!({}));
        tokio::time::sleep(Duration::from_millis(life.settle)).await;
    });
    log("end", json!({"evicted": moka::chaos::EVICTED.load(std::sync::atomic::Ordering::SeqCst)}));
    exit(0);
}
