//! The caching layers under simulated load: requests, cleanups, clock jumps, restarts on one cache directory.
use crate::net::{Net, NetCfg};
use crate::util::*;
use futures::future::BoxFuture;
use serde::Deserialize;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use symbolic::common::ByteView;
use symbolicator_service::caches::{CachePathFormat, CacheVersion, CacheVersions};
use symbolicator_service::caching::{self, CacheContents, CacheError, CacheItemRequest, CacheKey, Cacher, Caches, SharedCacheService};
use symbolicator_service::config::Config;
use symbolicator_service::types::Scope;
use tempfile::NamedTempFile;
use tokio::io::AsyncWriteExt;

#[derive(Debug, Clone, Deserialize)]
pub struct Item { cache: String, id: u64, #[serde(default)] scope: Option<String>, key: String, #[serde(default = "yes")] shared: bool }
fn yes() -> bool { true }
#[derive(Debug, Clone, Deserialize)]
pub struct Plan {
    /// ms before anything is written
    #[serde(default)] d: u64,
    /// ms between the writes
    #[serde(default)] gap: u64,
    #[serde(default = "one")] writes: usize,
    #[serde(default)] size: usize,
    /// std, tokio or swap
    #[serde(default)] how: String,
    /// ok, panic, or [kind, details]
    out: Value,
    /// bytes written before an error
    #[serde(default)] junk: usize,
}
fn one() -> usize { 1 }
#[derive(Debug, Clone, Deserialize)]
pub struct Op {
    /// ms after the start of the life
    at: u64,
    op: String,
    #[serde(default)] item: usize,
    #[serde(default)] abandon: Option<u64>,
    #[serde(default)] dry: bool,
    #[serde(default)] ns: i64,
    #[serde(default)] id: u64,
    /// which of the instances of the service
    #[serde(default)] inst: usize,
}
#[derive(Debug, Clone, Deserialize)]
pub struct Life {
    #[serde(default = "one32")] sw: u32,
    #[serde(default = "one")] workers: usize,
    ops: Vec<Op>,
    plans: BTreeMap<String, Vec<Plan>>,
    /// ms after the last operation before the life ends
    #[serde(default)] settle: u64,
    /// the process is killed at this time (ms)
    #[serde(default)] kill: Option<u64>,
    #[serde(default)] chaos: u64,
    #[serde(default)] limit: u64,
    #[serde(default)] net: NetCfg,
    /// hold on to the answers and verify them again at the end
    #[serde(default)] hold: bool,
    #[serde(default)] snapshot: bool,
    /// start with the requests before the shared cache is ready
    #[serde(default)] nowait: bool,
}
fn one32() -> u32 { 1 }

pub struct Sim {
    items: Vec<Item>,
    life: Life,
    nlife: u64,
    dirs: Vec<Option<PathBuf>>,
    nth: Mutex<HashMap<usize, usize>>,
    nonce: AtomicU64,
}

const V1: CacheVersion = CacheVersion::new(1, CachePathFormat::V1);
const V2: CacheVersion = CacheVersion::new(2, CachePathFormat::V1);
const V3: CacheVersion = CacheVersion::new(3, CachePathFormat::V2);
const V4: CacheVersion = CacheVersion::new(4, CachePathFormat::V2);
/// The cache versions of successive releases of the software.
pub const fn versions(sw: u32) -> CacheVersions {
    match sw {
        1 => CacheVersions { current: V1, fallbacks: &[], previous: &[] },
        2 => CacheVersions { current: V2, fallbacks: &[V1], previous: &[V1] },
        3 => CacheVersions { current: V3, fallbacks: &[V2], previous: &[V1, V2] },
        _ => CacheVersions { current: V4, fallbacks: &[V3, V2], previous: &[V1, V2, V3] },
    }
}

#[derive(Clone)]
pub struct Req<const SW: u32> { sim: Arc<Sim>, item: usize, rid: u64, inst: usize }

pub fn key_of(it: &Item) -> CacheKey {
    let scope = match &it.scope { None => Scope::Global, Some(s) => Scope::Scoped(s.as_str().into()) };
    let mut b = CacheKey::scoped_builder(&scope);
    write!(b, "{}", it.key).unwrap();
    b.build()
}
pub fn err_of(v: &Value) -> CacheError {
    let d = v[1].as_str().unwrap_or("").to_string();
    match v[0].as_str().unwrap() {
        "NotFound" => CacheError::NotFound,
        "PermissionDenied" => CacheError::PermissionDenied(d),
        "Timeout" => CacheError::Timeout(Duration::from_millis(d.parse().unwrap())),
        "DownloadError" => CacheError::DownloadError(d),
        "Malformed" => CacheError::Malformed(d),
        "Unsupported" => CacheError::Unsupported(d),
        "InternalError" => CacheError::InternalError,
        o => panic!("{o}"),
    }
}
pub fn err_json(e: &CacheError) -> Value {
    match e {
        CacheError::NotFound => json!(["NotFound", ""]),
        CacheError::PermissionDenied(d) => json!(["PermissionDenied", d]),
        CacheError::Timeout(d) => json!(["Timeout", d.as_millis().to_string()]),
        CacheError::DownloadError(d) => json!(["DownloadError", d]),
        CacheError::Malformed(d) => json!(["Malformed", d]),
        CacheError::Unsupported(d) => json!(["Unsupported", d]),
        CacheError::InternalError => json!(["InternalError", ""]),
    }
}

struct Running { n: u64, item: usize, out: Value }
impl Drop for Running {
    fn drop(&mut self) { log("cend", json!({"n": self.n, "i": self.item, "out": self.out})) }
}

impl<const SW: u32> Req<SW> {
    /// Whether an entry of an older supported version is on disk.
    fn fallback(&self, key: &CacheKey) -> bool {
        let _q = quiet();
        let Some(d) = &self.sim.dirs[self.inst] else { return false };
        versions(SW).fallbacks.iter().any(|v| d.join(&self.sim.items[self.item].cache).join(key.cache_path(*v)).exists())
    }
    async fn work(&self, temp: &mut NamedTempFile) -> CacheContents {
        let it = &self.sim.items[self.item];
        let k = { let mut m = self.sim.nth.lock().unwrap(); let k = m.entry(self.item).or_insert(0); *k += 1; *k - 1 };
        let plans = &self.sim.life.plans[&self.item.to_string()];
        let p = plans[k.min(plans.len() - 1)].clone();
        let n = self.sim.nonce.fetch_add(1, Ordering::SeqCst);
        let fb = self.fallback(&key_of(it));
        log("cstart", json!({"n": n, "i": self.item, "k": k, "rid": self.rid, "fb": fb, "v": SW, "x": self.inst}));
        let mut run = Running { n, item: self.item, out: json!("dropped") };
        let r = self.produce(&p, n, temp, &mut run).await;
        match &r {
            Ok(()) => run.out = json!("ok"),
            Err(e) => { run.out = err_json(e) }
        }
        r
    }
    async fn produce(&self, p: &Plan, n: u64, temp: &mut NamedTempFile, run: &mut Running) -> CacheContents {
        let it = &self.sim.items[self.item];
        if p.d > 0 { tokio::time::sleep(Duration::from_millis(p.d)).await } else { tokio::task::yield_now().await }
        let ok = p.out.as_str() == Some("ok");
        let data = { let _q = quiet(); if ok { make_item(&it.cache, it.id, SW, n, p.size) } else { noise(n, p.junk) } };
        let step = (data.len() / p.writes.max(1)).max(1);
        match p.how.as_str() {
            "tokio" => {
                let mut f = tokio::fs::File::from_std(temp.reopen()?);
                for c in data.chunks(step) {
                    f.write_all(c).await?;
                    if p.gap > 0 { tokio::time::sleep(Duration::from_millis(p.gap)).await }
                }
                f.flush().await?;
            }
            "swap" if !data.is_empty() => {
                let mut t2 = tempfile::Builder::new().prefix("swp").tempfile_in(temp.path().parent().unwrap())?;
                for c in data.chunks(step) {
                    t2.as_file_mut().write_all(c)?;
                    if p.gap > 0 { tokio::time::sleep(Duration::from_millis(p.gap)).await }
                }
                std::mem::swap(temp, &mut t2);
            }
            _ => {
                for c in data.chunks(step) {
                    temp.as_file_mut().write_all(c)?;
                    if p.gap > 0 { tokio::time::sleep(Duration::from_millis(p.gap)).await }
                }
            }
        }
        match &p.out {
            Value::String(s) if s == "ok" => Ok(()),
            Value::String(s) if s == "panic" => { run.out = json!("panic"); panic!("planned") }
            e => Err(err_of(e)),
        }
    }
}

impl<const SW: u32> CacheItemRequest for Req<SW> {
    type Item = ByteView<'static>;
    const VERSIONS: CacheVersions = versions(SW);
    fn compute<'a>(&'a self, temp_file: &'a mut NamedTempFile) -> BoxFuture<'a, CacheContents> { Box::pin(self.work(temp_file)) }
    fn load(&self, data: ByteView<'static>) -> CacheContents<Self::Item> { Ok(data) }
    fn use_shared_cache(&self) -> bool { self.sim.items[self.item].shared }
}

/// Everything in the cache directory, seen without disturbing the run.
pub fn snapshot(dir: &Path) -> Value {
    use std::os::unix::fs::MetadataExt;
    let _q = quiet();
    let mut out = vec![];
    fn walk(base: &Path, d: &Path, out: &mut Vec<Value>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let Ok(m) = p.symlink_metadata() else { continue };
            if m.is_dir() { walk(base, &p, out); continue }
            let b = std::fs::read(&p).unwrap_or_default();
            let text = if b.len() < 4096 { Some(String::from_utf8_lossy(&b[..b.len().min(400)]).into_owned()) } else { None };
            let it = if b.starts_with(b"#ITEM") { parse_item(&b) } else { Value::Null };
            out.push(json!({"p": p.strip_prefix(base).unwrap().to_string_lossy(), "len": b.len(), "mt": m.mtime() * 1_000_000_000 + m.mtime_nsec(), "it": it, "head": if it.is_null() { text } else { None }}));
        }
    }
    walk(dir, dir, &mut out);
    out.sort_by_key(|v| v["p"].as_str().unwrap().to_string());
    json!(out)
}

pub fn run(scn: Value, nlife: usize) {
    let life: Life = serde_json::from_value(scn["lives"][nlife].clone()).unwrap();
    match life.sw { 1 => go::<1>(scn, life, nlife), 2 => go::<2>(scn, life, nlife), 3 => go::<3>(scn, life, nlife), _ => go::<4>(scn, life, nlife) }
}

struct Held { rid: u64, view: ByteView<'static>, hash: String }

/// The configuration of the n-th instance of the service: its own cache directory, the same shared cache.
fn config_of(scn: &Value, inst: usize) -> Config {
    let mut config: Config = serde_json::from_value(scn["config"].clone()).expect("config");
    if inst > 0 { config.cache_dir = config.cache_dir.map(|d| PathBuf::from(format!("{}{inst}", d.display()))); }
    config
}
fn shared_snapshot(scn: &Value) {
    if let Some(d) = scn["config"]["shared_cache"]["filesystem"]["path"].as_str() { log("shared", json!({"files": snapshot(Path::new(d))})); }
}

struct Inst<const SW: u32> { config: Config, cachers: BTreeMap<String, Cacher<Req<SW>>>, shared: symbolicator_service::caching::SharedCacheRef }

fn go<const SW: u32>(scn: Value, life: Life, nlife: usize) {
    let items: Vec<Item> = serde_json::from_value(scn["items"].clone()).unwrap();
    let ninst = scn["instances"].as_u64().unwrap_or(1) as usize;
    let configs: Vec<Config> = (0..ninst).map(|k| config_of(&scn, k)).collect();
    let dirs: Vec<Option<PathBuf>> = configs.iter().map(|c| c.cache_dir.clone()).collect();
    let dir = dirs[0].clone();
    let start = now();
    simnet::set_handler(Arc::new(Net::new(life.net.clone(), Box::new(|_, _| None))));
    if life.chaos > 0 { moka::chaos::set(scn["seed"].as_u64().unwrap() + nlife as u64, life.chaos); }
    let paths: Vec<String> = items.iter().map(|it| format!("{}/{}", it.cache, key_of(it).cache_path(versions(SW).current))).collect();
    log("start", json!({"sw": SW, "life": nlife, "paths": paths}));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(life.workers).enable_time().max_blocking_threads(4).build().unwrap();
    let mut insts: Vec<Inst<SW>> = vec![];
    for (k, config) in configs.into_iter().enumerate() {
        let caches = match Caches::from_config(&config) { Ok(c) => c, Err(e) => { log("nostart", json!({"err": e.to_string()})); exit(3) } };
        if let Err(e) = caches.clear_tmp(&config) { log("nostart", json!({"err": e.to_string()})); exit(3) }
        log("ready", json!({"x": k, "tmp": dirs[k].as_ref().map(|d| { let _q = quiet(); std::fs::read_dir(d.join("tmp")).map_or(0, |r| r.count()) })}));
        let shared = SharedCacheService::new(config.shared_cache.clone(), rt.handle().clone());
        let mut cachers: BTreeMap<String, Cacher<Req<SW>>> = BTreeMap::new();
        for it in &items {
            let c = match it.cache.as_str() {
                "objects" => &caches.objects, "auxdifs" => &caches.auxdifs, "symcaches" => &caches.symcaches, "object_meta" => &caches.object_meta,
                "cficaches" => &caches.cficaches, "source_index" => &caches.source_index, "sourcefiles" => &caches.sourcefiles, o => panic!("cache {o}"),
            };
            cachers.entry(it.cache.clone()).or_insert_with(|| Cacher::new(c.clone(), shared.clone()));
        }
        insts.push(Inst { config, cachers, shared });
    }
    if nlife > 0 || life.snapshot { if let Some(d) = &dir { log("snap", json!({"why": "start", "files": snapshot(d)})); } }
    shared_snapshot(&scn);
    let sim = Arc::new(Sim { items: items.clone(), life: life.clone(), nlife: nlife as u64, dirs, nth: Default::default(), nonce: AtomicU64::new(nlife as u64 * 1_000_000) });
    let _ = sim.nlife;
    let insts = Arc::new(insts);
    let held: Arc<Mutex<Vec<Held>>> = Default::default();
    let limit = Duration::from_secs(if life.limit > 0 { life.limit } else { 4 * 3600 });
    rt.block_on(async {
        if insts[0].config.shared_cache.is_some() && !life.nowait { for _ in 0..400 { if insts.iter().all(|i| i.shared.get().is_some()) { break } tokio::time::sleep(Duration::from_millis(10)).await } }
        let t0 = tokio::time::Instant::now();
        log("go", json!({"off": now() - start, "shared": insts.iter().map(|i| i.shared.get().is_some()).collect::<Vec<_>>()}));
        if let Some(k) = life.kill { tokio::spawn(async move { tokio::time::sleep_until(t0 + Duration::from_millis(k)).await; log("kill", json!({})); exit(77) }); }
        let mut tasks = vec![];
        for op in life.ops.clone() {
            let (sim, insts, held) = (sim.clone(), insts.clone(), held.clone());
            let keep = life.hold;
            let scn = scn.clone();
            let t = tokio::spawn(async move {
                tokio::time::sleep_until(t0 + Duration::from_millis(op.at)).await;
                let inst = &insts[op.inst];
                let dir = inst.config.cache_dir.clone();
                match op.op.as_str() {
                    "get" => {
                        let it = &sim.items[op.item];
                        log("req", json!({"r": op.id, "i": op.item, "x": op.inst}));
                        let fut = inst.cachers[&it.cache].compute_memoized(Req::<SW> { sim: sim.clone(), item: op.item, rid: op.id, inst: op.inst }, key_of(it));
                        let r = match op.abandon {
                            None => Some(fut.await),
                            Some(ms) => tokio::time::timeout(Duration::from_millis(ms), fut).await.ok(),
                        };
                        match r {
                            None => log("res", json!({"r": op.id, "i": op.item, "aband": true})),
                            Some(e) => match e.into_contents() {
                                Ok(view) => {
                                    let _q = quiet();
                                    log("res", json!({"r": op.id, "i": op.item, "ok": parse_item(&view)}));
                                    if keep { let hash = hash(&view); held.lock().unwrap().push(Held { rid: op.id, view, hash }); }
                                }
                                Err(e) => log("res", json!({"r": op.id, "i": op.item, "err": err_json(&e)})),
                            },
                        }
                    }
                    "cleanup" => {
                        let (tx, rx) = tokio::sync::oneshot::channel();
                        let config = inst.config.clone();
                        std::thread::spawn(move || {
                            log("clean0", json!({"r": op.id, "dry": op.dry, "files": dir.as_ref().map(|d| snapshot(d))}));
                            let r = caching::cleanup(config, op.dry);
                            log("clean1", json!({"r": op.id, "dry": op.dry, "err": r.err().map(|e| e.to_string()), "files": dir.as_ref().map(|d| snapshot(d))}));
                            tx.send(()).ok();
                        });
                        rx.await.ok();
                    }
                    "wall" => { wall_jump(op.ns); log("wall", json!({"ns": op.ns})); }
                    "snap" => { if let Some(d) = &dir { log("snap", json!({"why": "op", "files": snapshot(d)})) } }
                    "shared" => shared_snapshot(&scn),
                    o => panic!("op {o}"),
                }
            });
            tasks.push((op_id(&life.ops, tasks.len()), t));
        }
        let last = life.ops.iter().map(|o| o.at).max().unwrap_or(0);
        let end = t0 + Duration::from_millis(last) + limit;
        for (id, t) in tasks {
            match tokio::time::timeout_at(end, t).await {
                Err(_) => log("hang", json!({"r": id})),
                Ok(Err(e)) => log("res", json!({"r": id, "panic": e.is_panic()})),
                Ok(Ok(())) => {}
            }
        }
        log("settle", json!({}));
        tokio::time::sleep(Duration::from_millis(life.settle)).await;
    });
    {
        let _q = quiet();
        for h in held.lock().unwrap().iter() {
            if hash(&h.view) != h.hash { log("changed", json!({"r": h.rid, "now": parse_item(&h.view)})) }
        }
    }
    shared_snapshot(&scn);
    log("end", json!({"evicted": moka::chaos::EVICTED.load(Ordering::SeqCst), "files": dir.as_ref().map(|d| snapshot(d))}));
}
fn op_id(ops: &[Op], i: usize) -> u64 { ops[i].id }
