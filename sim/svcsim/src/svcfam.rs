//! Downloads, source indexes and object lookups against simulated servers.
use crate::cachefam::{err_json, snapshot};
use crate::net::{Act, Net, NetCfg};
use crate::util::*;
use serde::Deserialize;
use serde_json::{json, Value};
use simnet::{Plan, Req};
use std::collections::{BTreeMap, HashMap};
use std::io::{Read as _, Write as _};
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use symbolicator_service::caching;
use symbolicator_service::config::Config;
use symbolicator_service::download::{self, fetch_file, FileType, ObjectId, RemoteFile, SourceConfig, SourceLocation};
use symbolicator_service::objects::{FindObject, FindResult, ObjectPurpose};
use symbolicator_service::services::SharedServices;
use symbolicator_service::types::Scope;
use symbolicator_sources::{FilesystemRemoteFile, GcsRemoteFile, HttpRemoteFile, S3RemoteFile, SentryFileId, SentryRemoteFile, SourceIndex};

#[derive(Debug, Clone, Deserialize, Default)]
#[serde(default)]
pub struct Oid { code_id: Option<String>, code_file: Option<String>, debug_id: Option<String>, debug_file: Option<String>, debug_checksum: Option<String>, object_type: String }
impl Oid {
    /// As the identifier of a module in a request is read.
    fn make(&self) -> ObjectId {
        ObjectId {
            code_id: self.code_id.as_deref().filter(|s| !s.is_empty()).and_then(|s| s.parse().ok()),
            code_file: self.code_file.clone(),
            debug_id: self.debug_id.as_deref().filter(|s| !s.is_empty()).and_then(|s| s.parse().ok()),
            debug_file: self.debug_file.clone(),
            debug_checksum: self.debug_checksum.clone(),
            object_type: serde_json::from_value(json!(self.object_type)).unwrap(),
        }
    }
}

#[derive(Debug, Clone, Deserialize)]
pub struct Op {
    /// ms after the start of the life
    at: u64,
    op: String,
    id: u64,
    #[serde(default)] src: usize,
    #[serde(default)] loc: String,
    #[serde(default)] url: Option<String>,
    #[serde(default = "yes")] verify: bool,
    #[serde(default)] how: String,
    #[serde(default)] abandon: Option<u64>,
    #[serde(default)] types: Vec<String>,
    /// take the types that belong to the type of the object
    #[serde(default)] auto: Option<String>,
    #[serde(default)] purpose: String,
    #[serde(default)] scope: Option<String>,
    #[serde(default)] oid: Oid,
    #[serde(default)] srcs: Vec<usize>,
    #[serde(default)] ns: i64,
    #[serde(default)] key: String,
    #[serde(default)] val: Value,
}
fn yes() -> bool { true }
fn one() -> usize { 1 }

#[derive(Debug, Clone, Deserialize, Default)]
#[serde(default)]
pub struct Script { conn: Option<Act>, init: Option<Act>, part: Vec<Act>, fb: Option<Act>, hop: Option<Act> }

#[derive(Debug, Clone, Deserialize)]
pub struct Life {
    #[serde(default = "one")] workers: usize,
    ops: Vec<Op>,
    #[serde(default)] settle: u64,
    #[serde(default)] limit: u64,
    #[serde(default)] kill: Option<u64>,
    #[serde(default)] chaos: u64,
    #[serde(default)] net: NetCfg,
    #[serde(default)] scripts: BTreeMap<String, Vec<Script>>,
    #[serde(default)] snapshot: bool,
    /// what the servers hold at the start of this life, in addition
    #[serde(default)] files: BTreeMap<String, Value>,
    /// wait for the shared cache before the first operation
    #[serde(default)] wait: bool,
}

// ---------------------------------------------------------------- extension
/// Operations of another simulation on top of the same servers: given the sources, scope and arguments.
pub type Ext = Box<dyn Fn(Arc<[SourceConfig]>, Scope, Value) -> std::pin::Pin<Box<dyn std::future::Future<Output = Value> + Send>> + Send + Sync>;
pub static SETUP: std::sync::OnceLock<fn(&SharedServices) -> Ext> = std::sync::OnceLock::new();
/// How archives are built.
pub static CONTENT: std::sync::OnceLock<fn(&Value) -> Vec<u8>> = std::sync::OnceLock::new();

// ---------------------------------------------------------------- content
pub fn content(v: &Value) -> Vec<u8> {
    if let Some(a) = v.get("noise") { return noise(a[0].as_u64().unwrap(), a[1].as_u64().unwrap() as usize) }
    if let Some(h) = v.get("hex") { let h = h.as_str().unwrap(); return (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect() }
    if let Some(t) = v.get("text") { return t.as_str().unwrap().as_bytes().to_vec() }
    if let Some(b) = v.get("bundle") { return CONTENT.get().unwrap()(b) }
    let mut of = content(&v["of"]);
    if let Some(n) = v.get("cut") { of.truncate(n.as_u64().unwrap() as usize); return of }
    match v["enc"].as_str().unwrap() {
        "gzip" => { let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(5)); e.write_all(&of).unwrap(); e.finish().unwrap() }
        "zlib" => { let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(9)); e.write_all(&of).unwrap(); e.finish().unwrap() }
        "zstd" => zstd::stream::encode_all(&of[..], 1).unwrap(),
        o => panic!("enc {o}"),
    }
}
fn percent(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 && u8::from_str_radix(&String::from_utf8_lossy(&b[i + 1..i + 3]), 16).is_ok() { o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 3 } else { o.push(b[i]); i += 1 }
    }
    String::from_utf8_lossy(&o).into_owned()
}
/// The operation a request belongs to, from the marker `op<k>~` in its path.
fn op_of(s: &str) -> Option<u64> {
    let e = s.find('~')?;
    let d = s[..e].rfind(|c: char| !c.is_ascii_digit())? + 1;
    if d >= 2 && &s[d - 2..d] == "op" { s[d..e].parse().ok() } else { None }
}
fn strip_op(s: &str) -> String {
    let Some(k) = op_of(s) else { return s.to_string() };
    let m = format!("op{k}~");
    let s2 = s.replacen(&format!("{m}/"), "", 1);
    if s2 != s { s2 } else { s.replacen(&m, "", 1) }
}

// ---------------------------------------------------------------- servers
#[derive(Default)]
struct OpState { attempts: usize, parts: usize }

struct Servers {
    files: Mutex<BTreeMap<String, Vec<u8>>>,
    /// files that differ by who asks for them: key -> credential -> content
    keyed: BTreeMap<String, BTreeMap<String, Vec<u8>>>,
    /// hosts of Sentry's own endpoints: url prefix -> token -> files
    sentry: Mutex<Value>,
    /// hosts or buckets that do not know ranges
    norange: Vec<String>,
    gcs: Value,
    tokens: Mutex<HashMap<String, (String, i64)>>,
    ntok: Mutex<u64>,
    ops: Mutex<HashMap<u64, OpState>>,
    scripts: BTreeMap<String, Vec<Script>>,
}

impl Servers {
    fn script(&self, req: &Req) -> (Option<Act>, Value) {
        let url = percent(req.url.as_str());
        let Some(op) = op_of(&url) else { return (None, Value::Null) };
        let mut ops = self.ops.lock().unwrap();
        let st = ops.entry(op).or_default();
        let range = req.header("range").map(|s| s.to_string());
        let none = Script::default();
        let list = self.scripts.get(&op.to_string());
        let at = |n: usize| list.map_or(&none, |l| l.get(n).unwrap_or_else(|| l.last().unwrap_or(&none)));
        let (stage, act) = if url.contains("hop=") { ("hop", at(st.attempts.max(1) - 1).hop.clone()) }
            else if req.proto == "s3" || range.as_deref().is_some_and(|r| r.starts_with("bytes=0-")) { st.attempts += 1; st.parts = 0; ("init", at(st.attempts - 1).init.clone()) }
            else if range.is_some() { st.parts += 1; ("part", at(st.attempts.max(1) - 1).part.get(st.parts - 1).cloned()) }
            else { ("fb", at(st.attempts.max(1) - 1).fb.clone()) };
        (act, json!({"op": op, "a": st.attempts, "stage": stage, "range": range}))
    }
    fn conn(&self, url: &url::Url, range: Option<&str>) -> Option<Act> {
        let url = percent(url.as_str());
        let op = op_of(&url)?;
        if url.contains("hop=") || !range.is_some_and(|r| r == "s3" || r.starts_with("bytes=0-")) { return None }
        let mut ops = self.ops.lock().unwrap();
        let st = ops.entry(op).or_default();
        let l = self.scripts.get(&op.to_string())?;
        let a = l.get(st.attempts).or_else(|| l.last())?.conn.clone()?;
        if a.connect.as_deref().is_some_and(|c| c != "ok") { st.attempts += 1; }
        Some(a)
    }
    fn lookup(&self, key: &str) -> Option<Vec<u8>> { self.files.lock().unwrap().get(&strip_op(key)).cloned() }

    fn serve(&self, req: &Req, act: &Act) -> Option<Plan> {
        let host = req.url.host_str().unwrap_or("").to_string();
        if req.proto == "s3" {
            let key = format!("s3/{}/{}", req.header("x-bucket").unwrap_or(""), req.header("x-key").unwrap_or(""));
            let found = match self.for_whom(&key, req.header("x-access-key")) {
                Some(None) => { let mut p = Plan::status(403); p.headers.push(("x-s3-code".into(), "AccessDenied".into())); return Some(p) }
                Some(b) => b,
                None => self.lookup(act.alt.as_deref().unwrap_or(&key)),
            };
            return Some(match found {
                Some(b) => Plan::ok(b),
                None => { let mut p = Plan::status(404); p.headers.push(("x-s3-code".into(), "NoSuchKey".into())); p }
            });
        }
        if host == "www.googleapis.com" && req.method == "POST" { return Some(self.token(req)) }
        let path = percent(req.url.path());
        if host == "storage.googleapis.com" {
            let seg: Vec<&str> = req.url.path().trim_start_matches('/').splitn(6, '/').collect();
            if seg.len() < 6 || seg[..3] != ["storage", "v1", "b"] || seg[4] != "o" || req.url.query() != Some("alt=media") { log("issue", json!({"what": "strange storage request", "url": req.url.as_str()})); return Some(Plan::status(404)) }
            let (bucket, name) = (percent(seg[3]), percent(seg[5]));
            if let Some(p) = self.auth(req, &bucket) { return Some(p) }
            return self.body(req, act, self.lookup(&format!("gcs/{bucket}/{name}")), &bucket);
        }
        let base = { let mut u = req.url.clone(); u.set_query(None); u.to_string() };
        let sentry = self.sentry.lock().unwrap().clone();
        if let Some(project) = sentry.get(&base) {
            let q: HashMap<String, String> = req.url.query_pairs().into_owned().collect();
            let tok = req.header("authorization").and_then(|a| a.strip_prefix("Bearer ")).unwrap_or("").to_string();
            let Some(files) = project.get(&tok) else { return Some(Plan::status(401)) };
            if let Some(id) = q.get("id") {
                let bare = strip_op(id);
                if !files.as_array().unwrap().iter().any(|f| f["id"].as_str() == Some(&bare) || f["id"].as_str() == Some(id)) { return Some(Plan::status(404)) }
                let key = format!("sentry/{bare}");
                return match self.for_whom(&key, Some(&tok)) {
                    Some(None) => Some(Plan::status(404)),
                    Some(b) => self.body(req, act, b, "sentry"),
                    None => self.body(req, act, self.lookup(&key), "sentry"),
                };
            }
            let hit: Vec<Value> = files.as_array().unwrap().iter().filter(|f| match (q.get("debug_id"), q.get("code_id")) {
                (Some(d), _) => f["debugId"].as_str() == Some(d), (_, Some(c)) => f["codeId"].as_str() == Some(c), _ => true,
            }).cloned().collect();
            let mut p = Plan::ok(serde_json::to_vec(&hit).unwrap());
            log("search", json!({"id": req.id, "base": base, "q": req.url.query(), "tok": tok, "len": p.chunks.iter().map(|c| c.1.len()).sum::<usize>(), "hit": hit.iter().map(|h| json!([h["id"], h["symbolType"]])).collect::<Vec<_>>()}));
            p.headers.push(("content-type".into(), "application/json".into()));
            return Some(p);
        }
        let port = req.url.port().map(|p| format!(":{p}")).unwrap_or_default();
        let mut key = format!("{host}{port}{path}");
        let q: Vec<String> = req.url.query().unwrap_or("").split('&').filter(|s| !s.is_empty() && !s.starts_with("hop=")).map(percent).collect();
        if !q.is_empty() { key = format!("{key}?{}", q.join("&")) }
        match self.for_whom(&key, req.header("authorization")) {
            Some(None) => Some(Plan::status(401)),
            Some(b) => self.body(req, act, b, &host),
            None => self.body(req, act, self.lookup(&key), &host),
        }
    }
    fn for_whom(&self, key: &str, who: Option<&str>) -> Option<Option<Vec<u8>>> { self.keyed.get(key).map(|m| m.get(who.unwrap_or("")).cloned()) }
    /// The answer with the file, as asked for in the request and disturbed as the rule says.
    fn body(&self, req: &Req, act: &Act, data: Option<Vec<u8>>, who: &str) -> Option<Plan> {
        let data = match &act.alt { Some(k) => self.lookup(k)?, None => data? };
        let mode = act.range.clone().unwrap_or_else(|| if self.norange.iter().any(|n| n == who) { "ignore".into() } else { "std".into() });
        let (mode, n) = match mode.split_once(':') { Some((m, n)) => (m.to_string(), n.parse::<usize>().unwrap()), None => (mode, 0) };
        let range = req.header("range").and_then(|r| r.strip_prefix("bytes=")).and_then(|r| r.split_once('-')).and_then(|(a, b)| Some((a.parse::<usize>().ok()?, if b.is_empty() { usize::MAX } else { b.parse::<usize>().ok()? })));
        let mut p = match range {
            Some((a, b)) if mode != "ignore" => {
                let len = data.len();
                if mode == "416" || (a >= len && mode != "zero") || b < a {
                    let mut p = Plan::status(416);
                    p.headers.push(("content-range".into(), format!("bytes */{len}")));
                    p.headers.push(("content-length".into(), "0".into()));
                    p
                } else if mode == "zero" {
                    let mut p = Plan::status(206);
                    p.headers.push(("content-range".into(), "bytes 0-0/0".into()));
                    p.headers.push(("content-length".into(), "1".into()));
                    p
                } else {
                    let (mut a2, mut b2) = (a, b.min(len - 1));
                    if mode == "shift" { a2 = (a2 + n).min(len - 1); b2 = (b2 + n).min(len - 1).max(a2) }
                    if mode == "short" { b2 = b2.saturating_sub(n).max(a2) }
                    let mut p = Plan::ok(data[a2..=b2].to_vec());
                    p.status = 206;
                    let total = match mode.as_str() { "othertotal" => format!("{}", len + n), "nototal" => "*".into(), _ => len.to_string() };
                    match mode.as_str() {
                        "none" => {}
                        "bad" => p.headers.push(("content-range".into(), format!("bytes {b2}-{a2}/x"))),
                        _ => p.headers.push(("content-range".into(), format!("bytes {a2}-{b2}/{total}"))),
                    }
                    p
                }
            }
            _ => {
                if act.gz && req.header("accept-encoding").is_some_and(|e| e.contains("gzip")) {
                    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(5));
                    e.write_all(&data).unwrap();
                    let mut p = Plan::ok(e.finish().unwrap());
                    p.headers.push(("content-encoding".into(), "gzip".into()));
                    p
                } else { Plan::ok(data) }
            }
        };
        if act.nolen { p.headers.retain(|h| h.0 != "content-length") }
        Some(p)
    }
    fn token(&self, req: &Req) -> Plan {
        let b: Value = serde_json::from_slice(&req.body).unwrap_or_default();
        let claims: Value = b["assertion"].as_str().and_then(|s| serde_json::from_str(s).ok()).unwrap_or_default();
        let iss = claims["iss"].as_str().unwrap_or("").to_string();
        let (iat, exp) = (claims["iat"].as_i64().unwrap_or(0), claims["exp"].as_i64().unwrap_or(0));
        let w = wall() / 1_000_000_000;
        let mut n = self.ntok.lock().unwrap();
        *n += 1;
        let tok = format!("tok-{iss}-{}", *n);
        // the clock of the server is never changed
        self.tokens.lock().unwrap().insert(tok.clone(), (iss.clone(), now() + (exp - iat) * 1_000_000_000));
        log("token", json!({"iss": iss, "tok": tok, "iat": iat, "exp": exp, "off": iat - w, "id": req.id}));
        let mut p = Plan::ok(serde_json::to_vec(&json!({"access_token": tok})).unwrap());
        p.headers.push(("content-type".into(), "application/json".into()));
        p
    }
    /// Rejects a request for an object without a valid token.
    fn auth(&self, req: &Req, bucket: &str) -> Option<Plan> {
        let tok = req.header("authorization").and_then(|a| a.strip_prefix("Bearer ")).unwrap_or("").to_string();
        let allowed = self.gcs.get(bucket).and_then(|v| v.as_array().cloned()).unwrap_or_default();
        let t = self.tokens.lock().unwrap().get(&tok).cloned();
        let why = match &t {
            None => "unknown token",
            Some((_, exp)) if now() >= *exp => "expired token",
            Some((iss, _)) if !allowed.iter().any(|a| a.as_str() == Some(iss)) => "foreign token",
            _ => "ok",
        };
        log("auth", json!({"tok": tok, "bucket": bucket, "why": why, "id": req.id}));
        match why { "ok" => None, "foreign token" => Some(Plan::status(403)), _ => Some(Plan::status(401)) }
    }
}

// ---------------------------------------------------------------- operations
fn remote(sources: &[SourceConfig], op: &Op) -> RemoteFile {
    if let Some(u) = &op.url { return HttpRemoteFile::from_url(u.parse().unwrap(), op.verify).into() }
    let loc = SourceLocation::new(op.loc.clone());
    match &sources[op.src] {
        SourceConfig::Filesystem(c) => FilesystemRemoteFile::new(c.clone(), loc).into(),
        SourceConfig::Gcs(c) => GcsRemoteFile::new(c.clone(), loc).into(),
        SourceConfig::Http(c) => HttpRemoteFile::new(c.clone(), loc).into(),
        SourceConfig::S3(c) => S3RemoteFile::new(c.clone(), loc).into(),
        SourceConfig::Sentry(c) => SentryRemoteFile::new(c.clone(), true, SentryFileId(op.loc.as_str().into()), None).into(),
    }
}
fn describe(f: &RemoteFile) -> Value {
    let mut v = json!({"uri": f.uri().to_string(), "key": f.cache_key(), "src": f.source_id().to_string(), "host": f.host(), "public": f.is_public(), "metric": f.source_metric_key(), "disp": f.to_string(), "shared": f.worth_using_shared_cache()});
    let o = v.as_object_mut().unwrap();
    match f {
        RemoteFile::Http(h) => { o.insert("url".into(), json!(h.url().ok().map(|u| u.to_string()))); o.insert("h".into(), json!(h.headers)); }
        RemoteFile::Sentry(s) => { o.insert("url".into(), json!(s.url().to_string())); }
        RemoteFile::Filesystem(s) => { o.insert("path".into(), json!(s.path().to_string_lossy())); }
        RemoteFile::S3(s) => { o.insert("s3key".into(), json!(s.key())); }
        RemoteFile::Gcs(s) => { o.insert("s3key".into(), json!(s.key())); }
    }
    v
}
fn types_of(op: &Op) -> &'static [FileType] {
    match op.auto.as_deref() {
        Some("object") => FileType::from_object_type(op.oid.make().object_type),
        Some("sources") => FileType::sources(),
        Some("all") => FileType::all(),
        _ => Box::leak(op.types.iter().map(|t| serde_json::from_value::<FileType>(json!(t)).unwrap()).collect::<Vec<_>>().into_boxed_slice()),
    }
}
fn of_file(p: &Path) -> Value {
    let _q = quiet();
    match std::fs::read(p) { Ok(b) => json!({"len": b.len(), "hash": hash(&b)}), Err(e) => json!({"gone": e.to_string()}) }
}
fn found(r: &FindResult) -> Value {
    let meta = r.meta.as_ref().map(|m| {
        let mut v = json!({"uri": m.file_source.uri().to_string(), "src": m.file_source.source_id().to_string()});
        match &m.handle {
            Ok(h) => { v["feat"] = json!(h.features()); v["scope"] = json!(h.scope().to_string()); }
            Err(e) => v["err"] = err_json(e),
        }
        v
    });
    json!({"meta": meta, "cand": serde_json::to_value(&r.candidates).unwrap()})
}

struct World { ext: Option<Ext>, svc: SharedServices, sources: Vec<SourceConfig>, servers: Arc<Servers>, dir: PathBuf, config: Config }

async fn act(w: &World, op: &Op) -> Value {
    let scope = match &op.scope { None => Scope::Global, Some(s) => Scope::Scoped(s.as_str().into()) };
    let srcs = || -> Arc<[SourceConfig]> { op.srcs.iter().map(|i| w.sources[*i].clone()).collect::<Vec<_>>().into() };
    match op.op.as_str() {
        "dl" => {
            let f = remote(&w.sources, op);
            log("file", json!({"r": op.id, "f": describe(&f)}));
            let path = w.dir.join(format!("op{}", op.id));
            let r = if op.how == "fetch" {
                let mut tf = { let _q = quiet(); tempfile::Builder::new().tempfile_in(&w.dir).unwrap() };
                let r = fetch_file(w.svc.download_svc.clone(), f, &mut tf).await;
                let mut b = vec![];
                { let _q = quiet(); tf.reopen().unwrap().read_to_end(&mut b).unwrap(); std::fs::write(&path, &b).unwrap(); }
                r
            } else { w.svc.download_svc.download(f, path.clone()).await };
            match r { Ok(()) => json!({"ok": of_file(&path)}), Err(e) => json!({"err": err_json(&e)}) }
        }
        "find" | "fetch" => {
            let purpose = match op.purpose.as_str() { "unwind" => ObjectPurpose::Unwind, "source" => ObjectPurpose::Source, _ => ObjectPurpose::Debug };
            let r = w.svc.objects.find(FindObject { filetypes: types_of(op), purpose, scope, identifier: op.oid.make(), sources: srcs() }).await;
            let mut v = found(&r);
            if op.op == "fetch" {
                if let Some(Ok(h)) = r.meta.map(|m| m.handle) {
                    v["data"] = match w.svc.objects.fetch(h).await { Ok(o) => { let _q = quiet(); json!({"ok": {"len": o.data().len(), "hash": hash(o.data()), "did": o.object().debug_id().to_string()}}) } Err(e) => json!({"err": err_json(&e)}) };
                }
            }
            v
        }
        "list" => {
            let l = download::list_files(&w.svc.download_svc, &w.svc.source_index_svc, &srcs(), types_of(op), &op.oid.make()).await;
            json!({"files": l.iter().map(describe).collect::<Vec<_>>()})
        }
        "index" => match w.svc.source_index_svc.fetch_index(scope, &w.sources[op.src]).await {
            None => json!({"index": null}),
            Some(SourceIndex::Symstore(i)) => json!({"index": i.iter().collect::<Vec<_>>()}),
        },
        "wall" => { wall_jump(op.ns); log("wall", json!({"ns": op.ns})); json!({}) }
        "put" => { let _q = quiet(); w.servers.files.lock().unwrap().insert(op.key.clone(), content(&op.val)); json!({}) }
        "del" => { w.servers.files.lock().unwrap().remove(&op.key); json!({}) }
        "sentry" => { *w.servers.sentry.lock().unwrap() = op.val.clone(); json!({}) }
        "cleanup" => {
            let (tx, rx) = tokio::sync::oneshot::channel();
            let config = w.config.clone();
            std::thread::spawn(move || { let r = caching::cleanup(config, false); tx.send(r.err().map(|e| e.to_string())).ok(); });
            json!({"err": rx.await.ok().flatten()})
        }
        o => match &w.ext { Some(f) => f(srcs(), scope, op.val.clone()).await, None => panic!("op {o}") },
    }
}

pub fn run(scn: Value, nlife: usize) {
    let life: Life = serde_json::from_value(scn["lives"][nlife].clone()).expect("life");
    let config: Config = serde_json::from_value(scn["config"].clone()).expect("config");
    let sources: Vec<SourceConfig> = serde_json::from_value(scn["sources"].clone()).expect("sources");
    let files: BTreeMap<String, Vec<u8>> = scn["files"].as_object().map(|m| m.iter().filter(|(_, v)| v.get("by").is_none()).map(|(k, v)| (k.clone(), content(v))).collect()).unwrap_or_default();
    let mut files = files;
    for (k, v) in &life.files { files.insert(k.clone(), content(v)); }
    let keyed = scn["files"].as_object().map(|m| m.iter().filter_map(|(k, v)| Some((k.clone(), v.get("by")?.as_object()?.iter().map(|(a, v)| (a.clone(), content(v))).collect()))).collect()).unwrap_or_default();
    let servers = Arc::new(Servers {
        files: Mutex::new(files), keyed, sentry: Mutex::new(scn["sentry"].clone()), gcs: scn["gcs"].clone(),
        norange: scn["norange"].as_array().map(|a| a.iter().map(|v| v.as_str().unwrap().to_string()).collect()).unwrap_or_default(),
        tokens: Default::default(), ntok: Mutex::new(nlife as u64 * 1000), ops: Default::default(), scripts: life.scripts.clone(),
    });
    if scn["contents"].as_bool() == Some(true) {
        let _q = quiet();
        let m: BTreeMap<String, Value> = scn["files"].as_object().unwrap().iter().map(|(k, v)| {
            let b = content(v);
            let inner = if v.get("enc").is_some() { content(&v["of"]) } else { b.clone() };
            (k.clone(), json!([b.len(), hash(&b), inner.len(), hash(&inner)]))
        }).collect();
        log("content", json!({"m": m}));
    }
    let start = now();
    let mut net = Net::new(life.net.clone(), { let s = servers.clone(); Box::new(move |r, a| s.serve(r, a)) });
    net.script = Some({ let s = servers.clone(); Box::new(move |r| s.script(r)) });
    net.conn = Some({ let s = servers.clone(); Box::new(move |u, r| s.conn(u, r)) });
    simnet::set_handler(Arc::new(net));
    if life.chaos > 0 { moka::chaos::set(scn["seed"].as_u64().unwrap() + nlife as u64, life.chaos); }
    log("start", json!({"life": nlife}));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(life.workers).enable_time().max_blocking_threads(4).build().unwrap();
    let svc = match SharedServices::new(config.clone(), rt.handle().clone()) { Ok(s) => s, Err(e) => { log("nostart", json!({"err": format!("{e:#}")})); exit(3) } };
    let dir = PathBuf::from(scn["dldir"].as_str().unwrap_or("/nonexistent"));
    let w = Arc::new(World { ext: SETUP.get().map(|f| f(&svc)), svc, sources, servers, dir, config: config.clone() });
    let limit = Duration::from_secs(if life.limit > 0 { life.limit } else { 4 * 3600 });
    rt.block_on(async {
        if life.wait && config.shared_cache.is_some() { for _ in 0..400 { if w.svc.shared_cache.get().is_some() { break } tokio::time::sleep(Duration::from_millis(10)).await } }
        let t0 = tokio::time::Instant::now();
        log("go", json!({"off": now() - start}));
        if let Some(k) = life.kill { tokio::spawn(async move { tokio::time::sleep_until(t0 + Duration::from_millis(k)).await; log("kill", json!({})); exit(77) }); }
        let mut tasks = vec![];
        for op in life.ops.clone() {
            let w = w.clone();
            let id = op.id;
            tasks.push((id, tokio::spawn(async move {
                tokio::time::sleep_until(t0 + Duration::from_millis(op.at)).await;
                log("req", json!({"r": op.id, "op": op.op}));
                let fut = act(&w, &op);
                let mut v = match op.abandon {
                    None => fut.await,
                    Some(ms) => tokio::time::timeout(Duration::from_millis(ms), fut).await.unwrap_or_else(|_| json!({"aband": true})),
                };
                v["r"] = json!(op.id);
                log("res", v);
            })));
        }
        let last = life.ops.iter().map(|o| o.at).max().unwrap_or(0);
        let end = t0 + Duration::from_millis(last) + limit;
        for (id, t) in tasks {
            match tokio::time::timeout_at(end, t).await {
                Err(_) => log("hang", json!({"r": id})),
                Ok(Err(e)) => log("res", json!({"r": id, "panic": e.is_panic()})),
                Ok(Ok(())) => {}
            }
        }
        log("settle", json!({}));
        tokio::time::sleep(Duration::from_millis(life.settle)).await;
    });
    let dl: BTreeMap<String, Value> = life.ops.iter().filter(|o| o.op == "dl").map(|o| (o.id.to_string(), of_file(&w.dir.join(format!("op{}", o.id))))).collect();
    log("end", json!({"evicted": moka::chaos::EVICTED.load(Ordering::SeqCst), "dl": dl, "lines": cadence::LINES.lock().map(|l| l.len()).unwrap_or(0),
        "files": if life.snapshot { config.cache_dir.as_ref().map(|d| snapshot(d)) } else { None }}));
}
