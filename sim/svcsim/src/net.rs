//! The simulated network servers. What they do is given by the scenario: files, hosts and rules that
//! disturb the n-th matching request. Every contact is logged.
use crate::util::{log, quiet};
use bytes::Bytes;
use serde::Deserialize;
use serde_json::{json, Value};
use simnet::{Connect, End, Handler, Plan, Req};
use std::collections::{BTreeMap, HashMap};
use std::net::IpAddr;
use std::sync::Mutex;
use std::time::Duration;
use url::Url;

#[derive(Debug, Clone, Deserialize, Default)]
#[serde(default)]
pub struct Act {
    /// ms before the head; negative: never
    pub head: i64,
    pub reset: bool,
    pub status: u16,
    pub body: Option<String>,
    pub headers: Vec<(String, String)>,
    /// bytes of the body that are sent before `end`
    pub cut: Option<usize>,
    pub end: Option<String>,
    pub chunk: usize,
    pub chunk_delay: i64,
    pub connect: Option<String>,
    pub connect_delay: i64,
    pub up_limit: Option<usize>,
    pub up_delay: i64,
    /// how a request for a range is answered
    pub range: Option<String>,
    /// error code of the S3 server
    pub code: Option<String>,
    /// the response is compressed for the transfer
    pub gz: bool,
    /// no content-length
    pub nolen: bool,
    /// the server holds another file at this time
    pub alt: Option<String>,
}
#[derive(Debug, Clone, Deserialize)]
pub struct Rule {
    pub m: String,
    #[serde(default)]
    pub not: Option<String>,
    #[serde(default)]
    pub method: Option<String>,
    #[serde(default)]
    pub first: u64,
    #[serde(default = "many")]
    pub count: u64,
    /// virtual ms since the start of the process from/until which the rule is in force
    #[serde(default)]
    pub from: i64,
    #[serde(default = "never")]
    pub until: i64,
    pub act: Act,
}
fn many() -> u64 { u64::MAX / 2 }
fn never() -> i64 { i64::MAX / 10_000_000 }

#[derive(Debug, Clone, Deserialize, Default)]
#[serde(default)]
pub struct NetCfg {
    pub rules: Vec<Rule>,
    pub hosts: BTreeMap<String, Vec<IpAddr>>,
    /// answers that change: the last one stays
    pub hosts_seq: BTreeMap<String, Vec<Vec<IpAddr>>>,
    /// file outside the simulated disk that holds the objects of the storage server
    pub gcs_state: Option<String>,
}

pub struct Net {
    pub cfg: NetCfg,
    start: i64,
    hits: Mutex<HashMap<(usize, u8), u64>>,
    gcs: Mutex<BTreeMap<String, Vec<u8>>>,
    open: Mutex<HashMap<u64, String>>,
    asked: Mutex<HashMap<String, usize>>,
    pub serve: Box<dyn Fn(&Req, &Act) -> Option<Plan> + Send + Sync>,
    /// what happens to a request that belongs to a scripted operation
    pub script: Option<Box<dyn Fn(&Req) -> (Option<Act>, Value) + Send + Sync>>,
    /// the same for connections
    pub conn: Option<Box<dyn Fn(&Url, Option<&str>) -> Option<Act> + Send + Sync>>,
}

impl Net {
    pub fn new(cfg: NetCfg, serve: Box<dyn Fn(&Req, &Act) -> Option<Plan> + Send + Sync>) -> Self {
        let mut gcs = BTreeMap::new();
        if let Some(p) = &cfg.gcs_state {
            let _q = quiet();
            if let Ok(b) = std::fs::read(p) {
                let m: BTreeMap<String, String> = serde_json::from_slice(&b).unwrap();
                for (k, v) in m { gcs.insert(k, (0..v.len() / 2).map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap()).collect()); }
            }
        }
        Net { cfg, start: crate::util::now(), hits: Default::default(), gcs: Mutex::new(gcs), open: Default::default(), asked: Default::default(), serve, script: None, conn: None }
    }
    /// The rule in force for this stage of a request. Each stage counts on its own.
    fn act(&self, stage: u8, method: &str, url: &str) -> Option<Act> {
        let t = (crate::util::now() - self.start) / 1_000_000;
        let mut hits = self.hits.lock().unwrap();
        let mut out = None;
        let plain = percent(url);
        for (i, r) in self.cfg.rules.iter().enumerate() {
            // "=..." is the whole URL without encoding
            if !r.m.strip_prefix('=').map_or_else(|| url.contains(&r.m), |m| plain == m) || r.not.as_ref().is_some_and(|n| url.contains(n)) || r.method.as_ref().is_some_and(|m| m != method) || t < r.from || t >= r.until { continue }
            let used = match stage { 0 => r.act.connect.is_some() || r.act.connect_delay > 0, 1 => r.act.up_limit.is_some() || r.act.up_delay > 0, _ => true };
            if !used { continue }
            let n = hits.entry((i, stage)).or_insert(0);
            *n += 1;
            if out.is_none() && *n - 1 >= r.first && *n - 1 < r.first.saturating_add(r.count) { out = Some(r.act.clone()); }
        }
        out
    }
    fn save(&self, gcs: &BTreeMap<String, Vec<u8>>) {
        if let Some(p) = &self.cfg.gcs_state {
            let m: BTreeMap<&String, String> = gcs.iter().map(|(k, v)| (k, v.iter().map(|b| format!("{b:02x}")).collect())).collect();
            let tmp = format!("{p}.new");
            std::fs::write(&tmp, serde_json::to_vec(&m).unwrap()).unwrap();
            std::fs::rename(&tmp, p).unwrap();
        }
    }
    fn gcs(&self, req: &Req) -> Option<Plan> {
        if req.url.host_str() == Some("gcp-auth.sim") { return Some(Plan::ok("sim-token")) }
        if req.url.host_str() != Some("storage.googleapis.com") { return None }
        self.cfg.gcs_state.as_ref()?;
        if req.header("authorization") != Some("Bearer sim-token") { return Some(Plan::status(401)) }
        let seg: Vec<String> = req.url.path_segments()?.map(|s| percent(s)).collect();
        let mut gcs = self.gcs.lock().unwrap();
        if req.method == "POST" {
            let q: HashMap<String, String> = req.url.query_pairs().into_owned().collect();
            let name = q.get("name")?.clone();
            if q.get("ifGenerationMatch").map(String::as_str) == Some("0") && gcs.contains_key(&name) { return Some(Plan::status(412)) }
            log("gcs_put", json!({"name": name, "len": req.body.len(), "was": gcs.contains_key(&name), "item": crate::util::parse_item(&req.body)}));
            gcs.insert(name, req.body.to_vec());
            self.save(&gcs);
            return Some(Plan::ok("{}"));
        }
        let i = seg.iter().position(|s| s == "o")?;
        let name = seg[i + 1..].join("/");
        match gcs.get(&name) {
            None => Some(Plan::status(404)),
            Some(b) if req.url.query().is_some_and(|q| q.contains("alt=media")) => Some(Plan::ok(b.clone())),
            Some(_) => Some(Plan::ok("{\"kind\":\"storage#object\"}")),
        }
    }
}
fn percent(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() { o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(b'%')); i += 3 } else { o.push(b[i]); i += 1 }
    }
    String::from_utf8_lossy(&o).into_owned()
}
fn ms(n: i64) -> Duration { Duration::from_millis(n.max(0) as u64) }

impl Handler for Net {
    fn resolve(&self, host: &str) -> Vec<IpAddr> {
        let r = match self.cfg.hosts_seq.get(host) {
            Some(l) => { let mut a = self.asked.lock().unwrap(); let n = a.entry(host.to_string()).or_default(); *n += 1; l.get(*n - 1).or(l.last()).cloned() }
            None => self.cfg.hosts.get(host).cloned(),
        };
        log("dns", json!({"host": host, "known": r.is_some()}));
        r.unwrap_or_else(|| vec!["93.184.216.34".parse().unwrap()])
    }
    fn connect(&self, url: &Url, range: Option<&str>) -> Connect {
        let a = self.conn.as_ref().and_then(|c| c(url, range)).or_else(|| self.act(0, "", url.as_str())).unwrap_or_default();
        log("connect", json!({"url": url.as_str(), "how": a.connect, "range": range}));
        match a.connect.as_deref() {
            None | Some("ok") => Connect::Ok(ms(a.connect_delay)),
            Some("refused") => Connect::Refused(ms(a.connect_delay)),
            Some("dns") => Connect::ResolveFailed(ms(a.connect_delay)),
            Some("hang") => Connect::Hang,
            Some(o) => panic!("connect {o}"),
        }
    }
    fn upload_limit(&self, id: u64, method: &str, url: &Url) -> Option<usize> {
        log("upload", json!({"id": id, "url": url.as_str()}));
        let a = self.act(1, method, url.as_str())?;
        self.open.lock().unwrap().insert(id, a.up_delay.to_string());
        a.up_limit
    }
    fn upload_delay(&self, id: u64, _method: &str, _url: &Url) -> Duration {
        self.open.lock().unwrap().remove(&id).and_then(|s| s.parse().ok()).map_or(Duration::ZERO, ms)
    }
    fn handle(&self, req: &Req) -> Plan {
        let _q = quiet();
        let (act, note) = match &self.script { Some(s) => s(req), None => (None, Value::Null) };
        let act = act.or_else(|| self.act(2, &req.method, req.url.as_str()));
        let early = act.as_ref().is_some_and(|a| a.status != 0 || (a.reset && a.body.as_deref() != Some("applied")) );
        let mut plan = if early { Plan::status(act.as_ref().unwrap().status.max(200)) } else { self.gcs(req).or_else(|| (self.serve)(req, act.as_ref().unwrap_or(&Act::default()))).unwrap_or_else(|| Plan::status(404)) };
        if let Some(a) = &act {
            plan.head_delay = if a.head < 0 { None } else { Some(ms(a.head)) };
            plan.reset_before_head = a.reset;
            if a.status != 0 {
                plan.status = a.status;
                if let Some(c) = &a.code { plan.headers.push(("x-s3-code".into(), c.clone())); }
                if let Some(b) = &a.body { plan.headers.push(("content-length".into(), b.len().to_string())); plan.chunks = vec![(Duration::ZERO, Bytes::from(b.clone()))]; }
            }
            for h in &a.headers { plan.headers.retain(|(k, _)| !k.eq_ignore_ascii_case(&h.0)); plan.headers.push(h.clone()); }
            if a.cut.is_some() || a.chunk > 0 {
                let mut all: Vec<u8> = plan.chunks.iter().flat_map(|c| c.1.to_vec()).collect();
                if let Some(c) = a.cut.filter(|c| *c < all.len()) {
                    all.truncate(c);
                    plan.end = match a.end.as_deref() { Some("stall") => End::Stall, Some("ok") => End::Ok, _ => End::Reset };
                }
                let n = if a.chunk > 0 { a.chunk } else { all.len().max(1) };
                plan.chunks = all.chunks(n).map(|c| (ms(a.chunk_delay), Bytes::copy_from_slice(c))).collect();
            }
        }
        self.open.lock().unwrap().insert(req.id, req.url.to_string());
        log("net", json!({"id": req.id, "proto": req.proto, "m": req.method, "url": req.url.as_str(), "ip": req.ip.map(|i| i.to_string()), "h": req.headers, "cert": req.accepts_invalid_certs, "st": plan.status,
            "reset": plan.reset_before_head, "head": plan.head_delay.map(|d| d.as_millis() as i64), "end": format!("{:?}", plan.end), "len": plan.chunks.iter().map(|c| c.1.len()).sum::<usize>(), "act": act.is_some(), "note": note, "body": if req.method == "POST" && req.body.len() < 2000 { Some(String::from_utf8_lossy(&req.body).into_owned()) } else { None }, "cr": plan.headers.iter().find(|h| h.0 == "content-range").map(|h| h.1.clone())}));
        plan
    }
    fn done(&self, id: u64, finished: bool) {
        self.open.lock().unwrap().remove(&id);
        log("netdone", json!({"id": id, "fin": finished}));
    }
}
