//! One simulated life of the symbol server proxy. `proxysim svc <scenario.json> <life> <log>`
#![allow(dead_code, unused_imports)]
mod cachefam;
mod endpoints;
mod net;
mod svcfam;
mod util;

use axum::body::Body;
use axum::response::IntoResponse;
use serde_json::{json, Value};
use symbolicator_service::services::SharedServices;

/// What the endpoint sees of the request service.
mod service {
    use std::sync::Arc;
    use symbolicator_service::caching::CacheContents;
    use symbolicator_service::config::Config;
    pub use symbolicator_service::objects::{FindObject, FindResult, ObjectHandle, ObjectMetaHandle, ObjectPurpose, ObjectsActor};
    pub use symbolicator_service::types::Scope;
    #[derive(Debug)]
    pub struct MaxRequestsError;
    #[derive(Clone)]
    pub struct RequestService { pub config: Arc<Config>, pub objects: ObjectsActor }
    impl RequestService {
        pub fn config(&self) -> &Config { &self.config }
        pub async fn find_object(&self, request: FindObject) -> FindResult { self.objects.find(request).await }
        pub async fn fetch_object(&self, handle: Arc<ObjectMetaHandle>) -> CacheContents<Arc<ObjectHandle>> { self.objects.fetch(handle).await }
    }
}

fn setup(s: &SharedServices) -> svcfam::Ext {
    let svc = service::RequestService { config: std::sync::Arc::new(s.config.clone()), objects: s.objects.clone() };
    Box::new(move |_, _, v| {
        let svc = svc.clone();
        Box::pin(async move {
            let path = v["path"].as_str().unwrap().to_string();
            let req = axum::http::Request::builder().method(v["method"].as_str().unwrap()).uri("/proxy").body(Body::empty()).unwrap();
            let r = endpoints::proxy::proxy_symstore_request(axum::extract::State(svc), axum::extract::Path(path), req).await.into_response();
            let (p, b) = r.into_parts();
            let len = p.headers.get("content-length").map(|h| h.to_str().unwrap().to_string());
            let body = match b.collect().await { Ok(b) => json!({"len": b.len(), "hash": util::hash(&b)}), Err(e) => json!({"err": e.to_string()}) };
            json!({"status": p.status.as_u16(), "length": len, "body": body})
        })
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (scn, life, logp) = (a[2].as_str(), a[3].parse::<usize>().unwrap(), a[4].as_str());
    util::open_log(logp);
    util::panic_log();
    svcfam::SETUP.set(setup).ok();
    let scn: Value = serde_json::from_slice(&std::fs::read(scn).unwrap()).unwrap();
    svcfam::run(scn, life);
    util::exit(0);
}
