//! Stand-in for the parts of axum that the endpoints use: extractors are built by the simulator, bodies are collected.
pub use http;
pub type BoxError = Box<dyn std::error::Error + Send + Sync>;

pub mod body {
    use super::BoxError;
    use futures::{StreamExt, TryStream, TryStreamExt};
    pub use bytes::Bytes;
    pub struct Body(futures::stream::BoxStream<'static, Result<Bytes, BoxError>>);
    impl Body {
        pub fn empty() -> Self { Body(futures::stream::empty().boxed()) }
        pub fn from_stream<S>(s: S) -> Self where S: TryStream + Send + 'static, S::Ok: Into<Bytes>, S::Error: Into<BoxError> { Body(s.map_ok(Into::into).map_err(Into::into).into_stream().boxed()) }
        pub fn new(b: impl Into<Bytes>) -> Self { let b = b.into(); Body(futures::stream::once(async move { Ok(b) }).boxed()) }
        pub async fn collect(self) -> Result<Vec<u8>, BoxError> {
            let mut s = self.0; let mut v = vec![];
            while let Some(b) = s.next().await { v.extend_from_slice(&b?); }
            Ok(v)
        }
    }
    impl Default for Body { fn default() -> Self { Body::empty() } }
    macro_rules! from { ($($t:ty),*) => { $(impl From<$t> for Body { fn from(b: $t) -> Self { Body::new(b) } })* } }
    from!(Bytes, Vec<u8>, String, &'static str, &'static [u8]);
    impl From<()> for Body { fn from(_: ()) -> Self { Body::empty() } }
}

pub mod extract {
    pub struct State<T>(pub T);
    pub struct Path<T>(pub T);
    pub use http::Request;
    pub mod multipart {
        #[derive(Debug)]
        pub struct MultipartError(String);
        impl std::fmt::Display for MultipartError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
        impl std::error::Error for MultipartError {}
    }
}

pub struct Json<T>(pub T);
impl<T: serde::Serialize> response::IntoResponse for Json<T> {
    fn into_response(self) -> response::Response {
        http::Response::builder().header("content-type", "application/json").body(body::Body::from(serde_json::to_vec(&self.0).unwrap())).unwrap()
    }
}

pub mod response {
    use crate::body::Body;
    use http::StatusCode;
    pub type Response<T = Body> = http::Response<T>;
    pub trait IntoResponse { fn into_response(self) -> Response; }
    impl IntoResponse for http::Response<Body> { fn into_response(self) -> Response { self } }
    impl IntoResponse for StatusCode { fn into_response(self) -> Response { let mut r = http::Response::new(Body::empty()); *r.status_mut() = self; r } }
    impl IntoResponse for () { fn into_response(self) -> Response { http::Response::new(Body::empty()) } }
    macro_rules! into { ($($t:ty),*) => { $(impl IntoResponse for $t { fn into_response(self) -> Response { http::Response::new(Body::from(self)) } })* } }
    into!(Vec<u8>, String, &'static str, crate::body::Bytes);
    impl IntoResponse for Body { fn into_response(self) -> Response { http::Response::new(self) } }
    impl<T: IntoResponse> IntoResponse for (StatusCode, T) { fn into_response(self) -> Response { let mut r = self.1.into_response(); *r.status_mut() = self.0; r } }
    impl<T: IntoResponse, E: IntoResponse> IntoResponse for Result<T, E> { fn into_response(self) -> Response { match self { Ok(x) => x.into_response(), Err(e) => e.into_response() } } }
}
