//! Stand-in for `tracing-subscriber`; nothing is logged.
pub trait Layer<S> {}
pub struct Sub;
pub mod fmt {
    use super::Sub;
    pub mod time { pub struct UtcTime; impl UtcTime { pub fn rfc_3339() -> Self { UtcTime } } }
    pub trait MakeWriter<'a> {}
    impl<'a, F> MakeWriter<'a> for F where F: Fn() -> std::io::Stderr {}
    pub struct B;
    pub fn fmt() -> B { B }
    impl B {
        pub fn with_timer<T>(self, _: T) -> Self { self }
        pub fn with_target(self, _: bool) -> Self { self }
        pub fn with_env_filter(self, _: &str) -> Self { self }
        pub fn json(self) -> Self { self }
        pub fn flatten_event(self, _: bool) -> Self { self }
        pub fn with_current_span(self, _: bool) -> Self { self }
        pub fn with_span_list(self, _: bool) -> Self { self }
        pub fn with_file(self, _: bool) -> Self { self }
        pub fn with_line_number(self, _: bool) -> Self { self }
        pub fn with_writer<W>(self, _: W) -> Self { self }
        pub fn finish(self) -> Sub { Sub }
    }
}
pub mod prelude {
    pub use crate::SubscriberExt;
}
pub trait SubscriberExt: Sized { fn with<L>(self, _: L) -> Self { self } }
impl SubscriberExt for Sub {}
pub mod util { pub trait SubscriberInitExt: Sized { fn init(self) {} } impl SubscriberInitExt for super::Sub {} }
