mod error;
pub mod proxy;
pub use self::error::ResponseError;
