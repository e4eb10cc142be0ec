//! Stand-in for `rand` 0.9: the only use is sampling of log messages.
pub trait Sample { fn sample() -> Self; }
impl Sample for f64 { fn sample() -> f64 { 0.5 } }
pub fn random<T: Sample>() -> T { T::sample() }
