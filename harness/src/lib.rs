//! Runtime monitors for rstar: workload generators, exact oracles and the case runner.
pub mod custom;
pub mod gen;
pub mod kinds;
pub mod rng;
pub mod runner;
pub mod scalar;
pub mod spec;
pub mod sut;
pub mod world;

/// A violation of the property under test; everything a monitor reports goes through this.
#[derive(Clone, Debug)]
pub struct Violation(pub String);

/// Report a violation and end the current case
#[macro_export]
macro_rules! viol {
    ($($a:tt)*) => { std::panic::panic_any($crate::Violation(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { $crate::viol!($($a)*) } };
}
