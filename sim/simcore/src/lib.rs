pub mod rng;
pub mod runner;
pub mod sched;
pub use rng::{derive, mix, Rng};
pub use runner::*;
pub use sched::{active, edges, harness, sut, Dev, Spec};
