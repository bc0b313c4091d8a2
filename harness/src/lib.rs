//! Runtime-monitoring harness for sci-rs: case runner, reference arithmetic, generators.
pub mod dd;
pub mod design;
pub mod fl;
pub mod ops;
pub mod rng;
pub mod rt;
pub mod sosref;
pub use dd::*;
pub use design::*;
pub use fl::*;
pub use rng::*;
pub use rt::*;
pub use sosref::*;
