//! The parts every check is made of: the reference model of the format, the enumerators,
//! the access to the implementation, and the machinery running a check.
pub mod val;
pub mod gen;
pub mod model;
pub mod ext;
pub mod entry;
pub mod env;
pub mod run;
pub mod inputs;
pub mod util;

pub use entry::*;
pub use model::*;
pub use run::{guard, Run};
pub use val::*;
