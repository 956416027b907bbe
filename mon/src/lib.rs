pub mod calls;
pub mod gen;
#[cfg(feature = "guided")]
pub mod guided;
pub mod model;
pub mod rt;
pub use gen::*;
pub use model::*;
pub use rt::*;
pub mod ser;
pub mod spec;
