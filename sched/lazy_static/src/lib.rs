//! Stands in for `lazy_static` where a scheduler is in control.
pub use shuttle::lazy_static;
pub use shuttle::lazy_static::{initialize, LazyStatic};
