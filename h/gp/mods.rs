// Generated programs, once on the real atomics and once on plain memory. Included by gph, gpx and gpf.
#[allow(warnings)]
mod cell;
#[allow(warnings)]
pub mod real {
    pub use portable_atomic::*;
    include!(env!("VGP_FILE"));
}
#[allow(warnings)]
pub mod plain {
    pub use super::cell::*;
    include!(env!("VGP_FILE"));
}
