//! What the simulator judges by, and draws from. (A crate of its own so that its code is not
//! instrumented: see seam/.)
pub mod jsclient;
pub mod json;
pub mod model;
pub mod rng;
pub mod vocab;
