pub use std::*;
pub mod prelude { pub use std::{vec, vec::Vec, boxed::Box, prelude::v1::*}; }
