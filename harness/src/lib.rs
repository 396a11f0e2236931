//! What the drivers have in common. Each driver is a binary of its own, so that a driver
//! that does not build any more takes no other check with it.
pub mod common;
pub mod text;
