#[cfg(feature = "strings")]
pub mod strings;
#[cfg(feature = "numtext")]
pub mod numtext;
#[cfg(feature = "datetime")]
pub mod datetime;
#[cfg(feature = "fbs")]
pub mod fbs;
#[cfg(feature = "bits")]
pub mod bits;
#[cfg(feature = "floats")]
pub mod floats;
#[cfg(feature = "pure")]
pub mod pure;
#[cfg(feature = "st")]
pub mod st;
#[cfg(feature = "heap")]
pub mod heap;
#[cfg(feature = "heap")]
pub mod time;
#[cfg(feature = "st")]
pub mod prog;
