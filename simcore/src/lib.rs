//! Deterministic simulation core shared by the harness crates.

pub mod driver;
pub mod color;
pub mod excerpt;
pub mod feed;
pub mod model;
pub mod os;
pub mod regex;
pub mod rng;
pub mod shrink;
pub mod sink;

pub use driver::{main_with, Ctx, Prop, Viol};
pub use feed::{Feed, Out, SimRead, Step};
pub use rng::Rng;
