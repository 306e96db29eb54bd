//! The tokio API as far as akasa and its dependencies use it, on the simulator.
#![allow(clippy::all)]
pub use tokio_real::{io, join, pin, select, sync, try_join};

pub mod net;
pub mod runtime;
pub mod task;
pub mod time;

pub use task::spawn;
