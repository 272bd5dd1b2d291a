//! tokio on the simulated executor: the real channels, locks, I/O adapters and
//! macros; own tasks, time and files.
pub use tokio_real::{io, join, pin, select, sync, try_join};

pub mod task;
pub use task::spawn;
pub mod fs;
pub mod time;

#[doc(hidden)]
pub mod program;
#[doc(hidden)]
pub use program::run_main;
pub use shim_tokio_macros::main;
