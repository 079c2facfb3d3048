#![allow(unused_imports, dead_code)]

//! Asynchronous values.

mod maybe_done;
pub use maybe_done::{maybe_done, MaybeDone};

mod poll_fn;
pub use poll_fn::poll_fn;

mod ready;
pub(crate) use ready::{ok, Ready};

mod try_join;
pub(crate) use try_join::try_join3;
