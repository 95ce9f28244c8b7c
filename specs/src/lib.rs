#![allow(clippy::all)]
#[macro_use]
pub mod gen;
#[macro_use]
pub mod rt;
pub mod gjk;
pub mod misc;
pub mod queries;
pub mod registry;
pub mod search;
pub mod shapes;
pub mod support;
pub mod tiles;
pub mod transforms;
