#[macro_use]
pub mod contract;
pub mod nd;
pub mod bus;
pub mod st;
pub mod real;
pub mod spec;
pub mod api;
pub mod gen;
