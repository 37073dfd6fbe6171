//! Simulations of the runtime alone.
#[macro_use]
pub mod prog;
pub mod c02;
pub mod c03;
pub mod c09;
pub mod c12;
pub mod c15;
pub mod damage;
