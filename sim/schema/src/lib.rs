//! A small executable model of the schema language, independent of the code
//! under test: schema families, their text, values, and what a reader on one
//! version must see of a value written on another.

pub mod families;
pub mod model;
pub mod text;
pub mod value;

pub use families::*;
pub use model::*;
pub use text::*;
pub use value::*;
