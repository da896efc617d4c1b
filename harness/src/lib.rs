pub mod dict;
pub mod engine;
pub mod gen;
pub mod gen_index;
pub mod fuzz;
pub mod json;
pub mod oracle;
pub mod props;
pub mod sut;
