pub mod lang;
pub mod model;
pub mod porter;
