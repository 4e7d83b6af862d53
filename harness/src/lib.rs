pub mod builtin;
pub mod big;
pub mod doc;
pub mod gen;
pub mod jdoc;
pub mod model;
pub mod mon;
pub mod ops;
pub mod refbin;
pub mod rdoc;
pub mod rng;
pub mod tomldoc;
