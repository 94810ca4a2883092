pub mod corpus;
pub mod features;
pub mod gen;
pub mod glue;
pub mod json;
pub mod meter;
pub mod mon;
pub mod nonsense;
pub mod ops;
pub mod parse;
pub mod print;
pub mod rng;
pub mod rtok;
pub mod spec;
pub mod value;
pub mod work;
