pub use kit::choices;
pub mod busy;
pub mod engine;
pub mod exec;
pub mod gen;
pub mod meter;
pub mod model;
pub mod ops;
pub mod regress;
pub mod search;
pub mod subject;
