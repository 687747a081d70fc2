pub mod checks;
pub mod cli;
pub mod docgen;
pub mod drive;
pub mod oracle;
pub mod engine;
pub mod fuzz;
pub mod model;
pub mod ops;
pub mod tape;
