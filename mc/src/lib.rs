pub mod clock;
pub mod com;
pub mod engine;
pub mod hist;
pub mod rack;
pub mod racks;
pub mod settings;
pub mod spec;
pub mod alloc;
