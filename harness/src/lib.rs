pub mod alloc;
pub mod conv;
pub mod crypto;
pub mod file;
pub mod gen;
pub mod io;
pub mod kdbx;
pub mod model;
pub mod outside;
pub mod props;
pub mod rng;
pub mod runner;
pub mod said;
pub mod samples;
pub mod xmlmap;
pub mod xmlmini;
