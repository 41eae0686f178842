#![allow(non_snake_case, unexpected_cfgs)]
#[cfg(graphbench_symex)]
extern crate fxhash as std;
pub mod gb;
pub mod util;
pub mod edit;
pub mod editdi;
pub mod gens;
pub mod ops;
pub mod wreach;
pub mod algo;
pub mod ord;
pub mod lin;
pub mod dtf;
pub mod oracle;
pub mod maps;
pub mod text;
