pub mod is;
pub mod mg;
