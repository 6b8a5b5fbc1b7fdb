pub mod agenda;
pub mod clockw;
pub mod graph;
pub mod live;
pub mod sets;
pub mod streams;
