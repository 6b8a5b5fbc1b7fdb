mod clock;
mod driver;
mod engine;
mod model;
mod net;
mod rng;
mod compact;
mod worlds;

fn main() { driver::main() }
