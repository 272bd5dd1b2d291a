//! Exhaustive checks of the Clarity contracts, run from their source files.
mod c13;
mod c14;
mod c15;
mod c16;
mod world;

fn main() {
	mc::Ctx::main(&[("C13", c13::run), ("C14", c14::run), ("C15", c15::run), ("C16", c16::run)])
}
