//! Exhaustive checks of stacks-core and sbtc-core.
mod btc;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
mod c29;
mod c30;
mod c31;
mod c32;
mod c33;
mod fix;
mod io;
mod wr;

fn main() {
	// bdk shuffles outputs and draws coins: differently in every case, but
	// every time the same
	mc::before_each(rand::rngs::fix_thread_rng);
	mc::Ctx::main(&[
		("C17", c17::run),
		("C18", c18::run),
		("C19", c19::run),
		("C20", c20::run),
		("C21", c21::run),
		("C22", c22::run),
		("C23", c23::run),
		("C24", c24::run),
		("C25", c25::run),
		("C26", c26::run),
		("C27", c27::run),
		("C28", c28::run),
		("C29", c29::run),
		("C30", c30::run),
		("C31", c31::run),
		("C32", c32::run),
		("C33", c33::run),
	])
}
