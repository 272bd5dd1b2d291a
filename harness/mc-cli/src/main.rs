//! Exhaustive checks of the command line program, run as users run it, against an
//! Electrum server of our own.
#[allow(dead_code)]
#[path = "../../mc-core/src/btc.rs"]
mod btc;
#[allow(dead_code)]
#[path = "../../mc-core/src/c17.rs"]
mod c17;
#[allow(dead_code)]
#[path = "../../mc-core/src/c18.rs"]
mod c18;
#[allow(dead_code)]
#[path = "../../mc-core/src/c26.rs"]
mod c26;
#[allow(dead_code)]
#[path = "../../mc-core/src/c30.rs"]
mod c30;
mod c34;
mod c35;
mod c37;
#[allow(dead_code)]
#[path = "../../mc-core/src/fix.rs"]
mod fix;
mod server;
#[allow(dead_code)]
#[path = "../../mc-core/src/wr.rs"]
mod wr;

fn main() {
	mc::Ctx::main(&[("C34", c34::run), ("C35", c35::run), ("C37", c37::run)])
}
