//! Exhaustive checks of the romeo operator: its state machine event by event,
//! and the whole program on simulated nodes.
#[allow(dead_code)]
#[path = "../../mc-core/src/btc.rs"]
mod btc;
#[allow(dead_code)]
#[path = "../../mc-core/src/c17.rs"]
mod c17;
#[allow(dead_code)]
#[path = "../../mc-core/src/c18.rs"]
mod c18;
#[allow(dead_code)]
#[path = "../../mc-core/src/c26.rs"]
mod c26;
#[allow(dead_code)]
#[path = "../../mc-core/src/fix.rs"]
mod fix;
mod c03;
mod c11;
#[allow(dead_code)]
#[path = "../../mc-core/src/c30.rs"]
mod c30;
mod c36;
mod events;
mod net;
mod program;
mod whole;
mod fx;
#[allow(dead_code)]
#[path = "../../mc-clar/src/world.rs"]
mod world;
#[allow(dead_code)]
#[path = "../../mc-core/src/wr.rs"]
mod wr;

fn both(ctx: &mc::Ctx, prop: &'static str) {
	events::run(ctx, &[prop], 1);
	whole::play(ctx, prop);
}

fn main() {
	mc::Ctx::main(&[
		("C01", |c| both(c, "C01")),
		("C02", |c| both(c, "C02")),
		("C03", |c| {
			events::run(c, &["C03"], 1);
			c03::run(c);
		}),
		("C04", |c| both(c, "C04")),
		("C05", |c| both(c, "C05")),
		("C06", |c| both(c, "C06")),
		("C07", |c| both(c, "C07")),
		("C08", |c| whole::play(c, "C08")),
		("C09", |c| whole::play(c, "C09")),
		("C10", |c| whole::play(c, "C10")),
		("C11", c11::run),
		("C12", |c| whole::play(c, "C12")),
		("C36", c36::run),
		("DEV", whole::dev),
	])
}
