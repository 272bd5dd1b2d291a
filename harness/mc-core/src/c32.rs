//! C32: codecs over devices that answer in pieces, interrupt or fail.
use std::{
	cell::RefCell,
	io::{self, Read, Write},
	rc::Rc,
	sync::atomic::{AtomicU64, Ordering},
};

use bdk::bitcoin::{secp256k1::ecdsa::RecoverableSignature, Amount, Network, Script};
use mc::{
	ensure, ensure_eq,
	explore::{explore, Chooser},
	CaseResult, Ctx, Fail,
};
use sbtc_core::operations::{
	commit_reveal::{deposit::DepositData, withdrawal_request::WithdrawalData},
	op_return::{deposit::DepositOutputData, withdrawal_fulfillment::ParsedWithdrawalFulfillmentData, withdrawal_request::WithdrawalRequestDataOutputData},
	Opcode,
};
use stacks_core::{
	address::StacksAddress,
	codec::Codec,
	contract_name::ContractName,
	uint::Uint,
	utils::{PrincipalData, StandardPrincipalData},
	BlockId,
};

use crate::{btc::*, c17::deposit_payload, c26::*, fix::*, io::*, wr::*};

struct Item {
	name: String,
	bytes: Vec<u8>,
	to_end: bool,
	write: Box<dyn Fn(&mut dyn Write) -> io::Result<()> + Sync + Send>,
	read: Box<dyn Fn(&mut dyn Read) -> io::Result<Vec<u8>> + Sync + Send>,
}

fn item<T: Codec + 'static>(name: &str, bytes: Vec<u8>) -> Item {
	let b = bytes.clone();
	Item {
		name: name.into(),
		bytes,
		to_end: false,
		write: Box::new(move |mut w| {
			let v = T::codec_deserialize(&mut &b[..]).unwrap_or_else(|e| panic!("canonical bytes {} refused: {e}", mc::hex(&b)));
			v.codec_serialize(&mut w)
		}),
		read: Box::new(|mut r| T::codec_deserialize(&mut r).map(|v| v.serialize_to_vec())),
	}
}

fn items() -> Vec<Item> {
	let few = few_hashes();
	let mut v = vec![];
	let name40 = "n".repeat(40);
	for h in [few[0], few[3]] {
		v.push(item::<StacksAddress>("address", ref_principal_bytes(26, &h, None)[1..].to_vec()));
		v.push(item::<StandardPrincipalData>("standard principal", ref_principal_bytes(22, &h, None)[1..].to_vec()));
		v.push(item::<PrincipalData>("principal", ref_principal_bytes(20, &h, None)));
		v.push(item::<PrincipalData>("contract principal", ref_principal_bytes(21, &h, Some("asset"))));
		v.push(item::<PrincipalData>("contract principal 40", ref_principal_bytes(21, &h, Some(&name40))));
	}
	for n in ["a", "ab", "asset", &name40] {
		let mut b = vec![n.len() as u8];
		b.extend(n.bytes());
		v.push(item::<ContractName>("contract name", b));
	}
	for a in [0u64, 1, 0x0102030405060708, u64::MAX] {
		v.push(item::<Amount>("amount", a.to_be_bytes().to_vec()));
		v.push(item::<u64>("u64", a.to_be_bytes().to_vec()));
	}
	let net = Network::Testnet;
	let sig = ref_sign(&secret_keys()[4], 7, scripts(1)[2].as_bytes(), net);
	v.push(item::<RecoverableSignature>("signature", sig.clone()));
	for s in [scripts(3)[0].to_bytes(), vec![], vec![0x6a]] {
		let mut i = item::<Script>("script", s);
		i.to_end = true;
		v.push(i);
	}
	let seq = |n: usize| (1..=n as u8).collect::<Vec<u8>>();
	v.push(item::<BlockId>("block id", seq(32)));
	v.push(item::<Uint<1>>("uint 1", seq(8)));
	v.push(item::<Uint<2>>("uint 2", seq(16)));
	v.push(item::<Uint<4>>("uint 4", seq(32)));
	v.push(item::<Uint<8>>("uint 8", seq(64)));
	for o in [b'<', b'>', b'!', b'H'] {
		v.push(item::<Opcode>("opcode", vec![o]));
	}
	v.push(item::<DepositOutputData>("deposit data output", deposit_payload(Network::Bitcoin, 22, &few[3], None)));
	v.push(item::<DepositOutputData>("deposit data output", deposit_payload(net, 26, &few[0], Some("asset"))));
	v.push(item::<WithdrawalRequestDataOutputData>("withdrawal data output", request_payload(net, 7, &sig)));
	let mut b = ref_magic(net).to_vec();
	b.push(b'!');
	b.extend(seq(32));
	v.push(item::<ParsedWithdrawalFulfillmentData>("fulfillment data output", b));
	let mut b = vec![b'<'];
	b.extend(ref_principal_bytes(26, &few[3], Some("ab")));
	b.extend(5u64.to_be_bytes());
	v.push(item::<DepositData>("commit deposit data", b));
	let mut b = vec![b'>'];
	b.extend(7u64.to_be_bytes());
	b.extend(&sig);
	b.extend(5u64.to_be_bytes());
	v.push(item::<WithdrawalData>("commit withdrawal data", b));
	v
}

fn write_once(it: &Item, ch: Rc<RefCell<Chooser>>, fail_at: Option<usize>, zero: bool) -> Result<(), Fail> {
	let mut w = ChoiceWriter {
		out: vec![],
		ch,
		fail_at,
		zero,
		intr: 0,
	};
	let r = (it.write)(&mut w);
	match fail_at {
		Some(f) if f < it.bytes.len() => {
			ensure!(r.is_err(), "writing {} reported success although the device failed after {f} of {} bytes", it.name, it.bytes.len());
			ensure!(w.out.len() <= f && it.bytes.starts_with(&w.out), "writing {} left {} on the device, expected a prefix of {}", it.name, mc::hex(&w.out), mc::hex(&it.bytes));
		}
		_ => {
			if let Err(e) = r {
				fail_(format!("writing {} failed although every byte was accepted: {e}", it.name))?;
			}
			ensure_eq!(mc::hex(&w.out), mc::hex(&it.bytes), "bytes written for {}", it.name);
		}
	}
	Ok(())
}

fn fail_(m: String) -> Result<(), Fail> {
	Err(m.into())
}

fn read_once(it: &Item, data: &[u8], ch: Rc<RefCell<Chooser>>, fail_at: Option<usize>) -> Result<(), Fail> {
	let mut r = ChoiceReader {
		data,
		pos: 0,
		ch,
		fail_at,
		intr: 0,
	};
	let got = (it.read)(&mut r);
	let pos = r.pos;
	let short = data.len() < it.bytes.len() && !it.to_end;
	let failing = fail_at.is_some_and(|f| f < it.bytes.len() || it.to_end);
	match got {
		Ok(_) if failing => fail_(format!("reading {} reported success although the device failed", it.name)),
		Ok(b) if short => fail_(format!("{} truncated to {} of {} bytes was read as {}", it.name, data.len(), it.bytes.len(), mc::hex(b))),
		Err(e) if !short && !failing => fail_(format!("reading {} failed although every byte was delivered: {e}", it.name)),
		Ok(b) => {
			let want = if it.to_end { data.to_vec() } else { it.bytes.clone() };
			ensure_eq!(mc::hex(b), mc::hex(&want), "value read for {}", it.name);
			ensure_eq!(pos, want.len(), "bytes taken from the device for {}", it.name);
			Ok(())
		}
		Err(_) => Ok(()),
	}
}

/// All-one-byte devices: a chooser that always answers "one byte".
fn ones() -> Rc<RefCell<Chooser>> {
	Rc::new(RefCell::new(Chooser::new(vec![1; 400])))
}
fn plain() -> Rc<RefCell<Chooser>> {
	Rc::new(RefCell::new(Chooser::new(vec![])))
}

/// Delivers its data a fixed number of bytes at a time.
struct Steps<'a>(&'a [u8], usize);
impl Read for Steps<'_> {
	fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
		let n = self.1.min(b.len()).min(self.0.len());
		b[..n].copy_from_slice(&self.0[..n]);
		self.0 = &self.0[n..];
		Ok(n)
	}
}

pub fn run(ctx: &Ctx) {
	let bound = if ctx.thorough() { 6 } else { 4 };
	ctx.level("fault_enumeration");
	ctx.rule(format!("every serialisable type x sample values x every device behaviour within {bound} deviations (each read/write call may deliver everything, one byte, all but one byte, or be interrupted) plus byte-at-a-time devices; a device failing after every byte count (by error, and by accepting nothing); every truncation and trailing data; scripts of every length to 600 and samples to a million bytes."));
	ctx.put("exhaustive", true);
	ctx.put("deviation_bound", bound);
	let items = items();
	let points = AtomicU64::new(0);
	let faults = AtomicU64::new(0);
	let capped = AtomicU64::new(0);
	let sweep = |mode: &str, it: &Item, f: &dyn Fn(Rc<RefCell<Chooser>>) -> Result<(), Fail>| -> CaseResult {
		mc::note(|| format!("{mode} {} {}", it.name, mc::hex(&it.bytes)));
		let mut res: Result<(), Fail> = Ok(());
		let st = explore(bound, 3_000_000, |ch| {
			let c = Rc::new(RefCell::new(std::mem::replace(ch, Chooser::new(vec![]))));
			let r = mc::no_panic(|| f(c.clone())).unwrap_or_else(|p| Err(format!("panicked: {p}").into()));
			*ch = std::mem::replace(&mut *c.borrow_mut(), Chooser::new(vec![]));
			if let Err(e) = r {
				res = Err(format!("{} [device: {:?}]", e.msg, ch.labels).into());
				return false;
			}
			true
		});
		points.fetch_add(st.executions, Ordering::Relaxed);
		capped.fetch_add(st.capped as u64, Ordering::Relaxed);
		res.map(|_| "all device behaviours")
	};
	ctx.each("write", items.len() as u64, |i| sweep("write", &items[i as usize], &|c| write_once(&items[i as usize], c, None, false)));
	ctx.each("read", items.len() as u64, |i| {
		let it = &items[i as usize];
		sweep("read", it, &|c| read_once(it, &it.bytes, c, None))
	});
	ctx.each("read with trailing data", items.len() as u64, |i| {
		let it = &items[i as usize];
		let mut d = it.bytes.clone();
		d.extend([0xee; 9]);
		sweep("read+9", it, &|c| read_once(it, &d, c, None))
	});
	// one-byte devices and failures at every position
	let n = items.len() as u64;
	ctx.each("failing writer", n * 100 * 4, |i| {
		let mut ix = mc::Idx(i);
		let it = ix.pick(&items);
		let f = ix.take(100);
		let (zero, one) = (ix.take(2) == 1, ix.take(2) == 1);
		if f > it.bytes.len() {
			return Ok("~n/a");
		}
		faults.fetch_add(1, Ordering::Relaxed);
		mc::note(|| format!("{} writer fails after {f} bytes, by accepting nothing: {zero}, one byte at a time: {one}", it.name));
		write_once(it, if one { ones() } else { plain() }, Some(f), zero)?;
		Ok("failing writer")
	});
	ctx.each("failing reader", n * 100 * 2, |i| {
		let mut ix = mc::Idx(i);
		let it = ix.pick(&items);
		let f = ix.take(100);
		let one = ix.take(2) == 1;
		if f > it.bytes.len() {
			return Ok("~n/a");
		}
		faults.fetch_add(1, Ordering::Relaxed);
		mc::note(|| format!("{} reader fails after {f} bytes", it.name));
		read_once(it, &it.bytes, if one { ones() } else { plain() }, Some(f))?;
		Ok("failing reader")
	});
	ctx.each("truncated", n * 100 * 2, |i| {
		let mut ix = mc::Idx(i);
		let it = ix.pick(&items);
		let l = ix.take(100);
		let one = ix.take(2) == 1;
		if l > it.bytes.len() {
			return Ok("~n/a");
		}
		faults.fetch_add(1, Ordering::Relaxed);
		mc::note(|| format!("{} truncated to {l}", it.name));
		read_once(it, &it.bytes[..l], if one { ones() } else { plain() }, None)?;
		if it.bytes.len() > l {
			// a failing truncated device under interruption
			sweep("truncated", it, &|c| read_once(it, &it.bytes[..l], c, None))?;
		}
		Ok("truncated")
	});
	// scripts have no length of their own: any amount of data is the value
	let lens: Vec<usize> = (0..=600).chain([1023, 1024, 4096, 9_999, 10_000, 10_001, 65_535, 65_536, 100_003, 1 << 20]).collect();
	ctx.each("long scripts", lens.len() as u64 * 3, |i| {
		let mut ix = mc::Idx(i);
		let l = *ix.pick(&lens);
		let step = [l.max(1), 1, 4096][ix.take(3)];
		let data: Vec<u8> = (0..l).map(|k| (k * 7 + l) as u8).collect();
		mc::note(|| format!("a script of {l} bytes read {step} at a time"));
		let mut r = Steps(&data, step);
		let s = Script::codec_deserialize(&mut r).map_err(|e| Fail::from(format!("script of {l} bytes: {e}")))?;
		ensure!(s.as_bytes() == data, "a script of {l} bytes was read as {} bytes or with other contents", s.len());
		ensure!(s.serialize_to_vec() == data, "a script of {l} bytes does not survive a round trip");
		Ok("long script")
	});
	ctx.put("device_behaviours_explored", points.load(Ordering::Relaxed));
	ctx.put("fault_points", faults.load(Ordering::Relaxed));
	ctx.put("capped_sweeps", capped.load(Ordering::Relaxed));
}
