//! C26: Stacks address and principal codecs (strings and bytes).
use mc::{ensure, ensure_eq, fail, CaseResult, Ctx, Idx};
use stacks_core::{
	address::{AddressVersion, StacksAddress},
	codec::Codec,
	contract_name::ContractName,
	crypto::hash160::Hash160Hasher,
	utils::{PrincipalData, StandardPrincipalData},
};

use crate::fix::*;

pub fn addr(v: usize, h: &[u8; 20]) -> StacksAddress {
	StacksAddress::new(VERSIONS[v], Hash160Hasher::from(*h))
}

pub fn principal(v: usize, h: &[u8; 20], name: Option<&str>) -> PrincipalData {
	let std = StandardPrincipalData::new(VERSIONS[v], addr(v, h));
	match name {
		None => PrincipalData::Standard(std),
		Some(n) => PrincipalData::Contract(std, ContractName::new(n).unwrap()),
	}
}

/// SIP-005 consensus bytes of a principal.
pub fn ref_principal_bytes(v: u8, h: &[u8], name: Option<&str>) -> Vec<u8> {
	let mut b = vec![if name.is_some() { 6 } else { 5 }, v];
	b.extend_from_slice(h);
	if let Some(n) = name {
		b.push(n.len() as u8);
		b.extend_from_slice(n.as_bytes());
	}
	b
}

/// Reference parser: (version, hash, name, bytes used).
pub fn ref_parse_principal(b: &[u8]) -> Option<(u8, Vec<u8>, Option<String>, usize)> {
	if b.len() < 22 || !(b[0] == 5 || b[0] == 6) || !VERSION_BYTES.contains(&b[1]) {
		return None;
	}
	let hash = b[2..22].to_vec();
	if b[0] == 5 {
		return Some((b[1], hash, None, 22));
	}
	let n = *b.get(22)? as usize;
	if b.len() < 23 + n {
		return None;
	}
	let name = String::from_utf8(b[23..23 + n].to_vec()).ok()?;
	if !ref_contract_name(&name) {
		return None;
	}
	Some((b[1], hash, Some(name), 23 + n))
}

pub fn parts(p: &PrincipalData) -> (u8, Vec<u8>, Option<String>) {
	match p {
		PrincipalData::Standard(s) => (s.1.version() as u8, s.1.hash().as_ref().to_vec(), None),
		PrincipalData::Contract(s, n) => (s.1.version() as u8, s.1.hash().as_ref().to_vec(), Some(n.to_string())),
	}
}

fn parse_bytes(b: &[u8]) -> CaseResult {
	mc::note(|| format!("principal bytes {}", mc::hex(b)));
	let mut r = b;
	let got = PrincipalData::codec_deserialize(&mut r);
	let used = b.len() - r.len();
	let want = ref_parse_principal(b);
	match (&got, &want) {
		(Ok(p), Some((v, h, n, u))) => {
			ensure_eq!(parts(p), (*v, h.clone(), n.clone()), "principal parsed from {}", mc::hex(b));
			ensure_eq!(used, *u, "bytes consumed from {}", mc::hex(b));
			ensure_eq!(p.serialize_to_vec(), b[..used].to_vec(), "re-serialised principal");
			Ok("bytes accepted")
		}
		(Err(_), None) => Ok("bytes rejected"),
		_ => fail!("principal from bytes {}: got {:?}, expected {:?}", mc::hex(b), got, want),
	}
}

fn parse_addr_bytes(b: &[u8]) -> CaseResult {
	mc::note(|| format!("address bytes {}", mc::hex(b)));
	let mut r = b;
	let got = StacksAddress::codec_deserialize(&mut r);
	let ok = b.len() >= 21 && VERSION_BYTES.contains(&b[0]);
	match &got {
		Ok(a) if ok => {
			ensure_eq!(a.version() as u8, b[0], "version byte");
			ensure_eq!(a.hash().as_ref(), &b[1..21], "hash bytes");
			ensure_eq!(b.len() - r.len(), 21usize, "bytes consumed");
			ensure_eq!(a.serialize_to_vec(), b[..21].to_vec(), "re-serialised address");
			Ok("bytes accepted")
		}
		Err(_) if !ok => Ok("bytes rejected"),
		_ => fail!("address from bytes {}: got {:?}, expected ok={}", mc::hex(b), got, ok),
	}
}

fn parse_str(s: &str) -> CaseResult {
	mc::note(|| format!("principal string {s:?}"));
	let got = PrincipalData::try_from(s.to_string());
	let ps: Vec<&str> = s.split('.').collect();
	let base = ref_parse_address(ps[0]).filter(|(_, d)| d.len() == 20);
	let want = match ps.len() {
		1 => base.map(|(v, d)| (v, d, None)),
		2 if ref_contract_name(ps[1]) => base.map(|(v, d)| (v, d, Some(ps[1].to_string()))),
		_ => None,
	};
	match (&got, &want) {
		(Ok(p), Some(w)) => {
			ensure_eq!(parts(p), *w, "principal parsed from {s:?}");
			Ok("string accepted")
		}
		(Err(_), None) => Ok("string rejected"),
		_ => fail!("principal from string {s:?}: got {got:?}, expected {want:?}"),
	}
}

pub fn run(ctx: &Ctx) {
	ctx.rule("every version x hash pattern x contract name (all lengths 1..40 and class edges) through both codecs; every value of each header byte (type, version, name length); every truncation and extension of every encoding; strings with 0-3 dots over valid and invalid halves. Compared with an independent SIP-005 encoder/decoder.");
	ctx.put("exhaustive", true);
	let pats = hash_patterns();
	let mut names: Vec<Option<String>> = vec![None];
	names.extend(contract_names().into_iter().map(Some));
	ctx.each("build", 4 * pats.len() as u64 * names.len() as u64, |i| {
		let mut ix = Idx(i);
		let v = ix.take(4);
		let h = *ix.pick(&pats);
		let n = ix.pick(&names).as_deref();
		let p = principal(v, &h, n);
		let b = p.serialize_to_vec();
		ensure_eq!(b, ref_principal_bytes(VERSION_BYTES[v], &h, n), "serialised principal");
		let back = PrincipalData::deserialize(&mut &b[..]);
		ensure!(matches!(&back, Ok(x) if *x == p), "deserialize(serialize({p:?})) = {back:?}");
		parse_bytes(&b)?;
		let a = addr(v, &h);
		let s = a.to_string();
		ensure_eq!(s, ref_address(VERSION_BYTES[v], &h), "address string");
		ensure_eq!(String::from(a.clone()), s, "String::from(address)");
		ensure_eq!(serde_json::to_string(&a).unwrap(), format!("\"{s}\""), "JSON form of the address");
		let full = match n {
			None => s.clone(),
			Some(n) => format!("{s}.{n}"),
		};
		let back = PrincipalData::try_from(full.clone());
		ensure!(matches!(&back, Ok(x) if *x == p), "{full} parsed as {back:?}");
		ensure!(StacksAddress::try_from(s.as_str()).as_ref().ok() == Some(&a), "address does not survive its string form {s}");
		if n.is_none() {
			ensure!(PrincipalData::from(a.clone()) == p, "principal from address");
			ensure!(StandardPrincipalData::from(a.clone()) == StandardPrincipalData::new(VERSIONS[v], a.clone()), "standard principal from address");
		}
		parse_addr_bytes(&b[1..])?;
		parse_str(&full)?;
		Ok("round trip")
	});
	// all header byte values
	let few = few_hashes();
	let nm = ["a", "asset", "contract-name_with-39-characters_xxxxxx", "x1234567890123456789012345678901234567Z9"];
	ctx.each("header", 256 * 256 * 3, |i| {
		let mut ix = Idx(i);
		let (t, v) = (ix.take(256) as u8, ix.take(256) as u8);
		let shape = ix.take(3);
		let mut b = ref_principal_bytes(v, &few[3], if shape == 0 { None } else { Some(nm[shape]) });
		b[0] = t;
		parse_bytes(&b)?;
		parse_addr_bytes(&b[1..])
	});
	for v in 0..=255u8 {
		ctx.case(format!("version {v}"), || {
			let r = AddressVersion::try_from(v);
			match (version_of(v), r) {
				(Some(a), Ok(b)) if a == b && b as u8 == v => Ok("version"),
				(None, Err(_)) => Ok("bad version"),
				(a, b) => fail!("AddressVersion::try_from({v}) = {b:?}, expected {a:?}"),
			}
		});
	}
	ctx.each("name length byte", 256 * 60 * 2, |i| {
		let mut ix = Idx(i);
		let l = ix.take(256) as u8;
		let have = ix.take(60);
		let fill = [b'a', 0xff][ix.take(2)];
		let mut b = ref_principal_bytes(26, &few[3], Some("a"));
		b.truncate(22);
		b.push(l);
		b.extend(std::iter::repeat(fill).take(have));
		parse_bytes(&b)
	});
	// every truncation, every trailing byte count
	ctx.each("cuts", 4 * few.len() as u64 * names.len() as u64 * 70, |i| {
		let mut ix = Idx(i);
		let v = ix.take(4);
		let h = ix.pick(&few);
		let n = ix.pick(&names).as_deref();
		let cut = ix.take(70);
		let mut b = ref_principal_bytes(VERSION_BYTES[v], h, n);
		if cut < b.len() {
			b.truncate(cut);
		} else {
			b.extend(vec![b'z'; cut - b.len()]);
		}
		parse_bytes(&b)?;
		parse_addr_bytes(&b)?;
		if b.len() > 1 {
			parse_addr_bytes(&b[1..])?;
		}
		Ok("cut or extended")
	});
	// every byte of a name, every byte of the hash
	ctx.each("name bytes", 256 * 10, |i| {
		let mut ix = Idx(i);
		let c = ix.take(256) as u8;
		let p = ix.take(10);
		let mut b = ref_principal_bytes(21, &few[1], Some("abcdefghij"));
		b[23 + p] = c;
		parse_bytes(&b)
	});
	// strings
	let bases: Vec<String> = (0..4)
		.flat_map(|v| few.iter().map(move |h| ref_address(VERSION_BYTES[v], h)).collect::<Vec<_>>())
		.chain([String::new(), "S".into(), "ST".into(), "SP000000000000000000002Q6VF7".into(), ref_address(0, &few[3]), ref_address(26, &[7; 19]), ref_address(26, &[7; 21]), ref_address(22, &[]), "ST3RBZ4TZ3EK22SZRKGFZYBCKD7WQ5B8FFRS57TT7".into()])
		.collect();
	let long = "a".repeat(41);
	let tails: Vec<String> = ["", "a", "1", "-", "a b", "asset", "A_-9", "é", "a\n", "\na", &long, &long[1..], "__transient", "_transient"].iter().map(|s| s.to_string()).collect();
	ctx.each("strings", bases.len() as u64 * tails.len() as u64 * (tails.len() as u64) * 4, |i| {
		let mut ix = Idx(i);
		let b = ix.pick(&bases);
		let t = ix.pick(&tails);
		let u = ix.pick(&tails);
		match ix.take(4) {
			0 => parse_str(b),
			1 => parse_str(&format!("{b}.{t}")),
			2 => parse_str(&format!("{b}.{t}.{u}")),
			_ => parse_str(&format!("{t}.{b}")),
		}
	});
	let affixed: Vec<String> = [ref_address(26, &few[3]), format!("{}.ab-c", ref_address(22, &few[1]))].iter().flat_map(|b| mc::affixed(b)).collect();
	ctx.each("affixes", affixed.len() as u64, |i| parse_str(&affixed[i as usize]));
	// one-character edits of a contract principal string
	let full = format!("{}.ab-c", ref_address(26, &few[3]));
	let chars: Vec<char> = (0u8..128).map(|c| c as char).chain(['é']).collect();
	ctx.each("string edits", (full.len() as u64 + 1) * chars.len() as u64 * 2, |i| {
		let mut ix = Idx(i);
		let p = ix.take(full.len() + 1);
		let c = *ix.pick(&chars);
		let mut m: Vec<char> = full.chars().collect();
		if ix.take(2) == 0 {
			m.insert(p, c);
		} else if p < m.len() {
			m[p] = c;
		}
		parse_str(&m.iter().collect::<String>())
	});
}
