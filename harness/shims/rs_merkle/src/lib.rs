//! The hashing trait of `rs_merkle` (the only part romeo uses).
pub trait Hasher: Clone {
	type Hash: Copy + PartialEq + Into<Vec<u8>> + TryFrom<Vec<u8>>;
	fn hash(data: &[u8]) -> Self::Hash;
	fn concat_and_hash(left: &Self::Hash, right: Option<&Self::Hash>) -> Self::Hash {
		let mut c: Vec<u8> = (*left).into();
		match right {
			Some(r) => {
				let mut r: Vec<u8> = (*r).into();
				c.append(&mut r);
				Self::hash(&c)
			}
			None => *left,
		}
	}
	fn hash_size() -> usize {
		std::mem::size_of::<Self::Hash>()
	}
}
