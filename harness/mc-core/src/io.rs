//! Chunked / interrupted / failing readers and writers driven by a Chooser.
use std::{
	cell::RefCell,
	io::{self, Read, Write},
	rc::Rc,
};

use mc::explore::Chooser;

/// Reader whose every `read` call is an environment choice:
/// 0 = fill the buffer, 1 = one byte, 2 = all but one byte, 3 = Interrupted.
pub struct ChoiceReader<'a> {
	pub data: &'a [u8],
	pub pos: usize,
	pub ch: Rc<RefCell<Chooser>>,
	pub fail_at: Option<usize>,
	pub intr: u32,
}

impl Read for ChoiceReader<'_> {
	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
		let left = self.data.len() - self.pos;
		if let Some(f) = self.fail_at {
			if self.pos >= f && !buf.is_empty() {
				return Err(io::Error::new(io::ErrorKind::ConnectionReset, "injected"));
			}
		}
		let mut n = buf.len().min(left);
		if let Some(f) = self.fail_at {
			n = n.min(f - self.pos);
		}
		if n > 0 {
			let c = self.ch.borrow_mut().choose(4, || format!("read({})", buf.len()));
			match c {
				0 => {}
				1 => n = 1,
				2 => n = (n - 1).max(1),
				_ => {
					if self.intr < 4 {
						self.intr += 1;
						return Err(io::Error::from(io::ErrorKind::Interrupted));
					}
				}
			}
		}
		buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
		self.pos += n;
		Ok(n)
	}
}

pub struct ChoiceWriter {
	pub out: Vec<u8>,
	pub ch: Rc<RefCell<Chooser>>,
	pub fail_at: Option<usize>,
	/// what a full device answers: an error, or Ok(0)
	pub zero: bool,
	pub intr: u32,
}

impl Write for ChoiceWriter {
	fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
		if buf.is_empty() {
			return Ok(0);
		}
		let mut n = buf.len();
		if let Some(f) = self.fail_at {
			if self.out.len() >= f {
				if self.zero {
					return Ok(0);
				}
				return Err(io::Error::new(io::ErrorKind::ConnectionReset, "injected"));
			}
			n = n.min(f - self.out.len());
		}
		let c = self.ch.borrow_mut().choose(4, || format!("write({})", buf.len()));
		match c {
			0 => {}
			1 => n = 1,
			2 => n = (n - 1).max(1),
			_ => {
				if self.intr < 4 {
					self.intr += 1;
					return Err(io::Error::from(io::ErrorKind::Interrupted));
				}
			}
		}
		self.out.extend_from_slice(&buf[..n]);
		Ok(n)
	}
	fn flush(&mut self) -> io::Result<()> {
		Ok(())
	}
}
