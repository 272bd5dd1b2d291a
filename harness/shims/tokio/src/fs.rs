//! Files of the simulated process: real files in the harness's scratch
//! directory. As with tokio, a write is only on its way until the file is flushed;
//! what is on its way is lost in a crash.
use std::{
	future::Future,
	io::{self, Read, Seek, SeekFrom, Write},
	path::{Path, PathBuf},
	pin::Pin,
	task::{Context, Poll},
};

use tokio_real::io::{AsyncRead, AsyncSeek, AsyncWrite, ReadBuf};

pub struct File {
	f: std::fs::File,
	pending: Vec<u8>,
	yielded: bool,
	slow: Option<Pin<Box<sim::Sleep>>>,
}
impl std::fmt::Debug for File {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.debug_struct("File").field("f", &self.f).finish()
	}
}
impl File {
	pub fn from_std(f: std::fs::File) -> Self {
		Self {
			f,
			pending: vec![],
			yielded: false,
			slow: None,
		}
	}
	pub async fn open(p: impl AsRef<Path>) -> io::Result<Self> {
		std::fs::File::open(p).map(Self::from_std)
	}
	pub async fn create(p: impl AsRef<Path>) -> io::Result<Self> {
		std::fs::File::create(p).map(Self::from_std)
	}
	pub fn options() -> OpenOptions {
		OpenOptions::new()
	}
	fn settle(&mut self) -> io::Result<()> {
		let b = std::mem::take(&mut self.pending);
		if !b.is_empty() {
			sim::set_pending(0);
		}
		self.f.write_all(&b)
	}
	pub async fn sync_all(&mut self) -> io::Result<()> {
		sim::yield_now().await;
		self.settle()
	}
	pub async fn sync_data(&mut self) -> io::Result<()> {
		self.sync_all().await
	}
	pub async fn set_len(&mut self, n: u64) -> io::Result<()> {
		self.settle()?;
		self.f.set_len(n)
	}
	pub async fn metadata(&self) -> io::Result<std::fs::Metadata> {
		self.f.metadata()
	}
	pub async fn try_clone(&self) -> io::Result<Self> {
		self.f.try_clone().map(Self::from_std)
	}
	pub async fn into_std(mut self) -> std::fs::File {
		self.settle().unwrap();
		self.f.try_clone().unwrap()
	}
}
impl Drop for File {
	fn drop(&mut self) {
		if let Some(k) = sim::keep() {
			self.pending.truncate(k);
		}
		let _ = self.settle();
	}
}
impl AsyncRead for File {
	fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
		self.settle()?;
		let n = self.f.read(buf.initialize_unfilled())?;
		buf.advance(n);
		Poll::Ready(Ok(()))
	}
}
impl AsyncSeek for File {
	fn start_seek(mut self: Pin<&mut Self>, p: SeekFrom) -> io::Result<()> {
		self.settle()?;
		self.f.seek(p).map(|_| ())
	}
	fn poll_complete(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<u64>> {
		Poll::Ready(self.f.stream_position())
	}
}
impl AsyncWrite for File {
	fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
		// the earlier write has to be over before the next begins
		self.settle()?;
		self.pending.extend_from_slice(b);
		sim::set_pending(self.pending.len());
		Poll::Ready(Ok(b.len()))
	}
	fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
		if !self.yielded && !self.pending.is_empty() {
			self.yielded = true;
			let t = sim::disk();
			if t == 0 {
				cx.waker().wake_by_ref();
				return Poll::Pending;
			}
			self.slow = Some(Box::pin(sim::sleep(std::time::Duration::from_nanos(t))));
		}
		if let Some(s) = &mut self.slow {
			if s.as_mut().poll(cx).is_pending() {
				return Poll::Pending;
			}
			self.slow = None;
		}
		self.yielded = false;
		Poll::Ready(self.settle())
	}
	fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
		self.poll_flush(cx)
	}
}

#[derive(Clone, Debug)]
pub struct OpenOptions(std::fs::OpenOptions);
impl Default for OpenOptions {
	fn default() -> Self {
		Self::new()
	}
}
macro_rules! opts {
	($($n:ident)*) => {$(
		pub fn $n(&mut self, b: bool) -> &mut Self {
			self.0.$n(b);
			self
		}
	)*};
}
impl OpenOptions {
	pub fn new() -> Self {
		Self(std::fs::OpenOptions::new())
	}
	opts!(create read write append truncate create_new);
	pub async fn open(&self, p: impl AsRef<Path>) -> io::Result<File> {
		self.0.open(p).map(File::from_std)
	}
}
impl From<std::fs::OpenOptions> for OpenOptions {
	fn from(o: std::fs::OpenOptions) -> Self {
		Self(o)
	}
}

pub async fn create_dir_all(p: impl AsRef<Path>) -> io::Result<()> {
	std::fs::create_dir_all(p)
}
pub async fn read(p: impl AsRef<Path>) -> io::Result<Vec<u8>> {
	std::fs::read(p)
}
pub async fn read_to_string(p: impl AsRef<Path>) -> io::Result<String> {
	std::fs::read_to_string(p)
}
pub async fn write(p: impl AsRef<Path>, b: impl AsRef<[u8]>) -> io::Result<()> {
	sim::yield_now().await;
	std::fs::write(p, b)
}
pub async fn rename(a: impl AsRef<Path>, b: impl AsRef<Path>) -> io::Result<()> {
	sim::yield_now().await;
	std::fs::rename(a, b)
}
pub async fn remove_file(p: impl AsRef<Path>) -> io::Result<()> {
	sim::yield_now().await;
	std::fs::remove_file(p)
}
pub async fn metadata(p: impl AsRef<Path>) -> io::Result<std::fs::Metadata> {
	std::fs::metadata(p)
}
pub async fn try_exists(p: impl AsRef<Path>) -> io::Result<bool> {
	Ok(p.as_ref().exists())
}
pub async fn canonicalize(p: impl AsRef<Path>) -> io::Result<PathBuf> {
	std::fs::canonicalize(p)
}
