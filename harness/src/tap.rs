//! A backend around the in-memory store which counts calls, can fail at a
//! chosen call, and tells the harness what happened.
use bm::{Backend, Construct, Error, InMemoryBackend, InMemoryBackendError, ReadBackend, WriteBackend};
use crate::util::J;
use crate::values::Val;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum TapError {
	Mem(InMemoryBackendError),
	Fault,
	Noop,
	Stripped,
}

impl From<InMemoryBackendError> for TapError {
	fn from(e: InMemoryBackendError) -> Self { TapError::Mem(e) }
}

pub struct Tap<C: Construct> {
	pub db: InMemoryBackend<C>,
	/// Calls so far.
	pub calls: u64,
	/// Fail at this call (counted from 1).
	pub fail_at: Option<u64>,
	/// Which kind of call failed.
	pub failed: Option<&'static str>,
}

impl<C: Construct> Tap<C> where C::Value: Val {
	pub fn new() -> Self {
		Tap { db: InMemoryBackend::default(), calls: 0, fail_at: None, failed: None }
	}
	pub fn over(db: InMemoryBackend<C>) -> Self {
		Tap { db, calls: 0, fail_at: None, failed: None }
	}
	fn call(&mut self, what: &'static str) -> Result<(), TapError> {
		self.calls += 1;
		if self.fail_at == Some(self.calls) {
			self.failed = Some(what);
			Err(TapError::Fault)
		} else {
			Ok(())
		}
	}
}

impl<C: Construct> Clone for Tap<C> where C::Value: Val {
	fn clone(&self) -> Self { Tap::over(self.db.clone()) }
}

impl<C: Construct> Backend for Tap<C> {
	type Construct = C;
	type Error = TapError;
}

impl<C: Construct> ReadBackend for Tap<C> where C::Value: Val {
	fn get(&mut self, key: &C::Value) -> Result<Option<(C::Value, C::Value)>, TapError> {
		self.call("get")?;
		Ok(self.db.get(key)?)
	}
}

impl<C: Construct> WriteBackend for Tap<C> where C::Value: Val {
	fn rootify(&mut self, key: &C::Value) -> Result<(), TapError> {
		self.call("rootify")?;
		Ok(self.db.rootify(key)?)
	}
	fn unrootify(&mut self, key: &C::Value) -> Result<(), TapError> {
		self.call("unrootify")?;
		Ok(self.db.unrootify(key)?)
	}
	fn insert(&mut self, key: C::Value, value: (C::Value, C::Value)) -> Result<(), TapError> {
		self.call("insert")?;
		Ok(self.db.insert(key, value)?)
	}
}

pub fn res<T, E: std::fmt::Debug>(r: &Result<T, Error<E>>) -> String {
	match r {
		Ok(_) => "ok".into(),
		Err(Error::AccessOverflowed) => "overflow".into(),
		Err(Error::CorruptedDatabase) => "corrupted".into(),
		Err(Error::InvalidParameter) => "invalid".into(),
		Err(Error::Backend(e)) => format!("backend {:?}", e),
	}
}

/// The contents of a store: [key, [left, right] or [], count or -1], sorted.
pub fn store<C: Construct>(db: &InMemoryBackend<C>) -> J where C::Value: Val {
	let mut v: Vec<(String, J)> = db.as_ref().iter().map(|(k, (kids, rc))| {
		let kids = match kids {
			Some((l, r)) => J::A(vec![l.hex().into(), r.hex().into()]),
			None => J::A(vec![]),
		};
		let rc = rc.map(|c| c as i64).unwrap_or(-1);
		(k.hex(), J::A(vec![k.hex().into(), kids, J::I(rc)]))
	}).collect();
	v.sort_by(|a, b| a.0.cmp(&b.0));
	J::A(v.into_iter().map(|x| x.1).collect())
}
