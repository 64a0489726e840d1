//! The same store behind every wrapper there is.
use bm::{Backend, Construct, DynBackend, Error, InMemoryBackend, InMemoryBackendError, NoopBackend, NoopBackendError,
	ProvingBackend, ReadBackend, WriteBackend};
use crate::seqs::Dyn;
use crate::tap::{store, Tap, TapError};
use crate::util::J;
use crate::values::*;

/// A backend with its errors told in the harness's terms.
pub struct As<B>(pub B);
pub trait Told { fn told(self) -> TapError; }
impl Told for TapError { fn told(self) -> TapError { self } }
impl Told for () { fn told(self) -> TapError { TapError::Stripped } }
impl Told for InMemoryBackendError { fn told(self) -> TapError { TapError::Mem(self) } }
impl Told for NoopBackendError { fn told(self) -> TapError { TapError::Noop } }

impl<B: Backend> Backend for As<B> {
	type Construct = B::Construct;
	type Error = TapError;
}
impl<B: ReadBackend> ReadBackend for As<B> where B::Error: Told {
	fn get(&mut self, k: &<B::Construct as Construct>::Value) -> Result<Option<(<B::Construct as Construct>::Value, <B::Construct as Construct>::Value)>, TapError> {
		self.0.get(k).map_err(Told::told)
	}
}
impl<B: WriteBackend> WriteBackend for As<B> where B::Error: Told {
	fn rootify(&mut self, k: &<B::Construct as Construct>::Value) -> Result<(), TapError> { self.0.rootify(k).map_err(Told::told) }
	fn unrootify(&mut self, k: &<B::Construct as Construct>::Value) -> Result<(), TapError> { self.0.unrootify(k).map_err(Told::told) }
	fn insert(&mut self, k: <B::Construct as Construct>::Value, v: (<B::Construct as Construct>::Value, <B::Construct as Construct>::Value)) -> Result<(), TapError> {
		self.0.insert(k, v).map_err(Told::told)
	}
}

pub const STACKS: [&str; 7] = ["memory", "dyn", "proving", "dyn proving", "proving dyn", "dyn dyn", "proving proving"];

/// Run on a copy of the store through each wrapper: what it gave and the
/// store it left.
pub fn stacks<C: Cons, R>(base: &InMemoryBackend<C>, run: &mut dyn FnMut(&mut Dyn<C>) -> R) -> Vec<(R, J)> where C::Value: Val {
	let mut all = Vec::new();
	for k in 0..STACKS.len() {
		let (r, db) = match k {
			0 => { let mut b = As(base.clone()); let r = run(&mut b); (r, b.0) },
			1 => { let mut b = As(DynBackend(base.clone())); let r = run(&mut b); (r, (b.0).0) },
			2 => { let mut t = Tap::over(base.clone()); let r = run(&mut ProvingBackend::new(&mut t)); (r, t.db) },
			3 => { let mut t = Tap::over(base.clone()); let r = run(&mut As(DynBackend(ProvingBackend::new(&mut t)))); (r, t.db) },
			4 => { let mut d = DynBackend(base.clone()); let r = run(&mut As(ProvingBackend::new(&mut d))); (r, d.0) },
			5 => { let mut b = As(DynBackend(DynBackend(base.clone()))); let r = run(&mut b); (r, ((b.0).0).0) },
			_ => { let mut t = Tap::over(base.clone()); let r = { let mut p = ProvingBackend::new(&mut t); run(&mut ProvingBackend::new(&mut p)) }; (r, t.db) },
		};
		all.push((r, store(&db)));
	}
	all
}

pub fn noop<C: Construct>() -> As<NoopBackend<C>> where C::Value: Val { As(NoopBackend::default()) }

/// The discarding backend as it is and behind the error-stripping wrapper,
/// with what reads report there.
pub const NOOPS: [&str; 3] = ["noop", "dyn noop", "dyn dyn noop"];
pub const REFUSED: [&str; 3] = ["backend Noop", "backend Stripped", "backend Stripped"];
pub fn noops<C: Cons, R>(run: &mut dyn FnMut(&mut Dyn<C>) -> R) -> Vec<R> where C::Value: Val {
	vec![run(&mut noop::<C>()), run(&mut As(DynBackend(noop::<C>().0))), run(&mut As(DynBackend(DynBackend(noop::<C>().0))))]
}
