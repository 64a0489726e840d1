//! Every container kind behind one object-safe interface.
use bm::{Dangling, Error, Leak, LengthMixed, List, Owned, PackedList, PackedVector, Raw, RootStatus,
		 Sequence, Tree, Vector, WriteBackend};
use generic_array::{ArrayLength, GenericArray};
use std::marker::PhantomData;
use crate::tap::TapError;
use crate::values::{Cons, Val};

pub type Dyn<'a, C> = dyn WriteBackend<Construct=C, Error=TapError> + 'a;
pub type E = Error<TapError>;
pub type Boxed<C> = Box<dyn AnySeq<C>>;

pub trait AnySeq<C: Cons> where C::Value: Val {
	fn kind(&self) -> &'static str;
	fn owned(&self) -> bool;
	/// Element width of packed containers, width of the tree values otherwise.
	fn width(&self) -> usize;
	fn push(&mut self, db: &mut Dyn<C>, v: &[u8]) -> Result<(), E>;
	fn pop(&mut self, db: &mut Dyn<C>) -> Result<Option<Vec<u8>>, E>;
	fn get(&self, db: &mut Dyn<C>, i: usize) -> Result<Vec<u8>, E>;
	fn set(&mut self, db: &mut Dyn<C>, i: usize, v: &[u8]) -> Result<(), E>;
	fn len(&self) -> usize;
	fn root(&self) -> C::Value;
	fn drop(self: Box<Self>, db: &mut Dyn<C>) -> Result<(), E>;
	/// Leak to metadata and re-open with the same ownership.
	fn leak(self: Box<Self>) -> Boxed<C>;
	/// Another, dangling handle on the same tree.
	fn fork(&self) -> Boxed<C> { self.again(false) }
	/// Another, owned handle on the same tree (the caller roots it).
	fn own(&self) -> Boxed<C> { self.again(true) }
	/// The same handle again, from its metadata.
	fn dup(&self) -> Boxed<C> { self.again(self.owned()) }
	fn again(&self, own: bool) -> Boxed<C>;
	/// Through a raw tree and back, where that is possible.
	fn reraw(self: Box<Self>) -> Boxed<C>;
	/// Deconstruct to the root and reconstruct, for lists.
	fn recon(self: Box<Self>, db: &mut Dyn<C>) -> Result<Boxed<C>, E>;
	/// Try to reconstruct this list in another store.
	fn recon_in(&self, db: &mut Dyn<C>) -> Option<Result<(), E>>;
	/// Current capacity, maximum length and depth, for vectors.
	fn shape(&self) -> Option<(u64, Option<u64>, usize)>;
	/// The root of the raw tree behind the handle.
	fn raw_root(self: Box<Self>) -> C::Value;
}

pub trait Stat: RootStatus + 'static {
	const OWN: bool;
}
impl Stat for Owned { const OWN: bool = true; }
impl Stat for Dangling { const OWN: bool = false; }

// ---------------------------------------------------------------- vectors

pub struct HVec<R: Stat, C: Cons>(pub Vector<R, C>) where C::Value: Val;

impl<R: Stat, C: Cons> AnySeq<C> for HVec<R, C> where C::Value: Val {
	fn kind(&self) -> &'static str { "vec" }
	fn owned(&self) -> bool { R::OWN }
	fn width(&self) -> usize { C::Value::W }
	fn push(&mut self, db: &mut Dyn<C>, v: &[u8]) -> Result<(), E> { self.0.push(db, C::Value::of(v)) }
	fn pop(&mut self, db: &mut Dyn<C>) -> Result<Option<Vec<u8>>, E> {
		Ok(self.0.pop(db)?.map(|v| v.as_ref().to_vec()))
	}
	fn get(&self, db: &mut Dyn<C>, i: usize) -> Result<Vec<u8>, E> { Ok(self.0.get(db, i)?.as_ref().to_vec()) }
	fn set(&mut self, db: &mut Dyn<C>, i: usize, v: &[u8]) -> Result<(), E> { self.0.set(db, i, C::Value::of(v)) }
	fn len(&self) -> usize { Sequence::len(&self.0) }
	fn root(&self) -> C::Value { self.0.root() }
	fn drop(self: Box<Self>, db: &mut Dyn<C>) -> Result<(), E> { Tree::drop(self.0, db) }
	fn leak(self: Box<Self>) -> Boxed<C> { Box::new(HVec::<R, C>(Vector::from_leaked(self.0.metadata()))) }
	fn again(&self, own: bool) -> Boxed<C> {
		if own {
			Box::new(HVec::<Owned, C>(Vector::from_leaked(self.0.metadata())))
		} else {
			Box::new(HVec::<Dangling, C>(Vector::from_leaked(self.0.metadata())))
		}
	}
	fn reraw(self: Box<Self>) -> Boxed<C> {
		let (len, max) = (self.0.len(), self.0.max_len());
		let raw: Raw<R, C> = self.0.into_raw();
		if len % 2 == 0 {
			Box::new(HVec::<R, C>(raw.into_vector(len, max)))
		} else {
			Box::new(HVec::<R, C>(Vector::from_raw(raw, len, max)))
		}
	}
	fn recon(self: Box<Self>, _db: &mut Dyn<C>) -> Result<Boxed<C>, E> { Ok(self.reraw()) }
	fn recon_in(&self, _db: &mut Dyn<C>) -> Option<Result<(), E>> { None }
	fn shape(&self) -> Option<(u64, Option<u64>, usize)> {
		Some((self.0.current_max_len(), self.0.max_len(), self.0.depth()))
	}
	fn raw_root(self: Box<Self>) -> C::Value { self.0.into_raw().root() }
}

// ---------------------------------------------------------- packed vectors

pub struct HPVec<R: Stat, C: Cons, H: ArrayLength<u8>, V: ArrayLength<u8>>(pub PackedVector<R, C, GenericArray<u8, V>, H, V>, pub Option<u64>)
	where C::Value: Val + From<GenericArray<u8, H>>;

fn ga<V: ArrayLength<u8>>(v: &[u8]) -> GenericArray<u8, V> { GenericArray::clone_from_slice(v) }

impl<R: Stat, C: Cons, H: ArrayLength<u8> + 'static, V: ArrayLength<u8> + 'static> AnySeq<C> for HPVec<R, C, H, V> where
	C::Value: Val + From<GenericArray<u8, H>>
{
	fn kind(&self) -> &'static str { "pvec" }
	fn owned(&self) -> bool { R::OWN }
	fn width(&self) -> usize { V::to_usize() }
	fn push(&mut self, db: &mut Dyn<C>, v: &[u8]) -> Result<(), E> { self.0.push(db, ga(v)) }
	fn pop(&mut self, db: &mut Dyn<C>) -> Result<Option<Vec<u8>>, E> { Ok(self.0.pop(db)?.map(|v| v.to_vec())) }
	fn get(&self, db: &mut Dyn<C>, i: usize) -> Result<Vec<u8>, E> { Ok(self.0.get(db, i)?.to_vec()) }
	fn set(&mut self, db: &mut Dyn<C>, i: usize, v: &[u8]) -> Result<(), E> { self.0.set(db, i, ga(v)) }
	fn len(&self) -> usize { self.0.len() }
	fn root(&self) -> C::Value { self.0.root() }
	fn drop(self: Box<Self>, db: &mut Dyn<C>) -> Result<(), E> { Tree::drop(self.0, db) }
	fn leak(self: Box<Self>) -> Boxed<C> {
		let m = self.0.metadata();
		let max = m.2;
		Box::new(HPVec::<R, C, H, V>(PackedVector::from_leaked(m), max))
	}
	fn again(&self, own: bool) -> Boxed<C> {
		let m = self.0.metadata();
		let max = m.2;
		if own {
			Box::new(HPVec::<Owned, C, H, V>(PackedVector::from_leaked(m), max))
		} else {
			Box::new(HPVec::<Dangling, C, H, V>(PackedVector::from_leaked(m), max))
		}
	}
	fn reraw(self: Box<Self>) -> Boxed<C> {
		let (len, max) = (self.0.len(), self.1);
		Box::new(HPVec::<R, C, H, V>(PackedVector::from_raw(self.0.into_raw(), len, max), max))
	}
	fn recon(self: Box<Self>, _db: &mut Dyn<C>) -> Result<Boxed<C>, E> { Ok(self.reraw()) }
	fn recon_in(&self, _db: &mut Dyn<C>) -> Option<Result<(), E>> { None }
	fn shape(&self) -> Option<(u64, Option<u64>, usize)> { None }
	fn raw_root(self: Box<Self>) -> C::Value { self.0.into_raw().root() }
}

// ------------------------------------------------------------------- lists

pub struct HList<R: Stat, C: Cons>(pub List<R, C>, pub Option<u64>) where C::Value: Val;

impl<R: Stat, C: Cons> AnySeq<C> for HList<R, C> where C::Value: Val {
	fn kind(&self) -> &'static str { "list" }
	fn owned(&self) -> bool { R::OWN }
	fn width(&self) -> usize { C::Value::W }
	fn push(&mut self, db: &mut Dyn<C>, v: &[u8]) -> Result<(), E> { self.0.push(db, C::Value::of(v)) }
	fn pop(&mut self, db: &mut Dyn<C>) -> Result<Option<Vec<u8>>, E> {
		Ok(self.0.pop(db)?.map(|v| v.as_ref().to_vec()))
	}
	fn get(&self, db: &mut Dyn<C>, i: usize) -> Result<Vec<u8>, E> { Ok(self.0.get(db, i)?.as_ref().to_vec()) }
	fn set(&mut self, db: &mut Dyn<C>, i: usize, v: &[u8]) -> Result<(), E> { self.0.set(db, i, C::Value::of(v)) }
	fn len(&self) -> usize { self.0.len() }
	fn root(&self) -> C::Value { self.0.root() }
	fn drop(self: Box<Self>, db: &mut Dyn<C>) -> Result<(), E> { Tree::drop(self.0, db) }
	fn leak(self: Box<Self>) -> Boxed<C> {
		let max = self.1;
		Box::new(HList::<R, C>(List::from_leaked(self.0.metadata()), max))
	}
	fn again(&self, own: bool) -> Boxed<C> {
		if own {
			Box::new(HList::<Owned, C>(List::from_leaked(self.0.metadata()), self.1))
		} else {
			Box::new(HList::<Dangling, C>(List::from_leaked(self.0.metadata()), self.1))
		}
	}
	fn reraw(self: Box<Self>) -> Boxed<C> { self.leak() }
	fn recon(self: Box<Self>, db: &mut Dyn<C>) -> Result<Boxed<C>, E> {
		let max = self.1;
		let root = self.0.deconstruct(db)?;
		Ok(Box::new(HList::<R, C>(List::reconstruct(root, db, max)?, max)))
	}
	fn recon_in(&self, db: &mut Dyn<C>) -> Option<Result<(), E>> {
		Some(List::<R, C>::reconstruct(self.0.root(), db, self.1).map(|_| ()))
	}
	fn shape(&self) -> Option<(u64, Option<u64>, usize)> { None }
	fn raw_root(self: Box<Self>) -> C::Value { self.0.into_raw().root() }
}

pub struct HPList<R: Stat, C: Cons, H: ArrayLength<u8>, V: ArrayLength<u8>>(pub PackedList<R, C, GenericArray<u8, V>, H, V>)
	where C::Value: Val + From<GenericArray<u8, H>>;

impl<R: Stat, C: Cons, H: ArrayLength<u8> + 'static, V: ArrayLength<u8> + 'static> AnySeq<C> for HPList<R, C, H, V> where
	C::Value: Val + From<GenericArray<u8, H>>
{
	fn kind(&self) -> &'static str { "plist" }
	fn owned(&self) -> bool { R::OWN }
	fn width(&self) -> usize { V::to_usize() }
	fn push(&mut self, db: &mut Dyn<C>, v: &[u8]) -> Result<(), E> { self.0.push(db, ga(v)) }
	fn pop(&mut self, db: &mut Dyn<C>) -> Result<Option<Vec<u8>>, E> { Ok(self.0.pop(db)?.map(|v| v.to_vec())) }
	fn get(&self, db: &mut Dyn<C>, i: usize) -> Result<Vec<u8>, E> { Ok(self.0.get(db, i)?.to_vec()) }
	fn set(&mut self, db: &mut Dyn<C>, i: usize, v: &[u8]) -> Result<(), E> { self.0.set(db, i, ga(v)) }
	fn len(&self) -> usize { self.0.len() }
	fn root(&self) -> C::Value { self.0.root() }
	fn drop(self: Box<Self>, db: &mut Dyn<C>) -> Result<(), E> { Tree::drop(self.0, db) }
	fn leak(self: Box<Self>) -> Boxed<C> { Box::new(HPList::<R, C, H, V>(PackedList::from_leaked(self.0.metadata()))) }
	fn again(&self, own: bool) -> Boxed<C> {
		if own {
			Box::new(HPList::<Owned, C, H, V>(PackedList::from_leaked(self.0.metadata())))
		} else {
			Box::new(HPList::<Dangling, C, H, V>(PackedList::from_leaked(self.0.metadata())))
		}
	}
	fn reraw(self: Box<Self>) -> Boxed<C> { self.leak() }
	fn recon(self: Box<Self>, _db: &mut Dyn<C>) -> Result<Boxed<C>, E> { Ok(self.leak()) }
	fn recon_in(&self, _db: &mut Dyn<C>) -> Option<Result<(), E>> { None }
	fn shape(&self) -> Option<(u64, Option<u64>, usize)> { None }
	fn raw_root(self: Box<Self>) -> C::Value { self.0.into_raw().root() }
}

// ---------------------------------------- length-mixed sequences, directly

pub struct HMix<R: Stat, C: Cons>(pub LengthMixed<R, C, Vector<Dangling, C>>, pub Option<u64>) where C::Value: Val;

impl<R: Stat, C: Cons> AnySeq<C> for HMix<R, C> where C::Value: Val {
	fn kind(&self) -> &'static str { "list" }
	fn owned(&self) -> bool { R::OWN }
	fn width(&self) -> usize { C::Value::W }
	fn push(&mut self, db: &mut Dyn<C>, v: &[u8]) -> Result<(), E> {
		self.0.with_mut(db, |s, db| s.push(db, C::Value::of(v)))
	}
	fn pop(&mut self, db: &mut Dyn<C>) -> Result<Option<Vec<u8>>, E> {
		Ok(self.0.with_mut(db, |s, db| s.pop(db))?.map(|v| v.as_ref().to_vec()))
	}
	fn get(&self, db: &mut Dyn<C>, i: usize) -> Result<Vec<u8>, E> {
		Ok(self.0.with(db, |s, db| s.get(db, i))?.as_ref().to_vec())
	}
	fn set(&mut self, db: &mut Dyn<C>, i: usize, v: &[u8]) -> Result<(), E> {
		self.0.with_mut(db, |s, db| s.set(db, i, C::Value::of(v)))
	}
	fn len(&self) -> usize { self.0.len() }
	fn root(&self) -> C::Value { self.0.root() }
	fn drop(self: Box<Self>, db: &mut Dyn<C>) -> Result<(), E> { Tree::drop(self.0, db) }
	fn leak(self: Box<Self>) -> Boxed<C> {
		let max = self.1;
		Box::new(HMix::<R, C>(LengthMixed::from_leaked(self.0.metadata()), max))
	}
	fn again(&self, own: bool) -> Boxed<C> {
		if own {
			Box::new(HMix::<Owned, C>(LengthMixed::from_leaked(self.0.metadata()), self.1))
		} else {
			Box::new(HMix::<Dangling, C>(LengthMixed::from_leaked(self.0.metadata()), self.1))
		}
	}
	fn reraw(self: Box<Self>) -> Boxed<C> { self.leak() }
	fn recon(self: Box<Self>, db: &mut Dyn<C>) -> Result<Boxed<C>, E> {
		let max = self.1;
		let root = self.0.deconstruct(db)?;
		Ok(Box::new(HMix::<R, C>(
			LengthMixed::reconstruct(root, db, |raw, _db, len| Ok(Vector::from_raw(raw, len, max)))?, max)))
	}
	fn recon_in(&self, db: &mut Dyn<C>) -> Option<Result<(), E>> {
		let max = self.1;
		Some(LengthMixed::<R, C, Vector<Dangling, C>>::reconstruct(
			self.0.root(), db, |raw, _db, len| Ok(Vector::from_raw(raw, len, max))).map(|_| ()))
	}
	fn shape(&self) -> Option<(u64, Option<u64>, usize)> { None }
	fn raw_root(self: Box<Self>) -> C::Value { self.0.into_raw().root() }
}

pub struct HPMix<R: Stat, C: Cons, H: ArrayLength<u8>, V: ArrayLength<u8>>(
	pub LengthMixed<R, C, PackedVector<Dangling, C, GenericArray<u8, V>, H, V>>, pub Option<u64>)
	where C::Value: Val + From<GenericArray<u8, H>>;

impl<R: Stat, C: Cons, H: ArrayLength<u8> + 'static, V: ArrayLength<u8> + 'static> AnySeq<C> for HPMix<R, C, H, V> where
	C::Value: Val + From<GenericArray<u8, H>>
{
	fn kind(&self) -> &'static str { "plist" }
	fn owned(&self) -> bool { R::OWN }
	fn width(&self) -> usize { V::to_usize() }
	fn push(&mut self, db: &mut Dyn<C>, v: &[u8]) -> Result<(), E> { self.0.with_mut(db, |s, db| s.push(db, ga(v))) }
	fn pop(&mut self, db: &mut Dyn<C>) -> Result<Option<Vec<u8>>, E> {
		Ok(self.0.with_mut(db, |s, db| s.pop(db))?.map(|v| v.to_vec()))
	}
	fn get(&self, db: &mut Dyn<C>, i: usize) -> Result<Vec<u8>, E> {
		Ok(self.0.with(db, |s, db| s.get(db, i))?.to_vec())
	}
	fn set(&mut self, db: &mut Dyn<C>, i: usize, v: &[u8]) -> Result<(), E> {
		self.0.with_mut(db, |s, db| s.set(db, i, ga(v)))
	}
	fn len(&self) -> usize { self.0.len() }
	fn root(&self) -> C::Value { self.0.root() }
	fn drop(self: Box<Self>, db: &mut Dyn<C>) -> Result<(), E> { Tree::drop(self.0, db) }
	fn leak(self: Box<Self>) -> Boxed<C> {
		let max = self.1;
		Box::new(HPMix::<R, C, H, V>(LengthMixed::from_leaked(self.0.metadata()), max))
	}
	fn again(&self, own: bool) -> Boxed<C> {
		if own {
			Box::new(HPMix::<Owned, C, H, V>(LengthMixed::from_leaked(self.0.metadata()), self.1))
		} else {
			Box::new(HPMix::<Dangling, C, H, V>(LengthMixed::from_leaked(self.0.metadata()), self.1))
		}
	}
	fn reraw(self: Box<Self>) -> Boxed<C> { self.leak() }
	fn recon(self: Box<Self>, db: &mut Dyn<C>) -> Result<Boxed<C>, E> {
		let max = self.1;
		let root = self.0.deconstruct(db)?;
		Ok(Box::new(HPMix::<R, C, H, V>(
			LengthMixed::reconstruct(root, db, |raw, _db, len| Ok(PackedVector::from_raw(raw, len, max)))?, max)))
	}
	fn recon_in(&self, db: &mut Dyn<C>) -> Option<Result<(), E>> {
		let max = self.1;
		Some(LengthMixed::<R, C, PackedVector<Dangling, C, GenericArray<u8, V>, H, V>>::reconstruct(
			self.0.root(), db, |raw, _db, len| Ok(PackedVector::from_raw(raw, len, max))).map(|_| ()))
	}
	fn shape(&self) -> Option<(u64, Option<u64>, usize)> { None }
	fn raw_root(self: Box<Self>) -> C::Value { self.0.into_raw().root() }
}

// ------------------------------------------------------------- construction

/// How to create and open one kind of container.
pub trait Maker<C: Cons> where C::Value: Val {
	fn kind(&self) -> &'static str;
	fn width(&self) -> usize;
	/// Whether containers can be created with elements.
	fn takes_len(&self) -> bool { true }
	fn create(&self, db: &mut Dyn<C>, len: usize, max: Option<u64>) -> Result<Boxed<C>, E>;
	/// Open an existing tree: inner root and length for vectors, the root of
	/// the whole list for lists.
	fn open(&self, own: bool, db: &mut Dyn<C>, root: C::Value, len: usize, max: Option<u64>) -> Result<Boxed<C>, E>;
}

pub struct MVec;
impl<C: Cons> Maker<C> for MVec where C::Value: Val {
	fn kind(&self) -> &'static str { "vec" }
	fn width(&self) -> usize { C::Value::W }
	fn create(&self, db: &mut Dyn<C>, len: usize, max: Option<u64>) -> Result<Boxed<C>, E> {
		Ok(Box::new(HVec(Vector::<Owned, C>::create(db, len, max)?)))
	}
	fn open(&self, own: bool, _db: &mut Dyn<C>, root: C::Value, len: usize, max: Option<u64>) -> Result<Boxed<C>, E> {
		Ok(if own {
			Box::new(HVec(Vector::<Owned, C>::from_raw(Raw::new(root), len, max)))
		} else {
			Box::new(HVec(Vector::<Dangling, C>::from_raw(Raw::new(root), len, max)))
		})
	}
}

pub struct MList;
impl<C: Cons> Maker<C> for MList where C::Value: Val {
	fn takes_len(&self) -> bool { false }
	fn kind(&self) -> &'static str { "list" }
	fn width(&self) -> usize { C::Value::W }
	fn create(&self, db: &mut Dyn<C>, _len: usize, max: Option<u64>) -> Result<Boxed<C>, E> {
		Ok(Box::new(HList(List::<Owned, C>::create(db, max)?, max)))
	}
	fn open(&self, own: bool, db: &mut Dyn<C>, root: C::Value, _len: usize, max: Option<u64>) -> Result<Boxed<C>, E> {
		Ok(if own {
			Box::new(HList(List::<Owned, C>::reconstruct(root, db, max)?, max))
		} else {
			Box::new(HList(List::<Dangling, C>::reconstruct(root, db, max)?, max))
		})
	}
}

pub struct MMix;
impl<C: Cons> Maker<C> for MMix where C::Value: Val {
	fn kind(&self) -> &'static str { "list" }
	fn width(&self) -> usize { C::Value::W }
	fn create(&self, db: &mut Dyn<C>, len: usize, max: Option<u64>) -> Result<Boxed<C>, E> {
		Ok(Box::new(HMix(LengthMixed::<Owned, C, Vector<Dangling, C>>::create(
			db, |db| Vector::<Owned, C>::create(db, len, max))?, max)))
	}
	fn open(&self, own: bool, db: &mut Dyn<C>, root: C::Value, _len: usize, max: Option<u64>) -> Result<Boxed<C>, E> {
		Ok(if own {
			Box::new(HMix(LengthMixed::<Owned, C, Vector<Dangling, C>>::reconstruct(
				root, db, |raw, _db, len| Ok(Vector::from_raw(raw, len, max)))?, max))
		} else {
			Box::new(HMix(LengthMixed::<Dangling, C, Vector<Dangling, C>>::reconstruct(
				root, db, |raw, _db, len| Ok(Vector::from_raw(raw, len, max)))?, max))
		})
	}
}

pub struct MPVec<H, V>(PhantomData<(H, V)>);
impl<C: Cons, H: ArrayLength<u8> + 'static, V: ArrayLength<u8> + 'static> Maker<C> for MPVec<H, V> where
	C::Value: Val + From<GenericArray<u8, H>>
{
	fn kind(&self) -> &'static str { "pvec" }
	fn width(&self) -> usize { V::to_usize() }
	fn create(&self, db: &mut Dyn<C>, len: usize, max: Option<u64>) -> Result<Boxed<C>, E> {
		Ok(Box::new(HPVec::<Owned, C, H, V>(PackedVector::create(db, len, max)?, max)))
	}
	fn open(&self, own: bool, _db: &mut Dyn<C>, root: C::Value, len: usize, max: Option<u64>) -> Result<Boxed<C>, E> {
		Ok(if own {
			Box::new(HPVec::<Owned, C, H, V>(PackedVector::from_raw(Raw::new(root), len, max), max))
		} else {
			Box::new(HPVec::<Dangling, C, H, V>(PackedVector::from_raw(Raw::new(root), len, max), max))
		})
	}
}

pub struct MPList<H, V>(PhantomData<(H, V)>);
impl<C: Cons, H: ArrayLength<u8> + 'static, V: ArrayLength<u8> + 'static> Maker<C> for MPList<H, V> where
	C::Value: Val + From<GenericArray<u8, H>>
{
	fn takes_len(&self) -> bool { false }
	fn kind(&self) -> &'static str { "plist" }
	fn width(&self) -> usize { V::to_usize() }
	fn create(&self, db: &mut Dyn<C>, _len: usize, max: Option<u64>) -> Result<Boxed<C>, E> {
		Ok(Box::new(HPList::<Owned, C, H, V>(PackedList::create(db, max)?)))
	}
	fn open(&self, own: bool, db: &mut Dyn<C>, root: C::Value, len: usize, max: Option<u64>) -> Result<Boxed<C>, E> {
		// Packed lists have no `reconstruct' of their own: find the inner root.
		let inner = Raw::<Dangling, C>::new(root.clone()).subtree(db, bm::Index::root().left())?.root();
		let meta = (root, (inner, len, max));
		Ok(if own {
			Box::new(HPList::<Owned, C, H, V>(PackedList::from_leaked(meta)))
		} else {
			Box::new(HPList::<Dangling, C, H, V>(PackedList::from_leaked(meta)))
		})
	}
}

pub struct MPMix<H, V>(PhantomData<(H, V)>);
impl<C: Cons, H: ArrayLength<u8> + 'static, V: ArrayLength<u8> + 'static> Maker<C> for MPMix<H, V> where
	C::Value: Val + From<GenericArray<u8, H>>
{
	fn kind(&self) -> &'static str { "plist" }
	fn width(&self) -> usize { V::to_usize() }
	fn create(&self, db: &mut Dyn<C>, len: usize, max: Option<u64>) -> Result<Boxed<C>, E> {
		Ok(Box::new(HPMix::<Owned, C, H, V>(LengthMixed::create(
			db, |db| PackedVector::<Owned, C, GenericArray<u8, V>, H, V>::create(db, len, max))?, max)))
	}
	fn open(&self, own: bool, db: &mut Dyn<C>, root: C::Value, _len: usize, max: Option<u64>) -> Result<Boxed<C>, E> {
		Ok(if own {
			Box::new(HPMix::<Owned, C, H, V>(LengthMixed::reconstruct(
				root, db, |raw, _db, len| Ok(PackedVector::from_raw(raw, len, max)))?, max))
		} else {
			Box::new(HPMix::<Dangling, C, H, V>(LengthMixed::reconstruct(
				root, db, |raw, _db, len| Ok(PackedVector::from_raw(raw, len, max)))?, max))
		})
	}
}

/// All kinds over one construct.
pub struct Makers<C: Cons> where C::Value: Val {
	pub vec: Vec<Box<dyn Maker<C>>>,
	pub list: Vec<Box<dyn Maker<C>>>,
	pub pvec: Vec<Box<dyn Maker<C>>>,
	pub plist: Vec<Box<dyn Maker<C>>>,
}

impl<C: Cons> Makers<C> where C::Value: Val {
	pub fn named(&self, kind: &str) -> &Vec<Box<dyn Maker<C>>> {
		match kind {
			"vec" => &self.vec,
			"list" => &self.list,
			"pvec" => &self.pvec,
			"plist" => &self.plist,
			k => panic!("kind {}", k),
		}
	}
}

macro_rules! makers {
	( $name:ident, $h:ty; $( $v:ident ),*; $( $m:ident ),* ) => {
		pub fn $name<C: Cons>() -> Makers<C> where C::Value: Val + From<GenericArray<u8, $h>> {
			use typenum::*;
			Makers {
				vec: vec![Box::new(MVec)],
				list: vec![Box::new(MList), Box::new(MMix)],
				pvec: vec![ $( Box::new(MPVec::<$h, $v>(PhantomData)) ),* ],
				plist: vec![
					$( Box::new(MPList::<$h, $v>(PhantomData)), )*
					$( Box::new(MPMix::<$h, $m>(PhantomData)), )*
				],
			}
		}
	}
}

makers!(makers8, typenum::U8; U1, U3, U5, U8, U12, U16, U20; U3, U8, U12);
makers!(makers16, typenum::U16; U2, U6, U16, U24, U40; U6, U24);
makers!(makers32, typenum::U32; U1, U2, U4, U7, U8, U16, U20, U31, U32, U33, U48, U64, U80, U96; U7, U8, U48, U64);
