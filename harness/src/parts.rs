//! Partial views as data: types with views, parts named by paths.
use bm::{Dangling, Error, Owned, Raw, ReadBackend, RootStatus, WriteBackend};
use bm_le::{CompatibleConstruct, Construct, FromTree, IntoTree, PartialIndex, PartialItem, PartialValue, PartialVec, Partialable, Value};
use primitive_types::{H256, U256};
use crate::seqs::Dyn;
use crate::shapes::*;
use crate::util::*;
use crate::values::*;

/// What a view can do, by path.
pub trait Part: PartialItem {
	fn read<R: RootStatus, DB: ReadBackend>(&mut self, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<J, Error<DB::Error>> where
		DB::Construct: CompatibleConstruct;
	fn put(&mut self, p: &[usize], v: &J);
	fn add(&mut self, p: &[usize], v: &J);
}

impl<T: Shape> Part for PartialValue<T> {
	fn read<R: RootStatus, DB: ReadBackend>(&mut self, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<J, Error<DB::Error>> where
		DB::Construct: CompatibleConstruct
	{
		assert!(p.is_empty());
		if fetch { self.fetch(raw, db)?; }
		self.get(raw, db).map(|v| v.to_j())
	}
	fn put(&mut self, p: &[usize], v: &J) { assert!(p.is_empty()); self.set(T::from_j(v)) }
	fn add(&mut self, _: &[usize], _: &J) { panic!("not a list") }
}

impl<T: Shape + Partialable> Part for PartialVec<T> where T::Value: Part {
	fn read<R: RootStatus, DB: ReadBackend>(&mut self, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<J, Error<DB::Error>> where
		DB::Construct: CompatibleConstruct
	{ self.at(p[0]).read(&p[1..], fetch, raw, db) }
	fn put(&mut self, p: &[usize], v: &J) { self.at(p[0]).put(&p[1..], v) }
	fn add(&mut self, p: &[usize], v: &J) { if p.is_empty() { self.push(T::from_j(v)) } else { self.at(p[0]).add(&p[1..], v) } }
}

/// A list with a partial view.
#[derive(Debug, PartialEq, Clone)]
pub struct L<T>(pub Vec<T>);
impl<T: Shape> IntoTree for L<T> {
	fn into_tree<DB: WriteBackend>(&self, db: &mut DB) -> Result<<DB::Construct as Construct>::Value, Error<DB::Error>> where
		DB::Construct: CompatibleConstruct { self.0.into_tree(db) }
}
impl<T: Shape> FromTree for L<T> {
	fn from_tree<DB: ReadBackend>(root: &<DB::Construct as Construct>::Value, db: &mut DB) -> Result<Self, Error<DB::Error>> where
		DB::Construct: CompatibleConstruct { Vec::<T>::from_tree(root, db).map(L) }
}
impl<T: Shape> Shape for L<T> {
	fn desc() -> J { crate::obj!{ "k" => "list", "t" => T::desc(), "max" => J::A(vec![]) } }
	fn to_j(&self) -> J { J::A(self.0.iter().map(|t| t.to_j()).collect()) }
	fn from_j(j: &J) -> Self { L(j.a().iter().map(T::from_j).collect()) }
}
impl<T: Shape + Partialable> Partialable for L<T> { type Value = PartialVec<T>; }

macro_rules! partial {
	( $name:ident, $view:ident { $( $f:ident : $t:ty ),* $(,)? } ) => {
		#[derive(Debug, PartialEq, Clone, bm_le::IntoTree, bm_le::FromTree, bm_le::Partialable)]
		pub struct $name { $( pub $f: $t ),* }
		impl Shape for $name {
			fn desc() -> J { crate::obj!{ "k" => "prod", "ts" => J::A(vec![$( <$t as Shape>::desc() ),*]) } }
			fn to_j(&self) -> J { J::A(vec![$( self.$f.to_j() ),*]) }
			#[allow(unused_mut, unused_variables)]
			fn from_j(j: &J) -> Self {
				let mut i = j.a().iter();
				$name { $( $f: Shape::from_j(i.next().unwrap()) ),* }
			}
		}
		#[allow(unused_variables, unused_mut, unused_assignments)]
		impl Part for $view {
			fn read<R: RootStatus, DB: ReadBackend>(&mut self, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<J, Error<DB::Error>> where
				DB::Construct: CompatibleConstruct
			{
				let mut k = 0;
				$( if p[0] == k { return self.$f.read(&p[1..], fetch, raw, db) } k += 1; )*
				panic!("no such field")
			}
			fn put(&mut self, p: &[usize], v: &J) {
				let mut k = 0;
				$( if p[0] == k { return self.$f.put(&p[1..], v) } k += 1; )*
			}
			fn add(&mut self, p: &[usize], v: &J) {
				let mut k = 0;
				$( if p[0] == k { return self.$f.add(&p[1..], v) } k += 1; )*
			}
		}
	}
}

partial!(A1, PartialA1 { a: u64 });
partial!(A2, PartialA2 { a: u8, b: u16 });
partial!(A3, PartialA3 { a: u32, b: H256, c: U256 });
partial!(A4, PartialA4 { a: A2, b: A1, c: A3 });
partial!(A5, PartialA5 { a: u8, l: L<u16>, b: u128, m: L<A2>, c: A1 });
partial!(A9, PartialA9 { a: u8, b: u16, c: u32, d: u64, e: u128, f: U256, g: H256, h: A2, i: A1 });
partial!(AL, PartialAL { l: L<L<u32>> });
partial!(AD, PartialAD { x: A1, y: AE });
partial!(AE, PartialAE { u: AF, v: L<AF> });
partial!(AF, PartialAF { r: A2, s: L<U256>, t: u8 });

pub enum AnyRaw<C: Construct> { Own(Raw<Owned, C>), Dang(Raw<Dangling, C>) }

pub trait View<C: Construct<Value=Value>> {
	fn read(&mut self, p: &[usize], fetch: bool, raw: &AnyRaw<C>, db: &mut Dyn<C>) -> Result<J, E>;
	fn put(&mut self, p: &[usize], v: &J);
	fn add(&mut self, p: &[usize], v: &J);
	fn flush(&mut self, raw: &mut AnyRaw<C>, db: &mut Dyn<C>) -> Result<(), E>;
}
struct Of<P>(P);
impl<P: Part, C: Construct<Value=Value>> View<C> for Of<P> {
	fn read(&mut self, p: &[usize], fetch: bool, raw: &AnyRaw<C>, db: &mut Dyn<C>) -> Result<J, E> {
		match raw { AnyRaw::Own(r) => self.0.read(p, fetch, r, &mut Ref(db)), AnyRaw::Dang(r) => self.0.read(p, fetch, r, &mut Ref(db)) }
	}
	fn put(&mut self, p: &[usize], v: &J) { self.0.put(p, v) }
	fn add(&mut self, p: &[usize], v: &J) { self.0.add(p, v) }
	fn flush(&mut self, raw: &mut AnyRaw<C>, db: &mut Dyn<C>) -> Result<(), E> {
		match raw { AnyRaw::Own(r) => self.0.flush(r, &mut Ref(db)), AnyRaw::Dang(r) => self.0.flush(r, &mut Ref(db)) }
	}
}

pub struct PTy<C: Construct<Value=Value>> {
	pub name: String,
	pub desc: J,
	pub enc: fn(&J, &mut Dyn<C>) -> Result<Value, E>,
	pub dec: fn(&Value, &mut Dyn<C>) -> Result<J, E>,
	pub view: fn() -> Box<dyn View<C>>,
}
fn pty<T: Shape + Partialable, C: Construct<Value=Value>>(name: &str) -> PTy<C> where T::Value: Part + 'static {
	PTy { name: name.into(), desc: T::desc(), enc: enc_of::<T, C>, dec: dec_of::<T, C>,
		view: || Box::new(Of(<T::Value as PartialItem>::new(PartialIndex::root()))) }
}
pub fn partials<C: Cons<Value=Value>>() -> Vec<PTy<C>> {
	macro_rules! cat { ( $( $t:ty ),* $(,)? ) => { vec![$( pty::<$t, C>(stringify!($t)) ),*] } }
	cat![u8, U256, H256, A1, A2, A3, A4, A5, A9, L<u16>, L<H256>, L<A2>, L<A3>, L<A5>, L<L<u8>>, L<L<A1>>, AL, AF, AE, AD, L<AF>]
}
