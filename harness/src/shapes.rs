//! Encodable types as data: a description for the specification, values as
//! JSON, and encoding and decoding over any backend.
use bm::{Backend, Error, ReadBackend, WriteBackend};
use bm_le::{Compact, CompactRef, FromTree, IntoTree, MaxVec, Value, CompatibleConstruct, Construct};
use bm_le::{ElementalFixedVec, ElementalFixedVecRef, ElementalVariableVec, ElementalVariableVecRef,
	FromCompactListTree, FromCompactVectorTree, FromCompositeListTree, FromCompositeVectorTree,
	IntoCompactListTree, IntoCompactVectorTree, IntoCompositeListTree, IntoCompositeVectorTree};
use generic_array::{ArrayLength, GenericArray};
use primitive_types::{H256, H512, U256};
use std::convert::TryFrom;
use std::marker::PhantomData;
use typenum::*;
use vecarray::VecArray;
use crate::seqs::Dyn;
use crate::tap::TapError;
use crate::util::*;
use crate::values::*;

pub type C32 = Inh<Value>;
pub type E = Error<TapError>;

pub trait Shape: Sized + IntoTree + FromTree + PartialEq + std::fmt::Debug + 'static {
	fn desc() -> J;
	fn to_j(&self) -> J;
	fn from_j(j: &J) -> Self;
	/// Roots of the same value written in other ways.
	fn alts(&self) -> Vec<Value> { vec![] }
}

/// Element types of packed sequences.
pub trait Basic: Shape + Default + Clone {}

fn root_of<T: IntoTree + ?Sized>(t: &T) -> Value {
	t.into_tree(&mut bm::NoopBackend::<C32>::default()).unwrap()
}

macro_rules! uints {
	( $( $t:ty, $n:expr );* ) => { $(
		impl Shape for $t {
			fn desc() -> J { obj!{ "k" => "u", "n" => $n as usize } }
			fn to_j(&self) -> J { hex(&self.to_le_bytes()).into() }
			fn from_j(j: &J) -> Self {
				let mut b = <$t>::default().to_le_bytes();
				b.copy_from_slice(&unhex(j.s()));
				<$t>::from_le_bytes(b)
			}
		}
		impl Basic for $t {}
	)* }
}
uints!(u8, 1; u16, 2; u32, 4; u64, 8; u128, 16);

impl Shape for bool {
	fn desc() -> J { obj!{ "k" => "bool" } }
	fn to_j(&self) -> J { if *self { "01".into() } else { "00".into() } }
	fn from_j(j: &J) -> Self { j.s() == "01" }
}
impl Basic for bool {}

impl Shape for U256 {
	fn desc() -> J { obj!{ "k" => "u", "n" => 32usize } }
	fn to_j(&self) -> J {
		let mut b = [0u8; 32];
		for i in 0..32 { b[i] = self.byte(i); }
		hex(&b).into()
	}
	fn from_j(j: &J) -> Self {
		unhex(j.s()).iter().rev().fold(U256::zero(), |n, b| (n << 8) + U256::from(*b))
	}
}
impl Basic for U256 {}

impl Shape for H256 {
	fn desc() -> J { obj!{ "k" => "hash", "n" => 32usize } }
	fn to_j(&self) -> J { hex(&self.0).into() }
	fn from_j(j: &J) -> Self { H256::from_slice(&unhex(j.s())) }
}
impl Shape for H512 {
	fn desc() -> J { obj!{ "k" => "hash", "n" => 64usize } }
	fn to_j(&self) -> J { hex(&self.0).into() }
	fn from_j(j: &J) -> Self { H512::from_slice(&unhex(j.s())) }
}
impl Shape for Value {
	fn desc() -> J { obj!{ "k" => "hash", "n" => 32usize } }
	fn to_j(&self) -> J { hex(self.as_ref()).into() }
	fn from_j(j: &J) -> Self { Value(H256::from_slice(&unhex(j.s()))) }
}
impl Shape for () {
	fn desc() -> J { obj!{ "k" => "unit" } }
	fn to_j(&self) -> J { J::A(vec![]) }
	fn from_j(_: &J) -> Self {}
}

/// A part nobody looks at.
#[derive(Debug, PartialEq, Clone, Copy, Default)]
pub struct Ign;
impl IntoTree for Ign {
	fn into_tree<DB: WriteBackend>(&self, _: &mut DB) -> Result<<DB::Construct as Construct>::Value, Error<DB::Error>> where
		DB::Construct: CompatibleConstruct { Ok(Value::default()) }
}
impl FromTree for Ign {
	fn from_tree<DB: ReadBackend>(root: &<DB::Construct as Construct>::Value, db: &mut DB) -> Result<Self, Error<DB::Error>> where
		DB::Construct: CompatibleConstruct { bm_le::Ignored::from_tree(root, db).map(|_| Ign) }
}
impl Shape for Ign {
	fn desc() -> J { obj!{ "k" => "ign" } }
	fn to_j(&self) -> J { J::A(vec![]) }
	fn from_j(_: &J) -> Self { Ign }
}

impl<T: Shape> Shape for Option<T> {
	fn desc() -> J { obj!{ "k" => "opt", "t" => T::desc() } }
	fn to_j(&self) -> J { J::A(self.iter().map(|t| t.to_j()).collect()) }
	fn from_j(j: &J) -> Self { j.a().get(0).map(T::from_j) }
}
impl<T: Shape> Shape for Box<T> {
	fn desc() -> J { T::desc() }
	fn to_j(&self) -> J { self.as_ref().to_j() }
	fn from_j(j: &J) -> Self { Box::new(T::from_j(j)) }
}

macro_rules! tuples {
	( $( ( $( $t:ident $i:tt ),+ ) )* ) => { $(
		impl<$( $t: Shape ),+> Shape for ($( $t, )+) {
			fn desc() -> J { obj!{ "k" => "prod", "ts" => vec![$( $t::desc() ),+] } }
			fn to_j(&self) -> J { J::A(vec![$( self.$i.to_j() ),+]) }
			fn from_j(j: &J) -> Self { ($( $t::from_j(&j.a()[$i]), )+) }
		}
	)* }
}
tuples!((A 0, B 1) (A 0, B 1, C 2) (A 0, B 1, C 2, D 3) (A 0, B 1, C 2, D 3, F 4)
	(A 0, B 1, C 2, D 3, F 4, G 5) (A 0, B 1, C 2, D 3, F 4, G 5, H 6)
	(A 0, B 1, C 2, D 3, F 4, G 5, H 6, I 7) (A 0, B 1, C 2, D 3, F 4, G 5, H 6, I 7, K 8));

fn seq(k: &str, n: Option<usize>, t: J, max: Option<u64>) -> J {
	let d = obj!{ "k" => k, "t" => t, "max" => opt_digits(max) };
	match n { Some(n) => d.with("n", n.into()), None => d }
}
fn items<T: Shape>(v: &[T]) -> J { J::A(v.iter().map(|t| t.to_j()).collect()) }
fn of_items<T: Shape>(j: &J) -> Vec<T> { j.a().iter().map(T::from_j).collect() }

macro_rules! arrays {
	( $( $n:expr ),* ) => { $(
		impl<T: Shape + Default + Copy> Shape for [T; $n] {
			fn desc() -> J { seq("arr", Some($n), T::desc(), None) }
			fn to_j(&self) -> J { items(&self[..]) }
			fn from_j(j: &J) -> Self {
				let mut r = [T::default(); $n];
				for (i, v) in of_items(j).into_iter().enumerate() { r[i] = v; }
				r
			}
		}
	)* }
}
arrays!(1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 32);

impl<T: Shape, L: ArrayLength<T> + 'static> Shape for GenericArray<T, L> {
	fn desc() -> J { seq("arr", Some(L::to_usize()), T::desc(), None) }
	fn to_j(&self) -> J { items(&self[..]) }
	fn from_j(j: &J) -> Self { GenericArray::from_exact_iter(of_items(j)).unwrap() }
}
impl<T: Shape, L: Unsigned + PartialEq + std::fmt::Debug + 'static> Shape for VecArray<T, L> {
	fn desc() -> J { seq("arr", Some(L::to_usize()), T::desc(), None) }
	fn to_j(&self) -> J { items(&self[..]) }
	fn from_j(j: &J) -> Self { VecArray::try_from(of_items(j)).map_err(|_| ()).unwrap() }
}
impl<T: Basic, L: ArrayLength<T> + 'static> Shape for Compact<GenericArray<T, L>> where
	for<'a> ElementalFixedVecRef<'a, T>: IntoCompactVectorTree, ElementalFixedVec<T>: FromCompactVectorTree,
{
	fn desc() -> J { seq("carr", Some(L::to_usize()), T::desc(), None) }
	fn to_j(&self) -> J { items(&self.0[..]) }
	fn from_j(j: &J) -> Self { Compact(GenericArray::from_exact_iter(of_items(j)).unwrap()) }
	fn alts(&self) -> Vec<Value> { vec![root_of(&CompactRef(&self.0))] }
}
impl<T: Basic, L: Unsigned + PartialEq + std::fmt::Debug + 'static> Shape for Compact<VecArray<T, L>> where
	for<'a> ElementalFixedVecRef<'a, T>: IntoCompactVectorTree, ElementalFixedVec<T>: FromCompactVectorTree,
{
	fn desc() -> J { seq("carr", Some(L::to_usize()), T::desc(), None) }
	fn to_j(&self) -> J { items(&self.0[..]) }
	fn from_j(j: &J) -> Self { Compact(VecArray::try_from(of_items(j)).map_err(|_| ()).unwrap()) }
	fn alts(&self) -> Vec<Value> { vec![root_of(&CompactRef(&self.0))] }
}
impl<T: Shape> Shape for Vec<T> {
	fn desc() -> J { seq("list", None, T::desc(), None) }
	fn to_j(&self) -> J { items(&self[..]) }
	fn from_j(j: &J) -> Self { of_items(j) }
	fn alts(&self) -> Vec<Value> { vec![root_of(&self[..])] }
}
impl<T: Shape, ML: Unsigned + PartialEq + std::fmt::Debug + 'static> Shape for MaxVec<T, ML> {
	fn desc() -> J { seq("list", None, T::desc(), Some(ML::to_u64())) }
	fn to_j(&self) -> J { items(&self[..]) }
	fn from_j(j: &J) -> Self { of_items::<T>(j).into() }
}
impl<T: Basic, ML: Unsigned + PartialEq + std::fmt::Debug + 'static> Shape for Compact<MaxVec<T, ML>> where
	for<'a> ElementalVariableVecRef<'a, T>: IntoCompactListTree, ElementalVariableVec<T>: FromCompactListTree,
{
	fn desc() -> J { seq("clist", None, T::desc(), Some(ML::to_u64())) }
	fn to_j(&self) -> J { items(&self.0[..]) }
	fn from_j(j: &J) -> Self { Compact(of_items::<T>(j).into()) }
	fn alts(&self) -> Vec<Value> { vec![root_of(&CompactRef(&self.0))] }
}

/// The elemental vectors and lists, with their limits as arguments: packed
/// (`P`) or one element per value, `N` elements, `L` the limit (0: none).
#[derive(PartialEq, Debug, Clone)]
pub struct Fix<T, P, N, L>(pub Vec<T>, pub PhantomData<(P, N, L)>);
#[derive(PartialEq, Debug, Clone)]
pub struct Var<T, P, L>(pub Vec<T>, pub PhantomData<(P, L)>);

fn lim<L: Unsigned>() -> Option<u64> { if L::to_u64() == 0 { None } else { Some(L::to_u64()) } }

macro_rules! elemental {
	( $p:ty, $arr:expr, $list:expr, $bound:ident, $iv:ident, $ivf:ident, $fv:ident, $fvf:ident, $il:ident, $ilf:ident, $fl:ident, $flf:ident ) => {
		impl<T: $bound, N: Unsigned, L: Unsigned> IntoTree for Fix<T, $p, N, L> where for<'a> ElementalFixedVecRef<'a, T>: $iv {
			fn into_tree<DB: WriteBackend>(&self, db: &mut DB) -> Result<<DB::Construct as Construct>::Value, Error<DB::Error>> where
				DB::Construct: CompatibleConstruct { ElementalFixedVecRef(&self.0).$ivf(db, lim::<L>()) }
		}
		impl<T: $bound, N: Unsigned, L: Unsigned> FromTree for Fix<T, $p, N, L> where ElementalFixedVec<T>: $fv {
			fn from_tree<DB: ReadBackend>(root: &<DB::Construct as Construct>::Value, db: &mut DB) -> Result<Self, Error<DB::Error>> where
				DB::Construct: CompatibleConstruct {
				Ok(Fix(ElementalFixedVec::<T>::$fvf(root, db, N::to_usize(), lim::<L>())?.0, PhantomData))
			}
		}
		impl<T: $bound + Clone, N: Unsigned + PartialEq + std::fmt::Debug + 'static, L: Unsigned + PartialEq + std::fmt::Debug + 'static> Shape for Fix<T, $p, N, L> where
			for<'a> ElementalFixedVecRef<'a, T>: $iv, ElementalFixedVec<T>: $fv,
		{
			fn desc() -> J { seq($arr, Some(N::to_usize()), T::desc(), lim::<L>()) }
			fn to_j(&self) -> J { items(&self.0[..]) }
			fn from_j(j: &J) -> Self { Fix(of_items(j), PhantomData) }
			fn alts(&self) -> Vec<Value> {
				vec![ElementalFixedVec(self.0.clone()).$ivf(&mut bm::NoopBackend::<C32>::default(), lim::<L>()).unwrap()]
			}
		}
		impl<T: $bound, L: Unsigned> IntoTree for Var<T, $p, L> where for<'a> ElementalVariableVecRef<'a, T>: $il {
			fn into_tree<DB: WriteBackend>(&self, db: &mut DB) -> Result<<DB::Construct as Construct>::Value, Error<DB::Error>> where
				DB::Construct: CompatibleConstruct { ElementalVariableVecRef(&self.0).$ilf(db, lim::<L>()) }
		}
		impl<T: $bound, L: Unsigned> FromTree for Var<T, $p, L> where ElementalVariableVec<T>: $fl {
			fn from_tree<DB: ReadBackend>(root: &<DB::Construct as Construct>::Value, db: &mut DB) -> Result<Self, Error<DB::Error>> where
				DB::Construct: CompatibleConstruct {
				Ok(Var(ElementalVariableVec::<T>::$flf(root, db, lim::<L>())?.0, PhantomData))
			}
		}
		impl<T: $bound + Clone, L: Unsigned + PartialEq + std::fmt::Debug + 'static> Shape for Var<T, $p, L> where
			for<'a> ElementalVariableVecRef<'a, T>: $il, ElementalVariableVec<T>: $fl,
		{
			fn desc() -> J { seq($list, None, T::desc(), lim::<L>()) }
			fn to_j(&self) -> J { items(&self.0[..]) }
			fn from_j(j: &J) -> Self { Var(of_items(j), PhantomData) }
			fn alts(&self) -> Vec<Value> {
				vec![ElementalVariableVec(self.0.clone()).$ilf(&mut bm::NoopBackend::<C32>::default(), lim::<L>()).unwrap()]
			}
		}
	}
}
#[derive(PartialEq, Debug, Clone)]
pub struct Pk;
#[derive(PartialEq, Debug, Clone)]
pub struct Pl;
elemental!(Pk, "carr", "clist", Basic, IntoCompactVectorTree, into_compact_vector_tree, FromCompactVectorTree, from_compact_vector_tree,
	IntoCompactListTree, into_compact_list_tree, FromCompactListTree, from_compact_list_tree);
elemental!(Pl, "arr", "list", Shape, IntoCompositeVectorTree, into_composite_vector_tree, FromCompositeVectorTree, from_composite_vector_tree,
	IntoCompositeListTree, into_composite_list_tree, FromCompositeListTree, from_composite_list_tree);

// ------------------------------------------------------------ derived types

fn compact_desc(d: J) -> J {
	let k = if d.get("k").s() == "arr" { "carr" } else { "clist" };
	d.with("k", k.into())
}

/// A derived struct; `c` marks compact fields.
macro_rules! product {
	( @d $t:ty, c ) => { compact_desc(<$t as Shape>::desc()) };
	( @d $t:ty, p ) => { <$t as Shape>::desc() };
	( $name:ident { $( $f:ident : $t:ty , $m:ident );* $(;)? } ) => {
		impl Shape for $name {
			fn desc() -> J { obj!{ "k" => "prod", "ts" => J::A(vec![$( product!(@d $t, $m) ),*]) } }
			fn to_j(&self) -> J { J::A(vec![$( <$t as Shape>::to_j(&self.$f) ),*]) }
			#[allow(unused_variables, unused_mut)]
			fn from_j(j: &J) -> Self {
				let mut i = j.a().iter();
				$name { $( $f: <$t as Shape>::from_j(i.next().unwrap()) ),* }
			}
		}
	}
}

#[derive(Debug, PartialEq, Clone, Default, IntoTree, FromTree)]
pub struct S1 { pub a: u64 }
product!(S1 { a: u64, p });

#[derive(Debug, PartialEq, Clone, IntoTree, FromTree)]
pub struct S3 { pub a: u8, pub b: Vec<u16>, pub c: H256 }
product!(S3 { a: u8, p; b: Vec<u16>, p; c: H256, p });

#[derive(Debug, PartialEq, Clone, IntoTree, FromTree)]
pub struct S4 {
	pub a: Option<S1>,
	#[bm(compact)] pub b: MaxVec<u64, U5>,
	#[bm(compact)] pub c: GenericArray<u8, U40>,
	pub d: MaxVec<S1, U3>,
}
product!(S4 { a: Option<S1>, p; b: MaxVec<u64, U5>, c; c: GenericArray<u8, U40>, c; d: MaxVec<S1, U3>, p });

#[derive(Debug, PartialEq, Clone, IntoTree, FromTree)]
pub struct S5 { pub a: bool, pub b: u128, pub c: (u8, U256), pub d: Box<S3>, #[bm(compact)] pub e: MaxVec<bool, U300> }
product!(S5 { a: bool, p; b: u128, p; c: (u8, U256), p; d: Box<S3>, p; e: MaxVec<bool, U300>, c });

#[derive(Debug, PartialEq, Clone, IntoTree, FromTree)]
pub struct S9 { pub a: u8, pub b: u8, pub c: u8, pub d: u8, pub e: u8, pub f: u8, pub g: u8, pub h: u8, pub i: H512 }
product!(S9 { a: u8, p; b: u8, p; c: u8, p; d: u8, p; e: u8, p; f: u8, p; g: u8, p; h: u8, p; i: H512, p });

#[derive(Debug, PartialEq, Clone, IntoTree, FromTree)]
pub struct S0 {}
product!(S0 {});

#[derive(Debug, PartialEq, Clone, IntoTree, FromTree)]
pub struct T2(pub u32, #[bm(compact)] pub MaxVec<u8, U64>);
impl Shape for T2 {
	fn desc() -> J { obj!{ "k" => "prod", "ts" => vec![u32::desc(), compact_desc(MaxVec::<u8, U64>::desc())] } }
	fn to_j(&self) -> J { J::A(vec![self.0.to_j(), self.1.to_j()]) }
	fn from_j(j: &J) -> Self { T2(u32::from_j(&j.a()[0]), Shape::from_j(&j.a()[1])) }
}

#[derive(Debug, PartialEq, Clone, IntoTree, FromTree)]
pub struct G2<T, U> { pub x: T, pub y: U }
impl<T: Shape, U: Shape> Shape for G2<T, U> {
	fn desc() -> J { obj!{ "k" => "prod", "ts" => vec![T::desc(), U::desc()] } }
	fn to_j(&self) -> J { J::A(vec![self.x.to_j(), self.y.to_j()]) }
	fn from_j(j: &J) -> Self { G2 { x: T::from_j(&j.a()[0]), y: U::from_j(&j.a()[1]) } }
}

fn variant(unit: bool, ts: Vec<J>) -> J { obj!{ "u" => unit, "ts" => ts } }
fn chosen(i: usize, f: Vec<J>) -> J { obj!{ "i" => i, "f" => f } }

#[derive(Debug, PartialEq, Clone, IntoTree, FromTree)]
pub enum E5 {
	A,
	B(u64),
	C(u8, Vec<u16>, H256),
	D { x: bool, #[bm(compact)] y: MaxVec<u32, U9>, z: Option<u8> },
	F(#[bm(compact)] GenericArray<u16, U20>, S1),
}
impl Shape for E5 {
	fn desc() -> J {
		obj!{ "k" => "sum", "vs" => vec![
			variant(true, vec![]),
			variant(false, vec![u64::desc()]),
			variant(false, vec![u8::desc(), Vec::<u16>::desc(), H256::desc()]),
			variant(false, vec![bool::desc(), compact_desc(MaxVec::<u32, U9>::desc()), Option::<u8>::desc()]),
			variant(false, vec![compact_desc(GenericArray::<u16, U20>::desc()), S1::desc()]),
		] }
	}
	fn to_j(&self) -> J {
		match self {
			E5::A => chosen(0, vec![]),
			E5::B(a) => chosen(1, vec![a.to_j()]),
			E5::C(a, b, c) => chosen(2, vec![a.to_j(), b.to_j(), c.to_j()]),
			E5::D { x, y, z } => chosen(3, vec![x.to_j(), y.to_j(), z.to_j()]),
			E5::F(a, b) => chosen(4, vec![a.to_j(), b.to_j()]),
		}
	}
	fn from_j(j: &J) -> Self {
		let f = j.get("f").a();
		match j.get("i").i() {
			0 => E5::A,
			1 => E5::B(Shape::from_j(&f[0])),
			2 => E5::C(Shape::from_j(&f[0]), Shape::from_j(&f[1]), Shape::from_j(&f[2])),
			3 => E5::D { x: Shape::from_j(&f[0]), y: Shape::from_j(&f[1]), z: Shape::from_j(&f[2]) },
			_ => E5::F(Shape::from_j(&f[0]), Shape::from_j(&f[1])),
		}
	}
}

#[derive(Debug, PartialEq, Clone, IntoTree, FromTree)]
pub enum E2 { L(Box<S3>), R(E5) }
impl Shape for E2 {
	fn desc() -> J { obj!{ "k" => "sum", "vs" => vec![variant(false, vec![S3::desc()]), variant(false, vec![E5::desc()])] } }
	fn to_j(&self) -> J { match self { E2::L(a) => chosen(0, vec![a.to_j()]), E2::R(a) => chosen(1, vec![a.to_j()]) } }
	fn from_j(j: &J) -> Self {
		let f = j.get("f").a();
		if j.get("i").i() == 0 { E2::L(Shape::from_j(&f[0])) } else { E2::R(Shape::from_j(&f[0])) }
	}
}

#[derive(Debug, PartialEq, Clone, IntoTree, FromTree)]
pub enum EU { A, B, C }
impl Shape for EU {
	fn desc() -> J { obj!{ "k" => "sum", "vs" => vec![variant(true, vec![]), variant(true, vec![]), variant(true, vec![])] } }
	fn to_j(&self) -> J { chosen(match self { EU::A => 0, EU::B => 1, EU::C => 2 }, vec![]) }
	fn from_j(j: &J) -> Self { match j.get("i").i() { 0 => EU::A, 1 => EU::B, _ => EU::C } }
}

// ---------------------------------------------------------------- catalogue

/// A backend reference as a sized backend.
pub struct Ref<'a, 'b, C: bm::Construct>(pub &'a mut Dyn<'b, C>);
impl<'a, 'b, C: bm::Construct> Backend for Ref<'a, 'b, C> { type Construct = C; type Error = TapError; }
impl<'a, 'b, C: bm::Construct> ReadBackend for Ref<'a, 'b, C> {
	fn get(&mut self, k: &C::Value) -> Result<Option<(C::Value, C::Value)>, TapError> { self.0.get(k) }
}
impl<'a, 'b, C: bm::Construct> WriteBackend for Ref<'a, 'b, C> {
	fn rootify(&mut self, k: &C::Value) -> Result<(), TapError> { self.0.rootify(k) }
	fn unrootify(&mut self, k: &C::Value) -> Result<(), TapError> { self.0.unrootify(k) }
	fn insert(&mut self, k: C::Value, v: (C::Value, C::Value)) -> Result<(), TapError> { self.0.insert(k, v) }
}

/// A type of the catalogue.
pub struct Ty {
	pub name: String,
	pub desc: J,
	pub enc: fn(&J, &mut Dyn<Inh<Value>>) -> Result<Value, E>,
	pub dec: fn(&Value, &mut Dyn<Inh<Value>>) -> Result<J, E>,
	pub enc_unit: fn(&J, &mut Dyn<Uni<Value>>) -> Result<Value, E>,
	pub dec_unit: fn(&Value, &mut Dyn<Uni<Value>>) -> Result<J, E>,
	pub root: fn(&J) -> Value,
	pub alts: fn(&J) -> Vec<Value>,
	/// Decoding gives a value equal to the one encoded.
	pub same: fn(&J, &Value, &mut Dyn<Inh<Value>>) -> bool,
}

pub fn enc_of<T: Shape, C: bm::Construct<Value=Value>>(j: &J, db: &mut Dyn<C>) -> Result<Value, E> {
	T::from_j(j).into_tree(&mut Ref(db))
}
pub fn dec_of<T: Shape, C: bm::Construct<Value=Value>>(r: &Value, db: &mut Dyn<C>) -> Result<J, E> {
	T::from_tree(r, &mut Ref(db)).map(|t| t.to_j())
}
fn root_by<T: Shape>(j: &J) -> Value { Value(bm_le::tree_root::<sha2::Sha256, T>(&T::from_j(j))) }
fn alts_by<T: Shape>(j: &J) -> Vec<Value> { T::from_j(j).alts() }
fn same_by<T: Shape>(j: &J, r: &Value, db: &mut Dyn<Inh<Value>>) -> bool {
	T::from_tree(r, &mut Ref(db)).map(|t| t == T::from_j(j)).unwrap_or(false)
}

fn ty<T: Shape>(name: &str) -> Ty {
	Ty {
		name: name.into(), desc: T::desc(),
		enc: enc_of::<T, Inh<Value>>, dec: dec_of::<T, Inh<Value>>,
		enc_unit: enc_of::<T, Uni<Value>>, dec_unit: dec_of::<T, Uni<Value>>,
		root: root_by::<T>, alts: alts_by::<T>, same: same_by::<T>,
	}
}

type T256 = typenum::U256;
type U1T = op!(U1 << U40);
type U1E = op!(U1 << U62);

pub fn catalogue() -> Vec<Ty> {
	macro_rules! cat { ( $( $t:ty ),* $(,)? ) => { vec![$( ty::<$t>(stringify!($t)) ),*] } }
	cat![
		bool, u8, u16, u32, u64, u128, U256, H256, H512, Value, (), Ign, S0,
		Option<u8>, Option<()>, Option<Option<u16>>, Option<H512>, Box<u32>, Box<Option<u64>>,
		(u8, u16), (u8, bool, U256), (u64, u64, u64, Ign), (u8, u8, u8, u8, H512),
		(u8, u16, u32, u64, u128, bool), (u8, u8, u8, u8, u8, u8, Option<u8>), (u8, u8, u8, u8, u8, u8, u8, (u8, u8)),
		(u8, u8, u8, u8, u8, u8, u8, Vec<u8>, H256), ((u8, ()), Option<(u16, u16, u16)>),
		[u8; 1], [u8; 3], [u64; 4], [H256; 5], [bool; 7], [u16; 9], [u8; 17], [u128; 32], [H512; 2], [[u8; 2]; 3],
		GenericArray<u8, U3>, GenericArray<Vec<u8>, U2>, GenericArray<(u8, u32), U5>, GenericArray<u64, U33>,
		VecArray<u32, U6>, VecArray<Option<u32>, U5>, VecArray<S1, U3>, VecArray<u8, U0>,
		Compact<GenericArray<u8, U32>>, Compact<GenericArray<u8, U33>>, Compact<GenericArray<u16, U17>>, Compact<GenericArray<u32, U5>>,
		Compact<GenericArray<u64, U13>>, Compact<GenericArray<u128, U3>>, Compact<GenericArray<U256, U3>>,
		Compact<GenericArray<bool, U4>>, Compact<GenericArray<bool, U10>>, Compact<GenericArray<bool, U257>>, Compact<GenericArray<bool, U512>>,
		Compact<VecArray<u8, U65>>, Compact<VecArray<u16, U1>>, Compact<VecArray<u64, U9>>, Compact<VecArray<bool, T256>>, Compact<VecArray<U256, U5>>, Compact<VecArray<u8, U0>>,
		Vec<u8>, Vec<bool>, Vec<u64>, Vec<U256>, Vec<H256>, Vec<Option<u8>>, Vec<Vec<u8>>, Vec<(u8, u16)>, Vec<S3>, Vec<E5>, Vec<()>, Vec<[u16; 3]>,
		MaxVec<u8, U1>, MaxVec<u16, U4>, MaxVec<u64, U5>, MaxVec<H256, U8>, MaxVec<Vec<u8>, U3>, MaxVec<U256, U1T>, MaxVec<S1, U1T>, MaxVec<MaxVec<u8, U2>, U6>,
		Compact<MaxVec<u8, U1>>, Compact<MaxVec<u8, U32>>, Compact<MaxVec<u8, U33>>, Compact<MaxVec<u8, U100>>, Compact<MaxVec<u16, U17>>, Compact<MaxVec<u32, U9>>,
		Compact<MaxVec<u64, U4>>, Compact<MaxVec<u64, U1T>>, Compact<MaxVec<u128, U7>>, Compact<MaxVec<U256, U6>>,
		Compact<MaxVec<bool, U8>>, Compact<MaxVec<bool, T256>>, Compact<MaxVec<bool, U257>>, Compact<MaxVec<bool, U1T>>,
		MaxVec<u32, U1E>, Compact<MaxVec<u64, U1E>>, Compact<MaxVec<U256, U1E>>, Compact<MaxVec<bool, U1E>>,
		Fix<u8, Pk, U5, U100>, Fix<u16, Pk, U20, U40>, Fix<u64, Pk, U0, U9>, Fix<bool, Pk, U9, U600>, Fix<U256, Pk, U2, U5>,
		Fix<u8, Pl, U2, U6>, Fix<S1, Pl, U3, U1T>, Fix<u128, Pk, U3, U0>,
		Var<u8, Pk, U0>, Var<u32, Pk, U0>, Var<u128, Pk, U0>, Var<U256, Pk, U0>, Var<bool, Pk, U0>, Var<u64, Pk, U11>, Var<u16, Pl, U0>, Var<Option<u8>, Pl, U5>,
		S1, S3, S4, S5, S9, T2, G2<u8, Vec<S1>>, G2<E5, Option<E2>>, E5, E2, EU, Option<EU>, Option<S4>, Vec<S4>, (S3, E2),
	]
}

// ----------------------------------------------------------- random values

/// A random value of a described type.
pub fn sample(rng: &mut Rng, d: &J, size: usize) -> J {
	let n = || d.get("n").i() as usize;
	let bytes = |rng: &mut Rng, n: usize| -> J {
		let b = match rng.below(6) {
			0 => vec![0u8; n],
			1 => vec![0xff; n],
			2 => { let mut b = vec![0u8; n]; b[0] = rng.below(4) as u8; b },
			3 => { let mut b = vec![0u8; n]; b[n - 1] = 1 + rng.below(255) as u8; b },
			_ => rng.bytes(n),
		};
		hex(&b).into()
	};
	let many = |rng: &mut Rng, n: usize, t: &J, packed: bool| -> J {
		let same = rng.chance(1, 5);
		let one = sample(rng, t, size / 3);
		J::A((0..n).map(|_| if same { one.clone() } else { sample(rng, t, if packed { 0 } else { size / 3 }) }).collect())
	};
	let maxn = |d: &J| -> usize {
		match d.get("max").a().get(0) {
			None => usize::max_value(),
			Some(m) => m.a().iter().rev().fold(0usize, |x, d| x * 4096 + d.i() as usize),
		}
	};
	match d.get("k").s() {
		"u" | "hash" => bytes(rng, n()),
		"bool" => if rng.chance(1, 2) { "01".into() } else { "00".into() },
		"unit" | "ign" => J::A(vec![]),
		"opt" => if rng.chance(1, 3) { J::A(vec![]) } else { J::A(vec![sample(rng, d.get("t"), size)]) },
		"prod" => J::A(d.get("ts").a().iter().map(|t| sample(rng, t, size)).collect()),
		"sum" => {
			let i = rng.below(d.get("vs").a().len());
			let f = d.get("vs").a()[i].get("ts").a().iter().map(|t| sample(rng, t, size)).collect();
			chosen(i, f)
		},
		"arr" | "carr" => many(rng, n(), d.get("t"), d.get("k").s() == "carr"),
		k => {
			let t = d.get("t");
			let packed = k == "clist";
			let per = if !packed { 1 } else if t.get("k").s() == "bool" { 256 } else { 32 / t.get("n").i() as usize };
			let n = match rng.below(5) {
				0 => rng.below(3),
				1 => rng.below(size + 1),
				2 => per * rng.below(size / 2 + 2),
				3 => (per * rng.below(size / 2 + 2) + 1).saturating_sub(2 * rng.below(2)),
				_ => rng.below(per * (size / 2 + 1) + 1),
			};
			let m = maxn(d);
			let n = if rng.chance(1, 6) && m <= per * size + 4 { m } else { std::cmp::min(n, m) };
			many(rng, n, t, packed)
		},
	}
}

pub fn tap_err(e: &E) -> String { crate::tap::res(&Err::<(), E>(e.clone())) }
