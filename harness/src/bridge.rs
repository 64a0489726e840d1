//! Sequences both as encoded values and as containers.
use bm::{Construct, WriteBackend};
use bm_le::{ElementalFixedVec, ElementalFixedVecRef, ElementalVariableVec, ElementalVariableVecRef,
	FromCompactListTree, FromCompactVectorTree, FromCompositeListTree, FromCompositeVectorTree, FromTree,
	IntoCompactListTree, IntoCompactVectorTree, IntoCompositeListTree, IntoCompositeVectorTree, IntoTree, Value};
use primitive_types::{H256, U256};
use crate::seqs::{Boxed, Dyn, Makers, E};
use crate::shapes::{Ref, Shape, E5, S3};
use crate::util::*;
use crate::values::*;

/// One element type, packed or not.
pub struct Fam<C: Construct> {
	pub name: &'static str,
	pub t: J,
	pub packed: bool,
	/// Encode a list (or vector) with a limit.
	pub enc: fn(&J, bool, Option<u64>, &mut Dyn<C>) -> Result<Value, E>,
	/// Decode; the number of elements matters for vectors.
	pub dec: fn(&Value, usize, bool, Option<u64>, &mut Dyn<C>) -> Result<J, E>,
	/// What a container holds of an element, and back.
	pub one: fn(&J, &mut Dyn<C>) -> Result<Vec<u8>, E>,
	pub un: fn(&[u8], &mut Dyn<C>) -> Result<J, E>,
}

fn of<T: Shape>(j: &J) -> Vec<T> { j.a().iter().map(T::from_j).collect() }
fn js<T: Shape>(v: Vec<T>) -> J { J::A(v.iter().map(|x| x.to_j()).collect()) }

fn penc<T: Shape, C: Construct<Value=Value>>(j: &J, list: bool, max: Option<u64>, db: &mut Dyn<C>) -> Result<Value, E> where
	for<'a> ElementalFixedVecRef<'a, T>: IntoCompactVectorTree, for<'a> ElementalVariableVecRef<'a, T>: IntoCompactListTree
{
	let v = of::<T>(j);
	if list { ElementalVariableVecRef(&v).into_compact_list_tree(&mut Ref(db), max) }
	else { ElementalFixedVecRef(&v).into_compact_vector_tree(&mut Ref(db), max) }
}
fn pdec<T: Shape, C: Construct<Value=Value>>(r: &Value, n: usize, list: bool, max: Option<u64>, db: &mut Dyn<C>) -> Result<J, E> where
	ElementalFixedVec<T>: FromCompactVectorTree, ElementalVariableVec<T>: FromCompactListTree
{
	Ok(js(if list { ElementalVariableVec::<T>::from_compact_list_tree(r, &mut Ref(db), max)?.0 }
	else { ElementalFixedVec::<T>::from_compact_vector_tree(r, &mut Ref(db), n, max)?.0 }))
}
fn lenc<T: Shape, C: Construct<Value=Value>>(j: &J, list: bool, max: Option<u64>, db: &mut Dyn<C>) -> Result<Value, E> {
	let v = of::<T>(j);
	if list { ElementalVariableVecRef(&v).into_composite_list_tree(&mut Ref(db), max) }
	else { ElementalFixedVecRef(&v).into_composite_vector_tree(&mut Ref(db), max) }
}
fn ldec<T: Shape, C: Construct<Value=Value>>(r: &Value, n: usize, list: bool, max: Option<u64>, db: &mut Dyn<C>) -> Result<J, E> {
	Ok(js(if list { ElementalVariableVec::<T>::from_composite_list_tree(r, &mut Ref(db), max)?.0 }
	else { ElementalFixedVec::<T>::from_composite_vector_tree(r, &mut Ref(db), n, max)?.0 }))
}
fn bytes<C: Construct>(j: &J, _: &mut Dyn<C>) -> Result<Vec<u8>, E> { Ok(unhex(j.s())) }
fn unbytes<C: Construct>(b: &[u8], _: &mut Dyn<C>) -> Result<J, E> { Ok(hex(b).into()) }
fn tree<T: Shape, C: Construct<Value=Value>>(j: &J, db: &mut Dyn<C>) -> Result<Vec<u8>, E> {
	Ok(IntoTree::into_tree(&T::from_j(j), &mut Ref(db))?.as_ref().to_vec())
}
fn untree<T: Shape, C: Construct<Value=Value>>(b: &[u8], db: &mut Dyn<C>) -> Result<J, E> {
	Ok(<T as FromTree>::from_tree(&Value::of(b), &mut Ref(db))?.to_j())
}

pub fn families<C: Construct<Value=Value>>() -> Vec<Fam<C>> {
	macro_rules! fams {
		( $( p $p:ty ),*; $( l $l:ty ),* ) => { vec![
			$( Fam { name: concat!("packed ", stringify!($p)), t: <$p as Shape>::desc(), packed: true,
				enc: penc::<$p, C>, dec: pdec::<$p, C>, one: bytes::<C>, un: unbytes::<C> }, )*
			$( Fam { name: stringify!($l), t: <$l as Shape>::desc(), packed: false,
				enc: lenc::<$l, C>, dec: ldec::<$l, C>, one: tree::<$l, C>, un: untree::<$l, C> }, )*
		] }
	}
	fams!(p u8, p u16, p u32, p u64, p u128, p U256; l u8, l bool, l H256, l U256, l Option<u16>, l S3, l Vec<u8>, l E5)
}

impl<C: Cons> Fam<C> where C::Value: Val {
	pub fn desc(&self, list: bool, n: usize, max: Option<u64>) -> J {
		let k = match (list, self.packed) { (true, true) => "clist", (true, false) => "list", (false, true) => "carr", _ => "arr" };
		let d = obj!{ "k" => k, "t" => self.t.clone(), "max" => opt_digits(max) };
		if list { d } else { d.with("n", n.into()) }
	}
	/// The container kinds that hold these elements.
	pub fn kinds(&self, list: bool) -> Vec<&'static str> {
		let wide = self.t.get("k").s() == "u" && self.t.get("n").i() == 32;
		let mut ks = vec![];
		if self.packed { ks.push(if list { "plist" } else { "pvec" }); }
		if !self.packed || wide { ks.push(if list { "list" } else { "vec" }); }
		ks
	}
	/// Makers of one of the kinds.
	pub fn ways(&self, m: &Makers<C>, kind: &str) -> Vec<usize> {
		let w = if kind.starts_with('p') { self.t.get("n").i() as usize } else { 32 };
		(0..m.named(kind).len()).filter(|i| m.named(kind)[*i].width() == w).collect()
	}
}

/// An opened container and what it is.
pub struct Br { pub fam: usize, pub list: bool, pub max: Option<u64> }

/// Open an encoded value; it is rooted for the handle if owned.
pub fn open<C: Cons<Value=Value>>(m: &Makers<C>, kind: &str, way: usize, own: bool, db: &mut Dyn<C>, root: &Value, n: usize, max: Option<u64>) -> Result<Boxed<C>, E> {
	if own { db.rootify(root).map_err(bm::Error::Backend)?; }
	m.named(kind)[way].open(own, db, root.clone(), n, max)
}

/// One operation; elements as described values.
pub fn operate<C: Cons<Value=Value>>(f: &Fam<C>, s: &mut Boxed<C>, db: &mut Dyn<C>, op: &J) -> Result<J, E> {
	let i = if op.has("i") { op.get("i").i() as usize } else { 0 };
	let none = J::A(vec![]);
	match op.get("op").s() {
		"push" => { let v = (f.one)(op.get("v"), db)?; s.push(db, &v)?; Ok(none) },
		"set" => { let v = (f.one)(op.get("v"), db)?; s.set(db, i, &v)?; Ok(none) },
		"get" => { let b = s.get(db, i)?; Ok(J::A(vec![(f.un)(&b, db)?])) },
		"pop" => Ok(match s.pop(db)? {
			None => none,
			Some(b) => J::A(vec![if f.packed { hex(&b).into() } else { J::S(hex(&b)) }]),
		}),
		o => panic!("operation {}", o),
	}
}
