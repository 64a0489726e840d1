//! Several handles over any backend: operations as data, so that the same
//! history can be run again on another backend.
use bm::{Dangling, Index, Leak, Owned, Raw, Tree};
use std::collections::BTreeMap;
use crate::seqs::*;
use crate::tap::res;
use crate::util::*;
use crate::values::*;

pub enum Any<C: Cons> where C::Value: Val {
	Own(Raw<Owned, C>),
	Dang(Raw<Dangling, C>),
	Seq(Boxed<C>),
}

impl<C: Cons> Any<C> where C::Value: Val {
	pub fn owned(&self) -> bool {
		match self { Any::Own(_) => true, Any::Dang(_) => false, Any::Seq(s) => s.owned() }
	}
	pub fn raw(&self) -> bool { match self { Any::Seq(_) => false, _ => true } }
	pub fn root(&self) -> C::Value {
		match self { Any::Own(r) => r.root(), Any::Dang(r) => r.root(), Any::Seq(s) => s.root() }
	}
	pub fn len(&self) -> usize { match self { Any::Seq(s) => s.len(), _ => 0 } }
	pub fn get(&self, db: &mut Dyn<C>, i: Index) -> Result<Option<C::Value>, E> {
		match self { Any::Own(r) => r.get(db, i), Any::Dang(r) => r.get(db, i), Any::Seq(_) => panic!("not raw") }
	}
	fn set(&mut self, db: &mut Dyn<C>, i: Index, v: C::Value) -> Result<(), E> {
		match self { Any::Own(r) => r.set(db, i, v), Any::Dang(r) => r.set(db, i, v), Any::Seq(_) => panic!("not raw") }
	}
	fn subtree(&self, db: &mut Dyn<C>, i: Index) -> Result<Raw<Dangling, C>, E> {
		match self { Any::Own(r) => r.subtree(db, i), Any::Dang(r) => r.subtree(db, i), Any::Seq(_) => panic!("not raw") }
	}
	fn drop(self, db: &mut Dyn<C>) -> Result<(), E> {
		match self { Any::Own(r) => Tree::drop(r, db), Any::Dang(r) => Tree::drop(r, db), Any::Seq(s) => s.drop(db) }
	}
	/// The same handle again, from its metadata.
	pub fn dup(&self) -> Self {
		match self {
			Any::Own(r) => Any::Own(Raw::from_leaked(r.metadata())),
			Any::Dang(r) => Any::Dang(Raw::from_leaked(r.metadata())),
			Any::Seq(s) => Any::Seq(s.dup()),
		}
	}
}

pub struct Hd<C: Cons> where C::Value: Val {
	pub kind: String,
	pub which: usize,
	pub max: Option<u64>,
	pub any: Any<C>,
}

/// What an operation gave: result, value read, root of its handle.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Out { pub res: String, pub out: String, pub root: String, pub len: usize }

pub struct World<'a, C: Cons> where C::Value: Val {
	pub makers: &'a Makers<C>,
	pub hs: BTreeMap<i64, Hd<C>>,
}

pub fn index(path: &[bool]) -> Index {
	let mut n: usize = 1;
	for b in path { n = (n << 1) | (*b as usize); }
	Index::from_one(n).unwrap()
}
pub fn jpath(path: &[bool]) -> J { J::A(path.iter().map(|b| J::I(*b as i64)).collect()) }
pub fn path_of(j: &J) -> Vec<bool> { j.a().iter().map(|b| b.i() == 1).collect() }

impl<'a, C: Cons> World<'a, C> where C::Value: Val {
	pub fn new(makers: &'a Makers<C>) -> Self { World { makers, hs: BTreeMap::new() } }
	pub fn dup(&self) -> Self {
		World { makers: self.makers, hs: self.hs.iter().map(|(i, h)| (*i, Hd {
			kind: h.kind.clone(), which: h.which, max: h.max, any: h.any.dup() })).collect() }
	}
	/// Candidates for `which` of a create operation.
	pub fn ways(&self, op: &J) -> Vec<usize> {
		if op.get("op").s() != "create" { return vec![0] }
		let ms = self.makers.named(op.get("kind").s());
		let (ew, n) = (op.get("ew").i() as usize, op.get("n").i());
		(0..ms.len()).filter(|i| (ew == 0 || ms[*i].width() == ew) && (n == 0 || ms[*i].takes_len())).collect()
	}

	/// Run one operation; a panic is a result.
	pub fn exec(&mut self, db: &mut Dyn<C>, op: &J) -> Out {
		begin(op);
		match guard(|| self.run(db, op)) {
			Ok(o) => o,
			Err(()) => Out { res: "panic".into(), ..Out::default() },
		}
	}

	fn run(&mut self, db: &mut Dyn<C>, op: &J) -> Out {
		let hid = if op.has("h") { op.get("h").i() } else { 0 };
		let path = if op.has("path") { path_of(op.get("path")) } else { vec![] };
		let i = if op.has("i") { op.get("i").i() as usize } else { 0 };
		let bytes = |k: &str| unhex(op.get(k).s());
		let val = |k: &str| C::Value::of(&bytes(k));
		let mut of = hid;
		let r: Result<String, E> = (|| {
			let ok = || Ok(String::new());
			match op.get("op").s() {
				"create" => {
					let kind = op.get("kind").s();
					let which = if op.has("which") { op.get("which").i() as usize } else { self.ways(op)[0] };
					let max = op.get("max").i();
					let max = if max < 0 { None } else { Some(max as u64) };
					let s = self.makers.named(kind)[which].create(db, op.get("n").i() as usize, max)?;
					self.hs.insert(hid, Hd { kind: kind.into(), which, max, any: Any::Seq(s) });
					ok()
				},
				"raw" | "open" => {
					let root = if op.has("root") { val("root") } else { Default::default() };
					let any = if op.get("own").b() {
						if op.has("root") { db.rootify(&root).map_err(bm::Error::Backend)?; }
						Any::Own(Raw::new(root))
					} else {
						Any::Dang(Raw::new(root))
					};
					self.hs.insert(hid, Hd { kind: "raw".into(), which: 0, max: None, any });
					ok()
				},
				"rset" => {
					self.hs.get_mut(&hid).unwrap().any.set(db, index(&path), val("v"))?;
					ok()
				},
				"rget" => Ok(self.hs[&hid].any.get(db, index(&path))?.map(|v| v.hex()).unwrap_or("none".into())),
				"subtree" => {
					of = op.get("to").i();
					let t = self.hs[&hid].any.subtree(db, index(&path))?;
					self.hs.insert(of, Hd { kind: "raw".into(), which: 0, max: None, any: Any::Dang(t) });
					ok()
				},
				"fork" | "adopt" => {
					let own = op.get("op").s() == "adopt";
					let h = &self.hs[&hid];
					let any = match &h.any {
						Any::Seq(s) => if own {
							db.rootify(&s.root()).map_err(bm::Error::Backend)?;
							Any::Seq(s.own())
						} else { Any::Seq(s.fork()) },
						r => if own {
							db.rootify(&r.root()).map_err(bm::Error::Backend)?;
							Any::Own(Raw::new(r.root()))
						} else { Any::Dang(Raw::new(r.root())) },
					};
					of = op.get("to").i();
					let h = Hd { kind: h.kind.clone(), which: h.which, max: h.max, any };
					self.hs.insert(of, h);
					ok()
				},
				"recon" => {
					let h = self.hs.remove(&hid).unwrap();
					let spare = h.any.dup();
					let (kind, which, max) = (h.kind, h.which, h.max);
					let r = match h.any { Any::Seq(s) => s.recon(db).map(Any::Seq), a => Ok(a) };
					let (any, r) = match r { Ok(a) => (a, Ok(String::new())), Err(e) => (spare, Err(e)) };
					self.hs.insert(hid, Hd { kind, which, max, any });
					r
				},
				"drop" => {
					let h = self.hs.remove(&hid).unwrap();
					h.any.drop(db)?;
					ok()
				},
				"forget" => { self.hs.remove(&hid); ok() },
				o => {
					let s = match &mut self.hs.get_mut(&hid).unwrap().any { Any::Seq(s) => s, _ => panic!("raw") };
					match o {
						"push" => { s.push(db, &bytes("v"))?; ok() },
						"set" => { s.set(db, i, &bytes("v"))?; ok() },
						"get" => Ok(hex(&s.get(db, i)?)),
						"pop" => Ok(s.pop(db)?.map(|v| hex(&v)).unwrap_or("none".into())),
						o => panic!("operation {}", o),
					}
				},
			}
		})();
		let h = self.hs.get(&of);
		Out {
			res: res(&r),
			out: r.unwrap_or_default(),
			root: h.map(|h| h.any.root().hex()).unwrap_or_default(),
			len: h.map(|h| h.any.len()).unwrap_or(0),
		}
	}
}
