//! Histories of several handles over one store (C06, C07, C08, C10).
use bm::{Dangling, Index, Leak, Owned, Raw, ReadBackend, Tree, WriteBackend};
use bmh::seqs::*;
use bmh::tap::{res, store, Tap};
use bmh::util::*;
use bmh::values::*;
use bmh::obj;

#[derive(Clone, Copy, PartialEq)]
enum Focus { Safe, Exact, Raw, Know }

enum Any<C: Cons> where C::Value: Val {
	Own(Raw<Owned, C>),
	Dang(Raw<Dangling, C>),
	Seq(Boxed<C>),
}

impl<C: Cons> Any<C> where C::Value: Val {
	fn owned(&self) -> bool {
		match self { Any::Own(_) => true, Any::Dang(_) => false, Any::Seq(s) => s.owned() }
	}
	fn raw(&self) -> bool { match self { Any::Seq(_) => false, _ => true } }
	fn root(&self) -> C::Value {
		match self { Any::Own(r) => r.root(), Any::Dang(r) => r.root(), Any::Seq(s) => s.root() }
	}
	fn get(&self, db: &mut Tap<C>, i: Index) -> Result<Option<C::Value>, E> {
		match self { Any::Own(r) => r.get(db, i), Any::Dang(r) => r.get(db, i), Any::Seq(_) => panic!("not raw") }
	}
	fn set(&mut self, db: &mut Tap<C>, i: Index, v: C::Value) -> Result<(), E> {
		match self { Any::Own(r) => r.set(db, i, v), Any::Dang(r) => r.set(db, i, v), Any::Seq(_) => panic!("not raw") }
	}
	fn drop(self, db: &mut Tap<C>) -> Result<(), E> {
		match self { Any::Own(r) => Tree::drop(r, db), Any::Dang(r) => Tree::drop(r, db), Any::Seq(s) => s.drop(db) }
	}
}

struct H<C: Cons> where C::Value: Val {
	id: usize,
	maker: Option<(&'static str, usize)>,
	max: Option<u64>,
	any: Any<C>,
}

struct Run<'a, C: Cons> where C::Value: Val {
	tap: Tap<C>,
	makers: &'a Makers<C>,
	hs: Vec<H<C>>,
	next: usize,
	rng: Rng,
	dead: bool,
	focus: Focus,
	/// Nodes a proof pointed to without giving their children.
	missing: Vec<(C::Value, C::Value)>,
	/// Leave out what the store holds.
	quiet: bool,
	/// Roots put in place by the store's own operation.
	pinned: Vec<C::Value>,
	/// Every value ever seen.
	seen: std::collections::BTreeSet<C::Value>,
}

fn index(path: &[bool]) -> Index {
	let mut n: usize = 1;
	for b in path { n = (n << 1) | (*b as usize); }
	Index::from_one(n).unwrap()
}

fn jpath(path: &[bool]) -> J { J::A(path.iter().map(|b| J::I(*b as i64)).collect()) }

impl<'a, C: Cons> Run<'a, C> where C::Value: Val {
	fn value(&mut self) -> C::Value {
		let w = C::Value::W;
		match self.rng.below(10) {
			0 | 1 => Default::default(),
			2 | 3 | 4 => { let mut v = vec![0; w]; v[0] = 1 + self.rng.below(3) as u8; C::Value::of(&v) },
			5 | 6 if !self.hs.is_empty() => {
				let i = self.rng.below(self.hs.len());
				self.hs[i].any.root()
			},
			7 | 8 => {
				let mut keys: Vec<C::Value> = self.tap.db.as_ref().keys().cloned().collect();
				keys.sort();
				self.rng.pick(&keys).clone()
			},
			_ => C::Value::of(&self.rng.bytes(w)),
		}
	}
	fn elem(&mut self, w: usize) -> Vec<u8> {
		if w == C::Value::W { return self.value().as_ref().to_vec() }
		match self.rng.below(4) {
			0 => vec![0; w],
			1 => vec![1 + self.rng.below(2) as u8; w],
			_ => self.rng.bytes(w),
		}
	}
	fn path(&mut self) -> Vec<bool> {
		let d = match self.rng.below(20) {
			0 => 0,
			1 | 2 | 3 | 4 | 5 => 1,
			6 | 7 | 8 | 9 | 10 => 2,
			11 | 12 | 13 | 14 => 3,
			15 | 16 => 4,
			17 => self.rng.range(5, 7),
			_ => if self.focus == Focus::Raw { self.rng.range(8, 62) } else { self.rng.range(8, 24) },
		};
		(0..d).map(|_| self.rng.chance(1, 2)).collect()
	}

	/// Announce, run and log one operation.
	fn step<F>(&mut self, ev: J, f: F) -> Option<J> where
		F: FnOnce(&mut Self, J) -> J
	{
		if self.dead { return None }
		begin(&ev);
		let r = guard(|| f(self, ev.clone()));
		let mut ev = match r {
			Err(()) => {
				event(&ev.with("res", "panic".into()));
				self.dead = true;
				return None
			},
			Ok(x) => x,
		};
		for k in self.tap.db.as_ref().keys() {
			if self.seen.len() < 80 { self.seen.insert(k.clone()); }
		}
		match self.focus {
			Focus::Safe | Focus::Exact if self.quiet => (),
			Focus::Safe | Focus::Exact => ev = ev.with("store", store(&self.tap.db)),
			Focus::Know => {
				let tap = &mut self.tap;
				let gets = self.seen.iter().map(|k| {
					let kids = match guard(|| tap.db.get(k)) {
						Ok(Ok(Some((l, r)))) => vec![l.hex().into(), r.hex().into()],
						Ok(Ok(None)) => vec![],
						_ => vec!["error".into()],
					};
					J::A(vec![k.hex().into(), J::A(kids)])
				}).collect();
				ev = ev.with("gets", J::A(gets));
			},
			Focus::Raw => (),
		}
		event(&ev);
		Some(ev)
	}

	fn root_of(&self, id: usize) -> J { self.hs.iter().find(|h| h.id == id).unwrap().any.root().hex().into() }

	fn create(&mut self, kind: &'static str, which: usize, len: usize, max: Option<u64>) {
		let id = self.next;
		let m = &self.makers.named(kind)[which];
		let ev = obj!{ "op" => "create", "h" => id, "kind" => kind, "n" => len,
			"ew" => if kind.starts_with('p') { m.width() } else { 0 },
			"max" => max.map(|x| x as i64).unwrap_or(-1) };
		self.next += 1;
		self.step(ev, |r, ev| {
			let m = &r.makers.named(kind)[which];
			match m.create(&mut r.tap, len, max) {
				Err(e) => ev.with("res", res::<(), _>(&Err(e)).into()),
				Ok(seq) => {
					r.hs.push(H { id, maker: Some((kind, which)), max, any: Any::Seq(seq) });
					let root = r.root_of(id);
					ev.with("res", "ok".into()).with("root", root)
				},
			}
		});
	}

	fn raw(&mut self, own: bool) {
		let id = self.next;
		self.next += 1;
		self.step(obj!{ "op" => "raw", "h" => id, "own" => own }, |r, ev| {
			let any = if own { Any::Own(Default::default()) } else { Any::Dang(Default::default()) };
			r.hs.push(H { id, maker: None, max: None, any });
			let root = r.root_of(id);
			ev.with("res", "ok".into()).with("root", root)
		});
	}

	fn open(&mut self, own: bool, root: C::Value) {
		let id = self.next;
		self.next += 1;
		self.step(obj!{ "op" => "open", "h" => id, "own" => own, "root" => root.hex() }, |r, ev| {
			let any = if own {
				r.tap.rootify(&root).unwrap();
				Any::Own(Raw::new(root))
			} else {
				Any::Dang(Raw::new(root))
			};
			r.hs.push(H { id, maker: None, max: None, any });
			ev.with("res", "ok".into())
		});
	}

	fn rset(&mut self, p: usize, path: Vec<bool>, v: C::Value) {
		let id = self.hs[p].id;
		let probes = if self.focus == Focus::Raw { 10 } else { 0 };
		let mut where_: Vec<Vec<bool>> = (0..probes).map(|i| {
			let mut q = path.clone();
			match i % 5 {
				0 => { q.truncate(self.rng.below(path.len() + 1)); },
				1 => { q.truncate(self.rng.below(path.len() + 1)); if let Some(x) = q.last_mut() { *x = !*x } },
				2 => { if q.len() < 60 { q.push(self.rng.chance(1, 2)); } },
				3 => {
					q.truncate(self.rng.below(path.len() + 1));
					if let Some(x) = q.last_mut() { *x = !*x }
					for _ in 0..self.rng.below(3) { if q.len() < 60 { q.push(self.rng.chance(1, 2)); } }
				},
				_ => q = self.path(),
			}
			q
		}).collect();
		where_.push(path.clone());
		let ev = obj!{ "op" => "rset", "h" => id, "path" => jpath(&path), "v" => v.hex() };
		self.step(ev, |r, ev| {
			let x = r.hs[p].any.set(&mut r.tap, index(&path), v);
			let mut probe = Vec::new();
			if r.focus == Focus::Raw {
				for q in &where_ {
					let out = match r.hs[p].any.get(&mut r.tap, index(q)) {
						Ok(Some(v)) => J::S(v.hex()),
						Ok(None) => "none".into(),
						e => res(&e).into(),
					};
					probe.push(J::A(vec![jpath(q), out]));
				}
			}
			let root = r.root_of(id);
			ev.with("res", res(&x).into()).with("root", root).with("probe", J::A(probe))
		});
	}

	fn rget(&mut self, p: usize, path: Vec<bool>) {
		let ev = obj!{ "op" => "rget", "h" => self.hs[p].id, "path" => jpath(&path) };
		self.step(ev, |r, ev| {
			let x = r.hs[p].any.get(&mut r.tap, index(&path));
			let ev = ev.with("res", res(&x).into());
			match x {
				Ok(Some(v)) => ev.with("out", v.hex().into()),
				_ => ev.with("out", "none".into()),
			}
		});
	}

	fn subtree(&mut self, p: usize, path: Vec<bool>) {
		let to = self.next;
		self.next += 1;
		let ev = obj!{ "op" => "subtree", "h" => self.hs[p].id, "to" => to, "path" => jpath(&path) };
		self.step(ev, |r, ev| {
			let x = match &r.hs[p].any {
				Any::Own(t) => t.subtree(&mut r.tap, index(&path)),
				Any::Dang(t) => t.subtree(&mut r.tap, index(&path)),
				_ => panic!("not raw"),
			};
			let ev = ev.with("res", res(&x).into());
			match x {
				Ok(t) => {
					r.hs.push(H { id: to, maker: None, max: None, any: Any::Dang(t) });
					let root = r.root_of(to);
					ev.with("root", root)
				},
				Err(_) => { let mut m = ev.o().clone(); m.remove("to"); J::O(m).with("to", J::I(to as i64)) },
			}
		});
	}

	fn seq_op(&mut self, p: usize, op: &str) {
		let (len, w) = match &self.hs[p].any { Any::Seq(s) => (s.len(), s.width()), _ => panic!("raw") };
		let i = if len == 0 { 0 } else if self.rng.chance(1, 12) { len } else { self.rng.below(len) };
		let mut v = self.elem(w);
		let packed = match &self.hs[p].any { Any::Seq(s) => s.kind().starts_with('p'), _ => false };
		if packed && w == C::Value::W {
			// Bytes that are a node of the store for a moment are kept as one or
			// not as the order of the steps has it.
			if let Some((Some(_), _)) = self.tap.db.as_ref().get(&C::Value::of(&v)) { v = self.rng.bytes(w); }
		}
		if op == "set" && self.rng.chance(1, 5) {
			// The value which is there.
			if let Any::Seq(s) = &self.hs[p].any {
				let tap = &mut self.tap;
				if let Ok(Ok(old)) = guard(|| s.get(tap, i)) { v = old; }
			}
		}
		self.seq_do(p, op, i, v);
	}

	fn seq_do(&mut self, p: usize, op: &str, i: usize, v: Vec<u8>) {
		let id = self.hs[p].id;
		let ev = match op {
			"push" => obj!{ "op" => "push", "h" => id, "v" => hex(&v) },
			"set" => obj!{ "op" => "set", "h" => id, "i" => i, "v" => hex(&v) },
			"get" => obj!{ "op" => "get", "h" => id, "i" => i },
			_ => obj!{ "op" => "pop", "h" => id },
		};
		self.step(ev, |r, ev| {
			let tap = &mut r.tap;
			let s = match &mut r.hs[p].any { Any::Seq(s) => s, _ => panic!("raw") };
			let x = match op {
				"push" => res(&s.push(tap, &v)),
				"set" => res(&s.set(tap, i, &v)),
				"get" => res(&s.get(tap, i)),
				_ => res(&s.pop(tap)),
			};
			let root = r.root_of(id);
			ev.with("res", x.into()).with("root", root)
		});
	}

	fn fork(&mut self, p: usize) {
		let to = self.next;
		self.next += 1;
		let ev = obj!{ "op" => "fork", "h" => self.hs[p].id, "to" => to };
		self.step(ev, |r, ev| {
			let any = match &r.hs[p].any {
				Any::Own(t) => Any::Dang(t.as_dangling()),
				Any::Dang(t) => Any::Dang(Raw::from_leaked(t.metadata())),
				Any::Seq(s) => Any::Seq(s.fork()),
			};
			let (maker, max) = (r.hs[p].maker, r.hs[p].max);
			r.hs.push(H { id: to, maker, max, any });
			ev.with("res", "ok".into())
		});
	}

	fn adopt(&mut self, p: usize) {
		let to = self.next;
		self.next += 1;
		let ev = obj!{ "op" => "adopt", "h" => self.hs[p].id, "to" => to };
		self.step(ev, |r, ev| {
			let root = r.hs[p].any.root();
			r.tap.rootify(&root).unwrap();
			let (maker, max) = (r.hs[p].maker, r.hs[p].max);
			let any = match &r.hs[p].any {
				Any::Seq(s) => {
					let (kind, which) = maker.unwrap();
					let m = &r.makers.named(kind)[which];
					match m.open(true, &mut r.tap, root, s.len(), max) {
						Ok(s) => Any::Seq(s),
						Err(e) => return ev.with("res", res::<(), _>(&Err(e)).into()),
					}
				},
				_ => Any::Own(Raw::new(root)),
			};
			r.hs.push(H { id: to, maker, max, any });
			ev.with("res", "ok".into())
		});
	}

	fn drop(&mut self, p: usize) {
		let ev = obj!{ "op" => "drop", "h" => self.hs[p].id };
		self.step(ev, |r, ev| {
			let h = r.hs.remove(p);
			let x = h.any.drop(&mut r.tap);
			ev.with("res", res(&x).into())
		});
	}

	/// A dangling container whose tree is not there any more is of no use.
	fn usable(&mut self, p: usize) -> bool {
		let ok = match &self.hs[p].any {
			Any::Seq(s) if !s.owned() => {
				let tap = &mut self.tap;
				guard(|| (0..s.len()).all(|i| s.get(tap, i).is_ok())).unwrap_or(false)
			},
			_ => true,
		};
		if !ok {
			let ev = obj!{ "op" => "forget", "h" => self.hs[p].id };
			self.step(ev, |r, ev| { r.hs.remove(p); ev.with("res", "ok".into()) });
		}
		ok
	}

	fn db_op(&mut self) {
		match self.rng.below(10) {
			0 | 1 | 2 | 3 => {
				let (l, r) = if !self.missing.is_empty() && self.rng.chance(1, 2) {
					let i = self.rng.below(self.missing.len());
					self.missing.remove(i)
				} else { (self.value(), self.value()) };
				self.step(obj!{ "op" => "insert", "l" => l.hex(), "r" => r.hex() }, |run, ev| {
					let k = C::intermediate_of(&l, &r);
					let x = run.tap.insert(k, (l, r)).map_err(bm::Error::Backend);
					ev.with("res", res(&x).into())
				});
			},
			4 | 5 => {
				let v = self.value();
				self.step(obj!{ "op" => "rootify", "v" => v.hex() }, |r, ev| {
					let x = r.tap.rootify(&v).map_err(bm::Error::Backend);
					r.pinned.push(v);
					ev.with("res", res(&x).into())
				});
			},
			6 | 7 => {
				if self.pinned.is_empty() { return }
				let i = self.rng.below(self.pinned.len());
				let v = self.pinned.remove(i);
				self.step(obj!{ "op" => "unrootify", "v" => v.hex() }, |r, ev| {
					let x = r.tap.unrootify(&v).map_err(bm::Error::Backend);
					ev.with("res", res(&x).into())
				});
			},
			_ => {
				// Part of the nodes of another tree, or of this store.
				let mut donor = Tap::<C>::new();
				if self.rng.chance(1, 3) {
					donor = self.tap.clone();
				} else {
					let mut raw = Raw::<Owned, C>::default();
					for _ in 0..self.rng.range(1, 4) {
						let (p, v) = (self.path(), self.value());
						if p.len() < 6 { raw.set(&mut donor, index(&p), v).unwrap(); }
					}
				}
				let mut nodes: Vec<_> = donor.db.as_ref().iter().filter_map(|(k, v)| v.0.clone().map(|x| (k.clone(), x))).collect();
				nodes.sort();
				let mut some = Vec::new();
				for n in nodes {
					if self.rng.chance(2, 3) { some.push(n) } else { self.missing.push(n.1) }
				}
				if self.rng.chance(1, 3) {
					// Above a tree which is here already.
					let kids = (self.value(), self.value());
					let k = C::intermediate_of(&kids.0, &kids.1);
					let x = self.value();
					let up = if self.rng.chance(1, 2) { (k, x) } else { (x, k) };
					some.push((C::intermediate_of(&up.0, &up.1), up));
					self.missing.push(kids);
				}
				let ps: Vec<_> = some.iter().map(|(k, (l, r))| J::A(vec![k.hex().into(), l.hex().into(), r.hex().into()])).collect();
				let roots: Vec<_> = some.iter().map(|x| x.0.clone()).collect();
				self.step(obj!{ "op" => "populate", "ps" => J::A(ps) }, |r, ev| {
					r.tap.db.populate(some.into_iter().collect());
					ev.with("res", "ok".into())
				});
				if !roots.is_empty() && self.rng.chance(1, 2) && self.hs.len() < 5 {
					let own = self.rng.chance(1, 2);
					let root = self.rng.pick(&roots).clone();
					self.open(own, root);
				}
			},
		}
	}
}

fn trace<C: Cons>(rng: &mut Rng, makers: &Makers<C>, focus: Focus, steps: usize) where C::Value: Val {
	event(&obj!{ "op" => "init", "mode" => C::MODE, "w" => C::Value::W });
	let mut run = Run::<C> {
		tap: Tap::new(), makers, hs: Vec::new(), next: 1, rng: rng.clone(), dead: false, focus, quiet: false, missing: vec![],
		pinned: vec![], seen: Default::default(),
	};
	let unit = C::MODE == "unit";
	let lists = focus != Focus::Exact || run.rng.chance(1, 3);
	let dangling = focus != Focus::Exact;
	let top = run.rng.range(2, 5);
	let long = if run.rng.chance(1, 4) { 12 } else { 6 };
	for _ in 0..steps {
		if run.dead { break }
		let c = run.rng.below(100);
		if run.hs.is_empty() || (run.hs.len() < top && c < 14) {
			if focus == Focus::Raw || run.rng.chance(1, 3) {
				let own = !dangling || run.rng.chance(2, 3);
				run.raw(own);
				continue
			}
			let kinds: &[&'static str] = if lists { &["vec", "pvec", "list", "plist"] } else { &["vec", "pvec"] };
			let kind = *run.rng.pick(kinds);
			let ms = makers.named(kind);
			let which = run.rng.below(ms.len());
			if ms[which].width() > 40 { continue }
			let max = match run.rng.below(12) {
				0 | 1 | 2 => Some(run.rng.range(1, 9) as u64),
				3 => Some(*run.rng.pick(&[300, 512, 513, 4096, 1 << 20, 1 << 25])),
				_ => None,
			};
			let most = max.map(|m| std::cmp::min(m, 9) as usize + 1).unwrap_or(5);
			let n = if unit || !ms[which].takes_len() { 0 } else { run.rng.below(most) };
			run.create(kind, which, n, max);
			continue
		}
		if focus == Focus::Know && c < 50 {
			run.db_op();
			continue
		}
		let p = run.rng.below(run.hs.len());
		if run.hs.len() < 6 && (14..22).contains(&c) {
			if !dangling || run.rng.chance(1, 2) {
				// Adopting a tree that is not there is not a use of it.
				if run.hs[p].any.owned() { run.adopt(p); }
			} else {
				run.fork(p);
			}
			continue
		}
		if (22..29).contains(&c) {
			run.drop(p);
			continue
		}
		if !run.usable(p) || run.dead { continue }
		if run.hs[p].any.raw() {
			if c < 35 && run.hs.len() < 6 && dangling {
				let path = run.path();
				run.subtree(p, path);
			} else if c < 50 && focus == Focus::Raw {
				let path = run.path();
				run.rget(p, path);
			} else {
				let path = run.path();
				let mut v = run.value();
				if run.rng.chance(1, 5) {
					// The value which is there.
					let tap = &mut run.tap;
					let any = &run.hs[p].any;
					if let Ok(Ok(Some(old))) = guard(|| any.get(tap, index(&path))) { v = old; }
				}
				run.rset(p, path, v);
			}
		} else {
			let len = match &run.hs[p].any { Any::Seq(s) => s.len(), _ => 0 };
			let grow = if len >= long { 25 } else { 50 };
			let op = match run.rng.below(100) { x if x < grow => "push", x if x < 75 => "pop", x if x < 95 => "set", _ => "get" };
			run.seq_op(p, op);
		}
	}
	// Let go of everything, in any order.
	if focus == Focus::Exact || focus == Focus::Safe {
		while !run.hs.is_empty() && !run.dead {
			let p = run.rng.below(run.hs.len());
			run.drop(p);
		}
	}
	*rng = run.rng;
	close_trace();
}

/// Nodes with very many owners or very many parents, which let go of them
/// one after the other.
fn many<C: Cons>(rng: &mut Rng, makers: &Makers<C>, focus: Focus, n: usize, right: usize) where C::Value: Val {
	event(&obj!{ "op" => "init", "mode" => C::MODE, "w" => C::Value::W });
	let mut run = Run::<C> {
		tap: Tap::new(), makers, hs: Vec::new(), next: 1, rng: rng.clone(), dead: false, focus, quiet: true, missing: vec![],
		pinned: vec![], seen: Default::default(),
	};
	// Owners.
	run.raw(true);
	for _ in 0..3 {
		let p = vec![run.rng.chance(1, 2), run.rng.chance(1, 2)];
		let v = C::Value::of(&run.rng.bytes(C::Value::W));
		run.rset(0, p, v);
	}
	for _ in 0..n { run.adopt(0); }
	run.quiet = false;
	for left in (1..n + 1).rev() {
		if run.dead { break }
		run.quiet = left > 8 && left % 64 > 1;
		let p = run.rng.below(run.hs.len());
		run.drop(p);
	}
	// Parents: every other element is the same.
	let same = run.rng.bytes(C::Value::W);
	let other = run.rng.bytes(C::Value::W);
	run.quiet = true;
	let p = run.hs.len();
	let max = if run.rng.chance(1, 2) { Some(2 * n as u64) } else { None };
	run.create("vec", 0, 0, max);
	for i in 0..2 * n {
		let v = if i % 2 == right { same.clone() } else { run.rng.bytes(C::Value::W) };
		if !run.dead { run.seq_do(p, "push", 0, v); }
	}
	let keep = run.rng.range(1, 4);
	for i in 0..n - keep {
		if run.dead { break }
		let left = n - i;
		run.quiet = left > keep + 4 && left % 64 > 1;
		run.seq_do(p, "set", 2 * i + 1 - right, other.clone());
	}
	run.quiet = false;
	while !run.hs.is_empty() && !run.dead { run.drop(0); }
	*rng = run.rng;
	close_trace();
}

/// Replay of the transitions of MCWorld.
fn replay<C: Cons>(makers: &Makers<C>, states: &std::collections::HashMap<String, J>, edges: &[J], judged: &[&str],
	fails: &mut Vec<String>) -> (usize, usize) where C::Value: Val
{
	use std::collections::HashMap;
	/// A handle: kind, candidate, owned, root, length.
	#[derive(Clone)]
	struct Hd<V> { kind: String, which: usize, own: bool, root: V, len: usize }
	struct Snap<C: Cons> where C::Value: Val { tap: Tap<C>, hs: HashMap<i64, Hd<C::Value>>, hist: Vec<J> }
	let copy = |s: &Snap<C>| Snap { tap: s.tap.clone(), hs: s.hs.clone(), hist: s.hist.clone() };
	let mut reps: HashMap<String, Vec<Snap<C>>> = HashMap::new();
	for (id, st) in states {
		if st.get("init").b() {
			reps.insert(id.clone(), vec![Snap { tap: Tap::new(), hs: HashMap::new(), hist: vec![] }]);
		}
	}
	let (mut seen, mut runs) = (0, 0);
	let mut todo: Vec<&J> = edges.iter().collect();
	loop {
		let before = todo.len();
		let mut later = Vec::new();
		for e in todo {
			let snaps: Vec<Snap<C>> = match reps.get(e.get("s").s()) {
				Some(v) => v.iter().map(|s| copy(s)).collect(),
				None => { later.push(e); continue },
			};
			seen += 1;
			let op = e.get("op");
			let name = op.get("op").s();
			let want = &states[e.get("t").s()];
			// For a new container, every way to make one.
			let ways = if name == "create" {
				let ms = makers.named(op.get("kind").s());
				let ew = op.get("ew").i() as usize;
				let n = op.get("n").i();
				(0..ms.len()).filter(|i| (ew == 0 || ms[*i].width() == ew) && (n == 0 || ms[*i].takes_len())).collect()
			} else { vec![0] };
			for snap in snaps {
				for way in &ways {
					runs += 1;
					begin(op);
					let mut s = copy(&snap);
					s.hist.push(op.clone());
					let old = store(&s.tap.db);
					let hist = J::A(s.hist.clone());
					let mut fail = |got: J| fails.push(obj!{ "edge" => e.clone(), "state" => want.clone(), "history" => hist.clone(), "got" => got }.dump());
					let hid = if op.has("h") { op.get("h").i() } else { 0 };
					let path: Vec<bool> = if op.has("path") { op.get("path").a().iter().map(|b| b.i() == 1).collect() } else { vec![] };
					let val = |k: &str| C::Value::of(&unhex(op.get(k).s()));
					let r = guard(|| -> Result<(String, String), E> {
						let tap = &mut s.tap;
						let hs = &mut s.hs;
						let any = |hs: &HashMap<i64, Hd<C::Value>>, tap: &mut Tap<C>| -> Result<Any<C>, E> {
							let h = &hs[&hid];
							Ok(match h.kind.as_str() {
								"raw" => if h.own { Any::Own(Raw::new(h.root.clone())) } else { Any::Dang(Raw::new(h.root.clone())) },
								k => Any::Seq(makers.named(k)[h.which].open(h.own, tap, h.root.clone(), h.len, None)?),
							})
						};
						let ok = || ("ok".to_string(), String::new());
						match name {
							"create" => {
								let kind = op.get("kind").s();
								let n = op.get("n").i() as usize;
								let q = makers.named(kind)[*way].create(tap, n, None)?;
								hs.insert(hid, Hd { kind: kind.into(), which: *way, own: true, root: q.root(), len: q.len() });
								Ok(ok())
							},
							"raw" => {
								let q: Raw<Owned, C> = Default::default();
								hs.insert(hid, Hd { kind: "raw".into(), which: 0, own: true, root: q.root(), len: 0 });
								Ok(ok())
							},
							"rset" => {
								let mut q = any(hs, tap)?;
								let r = q.set(tap, index(&path), val("v"));
								hs.get_mut(&hid).unwrap().root = q.root();
								Ok((res(&r), String::new()))
							},
							"subtree" => {
								let q = match any(hs, tap)? {
									Any::Own(q) => q.subtree(tap, index(&path))?,
									Any::Dang(q) => q.subtree(tap, index(&path))?,
									_ => panic!("not raw"),
								};
								hs.insert(op.get("to").i(), Hd { kind: "raw".into(), which: 0, own: false, root: q.root(), len: 0 });
								Ok(ok())
							},
							"fork" => {
								let h = hs[&hid].clone();
								hs.insert(op.get("to").i(), Hd { own: false, ..h });
								Ok(ok())
							},
							"adopt" => {
								let h = hs[&hid].clone();
								tap.rootify(&h.root).map_err(bm::Error::Backend)?;
								hs.insert(op.get("to").i(), Hd { own: true, ..h });
								Ok(ok())
							},
							// A dangling list cannot be re-opened when its tree is gone.
							"drop" if !hs[&hid].own && hs[&hid].kind.ends_with("list") && any(hs, tap).is_err() => {
								hs.remove(&hid);
								Ok(ok())
							},
							"drop" => {
								let q = any(hs, tap)?;
								hs.remove(&hid);
								let r = q.drop(tap);
								Ok((res(&r), String::new()))
							},
							"insert" => {
								let (l, r) = (val("l"), val("r"));
								let k = C::intermediate_of(&l, &r);
								tap.insert(k, (l, r)).map_err(bm::Error::Backend)?;
								Ok(ok())
							},
							"rootify" => { tap.rootify(&val("v")).map_err(bm::Error::Backend)?; Ok(ok()) },
							"unrootify" => { tap.unrootify(&val("v")).map_err(bm::Error::Backend)?; Ok(ok()) },
							"populate" => {
								let v = |j: &J| C::Value::of(&unhex(j.s()));
								tap.db.populate(op.get("ps").a().iter().map(|p| (v(&p.a()[0]), (v(&p.a()[1]), v(&p.a()[2])))).collect());
								Ok(ok())
							},
							_ => {
								let mut q = match any(hs, tap)? { Any::Seq(q) => q, _ => panic!("raw") };
								let i = if op.has("i") { op.get("i").i() as usize } else { 0 };
								let (r, out) = match name {
									"push" => (res(&q.push(tap, &unhex(op.get("v").s()))), String::new()),
									"set" => (res(&q.set(tap, i, &unhex(op.get("v").s()))), String::new()),
									_ => {
										let r = q.pop(tap);
										(res(&r), r.map(|v| v.map(|v| hex(&v)).unwrap_or("none".into())).unwrap_or_default())
									},
								};
								let h = hs.get_mut(&hid).unwrap();
								h.root = q.root();
								h.len = q.len();
								Ok((r, out))
							},
						}
					});
					let (rs, out) = match r {
						Err(()) => { fail("panic".into()); continue },
						Ok(Err(x)) => { fail(res::<(), _>(&Err(x)).into()); continue },
						Ok(Ok(x)) => x,
					};
					let rows = store(&s.tap.db);
					let at: HashMap<&str, &J> = rows.a().iter().map(|r| (r.a()[0].s(), r)).collect();
					let mut bad = None;
					if judged.contains(&"probe") {
						if rs != e.get("res").s() || out != e.get("out").s() { bad = Some(obj!{ "res" => rs.clone(), "out" => out.clone() }); }
						for r in want.get("roots").a() {
							let (i, v) = (r.a()[0].i(), r.a()[1].s());
							if s.hs.get(&i).map(|h| h.root.hex()) != Some(v.into()) { bad = Some(obj!{ "handle" => i, "root" => s.hs.get(&i).map(|h| h.root.hex()).unwrap_or_default() }); }
						}
						for p in want.get("probe").a() {
							let path: Vec<bool> = p.a()[0].a().iter().map(|b| b.i() == 1).collect();
							let t = Raw::<Dangling, C>::new(s.hs[&2].root.clone());
							let tap = &mut s.tap;
							let got = match guard(|| t.get(tap, index(&path))) {
								Ok(Ok(Some(v))) => J::A(vec![v.hex().into()]),
								Ok(Ok(None)) => J::A(vec![]),
								_ => "error".into(),
							};
							if &got != &p.a()[1] { bad = Some(obj!{ "path" => p.a()[0].clone(), "value" => got }); }
						}
					}
					if judged.contains(&"need") {
						for n in want.get("need").a() {
							let k = n.a()[0].s();
							if at.get(k).map(|r| &r.a()[1]) != Some(&n.a()[1]) { bad = Some(obj!{ "lost" => k }); }
						}
						if e.get("dangling").b() {
							for o in old.a() {
								let (k, kids, c) = (o.a()[0].s(), &o.a()[1], o.a()[2].i());
								let fine = at.get(k).map(|r| {
									(kids.a().is_empty() || kids == &r.a()[1]) && (r.a()[2].i() == -1 || (c != -1 && r.a()[2].i() >= c))
								}).unwrap_or(false);
								if !fine { bad = Some(obj!{ "taken" => k }); }
							}
						}
					}
					if judged.contains(&"store") && !want.get("store").a().is_empty() {
						let mut w: Vec<J> = want.get("store").a().clone();
						w.sort_by(|a, b| a.a()[0].s().cmp(b.a()[0].s()));
						if J::A(w) != rows { bad = Some(obj!{ "store" => rows.clone() }); }
					}
					if judged.contains(&"known") {
						for n in want.get("known").a() {
							let k = C::Value::of(&unhex(n.a()[0].s()));
							let tap = &mut s.tap;
							let got = match guard(|| tap.db.get(&k)) {
								Ok(Ok(Some((l, r)))) => J::A(vec![l.hex().into(), r.hex().into()]),
								Ok(Ok(None)) => J::A(vec![]),
								_ => "error".into(),
							};
							if &got != &n.a()[1] { bad = Some(obj!{ "key" => k.hex(), "kids" => got }); }
						}
					}
					if let Some(b) = bad {
						fail(b);
						continue
					}
					let v = reps.entry(e.get("t").s().into()).or_default();
					if v.len() < 2 { v.push(s); }
				}
			}
		}
		if later.is_empty() || later.len() == before { return (seen, runs) }
		todo = later;
	}
}

fn main() {
	let a = args();
	if a.what == "probe:garbage" {
		// A list that has grown past a power of two leaves nodes behind.
		let mut tap = Tap::<Inh<V32>>::new();
		let mut list = bm::List::<bm::Owned, Inh<V32>>::create(&mut tap, None).unwrap();
		for i in 1..=3usize { list.push(&mut tap, V32::from(i)).unwrap(); }
		Tree::drop(list, &mut tap).unwrap();
		println!("{}", if tap.db.as_ref().len() > 1 { "STILL" } else { "GONE" });
		return
	}
	if a.what.starts_with("replay:") {
		open_log(&a.out, 20);
		let judged: Vec<&str> = a.what[7..].split(',').collect();
		let text = std::fs::read_to_string(&a.input).unwrap();
		let mut states = std::collections::HashMap::new();
		let mut by: std::collections::BTreeMap<String, Vec<J>> = Default::default();
		for l in text.lines() {
			let j = J::parse(l);
			if j.has("id") { states.insert(j.get("id").s().to_string(), j); } else { by.entry(j.get("mode").s().into()).or_default().push(j); }
		}
		let mut fails = Vec::new();
		let (mut n, mut k) = (0, 0);
		for (mode, v) in &by {
			let (x, y) = match mode.as_str() {
				"inherited" => replay::<Inh<V8>>(&makers8(), &states, v, &judged, &mut fails),
				_ => replay::<Uni<V8>>(&makers8(), &states, v, &judged, &mut fails),
			};
			n += x;
			k += y;
		}
		std::fs::write(&a.out, fails.join("\n")).unwrap();
		println!("EDGES {} REPLAYED {} FAILED {}", n, k, fails.len());
		return
	}
	let mut rng = Rng::new(a.seed ^ 0x77);
	open_log(&a.out, 20);
	let focus = match a.what.as_str() {
		"C06" => Focus::Safe,
		"C07" => Focus::Exact,
		"C08" => Focus::Raw,
		"C10" => Focus::Know,
		w => panic!("unknown {}", w),
	};
	if focus == Focus::Safe || focus == Focus::Exact {
		many::<Inh<V8>>(&mut rng, &makers8(), focus, 80, 0);
		many::<Inh<V8>>(&mut rng, &makers8(), focus, 80, 1);
		if a.thorough {
			many::<Inh<V8>>(&mut rng, &makers8(), focus, 280, 0);
			many::<Inh<V8>>(&mut rng, &makers8(), focus, 280, 1);
			many::<Uni<V8>>(&mut rng, &makers8(), focus, 280, 1);
		}
	}
	let n = if a.thorough { 400 } else { 24 };
	for k in 0..n {
		let steps = match k % 3 { 0 => 40, 1 => 70, _ => 110 };
		trace::<Inh<V8>>(&mut rng, &makers8(), focus, steps);
		trace::<Uni<V8>>(&mut rng, &makers8(), focus, steps);
		trace::<Inh<V8>>(&mut rng, &makers8(), focus, steps);
		if k % 3 == 0 {
			trace::<Inh<V32>>(&mut rng, &makers32(), focus, steps);
			trace::<Uni<V16>>(&mut rng, &makers16(), focus, steps);
		}
	}
	write_log();
}
