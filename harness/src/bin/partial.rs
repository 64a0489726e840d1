//! Partial views of encoded values (C19, C21), and of trees which are only
//! partly there, or damaged (C24).
use bm::{InMemoryBackend, Proofs, ProvingBackend, Raw, Tree, WriteBackend};
use bm_le::Value;
use bmh::obj;
use bmh::parts::*;
use bmh::seqs::Dyn;
use bmh::shapes::*;
use bmh::tap::{res, Tap};
use bmh::util::*;
use bmh::values::*;
use std::collections::{BTreeMap, HashMap};

fn path(j: &J) -> Vec<usize> { j.a().iter().map(|x| x.i() as usize).collect() }
fn jpath(p: &[usize]) -> J { J::A(p.iter().map(|x| (*x).into()).collect()) }

fn open<C: Cons<Value=Value>>(own: bool, root: &Value, db: &mut Dyn<C>) -> AnyRaw<C> {
	if own {
		db.rootify(root).unwrap();
		AnyRaw::Own(Raw::new(root.clone()))
	} else { AnyRaw::Dang(Raw::new(root.clone())) }
}
fn root<C: Cons<Value=Value>>(r: &AnyRaw<C>) -> Value { match r { AnyRaw::Own(r) => r.root(), AnyRaw::Dang(r) => r.root() } }

/// One operation: result, what was read.
fn step<C: Cons<Value=Value>>(t: &PTy<C>, view: &mut Box<dyn View<C>>, raw: &mut AnyRaw<C>, db: &mut Dyn<C>, op: &J) -> (String, J) {
	let r: Result<Result<J, E>, ()> = guard(|| {
		let p = if op.has("p") { path(op.get("p")) } else { vec![] };
		Ok(match op.get("op").s() {
			"get" => J::A(vec![view.read(&p, false, raw, db)?]),
			"fetch" => J::A(vec![view.read(&p, true, raw, db)?]),
			"set" => { view.put(&p, op.get("v")); J::A(vec![]) },
			"push" => { view.add(&p, op.get("v")); J::A(vec![]) },
			"view" => { *view = (t.view)(); J::A(vec![]) },
			_ => { view.flush(raw, db)?; J::A(vec![]) },
		})
	});
	match r {
		Ok(r) => (res(&r), r.unwrap_or(J::A(vec![]))),
		Err(()) => ("panic".into(), J::A(vec![])),
	}
}

fn failing(op: &J) -> bool { op.has("fault") && op.get("fault").b() }

/// One history with each failing operation failing at a call of it: what was
/// wrong, and whether they all failed.
fn run<C: Cons<Value=Value>>(t: &PTy<C>, e: &J, own: bool, ks: &[u64]) -> (Vec<J>, Vec<bool>) {
	let mut db = Tap::<C>::new();
	let start = (t.enc)(e.get("v"), &mut db).unwrap();
	let mut raw = open(own, &start, &mut db);
	db.rootify(&start).unwrap();
	let mut views = [(t.view)(), (t.view)()];
	let mut bad = vec![];
	let mut did = vec![];
	for (op, want) in e.get("ops").a().iter().zip(e.get("outs").a()) {
		if failing(op) { db.fail_at = Some(db.calls + ks[did.len()]); db.failed = None; }
		let (r, out) = step(t, &mut views[op.get("w").i() as usize - 1], &mut raw, &mut db, op);
		db.fail_at = None;
		if failing(op) {
			did.push(db.failed.take().is_some());
			if !did[did.len() - 1] { return (vec![], did) }
			// There is still a value.
			let now = root(&raw);
			match guard(|| (t.dec)(&now, &mut db)) {
				Ok(Ok(_)) => {},
				x => bad.push(format!("decoding after the failure {:?}", x.map(|x| x.map(|x| x.dump()))).into()),
			}
		}
		let root = if op.get("op").s() == "flush" && r == "ok" { root(&raw).hex() } else { String::new() };
		let got = obj!{ "res" => r, "out" => out, "root" => root };
		if got != *want { bad.push(got); }
	}
	let now = root(&raw);
	let last = |db: &mut Tap<C>, bad: &mut Vec<J>| match guard(|| (t.dec)(&now, db)) {
		Ok(Ok(ref v)) if v == e.get("last") => {},
		x => bad.push(format!("decoding {:?}", x.map(|x| x.map(|x| x.dump()))).into()),
	};
	if !e.get("over").b() { last(&mut db, &mut bad); }
	match guard(|| (t.dec)(&start, &mut db)) {
		Ok(Ok(ref v)) if v == e.get("v") => {},
		x => bad.push(format!("decoding the value before {:?}", x.map(|x| x.map(|x| x.dump()))).into()),
	}
	if own && !e.get("over").b() {
		// The tree does not depend on the one it was made from.
		match db.unrootify(&start) {
			Ok(()) => last(&mut db, &mut bad),
			Err(e) => bad.push(format!("releasing {:?}", e).into()),
		}
	}
	(bad, did)
}

type Map<V> = std::collections::HashMap<V, (V, V)>;

/// What the operations give on a value which is there.
fn play<C: Cons<Value=Value>>(t: &PTy<C>, ops: &[J], raw: &mut AnyRaw<C>, views: &mut [Box<dyn View<C>>; 2], db: &mut Dyn<C>) -> Vec<J> {
	ops.iter().map(|op| {
		let (r, out) = step(t, &mut views[op.get("w").i() as usize - 1], raw, db, op);
		let root = if op.get("op").s() == "flush" && r == "ok" { root(raw).hex() } else { String::new() };
		obj!{ "res" => r, "out" => out, "root" => root }
	}).collect()
}

/// A recording of operations, and what became of it.
struct Record {
	direct: Vec<J>,
	proved: Vec<J>,
	again: Vec<J>,
	same: bool,
	proof: Map<Value>,
	/// The outcomes from a part of the proof.
	part: Vec<J>,
}

/// Operations run directly, recorded (the recording put down and taken up
/// again), from the recorded proof, and from part of it.
fn record<C: Cons<Value=Value>>(t: &PTy<C>, base: &Tap<C>, start: &Value, own: bool, ops: &[J], split: usize, rng: &mut Rng) -> Record {
	let raw = || if own { AnyRaw::Own(Raw::new(start.clone())) } else { AnyRaw::Dang(Raw::new(start.clone())) };
	let new = || [(t.view)(), (t.view)()];
	let mut a = base.clone();
	let mut ra = raw();
	let direct = play(t, ops, &mut ra, &mut new(), &mut a);
	let mut b = base.clone();
	let (mut r, mut v) = (raw(), new());
	let mut proved;
	let state = {
		let mut pb = ProvingBackend::new(&mut b);
		proved = play(t, &ops[..split], &mut r, &mut v, &mut pb);
		pb.into_state()
	};
	let proof: Map<Value> = {
		let mut pb = ProvingBackend::from_state(state, &mut b);
		proved.append(&mut play(t, &ops[split..], &mut r, &mut v, &mut pb));
		let p: Proofs<Value> = pb.into();
		p.into()
	};
	let on = |some: Map<Value>| {
		let mut c = InMemoryBackend::<C>::default();
		c.populate(some);
		let mut c = Tap::over(c);
		if own { c.rootify(start).unwrap(); }
		c.rootify(start).unwrap();
		play(t, ops, &mut raw(), &mut new(), &mut c)
	};
	let again = on(proof.clone());
	// Elements are written in any order, so that what else is left over varies.
	let whole = |db: &Tap<C>, r: &AnyRaw<C>| {
		let (mut all, mut todo) = (BTreeMap::new(), vec![root(r), start.clone()]);
		while let Some(k) = todo.pop() {
			if let Some((Some(x), _)) = db.db.as_ref().get(&k) {
				if all.insert(k, x.clone()).is_none() { todo.push(x.0.clone()); todo.push(x.1.clone()); }
			}
		}
		all
	};
	let over = ops.iter().zip(&direct).any(|(op, r)| op.get("op").s() == "flush" && r.get("res").s() != "ok");
	let same = over || whole(&a, &ra) == whole(&b, &r) && whole(&a, &ra).keys().all(|k| a.db.as_ref()[k].1.is_some() == b.db.as_ref()[k].1.is_some());
	let mut keys: Vec<Value> = proof.keys().cloned().collect();
	keys.sort();
	if rng.chance(1, 2) && !keys.is_empty() { let k = rng.below(keys.len()); keys.remove(k); } else { keys.retain(|_| rng.chance(3, 4)); }
	let part = on(keys.into_iter().map(|k| (k.clone(), proof[&k].clone())).collect());
	Record { direct, proved, again, same, proof, part }
}

/// A store with a value, its root protected and, if owned, held.
fn held<C: Cons<Value=Value>>(t: &PTy<C>, v: &J, own: bool) -> (Tap<C>, Value) {
	let mut db = Tap::<C>::new();
	let start = (t.enc)(v, &mut db).unwrap();
	if own { db.rootify(&start).unwrap(); }
	db.rootify(&start).unwrap();
	(db, start)
}

fn reading(op: &J) -> bool { ["get", "fetch", "view"].contains(&op.get("op").s()) }

/// The keys of a proof which is not part of the store.
fn strange<C: Cons<Value=Value>>(base: &Tap<C>, proof: &Map<Value>) -> Vec<J> {
	let mut bad = vec![];
	for (k, x) in proof {
		match base.db.as_ref().get(k) { Some((Some(y), _)) if x == y => {}, _ => bad.push(k.hex().into()) }
	}
	bad
}

/// A recorded history: what was wrong.
fn recorded<C: Cons<Value=Value>>(t: &PTy<C>, e: &J, own: bool, what: &str, rng: &mut Rng) -> Vec<J> {
	let (base, start) = held(t, e.get("v"), own);
	let (ops, outs) = (e.get("ops").a(), e.get("outs").a());
	let x = record(t, &base, &start, own, ops, rng.below(ops.len() + 1), rng);
	let mut bad = vec![];
	if what.contains("C11") {
		// A flush that fails stops at any of the elements it writes: how far it
		// comes differs from run to run, and so does what the proof has of it.
		let until = ops.iter().zip(outs).take_while(|(op, o)| op.get("op").s() != "flush" || o.get("res").s() == "ok").count();
		let failed = until == ops.len() || ["overflow", "corrupted"].contains(&x.again[until].get("res").s());
		if x.again[..until] != outs[..until] || !failed { bad.push(obj!{ "from the proof" => J::A(x.again) }); }
		return bad
	}
	if x.proved != x.direct { bad.push(obj!{ "recorded" => J::A(x.proved), "direct" => J::A(x.direct) }); }
	if !x.same { bad.push("the store left".into()); }
	let odd = strange(&base, &x.proof);
	if !odd.is_empty() { bad.push(obj!{ "not of the store" => J::A(odd) }); }
	// The reads first of all, from part of the proof and recorded by themselves.
	let n = ops.iter().take_while(|op| reading(op)).count();
	if x.part[..n].iter().zip(outs).any(|(g, w)| g.get("res").s() == "panic" || g.get("res").s() == "ok" && g != w) { bad.push(obj!{ "from part" => J::A(x.part) }); }
	if n > 0 {
		let x = record(t, &base, &start, own, &ops[..n], rng.below(n + 1), rng);
		let near: Vec<&str> = e.get("near").a().iter().map(|k| k.s()).collect();
		let far: Vec<J> = x.proof.keys().map(|k| k.hex()).filter(|k| !near.contains(&k.as_str())).map(|k| k.into()).collect();
		if !far.is_empty() { bad.push(obj!{ "off the paths" => J::A(far) }); }
	}
	bad
}

const MOST: u64 = 500;

fn replay<C: Cons<Value=Value>>(what: &str, edges: &[J], fails: &mut Vec<String>) -> usize {
	let cat: HashMap<String, PTy<C>> = partials().into_iter().map(|t: PTy<C>| (t.name.clone(), t)).collect();
	let mut runs = 0;
	let mut rng = Rng::new(11);
	for e in edges {
		let t = &cat[e.get("ty").s()];
		begin(e);
		if what.contains("C11") || what.contains("C12") {
			for own in [true, false].iter() {
				runs += 1;
				let bad = recorded(t, e, *own, what, &mut rng);
				if !bad.is_empty() { fails.push(obj!{ "edge" => e.clone(), "own" => *own, "got" => J::A(bad) }.dump()); }
			}
			continue
		}
		let n = e.get("ops").a().iter().filter(|op| failing(op)).count();
		for own in [true, false].iter() {
			let mut one = |ks: &[u64]| {
				runs += 1;
				let (bad, did) = run(t, e, *own, ks);
				if !bad.is_empty() { fails.push(obj!{ "edge" => e.clone(), "own" => *own, "failing calls" => J::A(ks.iter().map(|k| J::I(*k as i64)).collect()), "got" => J::A(bad) }.dump()); }
				did
			};
			match n {
				0 => { one(&[]); },
				1 => for k in 1..MOST { if !one(&[k])[0] { break } },
				_ => 'all: for k in 1..MOST {
					for l in (0..MOST).map(|l| 1 + k % 3 + 3 * l) {
						let did = one(&[k, l]);
						if !did[0] { break 'all }
						if did.len() < 2 || !did[1] { break }
					}
				},
			}
		}
	}
	runs
}

type Node = (Value, (Value, Value));

fn jnode(n: &Node) -> J { J::A(vec![n.0.hex().into(), (n.1).0.hex().into(), (n.1).1.hex().into()]) }
fn node(j: &J) -> Node { let v = |i: usize| Value::of(&unhex(j.a()[i].s())); (v(0), (v(1), v(2))) }
fn value(b: &[u8]) -> Value { let mut x = b.to_vec(); x.resize(32, 0); Value::of(&x) }

/// A store with these nodes, put there one by one or as a proof.
fn store<C: Cons<Value=Value>>(nodes: &[Node], proof: bool) -> Tap<C> {
	let mut db = Tap::<C>::new();
	if proof {
		db.db.populate(nodes.iter().cloned().collect());
	} else {
		for (k, v) in nodes { WriteBackend::insert(&mut db, k.clone(), v.clone()).unwrap(); }
	}
	db
}

/// A view of what there is of a tree, and a store to compare with.
struct Looks<C: Cons<Value=Value>> { view: Box<dyn View<C>>, raw: AnyRaw<C>, db: Tap<C>, before: Tap<C>, root: Value }

impl<C: Cons<Value=Value>> Looks<C> {
	fn new(t: &PTy<C>, at: &Value, nodes: &[Node], own: bool, proof: bool) -> Self {
		let mut db = store::<C>(nodes, proof);
		let raw = open(own, at, &mut db);
		Looks { view: (t.view)(), raw, before: db.clone(), db, root: at.clone() }
	}
	fn does(&mut self, t: &PTy<C>, op: &J) -> (String, J) {
		if op.get("op").s() == "supply" {
			let (k, v) = node(op.get("n"));
			for db in &mut [&mut self.db, &mut self.before] { WriteBackend::insert(*db, k.clone(), v.clone()).unwrap(); }
			return ("ok".into(), J::A(vec![]))
		}
		step(t, &mut self.view, &mut self.raw, &mut self.db, op)
	}
	/// Reading changes neither the tree nor the store.
	fn same(&self) -> bool { root(&self.raw) == self.root && self.db.db.as_ref() == self.before.db.as_ref() }
}

fn looks<C: Cons<Value=Value>>(edges: &[J], fails: &mut Vec<String>) -> usize {
	let cat: HashMap<String, PTy<C>> = partials().into_iter().map(|t: PTy<C>| (t.name.clone(), t)).collect();
	let mut runs = 0;
	for e in edges {
		let t = &cat[e.get("ty").s()];
		let nodes: Vec<Node> = e.get("nodes").a().iter().map(node).collect();
		let at = Value::of(&unhex(e.get("root").s()));
		for way in 0..4usize {
			runs += 1;
			begin(&e.clone().with("way", way.into()));
			let (own, proof) = (way % 2 == 0, way / 2 == 0);
			let mut bad: Vec<J> = vec![];
			let mut one = |x: &mut Looks<C>, op: &J, want: &J| {
				let (r, out) = x.does(t, op);
				if op.get("op").s() == "flush" && root(&x.raw).hex() != want.get("root").s() { bad.push(obj!{ "root" => root(&x.raw).hex() }); }
				let right = if want.get("res").s() == "free" { ["ok", "corrupted"].contains(&r.as_str()) } else { r == want.get("res").s() && out == *want.get("out") };
				if !right { bad.push(obj!{ "op" => op.clone(), "res" => r, "out" => out }); }
			};
			let mut x = Looks::<C>::new(t, &at, &nodes, own, proof);
			for (op, want) in e.get("ops").a().iter().zip(e.get("outs").a()) { one(&mut x, op, want); }
			for want in e.get("reads").a() {
				one(&mut x, &obj!{ "op" => "get", "p" => want.get("p").clone() }, want);
				// The same read by itself, of another view.
				if e.get("ops").a().is_empty() { one(&mut Looks::<C>::new(t, &at, &nodes, own, proof), &obj!{ "op" => "fetch", "p" => want.get("p").clone() }, want); }
			}
			if !e.get("ops").a().iter().any(|op| op.get("op").s() == "flush") && !x.same() { bad.push("the tree or the store changed".into()); }
			if !bad.is_empty() { fails.push(obj!{ "edge" => e.clone(), "own" => own, "proof" => proof, "got" => J::A(bad) }.dump()); }
		}
	}
	runs
}

/// Another value somewhere: the new root, with the nodes that are new.
fn damage<C: Cons<Value=Value>>(rng: &mut Rng, at: &Value, all: &mut BTreeMap<Value, (Value, Value)>, x: &Value) -> Value {
	match all.get(at).cloned() {
		Some((l, r)) if rng.chance(5, 6) => {
			let (l, r) = if rng.chance(1, 2) { (damage::<C>(rng, &l, all, x), r) } else { (l.clone(), damage::<C>(rng, &r, all, x)) };
			let k = C::intermediate_of(&l, &r);
			all.insert(k.clone(), (l, r));
			k
		},
		_ => x.clone(),
	}
}

fn looked<C: Cons<Value=Value>>(rng: &mut Rng, cat: &[PTy<C>], n: usize) {
	let t = rng.pick(cat);
	let (own, proof) = (rng.chance(1, 2), rng.chance(1, 2));
	let size = if rng.chance(1, 4) { 24 } else { 7 };
	let v = sample(rng, &t.desc, size);
	let mut full = Tap::<C>::new();
	let mut at = (t.enc)(&v, &mut full).unwrap();
	let mut all = BTreeMap::new();
	for (k, (kids, _)) in full.db.as_ref().iter() { if let Some(v) = kids { all.insert(k.clone(), v.clone()); } }
	if rng.chance(1, 3) {
		let k = rng.below(12);
		let x = match rng.below(5) {
			0 => value(&[]),
			1 | 2 => value(&[k as u8]),
			3 => { let mut b = [0u8; 32]; b[k] = 1 + rng.below(255) as u8; value(&b) },
			_ => { let b: Vec<u8> = (0..32).map(|_| rng.below(256) as u8).collect(); value(&b) },
		};
		at = damage::<C>(rng, &at, &mut all, &x);
	}
	let (mut nodes, mut todo) = (BTreeMap::new(), vec![at.clone()]);
	while let Some(k) = todo.pop() {
		if let Some(v) = all.get(&k) { if nodes.insert(k, v.clone()).is_none() { todo.push(v.0.clone()); todo.push(v.1.clone()); } }
	}
	let mut nodes: Vec<Node> = nodes.into_iter().collect();
	let gone = match rng.below(4) { 0 => 0, 1 => 1, 2 => 2, _ => rng.below(nodes.len() / 3 + 2) };
	let mut lost = vec![];
	for _ in 0..gone { if !nodes.is_empty() { let k = rng.below(nodes.len()); if nodes[k].0 != at || rng.chance(1, 4) { lost.push(nodes.remove(k)); } } }
	event(&obj!{ "op" => "start", "mode" => C::MODE, "name" => t.name.clone(), "t" => t.desc.clone(), "own" => own, "proof" => proof,
		"root" => at.hex(), "nodes" => J::A(nodes.iter().map(jnode).collect()) });
	let mut x = Looks::<C>::new(t, &at, &nodes, own, proof);
	for _ in 0..n {
		let past = rng.chance(1, 12);
		let part = choose(rng, &t.desc, &v, false, past);
		let op = match rng.below(16) {
			0..=7 => part.map(|(p, _)| obj!{ "op" => "get", "p" => jpath(&p) }),
			8 | 9 => part.map(|(p, _)| obj!{ "op" => "fetch", "p" => jpath(&p) }),
			10 | 11 => part.map(|(p, t)| { let v = sample(rng, &t, 4); obj!{ "op" => "set", "p" => jpath(&p), "v" => v } }),
			12 => choose(rng, &t.desc, &v, true, false).map(|(p, t)| { let v = sample(rng, &t, 4); obj!{ "op" => "push", "p" => jpath(&p), "v" => v } }),
			13 => Some(obj!{ "op" => "view", "p" => J::A(vec![]) }),
			_ => if lost.is_empty() { None } else { let k = rng.below(lost.len()); Some(obj!{ "op" => "supply", "p" => J::A(vec![]), "n" => jnode(&lost.remove(k)) }) },
		};
		let op = match op { Some(op) => op, None => continue };
		begin(&op);
		let (r, out) = x.does(t, &op);
		let end = r == "panic";
		event(&op.with("res", r.into()).with("out", out));
		if end { break }
	}
	event(&obj!{ "op" => "left", "same" => x.same() });
	close_trace();
}

/// A part of a value, now and then beyond it: path, type.
fn choose(rng: &mut Rng, t: &J, v: &J, list: bool, beyond: bool) -> Option<(Vec<usize>, J)> {
	match t.get("k").s() {
		"prod" => {
			for _ in 0..6 {
				let i = rng.below(t.get("ts").a().len());
				let zero = J::N;
				let x = if let J::A(v) = v { v.get(i).unwrap_or(&zero) } else { &zero };
				if let Some((mut p, t)) = choose(rng, &t.get("ts").a()[i], x, list, beyond) { p.insert(0, i); return Some((p, t)) }
			}
			None
		},
		"list" => {
			if list && rng.chance(1, 2) { return Some((vec![], t.get("t").clone())) }
			let n = if let J::A(v) = v { v.len() } else { 0 };
			let i = if beyond && rng.chance(1, 3) { n + rng.below(3) * rng.below(20) } else if n == 0 { if !beyond { return None } n } else { rng.below(n) };
			let zero = J::N;
			let x = if let J::A(v) = v { v.get(i).unwrap_or(&zero) } else { &zero };
			let (mut p, t) = choose(rng, t.get("t"), x, list, beyond)?;
			p.insert(0, i);
			Some((p, t))
		},
		_ => if list { None } else { Some((vec![], t.clone())) },
	}
}

fn trace<C: Cons<Value=Value>>(rng: &mut Rng, cat: &[PTy<C>], n: usize, faults: bool, what: &str) {
	let t = rng.pick(cat);
	let own = rng.chance(1, 2);
	let size = if rng.chance(1, 4) { 24 } else { 7 };
	let v = sample(rng, &t.desc, size);
	event(&obj!{ "op" => "start", "mode" => C::MODE, "name" => t.name.clone(), "t" => t.desc.clone(), "v" => v.clone(), "own" => own });
	let mut db = Tap::<C>::new();
	let start = (t.enc)(&v, &mut db).unwrap();
	let mut raw = open(own, &start, &mut db);
	let mut views = [(t.view)(), (t.view)()];
	let both = !faults && rng.chance(1, 2);
	let mut kept = vec![];
	let (first, mut did) = (v.clone(), vec![]);
	// What the generator takes the value to be: only to choose parts.
	let mut now = v;
	// After a flush that failed the operations stay with what is known.
	let mut torn = false;
	let mut pending = false;
	for _ in 0..n {
		let beyond = !faults && rng.chance(1, 25);
		let past = !torn && (beyond || rng.chance(1, 12));
		let op = match rng.below(20) {
			0 | 1 | 2 | 3 => choose(rng, &t.desc, &now, false, past).map(|(p, _)| obj!{ "op" => "get", "p" => jpath(&p) }),
			4 if !torn => choose(rng, &t.desc, &now, false, beyond).map(|(p, _)| obj!{ "op" => "fetch", "p" => jpath(&p) }),
			5..=10 => choose(rng, &t.desc, &now, false, beyond).map(|(p, t)| { let v = sample(rng, &t, 4); obj!{ "op" => "set", "p" => jpath(&p), "v" => v } }),
			11..=14 => choose(rng, &t.desc, &now, true, beyond).map(|(p, t)| { let v = sample(rng, &t, 4); obj!{ "op" => "push", "p" => jpath(&p), "v" => v } }),
			15 | 16 | 17 => Some(obj!{ "op" => "flush" }),
			18 if !torn => if rng.chance(1, 3) { Some(obj!{ "op" => "view" }) } else { Some(obj!{ "op" => "keep" }) },
			_ => Some(obj!{ "op" => "look" }),
		};
		let w = 1 + (both && rng.chance(1, 2)) as usize;
		let op = match op { Some(op) => op.with("w", w.into()), None => continue };
		begin(&op);
		match op.get("op").s() {
			"keep" => {
				if kept.len() < 4 {
					let r = root(&raw);
					db.rootify(&r).unwrap();
					kept.push(r);
					event(&op);
				}
			},
			"look" => {
				let look = |r: &Value, db: &mut Tap<C>| match guard(|| (t.dec)(r, db)) { Ok(Ok(v)) => J::A(vec![v]), Ok(Err(e)) => tap_err(&e).into(), Err(()) => "panic".into() };
				let r = root(&raw);
				let x = look(&r, &mut db);
				if let J::A(x) = &x { if !torn { now = x[0].clone(); } }
				let ks = kept.iter().map(|k| look(k, &mut db)).collect();
				event(&op.with("now", x).with("kept", J::A(ks)));
			},
			_ => {
				let flush = op.get("op").s() == "flush";
				if faults && ["flush", "get"].contains(&op.get("op").s()) && rng.chance(1, 2) {
					db.fail_at = Some(db.calls + 1 + rng.below(if flush { 60 } else { 8 }) as u64);
					db.failed = None;
				}
				let (r, out) = step(t, &mut views[w - 1], &mut raw, &mut db, &op);
				did.push(op.clone());
				let failed = db.fail_at.take().is_some() && db.failed.take().is_some();
				match op.get("op").s() {
					"set" | "push" => pending = true,
					"view" => pending = false,
					"flush" => if failed { torn = torn || pending } else { torn = false; pending = false },
					_ => {},
				}
				if failed {
					event(&op.with("fault", true.into()).with("res", r.clone().into()).with("out", out).with("root", "".into()));
					if r == "panic" { break }
					continue
				}
				event(&op.with("res", r.clone().into()).with("out", out).with("root", root(&raw).hex().into()));
				if r == "panic" || (flush && r != "ok") { break }
				if flush { if let Ok(Ok(v)) = guard(|| (t.dec)(&root(&raw), &mut db)) { now = v; } }
			},
		}
	}
	if what.contains("C11") || what.contains("C12") {
		let e = obj!{ "op" => "proof" };
		begin(&e);
		let (base, start) = held(t, &first, own);
		let split = rng.below(did.len() + 1);
		match guard(|| record(t, &base, &start, own, &did, split, rng)) {
			Ok(x) => {
				let reads = did.iter().take_while(|op| reading(op)).count();
				let odd = strange(&base, &x.proof);
				event(&e.with("res", "ok".into()).with("outs", J::A(if what.contains("C11") { x.again } else { x.proved })).with("same", x.same.into())
					.with("odd", J::A(odd)).with("part", J::A(x.part[..reads].to_vec())));
			},
			Err(()) => event(&e.with("res", "panic".into())),
		}
	}
	close_trace();
}

fn main() {
	let a = args();
	open_log(&a.out, 20);
	if a.what == "types" {
		let lines: Vec<String> = partials::<Inh<Value>>().iter().map(|t| obj!{ "name" => t.name.clone(), "t" => t.desc.clone() }.dump()).collect();
		std::fs::write(&a.out, lines.join("\n") + "\n").unwrap();
		println!("TYPES {}", lines.len());
		return
	}
	if a.what.starts_with("replay") {
		let text = std::fs::read_to_string(&a.input).unwrap();
		let (mut inh, mut uni) = (vec![], vec![]);
		for l in text.lines() {
			let j = J::parse(l);
			if j.get("mode").s() == "unit" { uni.push(j) } else { inh.push(j) }
		}
		let mut fails = Vec::new();
		let k = if a.what.contains("C24") { looks::<Inh<Value>>(&inh, &mut fails) + looks::<Uni<Value>>(&uni, &mut fails) }
			else { replay::<Inh<Value>>(&a.what, &inh, &mut fails) + replay::<Uni<Value>>(&a.what, &uni, &mut fails) };
		std::fs::write(&a.out, fails.join("\n")).unwrap();
		println!("EDGES {} REPLAYED {} FAILED {}", inh.len() + uni.len(), k, fails.len());
		return
	}
	let mut rng = Rng::new(a.seed ^ 0x1919 ^ (a.what.contains("C21") as u64) << 20);
	let (inh, uni) = (partials::<Inh<Value>>(), partials::<Uni<Value>>());
	for _ in 0..if a.thorough { 3000 } else { 300 } {
		let n = rng.range(5, 40);
		if a.what.contains("C24") {
			if rng.chance(1, 3) { looked(&mut rng, &uni, n) } else { looked(&mut rng, &inh, n) }
			continue
		}
		let faults = a.what.contains("C21");
		if rng.chance(1, 4) { trace(&mut rng, &uni, n, faults, &a.what) } else { trace(&mut rng, &inh, n, faults, &a.what) }
	}
	write_log();
}
