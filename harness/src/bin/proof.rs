//! Recording on a proving backend, and running again from the proof (C11, C12).
use bm::{Dangling, InMemoryBackend, Proofs, ProvingBackend, ProvingState, Raw, ReadBackend, WriteBackend};

use bmh::seqs::*;
use bmh::tap::{store, Tap};
use bmh::util::*;
use bmh::values::*;
use bmh::worlds::*;
use bmh::gens::*;
use bmh::obj;


fn out(o: &Out) -> J { obj!{ "res" => o.res.clone(), "out" => o.out.clone(), "root" => o.root.clone() } }

/// Run operations while recording; part of the time the recording is put
/// down and taken up again.
fn prove<'a, C: Cons>(w: &mut World<'a, C>, tap: &mut Tap<C>, ops: &[J], split: usize) -> (Vec<Out>, Map<C::Value>) where C::Value: Val {
	let mut outs = Vec::new();
	let mut state = ProvingState::default();
	for (k, part) in [&ops[..split], &ops[split..]].iter().enumerate() {
		let mut pb = if k == 0 { ProvingBackend::new(tap) } else { ProvingBackend::from_state(state, tap) };
		for op in part.iter() { outs.push(w.exec(&mut pb, op)); }
		if k == 1 {
			let p: Proofs<C::Value> = pb.into();
			return (outs, p.into())
		}
		state = pb.into_state();
	}
	unreachable!()
}

/// The store with nothing but a proof, and the handles' roots in place.
fn from_proof<C: Cons>(w: &World<C>, proof: Map<C::Value>) -> Tap<C> where C::Value: Val {
	let mut db = InMemoryBackend::<C>::default();
	db.populate(proof);
	let mut tap = Tap::over(db);
	for h in w.hs.values() {
		if h.any.owned() { tap.rootify(&h.any.root()).unwrap(); }
	}
	tap
}

/// Some of the entries.
fn part<V: Val>(rng: &mut Rng, proof: &Map<V>) -> Map<V> {
	let mut keys: Vec<_> = proof.keys().cloned().collect();
	keys.sort();
	match rng.below(4) {
		0 => keys.clear(),
		1 if !keys.is_empty() => { let i = rng.below(keys.len()); keys.remove(i); },
		2 => keys.retain(|_| rng.chance(4, 5)),
		_ => keys.retain(|_| rng.chance(1, 2)),
	}
	keys.into_iter().map(|k| (k.clone(), proof[&k].clone())).collect()
}

fn read_path<C: Cons>(tap: &mut Tap<C>, root: &C::Value, path: &[bool]) -> String where C::Value: Val {
	let t = Raw::<Dangling, C>::new(root.clone());
	match guard(|| t.get(tap, index(path))) {
		Ok(Ok(Some(v))) => v.hex(),
		Ok(Ok(None)) => "none".into(),
		Ok(Err(_)) => "error".into(),
		Err(()) => "panic".into(),
	}
}

fn read_elem<C: Cons>(tap: &mut Tap<C>, s: &Boxed<C>, i: usize) -> String where C::Value: Val {
	match guard(|| s.get(tap, i)) {
		Ok(Ok(v)) => hex(&v),
		Ok(Err(_)) => "error".into(),
		Err(()) => "panic".into(),
	}
}

/// Replay of the recordings of MCProof.
fn replay<C: Cons>(makers: &Makers<C>, edges: &[J], judge: &str, rng: &mut Rng, fails: &mut Vec<String>) -> usize where C::Value: Val {
	let mut runs = 0;
	for e in edges {
		let setup = e.get("setup").a();
		let ops: Vec<J> = e.get("ops").a().clone();
		for way in World::<C>::new(makers).ways(&setup[0]) {
			runs += 1;
			let fix = |op: &J| if op.get("op").s() == "create" { op.clone().with("which", J::I(if op.get("kind") == setup[0].get("kind") { way as i64 } else { 0 })) } else { op.clone() };
			let mut fail = |what: &str, got: J| fails.push(obj!{ "edge" => e.clone(), "way" => way, "what" => what, "got" => got }.dump());
			let mut tap = Tap::<C>::new();
			let mut w = World::new(makers);
			for op in setup { w.exec(&mut tap, &fix(op)); }
			let ops: Vec<J> = ops.iter().map(|o| fix(o)).collect();
			let mut w1 = w.dup();
			let mut direct = tap.clone();
			let douts: Vec<Out> = ops.iter().map(|op| w1.exec(&mut direct, op)).collect();
			let mut w2 = w.dup();
			let mut proved = tap.clone();
			let split = rng.below(ops.len() + 1);
			let (pouts, proof) = prove(&mut w2, &mut proved, &ops, split);
			if judge == "C12" {
				if douts != pouts { fail("transparent", J::A(pouts.iter().map(out).collect())); }
				if store(&direct.db) != store(&proved.db) { fail("store", store(&proved.db)); }
				let had = nodes(&tap);
				for (k, v) in &proof {
					if had.get(k) != Some(v) { fail("genuine", k.hex().into()); }
				}
				for _ in 0..3 {
					let some = part(rng, &proof);
					let mut db = InMemoryBackend::<C>::default();
					db.populate(some);
					let mut t = Tap::over(db);
					for h in w.hs.values() {
						for n in 1..16usize {
							let path: Vec<bool> = (0..3).map(|k| n >> k & 1 == 1).take(n / 4 + 1).collect();
							let got = read_path(&mut t, &h.any.root(), &path);
							if got != "none" && got != "error" && got != read_path(&mut tap, &h.any.root(), &path) { fail("path", got.into()); }
						}
						if let Any::Seq(s) = &h.any {
							for i in 0..s.len() {
								let got = read_elem(&mut t, s, i);
								if got != "error" && got != read_elem(&mut tap, s, i) { fail("element", got.into()); }
							}
						}
					}
				}
			} else {
				let mut w3 = w.dup();
				let mut again = from_proof(&w3, proof);
				let routs: Vec<J> = ops.iter().map(|op| out(&w3.exec(&mut again, op))).collect();
				if &routs != e.get("outs").a() { fail("replay", J::A(routs)); }
			}
		}
	}
	runs
}

fn trace<C: Cons>(rng: &mut Rng, makers: &Makers<C>, judge: &str) where C::Value: Val {
	event(&obj!{ "op" => "init", "mode" => C::MODE, "w" => C::Value::W });
	let mut g = Gen::<C> { rng: rng.clone(), w: World::new(makers), tap: Tap::new(), next: 1, ops: vec![] };
	let mut alive = true;
	for _ in 0..3 {
		// Unrecorded operations, unless the previous round has left enough.
		for _ in 0..g.rng.range(4, 30) {
			if !alive { break }
			if let Some(op) = g.choose(false) {
				let o = g.w.exec(&mut g.tap, &op);
				event(&op);
				alive = o.res != "panic";
			}
		}
		if !alive { break }
		event(&obj!{ "op" => "record" });
		let (w0, tap0) = (g.w.dup(), g.tap.clone());
		let reads = g.rng.chance(1, 4);
		g.ops.clear();
		let mut douts = Vec::new();
		let n = g.rng.range(1, 14);
		for _ in 0..n {
			if let Some(op) = g.choose(reads) {
				g.ops.push(op.clone());
				let o = g.w.exec(&mut g.tap, &op);
				let dead = o.res == "panic";
				douts.push(o);
				if dead { alive = false; break }
			}
		}
		let mut w2 = w0.dup();
		let mut proved = tap0.clone();
		let split = g.rng.below(g.ops.len() + 1);
		let (pouts, proof) = prove(&mut w2, &mut proved, &g.ops, split);
		let mut w3 = w0.dup();
		let mut again = from_proof(&w3, proof.clone());
		for (k, op) in g.ops.iter().enumerate() {
			let r = w3.exec(&mut again, op);
			event(&op.clone().with("d", out(&douts[k])).with("p", out(&pouts[k])).with("r", out(&r)));
		}
		if judge == "C12" {
			let mut keys: Vec<_> = proof.keys().cloned().collect();
			keys.sort();
			let ps = keys.iter().map(|k| { let (l, r) = &proof[k]; J::A(vec![k.hex().into(), l.hex().into(), r.hex().into()]) }).collect();
			let (mut partial, mut elems) = (Vec::new(), Vec::new());
			for _ in 0..6 {
				let some = part(&mut g.rng, &proof);
				let mut db = InMemoryBackend::<C>::default();
				db.populate(some);
				let mut t = Tap::over(db);
				for (id, h) in &w0.hs {
					// Handles whose tree was there.
					for _ in 0..3 {
						let d = g.rng.below(5);
						let path: Vec<bool> = (0..d).map(|_| g.rng.chance(1, 2)).collect();
						if !h.any.owned() { continue }
						partial.push(J::A(vec![h.any.root().hex().into(), jpath(&path), read_path(&mut t, &h.any.root(), &path).into()]));
					}
					if let Any::Seq(s) = &h.any {
						if s.len() > 0 && h.any.owned() {
							for _ in 0..2 {
								let i = g.rng.below(s.len());
								elems.push(J::A(vec![J::I(*id), i.into(), read_elem(&mut t, s, i).into()]));
							}
						}
					}
				}
			}
			event(&obj!{ "op" => "proof", "ps" => J::A(ps), "direct" => store(&g.tap.db), "proved" => store(&proved.db),
				"partial" => J::A(partial), "elems" => J::A(elems) });
		} else {
			event(&obj!{ "op" => "proof" });
		}
	}
	*rng = g.rng;
	close_trace();
}

fn main() {
	let a = args();
	open_log(&a.out, 20);
	let mut rng = Rng::new(a.seed ^ 0x1111);
	if a.what.starts_with("replay:") {
		let text = std::fs::read_to_string(&a.input).unwrap();
		let (mut inh, mut uni) = (vec![], vec![]);
		for l in text.lines() {
			let j = J::parse(l);
			if j.get("mode").s() == "unit" { uni.push(j) } else { inh.push(j) }
		}
		let mut fails = Vec::new();
		let n = inh.len() + uni.len();
		let k = replay::<Inh<V8>>(&makers8(), &inh, &a.what[7..], &mut rng, &mut fails)
			+ replay::<Uni<V8>>(&makers8(), &uni, &a.what[7..], &mut rng, &mut fails);
		std::fs::write(&a.out, fails.join("\n")).unwrap();
		println!("EDGES {} REPLAYED {} FAILED {}", n, k, fails.len());
		return
	}
	for _ in 0..if a.thorough { 1500 } else { 80 } {
		trace::<Inh<V8>>(&mut rng, &makers8(), &a.what);
		trace::<Uni<V8>>(&mut rng, &makers8(), &a.what);
		trace::<Inh<V32>>(&mut rng, &makers32(), &a.what);
		trace::<Inh<V16>>(&mut rng, &makers16(), &a.what);
	}
	write_log();
}
