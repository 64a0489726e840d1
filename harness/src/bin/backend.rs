//! The same operations through every wrapper (C16).
use bm::{InMemoryBackend, ReadBackend, WriteBackend};
use bmh::gens::*;
use bmh::obj;
use bmh::seqs::*;
use bmh::stacks::*;
use bmh::tap::{res, Tap};
use bmh::util::*;
use bmh::values::*;
use bmh::worlds::*;

/// Operations of handles, and the store's own.
fn step<C: Cons>(w: &mut World<C>, db: &mut Dyn<C>, op: &J) -> J where C::Value: Val {
	let val = |k: &str| C::Value::of(&unhex(op.get(k).s()));
	let own = |db: &mut Dyn<C>| -> Option<Result<String, bm::Error<bmh::tap::TapError>>> {
		let unit = |r: Result<(), bmh::tap::TapError>| Some(r.map(|_| String::new()).map_err(bm::Error::Backend));
		match op.get("op").s() {
			"insert" => { let (l, r) = (val("l"), val("r")); unit(db.insert(C::intermediate_of(&l, &r), (l, r))) },
			"rootify" => unit(db.rootify(&val("v"))),
			"unrootify" => unit(db.unrootify(&val("v"))),
			"dbget" => Some(db.get(&val("v")).map(|x| x.map(|(l, r)| l.hex() + &r.hex()).unwrap_or("none".into())).map_err(bm::Error::Backend)),
			_ => None,
		}
	};
	begin(op);
	match guard(|| own(db)) {
		Ok(Some(r)) => obj!{ "res" => res(&r), "out" => r.unwrap_or_default(), "root" => "" },
		Ok(None) => { let o = w.exec(db, op); obj!{ "res" => o.res, "out" => o.out, "root" => o.root } },
		Err(()) => obj!{ "res" => "panic", "out" => "", "root" => "" },
	}
}

fn all<C: Cons>(w: &World<C>, base: &InMemoryBackend<C>, ops: &[J]) -> Vec<(Vec<J>, J)> where C::Value: Val {
	stacks(base, &mut |db| {
		let mut w = w.dup();
		ops.iter().map(|op| step(&mut w, db, op)).collect::<Vec<J>>()
	})
}

fn replay<C: Cons>(makers: &Makers<C>, edges: &[J], fails: &mut Vec<String>) -> usize where C::Value: Val {
	let mut runs = 0;
	for e in edges {
		let setup = e.get("setup").a();
		for way in World::<C>::new(makers).ways(&setup[0]) {
			let fix = |op: &J| if op.get("op").s() == "create" { op.clone().with("which", J::I(way as i64)) } else { op.clone() };
			let ops: Vec<J> = setup.iter().chain(e.get("ops").a()).map(fix).collect();
			let got = all(&World::<C>::new(makers), &InMemoryBackend::default(), &ops);
			for (k, (outs, st)) in got.iter().enumerate() {
				runs += 1;
				if outs[setup.len()..] != e.get("outs").a()[..] {
					fails.push(obj!{ "edge" => e.clone(), "way" => way, "through" => STACKS[k], "got" => J::A(outs.clone()) }.dump());
				}
				if *st != got[0].1 {
					fails.push(obj!{ "edge" => e.clone(), "way" => way, "through" => STACKS[k], "store" => st.clone(), "direct" => got[0].1.clone() }.dump());
				}
			}
			// The store's own operations on the discarding backend.
			for (op, want) in e.get("ops").a().iter().zip(e.get("noop").a()) {
				if want.s() == "" { continue }
				for (k, r) in noops(&mut |no| step(&mut World::<C>::new(makers), no, op)).into_iter().enumerate() {
					runs += 1;
					let want = if want.s() == "ok" { "ok" } else { REFUSED[k] };
					if r.get("res").s() != want { fails.push(obj!{ "edge" => e.clone(), "through" => NOOPS[k], "got" => r }.dump()); }
				}
			}
			// Operations of handles there are refused or as everywhere.
			let mut w = World::<C>::new(makers);
			let mut db = Tap::<C>::new();
			let before: Vec<bool> = ops[..ops.len() - 1].iter().map(|op| step(&mut w, &mut db, op).get("res").s() != "panic").collect();
			let last = e.get("noop").a().len() - 1;
			if before.contains(&false) || e.get("noop").a()[last].s() != "" { continue }
			for (k, r) in noops(&mut |no| step(&mut w.dup(), no, &ops[ops.len() - 1])).into_iter().enumerate() {
				runs += 1;
				if r.get("res").s() != REFUSED[k] && r != e.get("outs").a()[last] {
					fails.push(obj!{ "edge" => e.clone(), "last through" => NOOPS[k], "got" => r }.dump());
				}
			}
		}
	}
	runs
}

fn trace<C: Cons>(rng: &mut Rng, makers: &Makers<C>) where C::Value: Val {
	event(&obj!{ "op" => "init", "mode" => C::MODE, "w" => C::Value::W });
	let mut g = Gen::<C> { rng: rng.clone(), w: World::new(makers), tap: Tap::new(), next: 1, ops: vec![] };
	let mut ops = vec![];
	for _ in 0..g.rng.range(10, 50) {
		if let Some(op) = g.choose(false) {
			let o = g.w.exec(&mut g.tap, &op);
			ops.push(op);
			if o.res == "panic" { break }
		}
	}
	let got = all(&World::<C>::new(makers), &InMemoryBackend::default(), &ops);
	for (k, op) in ops.iter().enumerate() {
		event(&op.clone().with("rs", J::A(got.iter().map(|g| g.0[k].clone()).collect())));
	}
	event(&obj!{ "op" => "stores", "st" => J::A(got.iter().map(|g| g.1.clone()).collect()) });
	*rng = g.rng;
	close_trace();
}

fn main() {
	let a = args();
	open_log(&a.out, 20);
	if a.what == "replay" {
		let text = std::fs::read_to_string(&a.input).unwrap();
		let (mut inh, mut uni) = (vec![], vec![]);
		for l in text.lines() {
			let j = J::parse(l);
			if j.get("mode").s() == "unit" { uni.push(j) } else { inh.push(j) }
		}
		let mut fails = Vec::new();
		let n = inh.len() + uni.len();
		let k = replay::<Inh<V8>>(&makers8(), &inh, &mut fails) + replay::<Uni<V8>>(&makers8(), &uni, &mut fails);
		std::fs::write(&a.out, fails.join("\n")).unwrap();
		println!("EDGES {} REPLAYED {} FAILED {}", n, k, fails.len());
		return
	}
	let mut rng = Rng::new(a.seed ^ 0x1616);
	for _ in 0..if a.thorough { 600 } else { 50 } {
		trace::<Inh<V8>>(&mut rng, &makers8());
		trace::<Uni<V8>>(&mut rng, &makers8());
		trace::<Inh<V32>>(&mut rng, &makers32());
		trace::<Inh<V16>>(&mut rng, &makers16());
	}
	write_log();
}
