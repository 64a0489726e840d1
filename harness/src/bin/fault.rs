//! Every operation with the backend failing at every call (C20).
use bm::{DynBackend, ProvingBackend};
use bmh::gens::*;
use bmh::obj;
use bmh::seqs::*;
use bmh::stacks::*;
use bmh::tap::{store, Tap};
use bmh::util::*;
use bmh::values::*;
use bmh::worlds::*;
use std::collections::HashMap;

const THROUGH: [&str; 3] = ["direct", "dyn", "proving"];
const REPORT: [&str; 3] = ["backend Fault", "backend Stripped", "backend Fault"];

fn dup<C: Cons>(t: &Tap<C>, fail: Option<u64>) -> Tap<C> where C::Value: Val {
	let mut n = Tap::over(t.db.clone());
	n.fail_at = fail;
	n
}

/// One operation through a wrapper.
fn through<C: Cons>(k: usize, w: &mut World<C>, tap: Tap<C>, op: &J) -> (Out, Tap<C>) where C::Value: Val {
	let mut tap = tap;
	let o = match k {
		0 => w.exec(&mut tap, op),
		1 => {
			let mut b = As(DynBackend(tap));
			let o = w.exec(&mut b, op);
			tap = (b.0).0;
			o
		},
		_ => w.exec(&mut ProvingBackend::new(&mut tap), op),
	};
	(o, tap)
}

fn elems<C: Cons>(any: &Any<C>, tap: &mut Tap<C>) -> Vec<J> where C::Value: Val {
	match any {
		Any::Seq(s) => (0..s.len()).map(|i| match guard(|| s.get(tap, i)) {
			Ok(Ok(v)) => J::A(vec![hex(&v).into()]),
			Ok(Err(_)) => J::A(vec![]),
			Err(()) => "panic".into(),
		}).collect(),
		_ => vec![],
	}
}

/// Whether the handles and the store are as told.
fn check<C: Cons>(w: &World<C>, tap: &Tap<C>, told: &J, need: &J, least: &J, gone: Option<i64>) -> Option<J> where C::Value: Val {
	let mut tap = dup(tap, None);
	let mut n = 0;
	for h in told.a() {
		let id = h.get("h").i();
		if gone == Some(id) { continue }
		n += 1;
		let any = match w.hs.get(&id) { Some(h) => &h.any, None => return Some(obj!{ "no handle" => id }) };
		let got = (any.root().hex(), any.len() as i64, J::A(elems(any, &mut tap)));
		if got.0 != h.get("root").s() || got.1 != h.get("len").i() || got.2 != *h.get("elems") {
			return Some(obj!{ "handle" => id, "root" => got.0, "len" => got.1, "elems" => got.2 })
		}
		// Opened again from its metadata it is the same.
		let again = any.dup();
		let e = J::A(elems(&again, &mut tap));
		if again.root().hex().as_str() != h.get("root").s() || e != *h.get("elems") { return Some(obj!{ "reopened" => id, "elems" => e }) }
	}
	if w.hs.len() != n { return Some(obj!{ "handles" => w.hs.len() }) }
	let rows = store(&tap.db);
	let at: HashMap<&str, &J> = rows.a().iter().map(|r| (r.a()[0].s(), r)).collect();
	for x in need.a() {
		let k = x.a()[0].s();
		if at.get(k).map(|r| &r.a()[1]) != Some(&x.a()[1]) { return Some(obj!{ "lost" => k }) }
	}
	for x in least.a() {
		let (k, c) = (x.a()[0].s(), x.a()[1].i());
		match at.get(k) {
			Some(r) if r.a()[2].i() == -1 || r.a()[2].i() >= c => (),
			_ => return Some(obj!{ "count" => k, "least" => c }),
		}
	}
	None
}

const MOST: u64 = 400;

fn replay<C: Cons>(makers: &Makers<C>, edges: &[J], fails: &mut Vec<String>) -> usize where C::Value: Val {
	let mut runs = 0;
	let none = J::A(vec![]);
	for e in edges {
		let setup = e.get("setup").a();
		let op0 = e.get("op");
		let first = if op0.get("op").s() == "create" { op0 } else { &setup[0] };
		for way in World::<C>::new(makers).ways(first) {
			let fix = |op: &J| if op.get("op").s() == "create" {
				// Others take the first way there is.
				let ok = World::<C>::new(makers).ways(op);
				let k = if ok.contains(&way) { way } else { ok[0] };
				op.clone().with("which", J::I(k as i64))
			} else { op.clone() };
			let mut w0 = World::<C>::new(makers);
			let mut tap0 = Tap::<C>::new();
			let mut fine = true;
			for op in setup { fine &= w0.exec(&mut tap0, &fix(op)).res == "ok"; }
			let op = fix(op0);
			let name = op.get("op").s().to_string();
			let gone = if name == "drop" { Some(op.get("h").i()) } else { None };
			let base = Tap::over(tap0.db.clone());
			let told = e.get("before");
			let mut fail = |k: usize, at: Vec<u64>, got: J| fails.push(obj!{ "edge" => e.clone(), "way" => way,
				"through" => THROUGH[k], "failing call" => J::A(at.iter().map(|x| J::I(*x as i64)).collect()), "got" => got }.dump());
			if !fine || check(&w0, &base, told, &none, &none, None).is_some() {
				// Not about failures: only the others can judge this.
				runs += 1;
				continue
			}
			let whole = |k: usize, w: &World<C>, t: &Tap<C>| -> Option<J> {
				let mut w = w.dup();
				let (o, t) = through(k, &mut w, dup(t, None), &op);
				let got = obj!{ "res" => o.res, "out" => o.out, "root" => o.root };
				if got != *e.get("out") { return Some(got) }
				check(&w, &t, e.get("after"), &none, &none, None)
			};
			for k in 0..3 {
				// What it gives when nothing fails is as specified, or for others to judge.
				runs += 1;
				if whole(k, &w0, &base).is_some() { continue }
				let mut at = 0;
				loop {
					at += 1;
					if at > MOST { fail(k, vec![at], "does not end".into()); break }
					let mut w = w0.dup();
					let (o, t) = through(k, &mut w, dup(&base, Some(at)), &op);
					if t.failed.is_none() { break }
					runs += 1;
					if o.res != REPORT[k] { fail(k, vec![at], o.res.as_str().into()); continue }
					if let Some(b) = check(&w, &t, told, e.get("need"), e.get("least"), gone) { fail(k, vec![at], b); continue }
					if gone.is_some() { continue }
					// A second failure, then none.
					let mut again = 0;
					while again < MOST && k == 0 {
						again += if at % 3 == 0 { 1 } else { 4 };
						let mut w2 = w.dup();
						let (o, t2) = through(k, &mut w2, dup(&t, Some(again)), &op);
						if t2.failed.is_none() { break }
						runs += 1;
						if o.res != REPORT[k] { fail(k, vec![at, again], o.res.as_str().into()); continue }
						if let Some(b) = check(&w2, &t2, told, e.get("need"), e.get("least"), None) { fail(k, vec![at, again], b); continue }
						if again % 2 == 0 { continue }
						if let Some(b) = whole(k, &w2, &t2) { fail(k, vec![at, again, 0], b); }
					}
					if let Some(b) = whole(k, &w, &t) { fail(k, vec![at, 0], b); }
				}
			}
		}
	}
	runs
}

/// Histories in which calls fail now and then.
fn trace<C: Cons>(rng: &mut Rng, makers: &Makers<C>) where C::Value: Val {
	event(&obj!{ "op" => "init", "mode" => C::MODE, "w" => C::Value::W });
	let mut g = Gen::<C> { rng: rng.clone(), w: World::new(makers), tap: Tap::new(), next: 1, ops: vec![] };
	for _ in 0..g.rng.range(15, 60) {
		let op = match g.choose(false) { Some(op) => op, None => continue };
		let name = op.get("op").s().to_string();
		let able = ["create", "rset", "rget", "subtree", "recon", "drop", "push", "pop", "set", "get"].contains(&name.as_str());
		g.tap.fail_at = None;
		if able && g.rng.chance(1, 2) {
			// How many calls does it make?
			let mut w = g.w.dup();
			let mut t = dup(&g.tap, None);
			w.exec(&mut t, &op);
			let n = t.calls;
			if n > 0 {
				let late = g.rng.chance(1, 2);
				let back = g.rng.below(std::cmp::min(n as usize, 4)) as u64;
				let at = if late { n - back } else { 1 + g.rng.below(n as usize) as u64 };
				g.tap.fail_at = Some(g.tap.calls + at);
				g.tap.failed = None;
			}
		}
		let o = g.w.exec(&mut g.tap, &op);
		g.tap.fail_at = None;
		let failed = g.tap.failed.take().is_some();
		let hs = g.w.hs.iter().map(|(i, h)| J::A(vec![J::I(*i), h.any.root().hex().into(), J::I(h.any.len() as i64)])).collect();
		event(&op.with("res", o.res.as_str().into()).with("out", o.out.as_str().into()).with("fault", J::B(failed))
			.with("hs", J::A(hs)).with("store", store(&g.tap.db)));
		if o.res == "panic" { break }
	}
	*rng = g.rng;
	close_trace();
}

fn main() {
	let a = args();
	open_log(&a.out, 20);
	if a.what == "replay" {
		let text = std::fs::read_to_string(&a.input).unwrap();
		let (mut inh, mut uni) = (vec![], vec![]);
		for l in text.lines() {
			let j = J::parse(l);
			if j.get("mode").s() == "unit" { uni.push(j) } else { inh.push(j) }
		}
		let mut fails = Vec::new();
		let n = inh.len() + uni.len();
		let k = replay::<Inh<V8>>(&makers8(), &inh, &mut fails) + replay::<Uni<V8>>(&makers8(), &uni, &mut fails);
		std::fs::write(&a.out, fails.join("\n")).unwrap();
		println!("EDGES {} REPLAYED {} FAILED {}", n, k, fails.len());
		return
	}
	let mut rng = Rng::new(a.seed ^ 0x2020);
	for _ in 0..if a.thorough { 500 } else { 40 } {
		trace::<Inh<V8>>(&mut rng, &makers8());
		trace::<Uni<V8>>(&mut rng, &makers8());
		trace::<Inh<V8>>(&mut rng, &makers8());
		trace::<Inh<V32>>(&mut rng, &makers32());
	}
	write_log();
}
