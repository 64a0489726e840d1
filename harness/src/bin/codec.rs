//! Encoding and decoding of values (C14, C15, C17).
use bm::{Construct, InMemoryBackend, Proofs, ProvingBackend, ProvingState, ReadBackend, WriteBackend};
use bm_le::Value;
use bmh::obj;
use bmh::shapes::*;
use bmh::gens::{nodes, Map};
use bmh::stacks::*;
use bmh::tap::{res, store, Tap};
use bmh::util::*;
use bmh::values::*;
use std::collections::{BTreeMap, HashMap};

fn val(s: &str) -> Value { Value::of(&unhex(s)) }

/// Both kinds of store behind one interface.
enum Db { Inh(Tap<Inh<Value>>), Uni(Tap<Uni<Value>>) }
impl Db {
	fn new(mode: &str) -> Self { if mode == "unit" { Db::Uni(Tap::new()) } else { Db::Inh(Tap::new()) } }
	fn of(mode: &str, nodes: &BTreeMap<Value, (Value, Value)>) -> Self {
		fn go<C: Construct<Value=Value>>(nodes: &BTreeMap<Value, (Value, Value)>) -> Tap<C> {
			let mut db = InMemoryBackend::<C>::default();
			let it: HashMap<Value, (Value, Value)> = nodes.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
			db.populate(it);
			Tap::over(db)
		}
		if mode == "unit" { Db::Uni(go(nodes)) } else { Db::Inh(go(nodes)) }
	}
	fn enc(&mut self, t: &Ty, v: &J) -> Result<Value, E> {
		match self { Db::Inh(d) => (t.enc)(v, d), Db::Uni(d) => (t.enc_unit)(v, d) }
	}
	fn dec(&mut self, t: &Ty, r: &Value) -> Result<J, E> {
		match self { Db::Inh(d) => (t.dec)(r, d), Db::Uni(d) => (t.dec_unit)(r, d) }
	}
	/// Fail at a call, counted from here.
	fn fail(&mut self, at: Option<u64>) {
		match self {
			Db::Inh(d) => { d.fail_at = at.map(|k| d.calls + k); d.failed = None },
			Db::Uni(d) => { d.fail_at = at.map(|k| d.calls + k); d.failed = None },
		}
	}
	/// Whether a call failed; none does from here on.
	fn failed(&mut self) -> bool {
		match self {
			Db::Inh(d) => { d.fail_at = None; d.failed.take().is_some() },
			Db::Uni(d) => { d.fail_at = None; d.failed.take().is_some() },
		}
	}
	fn calls(&self) -> u64 { match self { Db::Inh(d) => d.calls, Db::Uni(d) => d.calls } }
	fn copy(&self) -> Db { match self { Db::Inh(d) => Db::Inh(d.clone()), Db::Uni(d) => Db::Uni(d.clone()) } }
	fn same(&mut self, t: &Ty, v: &J, r: &Value) -> bool {
		match self { Db::Inh(d) => (t.same)(v, r, d), Db::Uni(_) => true }
	}
	fn kids(&mut self, k: &Value) -> Option<(Value, Value)> {
		match self { Db::Inh(d) => d.db.get(k).unwrap(), Db::Uni(d) => d.db.get(k).unwrap() }
	}
}

/// A value encoded through every wrapper into copies of a store and decoded
/// again: [name, root or error, result, value, store], and on the discarding
/// backend [root or error, result, value].
fn everywhere(db: &Db, t: &Ty, v: &J) -> (Vec<J>, Vec<J>) {
	fn go<C: Cons<Value=Value>>(db: &Tap<C>, v: &J, enc: fn(&J, &mut bmh::seqs::Dyn<C>) -> Result<Value, E>, dec: fn(&Value, &mut bmh::seqs::Dyn<C>) -> Result<J, E>) -> (Vec<J>, Vec<J>) {
		let one = |b: &mut bmh::seqs::Dyn<C>| {
			let r = enc(v, b);
			let root = match &r { Ok(r) => r.hex(), Err(e) => tap_err(e) };
			let d = r.and_then(|r| dec(&r, b));
			obj!{ "root" => root, "res" => res(&d), "v" => d.unwrap_or(J::A(vec![])) }
		};
		let all: Vec<(J, J)> = stacks(&db.db, &mut |b| one(b));
		let out = all.iter().map(|(r, st)| r.clone().with("left", (*st == all[0].1).into())).collect();
		(out, noops(&mut |b| one(b)))
	}
	match db { Db::Inh(d) => go(d, v, t.enc, t.dec), Db::Uni(d) => go(d, v, t.enc_unit, t.dec_unit) }
}

/// What is done while recording.
enum Step<'a> { Dec(&'a Ty, Value), Enc(&'a Ty, &'a J) }

/// A recording, and what became of it.
struct Record {
	/// What the steps gave directly, recorded, and run again from the proof.
	direct: Vec<J>,
	proved: Vec<J>,
	again: Vec<J>,
	/// Whether the store was left as without the recording.
	same: bool,
	/// The proof, and whether it is part of the store as it was before.
	proof: Map<Value>,
	genuine: bool,
	/// Values read from parts of the proof by the reading steps.
	parts: Vec<(usize, J)>,
}

/// Run the steps on a store directly, recorded (the recording put down and
/// taken up again at a step), and from the recorded proof.
fn record(db: &Db, steps: &[Step], roots: &[Value], split: usize, rng: &mut Rng) -> Record {
	fn go<C: Cons<Value=Value>>(db: &Tap<C>, steps: &[Step], roots: &[Value], split: usize, rng: &mut Rng,
		enc: fn(&Ty) -> fn(&J, &mut bmh::seqs::Dyn<C>) -> Result<Value, E>, dec: fn(&Ty) -> fn(&Value, &mut bmh::seqs::Dyn<C>) -> Result<J, E>) -> Record
	{
		let one = |b: &mut bmh::seqs::Dyn<C>, s: &Step| match s {
			Step::Dec(t, r) => { let d = dec(t)(r, b); obj!{ "res" => res(&d), "v" => d.unwrap_or(J::A(vec![])) } },
			Step::Enc(t, v) => {
				let r = enc(t)(v, b);
				let root = match &r { Ok(r) => r.hex(), Err(e) => tap_err(e) };
				// What was written is there.
				let d = r.and_then(|r| dec(t)(&r, b));
				obj!{ "root" => root, "res" => res(&d), "v" => d.unwrap_or(J::A(vec![])) }
			},
		};
		let mut a = db.clone();
		let direct = steps.iter().map(|s| one(&mut a, s)).collect();
		let mut b = db.clone();
		let mut proved = vec![];
		let state = {
			let mut pb = ProvingBackend::new(&mut b);
			for s in &steps[..split] { proved.push(one(&mut pb, s)); }
			pb.into_state()
		};
		let proof: Map<Value> = {
			let mut pb = ProvingBackend::from_state(state, &mut b);
			for s in &steps[split..] { proved.push(one(&mut pb, s)); }
			let p: Proofs<Value> = pb.into();
			p.into()
		};
		let mut c = InMemoryBackend::<C>::default();
		c.populate(proof.clone());
		let mut c = Tap::over(c);
		for r in roots { c.rootify(r).unwrap(); }
		let again = steps.iter().map(|s| one(&mut c, s)).collect();
		let had = nodes(db);
		let genuine = proof.iter().all(|(k, x)| had.get(k) == Some(x));
		let mut parts = vec![];
		let mut keys: Vec<Value> = proof.keys().cloned().collect();
		keys.sort();
		for (i, s) in steps.iter().enumerate() {
			if let Step::Dec(..) = s {
				let mut some = keys.clone();
				if rng.chance(1, 2) && !some.is_empty() { let k = rng.below(some.len()); some.remove(k); } else { some.retain(|_| rng.chance(3, 4)); }
				let mut c = InMemoryBackend::<C>::default();
				c.populate(some.into_iter().map(|k| (k.clone(), proof[&k].clone())).collect::<Map<Value>>());
				let x = one(&mut Tap::over(c), s);
				if x.get("res").s() == "ok" { parts.push((i, x.get("v").clone())) }
			}
		}
		Record { direct, proved, again, same: store(&a.db) == store(&b.db), proof, genuine, parts }
	}
	match db {
		Db::Inh(d) => go(d, steps, roots, split, rng, |t| t.enc, |t| t.dec),
		Db::Uni(d) => go(d, steps, roots, split, rng, |t| t.enc_unit, |t| t.dec_unit),
	}
}

fn nodes_of(j: &J) -> BTreeMap<Value, (Value, Value)> {
	j.a().iter().map(|n| (val(n.a()[0].s()), (val(n.a()[1].s()), val(n.a()[2].s())))).collect()
}

/// The calls to fail: the first, the last, and some of those between.
fn chosen(n: u64) -> Vec<u64> {
	let step = std::cmp::max(1, n / 12);
	(1..=n).filter(|k| *k <= 12 || *k + 12 > n || k % step == 0).collect()
}

/// Encoding and decoding with each call failing: what was wrong.
fn faults(mode: &str, t: &Ty, v: &J, root: &str, runs: &mut usize) -> Vec<J> {
	let mut bad = vec![];
	let mut dry = Db::new(mode);
	match dry.enc(t, v) { Ok(ref r) if r.hex() == root => {}, _ => return bad }
	let n = dry.calls();
	let r = val(root);
	match dry.dec(t, &r) { Ok(ref x) if x == v => {}, _ => return bad }
	let m = dry.calls() - n;
	for k in chosen(n) {
		*runs += 1;
		let mut db = Db::new(mode);
		db.fail(Some(k));
		let got = db.enc(t, v);
		if !db.failed() { continue }
		if res(&got) != "backend Fault" { bad.push(obj!{ "encoding, failing" => k as i64, "res" => res(&got) }); continue }
		// A second failure, now and then, and then none.
		if k % 3 == 0 {
			db.fail(Some(1 + k / 2));
			let got = db.enc(t, v);
			if db.failed() && res(&got) != "backend Fault" { bad.push(obj!{ "encoding again, failing" => k as i64, "res" => res(&got) }); continue }
		}
		match db.enc(t, v) {
			Ok(ref x) if *x == r => {},
			x => { bad.push(obj!{ "encoding after" => k as i64, "res" => res(&x) }); continue },
		}
		match db.dec(t, &r) {
			Ok(ref x) if x == v => {},
			x => bad.push(obj!{ "decoding after" => k as i64, "res" => res(&x) }),
		}
	}
	let whole = dry;
	for k in chosen(m) {
		*runs += 1;
		let mut db = whole.copy();
		db.fail(Some(k));
		let got = db.dec(t, &r);
		if !db.failed() { continue }
		if res(&got) != "backend Fault" { bad.push(obj!{ "decoding, failing" => k as i64, "res" => res(&got) }); continue }
		match db.dec(t, &r) {
			Ok(ref x) if x == v => {},
			x => bad.push(obj!{ "decoding after" => k as i64, "res" => res(&x) }),
		}
	}
	bad
}

fn replay(what: &str, text: &str) -> (usize, usize, Vec<String>) {
	let cat: HashMap<String, Ty> = catalogue().into_iter().map(|t| (t.name.clone(), t)).collect();
	let (mut n, mut k, mut fails) = (0, 0, Vec::new());
	let mut bases = HashMap::new();
	let roots = what.contains("C14");
	let back = what.contains("C15");
	let every = what.contains("C16");
	let failing = what.contains("C20");
	let suffices = what.contains("C11");
	let recorded = suffices || what.contains("C12");
	let mut rng = Rng::new(11);
	for l in text.lines() {
		let j = J::parse(l);
		if j.has("id") && !j.has("op") {
			bases.insert(j.get("id").s().to_string(), nodes_of(j.get("nodes")));
			continue
		}
		n += 1;
		begin(&j);
		let t = &cat[j.get("ty").s()];
		let mode = j.get("mode").s();
		let op = j.get("op").s();
		let got = guard(|| match op {
			"enc" | "two" => {
				k += 1;
				let v = j.get("v");
				let mut bad = vec![];
				let mut run = |first: Option<(&Ty, &J)>, last: Option<(&Ty, &J)>| {
					let mut db = Db::new(mode);
					if let Some((t, v)) = first { db.enc(t, v).unwrap(); }
					let r = db.enc(t, v);
					if let Some((t, v)) = last { db.enc(t, v).unwrap(); }
					match r {
						Err(e) => bad.push(tap_err(&e)),
						Ok(r) => {
							if roots && r.hex() != j.get("root").s() { bad.push(format!("root {}", r.hex())); }
							if back {
								match db.dec(t, &r) {
									Ok(x) if x == *v => if !db.same(t, v, &r) { bad.push("not equal".into()) },
									Ok(x) => bad.push(format!("decoded {}", x.dump())),
									Err(e) => bad.push(tap_err(&e)),
								}
							}
						},
					}
				};
				if failing {
					if let Some(b) = faults(mode, t, v, j.get("root").s(), &mut k).into_iter().next() { bad.push(b.dump()); }
				} else if recorded {
					// Some values read and others written.
					let mut db = Db::new(mode);
					let other = if op == "two" { Some((&cat[j.get("ty2").s()], j.get("v2"))) } else { None };
					let mut roots = vec![db.enc(t, v).unwrap()];
					let r = roots[0].clone();
					let mut steps = vec![Step::Dec(t, r.clone())];
					if let Some((t2, v2)) = other {
						if k % 2 == 0 {
							let r2 = db.enc(t2, v2).unwrap();
							roots.push(r2.clone());
							steps.push(Step::Dec(t2, r2));
							steps.push(Step::Enc(t2, v2));
						} else {
							steps.insert(0, Step::Enc(t2, v2));
						}
					} else if k % 2 == 0 { steps.push(Step::Enc(t, v)) }
					if k % 3 == 0 { steps.push(Step::Dec(t, r.clone())) }
					let want: Vec<J> = steps.iter().map(|s| match s {
						Step::Dec(t1, _) => obj!{ "res" => "ok", "v" => if t1.name == t.name { v.clone() } else { other.unwrap().1.clone() } },
						Step::Enc(t1, v1) => {
							let root = if t1.name == t.name && *v1 == v { J::from(j.get("root").s()) } else { Db::new(mode).enc(t1, v1).unwrap().hex().into() };
							obj!{ "root" => root, "res" => "ok", "v" => (*v1).clone() }
						},
					}).collect();
					let split = rng.below(steps.len() + 1);
					let x = record(&db, &steps, &roots, split, &mut rng);
					if suffices {
						if x.again != want { bad.push(format!("again {}", J::A(x.again).dump())) }
					} else {
						if x.proved != want { bad.push(format!("recorded {}", J::A(x.proved).dump())) }
						if !x.same { bad.push("another store".into()) }
						if !x.genuine { bad.push("not genuine".into()) }
						for (i, p) in &x.parts { if p != want[*i].get("v") { bad.push(format!("from a part {}", p.dump())) } }
					}
				} else if op == "two" {
					let other = (&cat[j.get("ty2").s()], j.get("v2"));
					run(Some(other), None);
					run(None, Some(other));
				} else if every {
					let (all, no) = everywhere(&Db::new(mode), t, v);
					let want = obj!{ "root" => j.get("root").s(), "res" => "ok", "v" => v.clone(), "left" => true };
					for (k, a) in all.iter().enumerate() {
						if *a != want { bad.push(format!("through {}: {}", STACKS[k], a.dump())); }
					}
					let bare = j.get("bare").a();
					for (k, no) in no.iter().enumerate() {
						let want = if bare.is_empty() { obj!{ "root" => j.get("root").s(), "res" => REFUSED[k], "v" => J::A(vec![]) } }
							else { obj!{ "root" => j.get("root").s(), "res" => "ok", "v" => bare[0].clone() } };
						if *no != want { bad.push(format!("through {}: {}", NOOPS[k], no.dump())); }
					}
				} else {
					run(None, None);
					if roots && mode != "unit" {
						for a in (t.alts)(v).into_iter().chain(vec![(t.root)(v)]) {
							if a.hex() != j.get("root").s() { bad.push(format!("other way {}", a.hex())); }
						}
					}
				}
				bad
			},
			_ => {
				k += 1;
				let mut nodes: BTreeMap<Value, (Value, Value)> = bases[j.get("id").s()].clone();
				nodes.extend(nodes_of(j.get("added")));
				if j.get("lost").s() != "" { nodes.remove(&val(j.get("lost").s())); }
				let mut db = Db::of(mode, &nodes);
				if recorded {
					let x = record(&db, &[Step::Dec(t, val(j.get("root").s()))], &[], 0, &mut rng);
					let one = if suffices { &x.again } else { &x.proved };
					return if *one != x.direct || !x.same || !x.genuine { vec![format!("recorded {}, directly {}", J::A(one.clone()).dump(), J::A(x.direct).dump())] } else { vec![] }
				}
				let r = db.dec(t, &val(j.get("root").s()));
				let want = j.get("out").a();
				match &r {
					Ok(v) if !want.is_empty() && (*v == want[0] || !j.get("canon").b()) => vec![],
					Err(bm::Error::CorruptedDatabase) if !j.get("canon").b() => vec![],
					Ok(v) => vec![format!("decoded {}", v.dump())],
					Err(e) => vec![tap_err(e)],
				}
			},
		});
		match got {
			Ok(bad) => if !bad.is_empty() { fails.push(obj!{ "edge" => j, "got" => bad[0].clone() }.dump()) },
			Err(()) => fails.push(obj!{ "edge" => j, "got" => "panic" }.dump()),
		}
	}
	(n, k, fails)
}

/// All nodes under a root.
fn reach(db: &mut Db, root: &Value, into: &mut BTreeMap<Value, (Value, Value)>) {
	if into.contains_key(root) { return }
	if let Some((l, r)) = db.kids(root) {
		into.insert(root.clone(), (l.clone(), r.clone()));
		reach(db, &l, into);
		reach(db, &r, into);
	}
}
fn jnodes(n: &BTreeMap<Value, (Value, Value)>) -> J {
	J::A(n.iter().map(|(k, (l, r))| J::A(vec![k.hex().into(), l.hex().into(), r.hex().into()])).collect())
}

fn trace(rng: &mut Rng, cat: &[Ty], prop: &str, steps: usize) {
	let mode = if rng.chance(1, 4) && prop != "C14" { "unit" } else { "inherited" };
	event(&obj!{ "op" => "start", "mode" => mode });
	let mut db = Db::new(mode);
	let mut held: Vec<(usize, J, Value)> = vec![];
	for _ in 0..steps {
		if held.is_empty() || (rng.chance(1, 2) && held.len() < 12) {
			let ti = rng.below(cat.len());
			let t = &cat[ti];
			// Related values now and then.
			let v = if !held.is_empty() && rng.chance(1, 4) { let h = rng.pick(&held); if h.0 == ti { h.1.clone() } else { sample(rng, &t.desc, 9) } }
				else { let n = if rng.chance(1, 4) { 40 } else { 9 }; sample(rng, &t.desc, n) };
			let e = obj!{ "op" => "enc", "t" => t.desc.clone(), "name" => t.name.clone(), "v" => v.clone(), "h" => held.len() };
			begin(&e);
			if prop == "C20" && rng.chance(1, 2) {
				// A call fails.
				let n = { let mut d = db.copy(); let _ = guard(|| d.enc(t, &v)); d.calls() };
				if n > 0 {
					db.fail(Some(1 + rng.below(n as usize) as u64));
					let r = guard(|| db.enc(t, &v));
					let failed = db.failed();
					let e = e.clone().with("h", J::I(-1)).with("fault", failed.into());
					match r {
						Ok(r) => event(&e.with("res", res(&r).into()).with("root", r.map(|r| r.hex()).unwrap_or_default().into()).with("alts", J::A(vec![]))),
						Err(()) => { event(&e.with("res", "panic".into())); break },
					}
					if rng.chance(1, 2) { continue }
				}
			}
			let r = guard(|| {
				let ev = if prop == "C16" { Some(everywhere(&db, t, &v)) } else { None };
				let r = db.enc(t, &v);
				let alts = if mode == "unit" { vec![] } else { let mut a = (t.alts)(&v); a.push((t.root)(&v)); a };
				(r, alts, ev)
			});
			match r {
				Ok((r, alts, ev)) => {
					let e = match ev { Some((all, no)) => e.with("all", J::A(all)).with("no", J::A(no)), None => e };
					let root = r.as_ref().map(|r| r.hex()).unwrap_or_default();
					event(&e.with("res", res(&r).into()).with("root", root.into())
						.with("alts", J::A(alts.iter().map(|a| a.hex().into()).collect())));
					match r { Ok(r) => held.push((ti, v, r)), Err(_) => break }
				},
				Err(()) => { event(&e.with("res", "panic".into())); break },
			}
			continue
		}
		let h = rng.below(held.len());
		let (ti, v, r) = held[h].clone();
		let t = &cat[ti];
		if ["C11", "C12"].contains(&prop) {
			let n = rng.range(1, 4);
			// [held value] or [type, value]
			let mut told = vec![];
			let mut fresh = vec![];
			for _ in 0..n {
				if rng.chance(2, 3) { told.push(Ok(rng.below(held.len()))) } else {
					let t = rng.pick(cat);
					let v = if rng.chance(1, 3) { sample(rng, &t.desc, 2) } else { sample(rng, &t.desc, 7) };
					told.push(Err(fresh.len()));
					fresh.push((t, v));
				}
			}
			let steps: Vec<Step> = told.iter().map(|x| match x { Ok(h) => Step::Dec(&cat[held[*h].0], held[*h].2.clone()), Err(k) => Step::Enc(fresh[*k].0, &fresh[*k].1) }).collect();
			let did = told.iter().map(|x| match x {
				Ok(h) => obj!{ "h" => *h, "new" => J::A(vec![]) },
				Err(k) => obj!{ "h" => J::I(-1), "new" => J::A(vec![obj!{ "t" => fresh[*k].0.desc.clone(), "v" => fresh[*k].1.clone() }]) },
			}).collect();
			let e = obj!{ "op" => "prove", "did" => J::A(did) };
			begin(&e);
			let split = rng.below(steps.len() + 1);
			let roots: Vec<Value> = held.iter().map(|h| h.2.clone()).collect();
			match guard(|| record(&db, &steps, &roots, split, rng)) {
				Ok(x) => {
					let outs = if prop == "C11" { x.again } else { x.proved };
					let parts = x.parts.into_iter().map(|(i, v)| obj!{ "i" => i + 1, "v" => v }).collect();
					let keys: BTreeMap<Value, (Value, Value)> = x.proof.into_iter().collect();
					event(&e.with("res", "ok".into()).with("outs", J::A(outs)).with("same", x.same.into()).with("proof", jnodes(&keys)).with("parts", J::A(parts)));
				},
				Err(()) => { event(&e.with("res", "panic".into())); break },
			}
			continue
		}
		if prop != "C17" {
			let e = obj!{ "op" => "dec", "h" => h, "name" => t.name.clone() };
			begin(&e);
			if prop == "C20" && rng.chance(1, 2) {
				let n = { let mut d = db.copy(); let _ = guard(|| d.dec(t, &r)); d.calls() };
				if n > 0 {
					db.fail(Some(1 + rng.below(n as usize) as u64));
					let x = guard(|| db.dec(t, &r));
					let e = e.clone().with("fault", db.failed().into()).with("same", true.into());
					match x {
						Ok(x) => event(&e.with("res", res(&x).into()).with("v", x.unwrap_or(J::A(vec![])))),
						Err(()) => { event(&e.with("res", "panic".into())); break },
					}
				}
			}
			match guard(|| { let x = db.dec(t, &r); let s = db.same(t, &v, &r); (x, s) }) {
				Ok((x, s)) => {
					let e = e.with("res", res(&x).into()).with("same", s.into());
					event(&match x { Ok(x) => e.with("v", x), Err(_) => e.with("v", J::A(vec![])) });
				},
				Err(()) => { event(&e.with("res", "panic".into())); break },
			}
			continue
		}
		// Damage: lose nodes, or change a position.
		let mut nodes = BTreeMap::new();
		if guard(|| reach(&mut db, &r, &mut nodes)).is_err() { continue }
		let mut root = r.clone();
		if rng.chance(1, 3) && !nodes.is_empty() {
			for _ in 0..rng.range(1, 2) {
				let ks: Vec<Value> = nodes.keys().cloned().collect();
				if let Some(k) = ks.get(rng.below(ks.len() + 1)) { nodes.remove(k); }
			}
		} else {
			for _ in 0..rng.range(1, 2) {
				let mut path = vec![];
				let mut at = root.clone();
				while let Some((l, r)) = nodes.get(&at) {
					if rng.chance(1, 5) { break }
					let b = rng.chance(2, 5);
					path.push(b);
					at = if b { r.clone() } else { l.clone() };
				}
				let x = match rng.below(7) {
					0 => Value::default(),
					1 => Value::from(rng.below(6)),
					2 => { let mut b = [0u8; 32]; b[8 + rng.below(24)] = 1; Value::of(&b) },
					3 => { let mut b = [0u8; 32]; b[7] = 1 << rng.range(2, 7); b[0] = rng.below(3) as u8; Value::of(&b) },
					4 => Value::of(&[0xff; 32]),
					5 => { let mut b = at.clone(); let i = rng.below(32); b.as_mut()[if rng.chance(1, 2) { 0 } else { i }] ^= 1 << rng.below(8); b },
					_ => Value::of(&rng.bytes(32)),
				};
				let mut up = x;
				for k in (0..path.len()).rev() {
					let mut n = root.clone();
					for b in &path[..k] { let (l, r) = nodes[&n].clone(); n = if *b { r } else { l }; }
					let (l, r) = nodes[&n].clone();
					let kids = if path[k] { (l, up) } else { (up, r) };
					up = <Inh<Value> as Construct>::intermediate_of(&kids.0, &kids.1);
					nodes.insert(up.clone(), kids);
				}
				root = up;
			}
		}
		if absurd(&t.desc, &root, &nodes) { continue }
		let e = obj!{ "op" => "bad", "t" => t.desc.clone(), "name" => t.name.clone(), "root" => root.hex(), "nodes" => jnodes(&nodes) };
		begin(&e);
		let mut bad = Db::of(mode, &nodes);
		match guard(|| bad.dec(t, &root)) {
			Ok(x) => {
				let e = e.with("res", res(&x).into());
				event(&match x { Ok(x) => e.with("v", x), Err(_) => e.with("v", J::A(vec![])) });
			},
			Err(()) => { event(&e.with("res", "panic".into())); break },
		}
	}
	close_trace();
}

/// Trees which really hold more elements than anyone wants to decode.
fn absurd(d: &J, root: &Value, nodes: &BTreeMap<Value, (Value, Value)>) -> bool {
	let _ = (d, root);
	// Numbers between these lengths and the largest limit.
	nodes.values().any(|(_, r)| {
		let b = r.as_ref();
		let n = u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]);
		b[8..].iter().all(|x| *x == 0) && n > 5000 && n < 1 << 50
	})
}

fn main() {
	let a = args();
	open_log(&a.out, 20);
	if a.what == "types" {
		let lines: Vec<String> = catalogue().iter().map(|t| obj!{ "name" => t.name.clone(), "t" => t.desc.clone() }.dump()).collect();
		std::fs::write(&a.out, lines.join("\n") + "\n").unwrap();
		println!("TYPES {}", lines.len());
		return
	}
	if a.what.starts_with("replay") {
		let (n, k, fails) = replay(&a.what, &std::fs::read_to_string(&a.input).unwrap());
		std::fs::write(&a.out, fails.join("\n")).unwrap();
		println!("EDGES {} REPLAYED {} FAILED {}", n, k, fails.len());
		return
	}
	let mut cat = catalogue();
	if a.what == "C17" { cat.retain(|t| !t.name.contains("U1E")); }
	let mut rng = Rng::new(a.seed ^ 0x14 ^ (a.what.as_bytes()[2] as u64) << 8);
	for _ in 0..if a.thorough { 3000 } else { 250 } { trace(&mut rng, &cat, &a.what, 16); }
	write_log();
}
