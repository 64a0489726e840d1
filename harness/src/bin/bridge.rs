//! Encoded sequences opened as containers and back (C18).
use bm::{Construct, Tree, WriteBackend};
use bm_le::Value;
use std::collections::HashMap;
use bmh::bridge::*;
use bmh::obj;
use bmh::seqs::*;
use bmh::shapes::sample;
use bmh::tap::{res, Tap};
use bmh::util::*;
use bmh::values::*;

fn limit(j: &J) -> Option<u64> { if j.i() < 0 { None } else { Some(j.i() as u64) } }

/// All ways to carry out one transition of MCBridge.
fn replay<C: Cons<Value=Value>>(edges: &[J], fails: &mut Vec<String>) -> usize {
	let fams = families::<C>();
	let by: HashMap<&str, &Fam<C>> = fams.iter().map(|f| (f.name, f)).collect();
	let m = makers32::<C>();
	let mut runs = 0;
	for e in edges {
		begin(e);
		let f = by[e.get("fam").s()];
		let (list, max) = (e.get("list").b(), limit(e.get("max")));
		let (from, to) = (e.get("from"), e.get("to"));
		let op = e.get("op");
		for kind in f.kinds(list) {
			for way in f.ways(&m, kind) {
				// From the encoded value, and from a container filled by pushes.
				for built in 0..2 {
					for own in &[true, false] {
						runs += 1;
						let mut fail = |what: &str, got: J| fails.push(obj!{ "edge" => e.clone(), "kind" => kind, "way" => way, "built" => built as usize, "own" => *own, "what" => what, "got" => got }.dump());
						let r = guard(|| -> Result<(), E> {
							let mut db = Tap::<C>::new();
							let n = from.a().len();
							let mut s = if built == 0 {
								let root = (f.enc)(from, list, max, &mut db)?;
								open(&m, kind, way, *own, &mut db, &root, n, max)?
							} else {
								let mut s = m.named(kind)[way].create(&mut db, 0, max)?;
								for v in from.a() { operate(f, &mut s, &mut db, &obj!{ "op" => "push", "v" => v.clone() })?; }
								if *own { s } else { s.fork() }
							};
							if s.root().hex() != e.get("fromroot").s() { fail("root before", s.root().hex().into()); }
							let r = operate(f, &mut s, &mut db, op);
							let got = match &r { Ok(x) => obj!{ "res" => "ok", "out" => x.clone() }, Err(_) => obj!{ "res" => res(&r), "out" => J::A(vec![]) } };
							if got != *e.get("out") { fail("result", got); }
							if s.root().hex() != e.get("root").s() { fail("root", s.root().hex().into()); }
							let back = (f.dec)(&s.root(), to.a().len(), list, max, &mut db)?;
							if back != *to { fail("decoded", back); }
							Ok(())
						});
						match r {
							Ok(Ok(())) => (),
							Ok(Err(x)) => fail("error", format!("{:?}", x).into()),
							Err(()) => fail("panic", J::N),
						}
					}
				}
			}
		}
	}
	runs
}

struct Item<C: Cons> where C::Value: Val { id: i64, fam: usize, list: bool, max: Option<u64>, v: Vec<J>, s: Boxed<C> }

fn trace<C: Cons<Value=Value>>(rng: &mut Rng, steps: usize) {
	let fams = families::<C>();
	let m = makers32::<C>();
	event(&obj!{ "op" => "start", "mode" => C::MODE });
	let mut db = Tap::<C>::new();
	let mut items: Vec<Item<C>> = vec![];
	let mut next = 1;
	let elem = |rng: &mut Rng, f: &Fam<C>, items: &Vec<Item<C>>, fam: usize| -> J {
		let old: Vec<J> = items.iter().filter(|i| i.fam == fam).flat_map(|i| i.v.iter().cloned()).collect();
		if !old.is_empty() && rng.chance(1, 3) { rng.pick(&old).clone() } else { sample(rng, &f.t, 4) }
	};
	for _ in 0..steps {
		if items.len() < 2 || (items.len() < 6 && rng.chance(1, 8)) {
			let fam = rng.below(fams.len());
			let f = &fams[fam];
			let list = rng.chance(1, 2);
			let max = match rng.below(4) {
				0 | 1 => None,
				2 => Some(rng.range(1, 12) as u64),
				_ => Some(*rng.pick(&[32u64, 33, 64, 100, 1 << 20, 1 << 40, 1 << 60, 1 << 62])),
			};
			let cap = max.map(|m| std::cmp::min(m, 80) as usize).unwrap_or(80);
			let n = { let c = *rng.pick(&[0, 1, 2, 5, 9, 33, 70]); rng.below(std::cmp::min(cap, if f.packed { c } else { std::cmp::min(c, 9) }) + 1) };
			let v: Vec<J> = (0..n).map(|_| elem(rng, f, &items, fam)).collect();
			let kinds = f.kinds(list);
			let kind = *rng.pick(&kinds);
			let ways = f.ways(&m, kind);
			let way = *rng.pick(&ways);
			let id = next;
			next += 1;
			let filled = rng.chance(1, 3);
			let e = obj!{ "op" => if filled { "fill" } else { "open" }, "h" => id, "t" => f.desc(list, n, max), "v" => J::A(v.clone()), "kind" => kind };
			begin(&e);
			let r = guard(|| -> Result<Boxed<C>, E> {
				if filled {
					let mut s = m.named(kind)[way].create(&mut db, 0, max)?;
					for x in &v { operate(f, &mut s, &mut db, &obj!{ "op" => "push", "v" => x.clone() })?; }
					Ok(s)
				} else {
					let root = (f.enc)(&J::A(v.clone()), list, max, &mut db)?;
					open(&m, kind, way, true, &mut db, &root, n, max)
				}
			});
			match r {
				Ok(r) => {
					event(&e.with("res", res(&r).into()).with("root", r.as_ref().map(|s| s.root().hex()).unwrap_or_default().into()));
					match r { Ok(s) => items.push(Item { id, fam, list, max, v, s }), Err(_) => break }
				},
				Err(()) => { event(&e.with("res", "panic".into())); break },
			}
			continue
		}
		let k = rng.below(items.len());
		let f = &fams[items[k].fam];
		if rng.chance(1, 5) {
			let it = &items[k];
			let e = obj!{ "op" => "dec", "h" => it.id };
			begin(&e);
			match guard(|| (f.dec)(&it.s.root(), it.v.len(), it.list, it.max, &mut db)) {
				Ok(x) => { let e = e.with("res", res(&x).into()); event(&e.with("out", x.unwrap_or(J::A(vec![])))); },
				Err(()) => { event(&e.with("res", "panic".into())); break },
			}
			continue
		}
		if rng.chance(1, 20) {
			let it = items.remove(k);
			let e = obj!{ "op" => "drop", "h" => it.id };
			begin(&e);
			match guard(|| it.s.drop(&mut db)) {
				Ok(x) => event(&e.with("res", res(&x).into())),
				Err(()) => { event(&e.with("res", "panic".into())); break },
			}
			continue
		}
		let n = items[k].v.len();
		let i = if n == 0 || rng.chance(1, 12) { n } else { rng.below(n) };
		let v = elem(rng, f, &items, items[k].fam);
		let op = match rng.below(10) {
			0 | 1 | 2 | 3 => obj!{ "op" => "push", "v" => v },
			4 | 5 => obj!{ "op" => "set", "i" => i, "v" => v },
			6 | 7 => obj!{ "op" => "get", "i" => i },
			_ => obj!{ "op" => "pop" },
		};
		let it = &mut items[k];
		let e = op.with("h", it.id.into());
		begin(&e);
		match guard(|| operate(f, &mut it.s, &mut db, &e)) {
			Ok(r) => {
				let e2 = e.clone().with("res", res(&r).into()).with("root", it.s.root().hex().into()).with("len", it.s.len().into());
				if r.is_ok() {
					match e.get("op").s() {
						"push" => it.v.push(e.get("v").clone()),
						"set" => if i < n { it.v[i] = e.get("v").clone() },
						"pop" => { it.v.pop(); },
						_ => (),
					}
				}
				event(&e2.with("out", r.unwrap_or(J::A(vec![]))));
			},
			Err(()) => { event(&e.with("res", "panic".into())); break },
		}
	}
	close_trace();
}

/// One long list or vector.
fn vast<C: Cons<Value=Value>>(rng: &mut Rng, name: &str, list: bool, n: usize, max: Option<u64>) {
	let fams = families::<C>();
	let m = makers32::<C>();
	let f = fams.iter().find(|f| f.name == name).unwrap();
	event(&obj!{ "op" => "start", "mode" => C::MODE });
	let mut db = Tap::<C>::new();
	let v: Vec<J> = (0..n).map(|_| sample(rng, &f.t, 4)).collect();
	let kinds = f.kinds(list);
	let kind = kinds[0];
	let ways = f.ways(&m, kind);
	let way = *rng.pick(&ways);
	let e = obj!{ "op" => "open", "h" => 1usize, "t" => f.desc(list, n, max), "v" => J::A(v.clone()), "kind" => kind };
	begin(&obj!{ "op" => "vast", "fam" => name, "n" => n });
	let r = guard(|| -> Result<Boxed<C>, E> {
		let root = (f.enc)(&J::A(v.clone()), list, max, &mut db)?;
		open(&m, kind, way, true, &mut db, &root, n, max)
	});
	let mut s = match r {
		Ok(Ok(s)) => { event(&e.with("res", "ok".into()).with("root", s.root().hex().into())); s },
		Ok(r) => { event(&e.with("res", res(&r.map(|_| ())).into())); close_trace(); return },
		Err(()) => { event(&e.with("res", "panic".into())); close_trace(); return },
	};
	let mut len = n;
	for k in 0..5 {
		let op = match k {
			0 | 3 => obj!{ "op" => "push", "v" => sample(rng, &f.t, 4) },
			1 => obj!{ "op" => "get", "i" => len - 1 },
			2 => obj!{ "op" => "set", "i" => rng.below(len), "v" => sample(rng, &f.t, 4) },
			_ => obj!{ "op" => "pop" },
		};
		let e = op.with("h", 1usize.into());
		begin(&e);
		match guard(|| operate(f, &mut s, &mut db, &e)) {
			Ok(r) => {
				len = s.len();
				let e = e.with("res", res(&r).into()).with("root", s.root().hex().into()).with("len", len.into());
				event(&e.with("out", r.unwrap_or(J::A(vec![]))));
			},
			Err(()) => { event(&e.with("res", "panic".into())); close_trace(); return },
		}
	}
	let e = obj!{ "op" => "dec", "h" => 1usize };
	begin(&e);
	match guard(|| (f.dec)(&s.root(), len, list, max, &mut db)) {
		Ok(x) => { let e = e.with("res", res(&x).into()); event(&e.with("out", x.unwrap_or(J::A(vec![])))); },
		Err(()) => event(&e.with("res", "panic".into())),
	}
	close_trace();
}

fn main() {
	let a = args();
	open_log(&a.out, 20);
	if a.what == "types" {
		let lines: Vec<String> = families::<Inh<Value>>().iter().map(|f| obj!{ "name" => f.name, "t" => f.t.clone(), "packed" => f.packed }.dump()).collect();
		std::fs::write(&a.out, lines.join("\n") + "\n").unwrap();
		println!("TYPES {}", lines.len());
		return
	}
	if a.what == "replay" {
		let text = std::fs::read_to_string(&a.input).unwrap();
		let (mut inh, mut uni) = (vec![], vec![]);
		for l in text.lines() {
			let j = J::parse(l);
			if j.get("mode").s() == "unit" { uni.push(j) } else { inh.push(j) }
		}
		let mut fails = Vec::new();
		let n = inh.len() + uni.len();
		let k = replay::<Inh<Value>>(&inh, &mut fails) + replay::<Uni<Value>>(&uni, &mut fails);
		std::fs::write(&a.out, fails.join("\n")).unwrap();
		println!("EDGES {} REPLAYED {} FAILED {}", n, k, fails.len());
		return
	}
	let mut rng = Rng::new(a.seed ^ 0x1818);
	let n = 32760 + rng.below(32700);
	vast::<Inh<Value>>(&mut rng, "packed u8", true, n, None);
	let n = 65530 + rng.below(9000);
	vast::<Inh<Value>>(&mut rng, "packed u16", true, n, Some(1 << 20));
	vast::<Inh<Value>>(&mut rng, "u8", true, if a.thorough { 33000 } else { 4100 }, Some(1 << 40));
	if a.thorough {
		vast::<Uni<Value>>(&mut rng, "packed u16", true, 40000, Some(40001));
		vast::<Inh<Value>>(&mut rng, "packed u32", false, 33000, None);
		vast::<Uni<Value>>(&mut rng, "bool", true, 5000, None);
	}
	for k in 0..if a.thorough { 1500 } else { 150 } {
		if k % 3 == 2 { trace::<Uni<Value>>(&mut rng, 40) } else { trace::<Inh<Value>>(&mut rng, 40) }
	}
	write_log();
}
