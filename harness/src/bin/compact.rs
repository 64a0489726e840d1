//! Compact and plain proofs (C13).
use bm::{CompactValue, Index, InMemoryBackend, Proofs, ProvingBackend, ProvingState, DanglingRaw, Leak, WriteBackend, ReadBackend, Construct};
use bm_le::{IntoTree, Value};
use bmh::util::*;
use bmh::obj;
use primitive_types::H256;

type C = bm_le::DigestConstruct<sha2::Sha256>;
type Cv = CompactValue<Value>;

fn val(s: &str) -> Value { Value(H256::from_slice(&unhex(s))) }
fn jval(v: &Value) -> J { hex(v.as_ref()).into() }

fn jtree(c: &Cv) -> J {
	match c {
		CompactValue::Single(v) => J::A(vec![jval(v)]),
		CompactValue::Combined(b) => J::A(vec![jtree(&b.0), jtree(&b.1)]),
	}
}

fn triples<'a, I: Iterator<Item=(&'a Value, &'a (Value, Value))>>(it: I) -> J {
	let mut v: Vec<(Value, J)> = it.map(|(k, (l, r))| (k.clone(), J::A(vec![jval(k), jval(l), jval(r)]))).collect();
	v.sort_by(|a, b| a.0.cmp(&b.0));
	J::A(v.into_iter().map(|x| x.1).collect())
}

fn sorted(j: &J) -> J {
	let mut v = j.a().clone();
	v.sort_by(|a, b| a.a()[0].s().cmp(b.a()[0].s()));
	J::A(v)
}

fn proofs(ps: &J) -> Proofs<Value> {
	let mut st = ProvingState::default();
	for p in ps.a() {
		st.proofs.insert(val(p.a()[0].s()), (val(p.a()[1].s()), val(p.a()[2].s())));
	}
	st.into()
}

/// Everything the code says about a proof at a root.
fn compact(p: &Proofs<Value>, root: &Value) -> J {
	let c = p.into_compact(root.clone());
	let (back, broot) = Proofs::from_compact::<C>(c.clone());
	let mut db = InMemoryBackend::<C>::default();
	let enc = c.into_tree(&mut db).unwrap();
	// What the encoding put into the store.
	let nodes: std::collections::BTreeMap<Value, (Value, Value)> = db.as_ref().iter()
		.filter_map(|(k, (kids, _))| kids.clone().map(|x| (k.clone(), x))).collect();
	// A store knowing only the expanded proof reads the same tree.
	let mut db2 = InMemoryBackend::<C>::default();
	db2.populate(back.clone().into());
	let reads = leaves(&mut db2, &broot, &c);
	obj!{
		"tree" => jtree(&c), "n" => c.len(), "croot" => jval(&c.clone().root::<C>()),
		"back" => triples(back.iter()), "broot" => jval(&broot),
		"enc" => jval(&enc), "nodes" => triples(nodes.iter()), "reads" => reads,
	}
}

/// The values of the tree, read at their positions.
fn leaves(db: &mut InMemoryBackend<C>, root: &Value, c: &Cv) -> bool {
	fn go(db: &mut InMemoryBackend<C>, raw: &DanglingRaw<C>, c: &Cv, i: Index, left: &mut usize) -> bool {
		match c {
			CompactValue::Single(v) => {
				if *left == 0 { return true }
				*left -= 1;
				raw.get(db, i).unwrap() == Some(v.clone())
			},
			CompactValue::Combined(b) => go(db, raw, &b.0, i.left(), left) && go(db, raw, &b.1, i.right(), left),
		}
	}
	let raw = DanglingRaw::<C>::from_leaked(root.clone());
	go(db, &raw, c, Index::root(), &mut 64)
}

fn index(path: &J) -> Index {
	path.a().iter().fold(Index::root(), |i, b| if b.i() == 1 { i.right() } else { i.left() })
}

fn plain(e: &J) -> J {
	let sibs: Vec<Value> = e.get("sibs").a().iter().map(|s| val(s.s())).collect();
	let c = Cv::from_plain(val(e.get("leaf").s()), sibs, index(e.get("path")));
	match c {
		None => obj!{ "tree" => J::A(vec![]), "croot" => "", "n" => 0usize },
		Some(c) => obj!{ "tree" => J::A(vec![jtree(&c)]), "croot" => jval(&c.clone().root::<C>()), "n" => c.len() },
	}
}

fn replay(text: &str) -> (usize, Vec<String>) {
	let (mut n, mut fails) = (0, Vec::new());
	for l in text.lines() {
		let j = J::parse(l);
		n += 1;
		begin(&j);
		if j.has("ps") {
			let got = guard(|| compact(&proofs(j.get("ps")), &val(j.get("root").s())));
			let ok = match &got {
				Err(()) => false,
				Ok(g) => {
					g.get("tree") == j.get("tree") && g.get("n") == j.get("n")
						&& g.get("croot") == j.get("root") && g.get("broot") == j.get("root") && g.get("enc") == j.get("root")
						&& *g.get("back") == sorted(j.get("back")) && *g.get("nodes") == sorted(j.get("back"))
						&& g.get("reads").b()
				},
			};
			if !ok { fails.push(obj!{ "edge" => j, "got" => got.unwrap_or("panic".into()) }.dump()); }
		} else {
			let got = guard(|| plain(&j));
			let ok = match &got {
				Err(()) => false,
				Ok(g) => g.get("tree") == j.get("tree") && g.get("croot") == j.get("croot")
					&& g.get("n").i() as usize == if j.get("tree").a().is_empty() { 0 } else { j.get("path").a().len() + 1 },
			};
			if !ok { fails.push(obj!{ "edge" => j, "got" => got.unwrap_or("panic".into()) }.dump()); }
		}
	}
	(n, fails)
}

/// A random tree in a store: its root and its positions.
fn grow(rng: &mut Rng, db: &mut InMemoryBackend<C>, depth: usize, known: &mut Vec<Value>) -> Value {
	if depth == 0 || rng.chance(1, 4) {
		let v = match rng.below(5) {
			0 => Value(H256::default()),
			1 => Value::from(rng.below(3)),
			2 | 3 if !known.is_empty() => known[rng.below(known.len())].clone(),
			_ => Value(H256::from_slice(&rng.bytes(32))),
		};
		return v
	}
	let l = grow(rng, db, depth - 1, known);
	let r = if rng.chance(1, 6) { l.clone() } else { grow(rng, db, depth - 1, known) };
	let k = C::intermediate_of(&l, &r);
	db.insert(k.clone(), (l, r)).unwrap();
	known.push(k.clone());
	k
}

fn trace(rng: &mut Rng, steps: usize) {
	event(&obj!{ "op" => "start" });
	let mut db = InMemoryBackend::<C>::default();
	let mut known = vec![];
	let depth = rng.range(1, 6);
	let root = grow(rng, &mut db, depth, &mut known);
	for _ in 0..steps {
		if rng.chance(1, 3) {
			let n = if rng.chance(1, 4) { rng.below(64) } else { rng.below(9) };
			let path: Vec<J> = (0..n).map(|_| J::I(rng.below(2) as i64)).collect();
			let m = match rng.below(6) { 0 if n > 0 => n - 1, 1 => n + 1, 2 => 0, _ => n };
			let sibs: Vec<J> = (0..m).map(|_| if rng.chance(1, 4) { jval(&root) } else { hex(&rng.bytes(32)).into() }).collect();
			let e = obj!{ "op" => "plain", "leaf" => hex(&rng.bytes(32)), "sibs" => sibs, "path" => path };
			log(e.clone(), || plain(&e));
			continue
		}
		// A proof: recorded reads, or any part of the store.
		let p: Result<Proofs<Value>, ()> = if rng.chance(1, 2) {
			guard(|| {
				let mut pb = ProvingBackend::new(&mut db);
				let raw = DanglingRaw::<C>::from_leaked(root.clone());
				for _ in 0..rng.range(0, 4) {
					let mut i = Index::root();
					for _ in 0..rng.below(depth + 1) { i = if rng.chance(1, 2) { i.left() } else { i.right() }; }
					let _ = raw.get(&mut pb, i);
				}
				pb.into()
			})
		} else {
			let keep = rng.range(1, 4);
			let mut st = ProvingState::default();
			let mut all = known.clone();
			all.sort();
			for k in all {
				if rng.chance(keep, 4) {
					if let Ok(Some(x)) = db.get(&k) { st.proofs.insert(k, x); }
				}
			}
			Ok(st.into())
		};
		let at = if rng.chance(1, 3) && !known.is_empty() { rng.pick(&known).clone() } else { root.clone() };
		let e = obj!{ "op" => "compact", "root" => jval(&at) };
		match p {
			Ok(p) => {
				// Trees with much sharing unfold to too many values.
				let e = e.with("ps", triples(p.iter()));
				if size(&p, &at, &mut 3000) { log(e, || compact(&p, &at)) }
			},
			Err(()) => log(e.with("ps", J::A(vec![])), || panic!()),
		}
	}
	close_trace();
}

fn size(p: &Proofs<Value>, at: &Value, left: &mut usize) -> bool {
	if *left == 0 { return false }
	*left -= 1;
	match p.get(at) { None => true, Some((l, r)) => size(p, l, left) && size(p, r, left) }
}

fn log<F: FnOnce() -> J>(e: J, f: F) {
	begin(&e);
	let mut e = e.with("res", "ok".into());
	match guard(f) {
		Ok(g) => for (k, v) in g.o() { e = e.with(k, v.clone()); },
		Err(()) => e = e.with("res", "panic".into()),
	}
	event(&e);
}

fn main() {
	let a = args();
	open_log(&a.out, 20);
	if a.what == "replay" {
		let (n, fails) = replay(&std::fs::read_to_string(&a.input).unwrap());
		std::fs::write(&a.out, fails.join("\n")).unwrap();
		println!("EDGES {} REPLAYED {} FAILED {}", n, n, fails.len());
		return
	}
	let mut rng = Rng::new(a.seed ^ 0x13);
	for _ in 0..if a.thorough { 2000 } else { 120 } { trace(&mut rng, 12); }
	write_log();
}
