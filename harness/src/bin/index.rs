//! Generalized indices (C09).
use bm::{Index, IndexRoute, IndexSelection};
use bmh::util::*;
use bmh::obj;

fn bit(s: &IndexSelection) -> bool { *s == IndexSelection::Right }
fn jbits(p: &[bool]) -> J { J::A(p.iter().map(|b| J::I(*b as i64)).collect()) }
fn bits(j: &J) -> Vec<bool> { j.a().iter().map(|b| b.i() == 1).collect() }
fn num(p: &[bool]) -> usize { p.iter().fold(0, |n, b| n << 1 | *b as usize) }
fn digits_of(n: usize) -> Vec<bool> { (0..64 - n.leading_zeros()).rev().map(|k| n >> k & 1 == 1).collect() }

/// The path of an index, as its route tells it.
fn path(i: &Index) -> Vec<bool> {
	match i.route() {
		IndexRoute::Root => vec![],
		IndexRoute::Select(s) => {
			assert!(!s.is_empty());
			s.iter().map(bit).collect()
		},
	}
}

fn of(p: &[bool]) -> Index {
	let mut i = Index::root();
	for b in p { i = if *b { i.right() } else { i.left() }; }
	i
}

fn some(i: Option<Index>) -> J { J::A(i.iter().map(|i| jbits(&path(i))).collect()) }

/// The result of an operation, and the index it gives.
fn apply(i: &Index, e: &J) -> (J, Option<Index>) {
	let one = |x: Index| (some(Some(x)), Some(x));
	match e.get("op").s() {
		"left" => one(i.left()),
		"right" => one(i.right()),
		"parent" => { let x = i.parent(); (some(x), x) },
		"sub" => one(i.sub(of(&bits(e.get("q"))))),
		"one" => { let x = Index::from_one(num(&bits(e.get("n")))); (some(x), x) },
		"zero" => one(Index::from_zero(num(&bits(e.get("n"))))),
		"depth" => one(Index::from_depth(num(&bits(e.get("n"))), e.get("d").i() as usize)),
		"below" => (J::B(i.has_descendant(&of(&bits(e.get("q"))))), None),
		"above" => (J::B(of(&bits(e.get("q"))).has_descendant(i)), None),
		"same" => (J::B(*i == of(&bits(e.get("q")))), None),
		"select" => (J::A(i.route().at_depth(e.get("k").i() as usize).iter().map(|s| J::I(bit(s) as i64)).collect()), None),
		"route" => (J::A(vec![jbits(&path(i))]), None),
		o => panic!("operation {}", o),
	}
}

fn replay(text: &str) -> (usize, Vec<String>) {
	let mut fails = Vec::new();
	let mut n = 0;
	for l in text.lines() {
		let j = J::parse(l);
		n += 1;
		let p = bits(j.get("p"));
		begin(&j);
		let got = guard(|| {
			let i = of(&p);
			let (r, x) = apply(&i, j.get("op"));
			// Equal indices are equal however they came about.
			let same = x.map(|x| x == of(&path(&x))).unwrap_or(true);
			(r, same, jbits(&path(&i)))
		});
		let want = if j.get("op").get("op").s() == "route" { J::A(vec![j.get("p").clone()]) } else { j.get("r").clone() };
		match got {
			Ok((r, true, q)) if r == want && q == *j.get("p") => (),
			Ok((r, _, _)) => fails.push(obj!{ "edge" => j, "got" => r }.dump()),
			Err(()) => fails.push(obj!{ "edge" => j, "got" => "panic" }.dump()),
		}
	}
	(n, fails)
}

fn trace(rng: &mut Rng, steps: usize) {
	event(&obj!{ "op" => "start" });
	let mut i = Index::root();
	let mut p: Vec<bool> = vec![];
	for _ in 0..steps {
		let fresh = |rng: &mut Rng, max: usize| -> Vec<bool> {
			let n = match rng.below(4) { 0 => 0, 1 => 1, 2 => rng.below(8), _ => rng.below(64) };
			let kind = rng.below(4);
			(0..std::cmp::min(n, max)).map(|_| match kind { 0 => false, 1 => true, _ => rng.chance(1, 2) }).collect()
		};
		let near = |rng: &mut Rng, p: &[bool]| -> Vec<bool> {
			// Close to p: a prefix, one bit off, something below.
			let mut q = p.to_vec();
			match rng.below(5) {
				0 => { q.truncate(rng.below(p.len() + 1)); },
				1 => { if !q.is_empty() { let k = rng.below(q.len()); q[k] = !q[k]; } },
				2 => { for _ in 0..rng.below(4) { if q.len() < 63 { q.push(rng.chance(1, 2)); } } },
				3 => { q = fresh(rng, 63); },
				_ => {
					if !q.is_empty() { let k = rng.below(q.len()); q[k] = !q[k]; }
					for _ in 0..rng.below(4) { if q.len() < 63 { q.push(rng.chance(1, 2)); } }
				},
			}
			q
		};
		let e = match rng.below(14) {
			0 | 1 if p.len() < 63 => obj!{ "op" => "left" },
			2 | 3 if p.len() < 63 => obj!{ "op" => "right" },
			4 => obj!{ "op" => "parent" },
			5 => obj!{ "op" => "sub", "q" => fresh(rng, 63 - p.len()).iter().map(|b| J::I(*b as i64)).collect::<Vec<J>>() },
			6 => { let n = num(&{ let mut x = vec![true]; x.extend(fresh(rng, 63)); x }); obj!{ "op" => "one", "n" => jbits(&digits_of(if rng.chance(1, 20) { 0 } else { n })) } },
			7 => { let n = num(&{ let mut x = vec![true]; x.extend(fresh(rng, 63)); x }); obj!{ "op" => "zero", "n" => jbits(&digits_of(n - 1)) } },
			8 => {
				let x = fresh(rng, 63);
				let d = rng.range(x.len(), 63);
				obj!{ "op" => "depth", "n" => jbits(&digits_of(num(&x))), "d" => d }
			},
			9 => obj!{ "op" => "below", "q" => jbits(&near(rng, &p)) },
			10 => obj!{ "op" => "above", "q" => jbits(&near(rng, &p)) },
			11 => obj!{ "op" => "same", "q" => jbits(&near(rng, &p)) },
			12 => obj!{ "op" => "select", "k" => rng.range(0, p.len() + 2) },
			_ => obj!{ "op" => "route" },
		};
		begin(&e);
		match guard(|| apply(&i, &e)) {
			Ok((r, x)) => {
				if let Some(x) = x {
					i = x;
					p = guard(|| path(&i)).unwrap_or_default();
				}
				event(&e.with("res", "ok".into()).with("r", r));
			},
			Err(()) => {
				event(&e.with("res", "panic".into()).with("r", J::A(vec![])));
				break
			},
		}
	}
	close_trace();
}

fn main() {
	let a = args();
	open_log(&a.out, 20);
	if a.what == "replay" {
		let (n, fails) = replay(&std::fs::read_to_string(&a.input).unwrap());
		std::fs::write(&a.out, fails.join("\n")).unwrap();
		println!("EDGES {} REPLAYED {} FAILED {}", n, n, fails.len());
		return
	}
	let mut rng = Rng::new(a.seed ^ 0x99);
	for _ in 0..if a.thorough { 3000 } else { 150 } { trace(&mut rng, 150); }
	write_log();
}
