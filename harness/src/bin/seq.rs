//! Histories of vectors, lists and their packed forms (C01 to C05).
use bmh::seqs::*;
use bmh::tap::{res, Tap};
use bmh::util::*;
use bmh::values::*;
use bmh::obj;

#[derive(Clone, Copy, PartialEq)]
enum Focus { Root, Plain, Packed, Max, Reopen }

struct H<C: Cons> where C::Value: Val {
	id: usize,
	kind: &'static str,
	max: Option<u64>,
	seq: Boxed<C>,
	/// Forks of this handle exist: it must not be modified any more.
	frozen: bool,
}

struct Run<C: Cons> where C::Value: Val {
	tap: Tap<C>,
	hs: Vec<H<C>>,
	next: usize,
	rng: Rng,
	dead: bool,
}

enum Op { Push(Vec<u8>), Pop, Get(usize), Set(usize, Vec<u8>), Reopen(&'static str), Fork, Drop, Dump, Missing, Shape, Fill(Vec<Vec<u8>>), Drain(usize) }

impl<C: Cons> Run<C> where C::Value: Val {
	fn value(&mut self, w: usize) -> Vec<u8> {
		let r = &mut self.rng;
		match r.below(10) {
			0 | 1 => vec![0; w],
			2 => vec![0xff; w],
			3 => { let mut v = vec![0; w]; v[0] = 1 + r.below(3) as u8; v },
			4 => { let mut v = vec![0; w]; v[w - 1] = 1 + r.below(3) as u8; v },
			5 if w == C::Value::W && !self.hs.is_empty() => {
				let i = r.below(self.hs.len());
				self.hs[i].seq.root().as_ref().to_vec()
			},
			6 if w == C::Value::W => {
				let mut keys: Vec<C::Value> = self.tap.db.as_ref().keys().cloned().collect();
				keys.sort();
				r.pick(&keys).as_ref().to_vec()
			},
			_ => r.bytes(w),
		}
	}

	fn create(&mut self, m: &dyn Maker<C>, own: bool, len: usize, max: Option<u64>) -> bool {
		let id = self.next;
		let ev = obj!{
			"op" => "create", "h" => id, "kind" => m.kind(), "own" => own, "n" => len,
			"ew" => if m.kind().starts_with('p') { m.width() } else { 0 }, "ml" => opt_digits(max),
		};
		begin(&ev);
		let tap = &mut self.tap;
		let r = guard(|| if own { m.create(tap, len, max) } else { m.open(false, tap, Default::default(), 0, None) });
		match r {
			Err(()) => { event(&ev.with("res", "panic".into())); self.dead = true; false },
			Ok(Err(e)) => { event(&ev.with("res", res::<(), _>(&Err(e)).into())); false },
			Ok(Ok(seq)) => {
				self.next += 1;
				event(&ev.with("res", "ok".into()).with("root", seq.root().hex().into()).with("len", seq.len().into()));
				self.hs.push(H { id, kind: m.kind(), max, seq, frozen: false });
				true
			},
		}
	}

	fn dump_of(seq: &Boxed<C>, tap: &mut Tap<C>) -> Result<(Vec<J>, String), ()> {
		let mut out = Vec::new();
		let n = guard(|| seq.len())?;
		for i in 0..n {
			out.push(match guard(|| seq.get(tap, i))? {
				Ok(v) => J::S(hex(&v)),
				e => J::S(res(&e)),
			});
		}
		let over = guard(|| seq.get(tap, n))?;
		Ok((out, res(&over)))
	}

	/// Run one operation on the handle at position `p`.
	fn op(&mut self, p: usize, op: Op) {
		if self.dead { return }
		let id = self.hs[p].id;
		let ev = match &op {
			Op::Push(v) => obj!{ "op" => "push", "h" => id, "v" => hex(v) },
			Op::Pop => obj!{ "op" => "pop", "h" => id },
			Op::Get(i) => obj!{ "op" => "get", "h" => id, "i" => *i },
			Op::Set(i, v) => obj!{ "op" => "set", "h" => id, "i" => *i, "v" => hex(v) },
			Op::Reopen(how) => obj!{ "op" => "reopen", "h" => id, "how" => *how },
			Op::Fork => obj!{ "op" => "fork", "h" => id, "to" => self.next },
			Op::Drop => obj!{ "op" => "drop", "h" => id },
			Op::Dump => obj!{ "op" => "dump", "h" => id },
			Op::Missing => obj!{ "op" => "missing", "h" => id },
			Op::Shape => obj!{ "op" => "shape", "h" => id },
			Op::Fill(vs) => obj!{ "op" => "fill", "h" => id, "vs" => J::A(vs.iter().map(|v| J::S(hex(v))).collect()) },
			Op::Drain(n) => obj!{ "op" => "drain", "h" => id, "n" => *n },
		};
		begin(&ev);
		let tap = &mut self.tap;
		let mut closed = false;
		let mut forked = None;
		let r: Result<J, ()> = match op {
			Op::Push(v) => { let s = &mut self.hs[p].seq; guard(|| s.push(tap, &v)).map(|r| ev.clone().with("res", res(&r).into())) },
			Op::Pop => {
				let s = &mut self.hs[p].seq;
				guard(|| s.pop(tap)).map(|r| ev.clone().with("res", res(&r).into()).with("out", match r {
					Ok(Some(v)) => hex(&v).into(),
					Ok(None) => "none".into(),
					Err(_) => "".into(),
				}))
			},
			// Many pushes or pops at once, up to the first that fails.
			Op::Fill(vs) => {
				let s = &mut self.hs[p].seq;
				guard(|| {
					let mut r = Ok(());
					for v in &vs { r = s.push(tap, v); if r.is_err() { break } }
					r
				}).map(|r| ev.clone().with("res", res(&r).into()))
			},
			Op::Drain(n) => {
				let s = &mut self.hs[p].seq;
				guard(|| {
					let mut outs = Vec::new();
					for _ in 0..n {
						match s.pop(tap) {
							Ok(Some(v)) => outs.push(J::S(hex(&v))),
							Ok(None) => outs.push("none".into()),
							Err(e) => return (Err(e), outs),
						}
					}
					(Ok(()), outs)
				}).map(|(r, outs)| ev.clone().with("res", res(&r).into()).with("outs", J::A(outs)))
			},
			Op::Get(i) => {
				let s = &self.hs[p].seq;
				guard(|| s.get(tap, i)).map(|r| ev.clone().with("res", res(&r).into()).with("out", match r {
					Ok(v) => hex(&v).into(),
					Err(_) => "".into(),
				}))
			},
			Op::Set(i, v) => { let s = &mut self.hs[p].seq; guard(|| s.set(tap, i, &v)).map(|r| ev.clone().with("res", res(&r).into())) },
			Op::Reopen(how) => {
				let H { id, kind, max, seq, frozen } = self.hs.remove(p);
				let r = guard(|| match how {
					"leak" => Ok(seq.leak()),
					"raw" => Ok(seq.reraw()),
					_ => seq.recon(tap),
				});
				match r {
					Err(()) => Err(()),
					Ok(Ok(seq)) => {
						self.hs.insert(p, H { id, kind, max, seq, frozen });
						Ok(ev.clone().with("res", "ok".into()))
					},
					Ok(Err(e)) => {
						closed = true;
						self.dead = true;
						Ok(ev.clone().with("res", res::<(), _>(&Err(e)).into()))
					},
				}
			},
			Op::Fork => {
				let s = &self.hs[p].seq;
				guard(|| s.fork()).map(|seq| {
					forked = Some(seq);
					ev.clone().with("res", "ok".into())
				})
			},
			Op::Drop => {
				let h = self.hs.remove(p);
				closed = true;
				guard(|| h.seq.drop(tap)).map(|r| ev.clone().with("res", res(&r).into()))
			},
			Op::Dump => Self::dump_of(&self.hs[p].seq, tap).map(|(elems, over)| {
				ev.clone().with("res", "ok".into()).with("elems", J::A(elems)).with("over", over.into())
			}),
			Op::Missing => {
				let s = &self.hs[p].seq;
				let mut other = Tap::<C>::new();
				guard(|| s.recon_in(&mut other)).map(|r| match r {
					Some(r) => ev.clone().with("res", res(&r).into()),
					None => ev.clone().with("res", "corrupted".into()),
				})
			},
			Op::Shape => {
				let s = &self.hs[p].seq;
				guard(|| s.shape()).map(|r| match r {
					Some((cap, max, depth)) => ev.clone().with("res", "ok".into()).with("cap", digits(cap))
						.with("ml", opt_digits(max)).with("depth", depth.into()),
					None => ev.clone().with("res", "none".into()),
				})
			},
		};
		match r {
			Err(()) => { event(&ev.with("res", "panic".into())); self.dead = true; },
			Ok(mut ev) => {
				if let Some(seq) = forked {
					let h = &mut self.hs[p];
					h.frozen = true;
					let (kind, max) = (h.kind, h.max);
					self.hs.push(H { id: self.next, kind, max, seq, frozen: false });
					self.next += 1;
				}
				if !closed && !self.dead {
					ev = ev.with("root", self.hs[p].seq.root().hex().into()).with("len", self.hs[p].seq.len().into());
				}
				event(&ev);
			},
		}
	}
}

const MAXES: [u64; 19] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 33, 64, (1 << 20) + 3, 1 << 31, (1 << 32) + 1];
const HUGE: [u64; 11] = [1 << 33, (1 << 36) + 12345, (1 << 40) - 1, 1 << 40, 1 << 58, (1 << 59) + 7, 1 << 60, (1 << 61) + 3, 1 << 62,
	(1 << 63) - 1, 1 << 63];

/// A limit so large that the whole tree is only just addressable.
fn huge(rng: &mut Rng, width: usize, w: usize) -> u64 {
	loop {
		let x = *rng.pick(&HUGE);
		let hosts = (x as u128 * width as u128 + w as u128 - 1) / w as u128;
		if hosts <= 1 << 63 { return x }
	}
}

fn trace<C: Cons>(rng: &mut Rng, makers: &Makers<C>, focus: Focus, steps: usize, target: usize) where C::Value: Val {
	event(&obj!{ "op" => "init", "mode" => C::MODE, "w" => C::Value::W });
	let mut run = Run::<C> { tap: Tap::new(), hs: Vec::new(), next: 1, rng: rng.clone(), dead: false };
	let unit = C::MODE == "unit";
	// Either several owned handles, or persistent dangling ones.
	let persistent = run.rng.chance(1, 4);
	let handles = if persistent { 1 } else { *run.rng.pick(&[1, 1, 2, 3]) };
	for _ in 0..handles {
		let kinds: &[&str] = match focus {
			Focus::Plain => &["vec", "list"],
			Focus::Packed => &["pvec", "plist"],
			_ => &["vec", "list", "pvec", "plist"],
		};
		let kind = *run.rng.pick(kinds);
		let ms = makers.named(kind);
		let m = &ms[run.rng.below(ms.len())];
		let max = match focus {
			Focus::Max => Some(if run.rng.chance(1, 8) { huge(&mut run.rng, m.width(), C::Value::W) } else { *run.rng.pick(&MAXES) }),
			_ => if run.rng.chance(2, 3) { None } else {
				Some(if run.rng.chance(1, 6) { huge(&mut run.rng, m.width(), C::Value::W) } else { *run.rng.pick(&MAXES) })
			},
		};
		if focus == Focus::Max && run.rng.chance(1, 3) {
			// Parameters at and beyond the limit.
			let bad = run.rng.range(1, 5);
			if m.takes_len() && max.unwrap() < 100 {
				run.create(&**m, true, max.unwrap() as usize + bad, max);
			}
			run.create(&**m, true, 0, Some(0));
			if m.takes_len() && run.rng.chance(1, 2) {
				run.create(&**m, true, bad, Some(0));
			}
			if run.dead { break }
		}
		let len = if !m.takes_len() || run.rng.chance(1, 2) { 0 } else if unit {
			// Created unit-empty containers hold at most one tree value.
			if max.is_none() && C::Value::W >= m.width() { run.rng.below(2) } else { 0 }
		} else {
			let top = std::cmp::min(max.unwrap_or(40), 40) as usize;
			match run.rng.below(3) { 0 => top, _ => run.rng.range(0, top) }
		};
		let own = !(max.is_none() && len == 0 && !kind.ends_with("list") && run.rng.chance(1, 10));
		run.create(&**m, own, len, max);
		if run.dead { break }
	}
	if persistent && !run.dead && !run.hs.is_empty() && run.hs[0].seq.owned() {
		run.op(0, Op::Fork);
	}
	// Phases of growing, shrinking and mixing.
	let mut phase = 0;
	let mut left = 0;
	for _ in 0..steps {
		if run.dead { break }
		if left == 0 {
			phase = run.rng.below(4);
			left = run.rng.range(5, 5 + target);
		}
		left -= 1;
		let open: Vec<usize> = (0..run.hs.len()).filter(|p| !run.hs[*p].frozen).collect();
		if open.is_empty() { break }
		let p = *run.rng.pick(&open);
		let any = run.rng.below(run.hs.len());
		let len = match guard(|| run.hs[p].seq.len()) { Ok(n) => n, Err(()) => break };
		let w = run.hs[p].seq.width();
		let v = run.value(w);
		let (pu, po, se, ge) = match phase { 0 => (60, 8, 12, 10), 1 => (8, 60, 12, 10), 2 => (30, 30, 15, 15), _ => (15, 15, 35, 20) };
		let reopen = if focus == Focus::Reopen { 20 } else { 3 };
		let c = run.rng.below(pu + po + se + ge + reopen + 14);
		let index = |r: &mut Rng| match r.below(12) {
			0 => len,
			1 => len + 1 + r.below(4),
			2 => if r.chance(1, 2) { 2 * len + 3 } else { 1 << 33 },
			3 if len > 0 => len - 1,
			4 => 0,
			_ => if len == 0 { 0 } else { r.below(len) },
		};
		let op = if c < pu {
			if len >= target && run.rng.chance(2, 3) { Op::Pop } else { Op::Push(v) }
		} else if c < pu + po {
			Op::Pop
		} else if c < pu + po + se {
			// Sometimes the value which is already there.
			let i = index(&mut run.rng);
			let same = run.rng.chance(1, 6);
			let v = if same && i < len {
				match run.hs[p].seq.get(&mut run.tap, i) { Ok(old) => old, Err(_) => v }
			} else { v };
			Op::Set(i, v)
		} else if c < pu + po + se + ge {
			let i = index(&mut run.rng);
			run.op(any, Op::Get(i));
			continue
		} else if c < pu + po + se + ge + reopen {
			if focus == Focus::Reopen && run.rng.chance(1, 4) { Op::Missing } else { Op::Reopen(*run.rng.pick(&["leak", "raw", "recon"])) }
		} else {
			match run.rng.below(14) {
				0 | 1 | 2 => { run.op(any, Op::Dump); continue },
				3 | 4 => { run.op(any, Op::Shape); continue },
				5 if persistent => Op::Fork,
				6 if !persistent && run.hs.len() > 1 && run.hs[p].seq.owned() && run.rng.chance(1, 8) => Op::Drop,
				_ => { run.op(any, Op::Get(len)); continue },
			}
		};
		run.op(p, op);
		if focus == Focus::Max && p < run.hs.len() {
			run.op(p, Op::Shape);
		}
	}
	for p in 0..run.hs.len() {
		run.op(p, Op::Dump);
		run.op(p, Op::Shape);
	}
	*rng = run.rng;
	close_trace();
}

/// A straight climb and descent, read back at turning points.
fn climb<C: Cons>(rng: &mut Rng, m: &dyn Maker<C>, max: Option<u64>, n: usize) where C::Value: Val {
	event(&obj!{ "op" => "init", "mode" => C::MODE, "w" => C::Value::W });
	let mut run = Run::<C> { tap: Tap::new(), hs: Vec::new(), next: 1, rng: rng.clone(), dead: false };
	if run.create(m, true, 0, max) {
		for i in 0..n {
			let mut v = run.rng.bytes(m.width());
			v[0] = i as u8;
			run.op(0, Op::Push(v));
		}
		run.op(0, Op::Dump);
		for _ in 0..n / 2 { run.op(0, Op::Pop); }
		run.op(0, Op::Dump);
		for _ in 0..n / 4 { let v = run.rng.bytes(m.width()); run.op(0, Op::Push(v)); }
		run.op(0, Op::Dump);
		for _ in 0..n { run.op(0, Op::Pop); }
		run.op(0, Op::Dump);
	}
	*rng = run.rng;
	close_trace();
}

/// A wide container, emptied past the places where whole subtrees end.
fn tall<C: Cons>(rng: &mut Rng, m: &dyn Maker<C>, max: Option<u64>, n: usize, down: usize) where C::Value: Val {
	event(&obj!{ "op" => "init", "mode" => C::MODE, "w" => C::Value::W });
	let mut run = Run::<C> { tap: Tap::new(), hs: Vec::new(), next: 1, rng: rng.clone(), dead: false };
	let filled = m.takes_len() && C::MODE != "unit";
	if run.create(m, true, if filled { n } else { 0 }, max) {
		if filled {
			for _ in 0..n / 4 { let v = run.rng.bytes(m.width()); let i = run.rng.below(n); run.op(0, Op::Set(i, v)); }
			for i in (0..n).step_by(32) { let v = run.rng.bytes(m.width()); run.op(0, Op::Set(i, v)); }
		} else {
			for _ in 0..n { let v = run.rng.bytes(m.width()); run.op(0, Op::Push(v)); }
		}
		run.op(0, Op::Dump);
		for left in (down..n).rev() {
			run.op(0, Op::Pop);
			if left % 32 == 0 || run.rng.chance(1, 40) { run.op(0, Op::Dump); }
			if run.rng.chance(1, 12) {
				let v = run.rng.bytes(m.width());
				run.op(0, Op::Push(v));
				run.op(0, Op::Pop);
			}
		}
		if run.rng.chance(1, 2) { run.op(0, Op::Reopen("leak")); }
		for _ in 0..5 { let v = run.rng.bytes(m.width()); run.op(0, Op::Push(v)); }
		run.op(0, Op::Dump);
	}
	*rng = run.rng;
	close_trace();
}

/// A container of thousands of elements.
fn vast<C: Cons>(rng: &mut Rng, m: &dyn Maker<C>, max: Option<u64>, n: usize) where C::Value: Val {
	event(&obj!{ "op" => "init", "mode" => C::MODE, "w" => C::Value::W });
	let mut run = Run::<C> { tap: Tap::new(), hs: Vec::new(), next: 1, rng: rng.clone(), dead: false };
	let fill = |rng: &mut Rng, n: usize| -> Vec<Vec<u8>> { (0..n).map(|_| rng.bytes(m.width())).collect() };
	if run.create(m, true, 0, max) {
		let vs = fill(&mut run.rng, n);
		run.op(0, Op::Fill(vs));
		if max == Some(n as u64) { let v = run.rng.bytes(m.width()); run.op(0, Op::Push(v)); }
		run.op(0, Op::Dump);
		run.op(0, Op::Shape);
		for k in 0..3 {
			let i = run.rng.below(n);
			if k < 2 { run.op(0, Op::Get(i)) } else { let v = run.rng.bytes(m.width()); run.op(0, Op::Set(i, v)) }
		}
		run.op(0, Op::Reopen("recon"));
		if !run.dead {
			let k = run.rng.range(1, n);
			run.op(0, Op::Drain(k));
			run.op(0, Op::Dump);
			let vs = fill(&mut run.rng, k / 2);
			run.op(0, Op::Fill(vs));
			let left = n - k + k / 2;
			run.op(0, Op::Drain(left));
			run.op(0, Op::Dump);
		}
	}
	*rng = run.rng;
	close_trace();
}

const WIDE: [u64; 8] = [257, 300, 511, 512, 513, 4096, (1 << 20) + 3, 1 << 40];

fn all(focus: Focus, rng: &mut Rng, thorough: bool) {
	let n = if thorough { 500 } else { 30 };
	for k in 0..n {
		let (steps, target) = match k % 4 { 0 => (60, 6), 1 => (120, 20), 2 => (200, 40), _ => (90, 10) };
		trace::<Inh<V32>>(rng, &makers32(), focus, steps, target);
		trace::<Inh<V8>>(rng, &makers8(), focus, steps, target);
		trace::<Uni<V32>>(rng, &makers32(), focus, steps, target);
		trace::<Inh<V16>>(rng, &makers16(), focus, steps, target);
		if k % 2 == 0 {
			trace::<Uni<V8>>(rng, &makers8(), focus, steps, target);
			trace::<Inh<V32>>(rng, &makers32(), focus, 40, 5);
		}
	}
	let big = if thorough { 1100 } else { 140 };
	let m32 = makers32::<Inh<V32>>();
	let u32s = makers32::<Uni<V32>>();
	let m8 = makers8::<Inh<V8>>();
	if focus == Focus::Plain || focus == Focus::Root {
		climb(rng, &*m32.vec[0], None, big);
		climb(rng, &*u32s.list[0], None, big);
		climb(rng, &*m32.list[0], Some(200), 70);
	}
	// Long containers; lists of single bytes beyond two bytes of length.
	let bytes = |ms: &Vec<Box<dyn Maker<Inh<V32>>>>| ms.iter().position(|m| m.width() == 1).unwrap();
	let f = if thorough { 8 } else { 1 };
	let most = |rng: &mut Rng, n: usize| match rng.below(3) { 0 => None, 1 => Some(n as u64), _ => Some((2 * n + 1) as u64) };
	if focus != Focus::Packed {
		let n = rng.range(2000, 2600) * f;
		let max = most(rng, n);
		vast(rng, &*m32.vec[0], max, n);
		let n = rng.range(1000, 1500) * f;
		let max = most(rng, n);
		vast(rng, &*m8.list[0], max, n);
		vast(rng, &*u32s.list[1], None, n / 2);
	}
	if focus != Focus::Plain {
		let n = 32700 + rng.below(40000);
		let max = most(rng, n);
		vast(rng, &*m32.plist[bytes(&m32.plist)], max, n);
		let n = rng.range(1000, 1500) * f;
		let max = most(rng, n);
		let m = &m8.pvec[rng.below(m8.pvec.len())];
		vast(rng, &**m, max, n);
		let m = &m32.plist[rng.below(m32.plist.len())];
		vast(rng, &**m, Some(n as u64), n);
	}
	let k = if thorough { 12 } else { 2 };
	for i in 0..k {
		let max = WIDE[rng.below(WIDE.len())];
		let n = std::cmp::min(max as usize, rng.range(129, if thorough { 700 } else { 270 }));
		let down = if i % 2 == 0 { 120 } else { n / 2 + 3 };
		let down = std::cmp::min(n, down);
		if focus != Focus::Packed {
			tall(rng, &*m32.vec[0], Some(max), n, down);
			tall(rng, &*m8.list[i % 2], Some(max), n, down);
			tall(rng, &*u32s.vec[0], Some(max), n, down);
		}
		if focus != Focus::Plain {
			let m = &m8.pvec[rng.below(m8.pvec.len())];
			tall(rng, &**m, if i % 2 == 0 { Some(max) } else { None }, n, down);
			let m = &m8.plist[rng.below(m8.plist.len())];
			tall(rng, &**m, Some(max), n, down);
		}
	}
	if focus == Focus::Packed || focus == Focus::Root {
		let k = if thorough { m32.pvec.len() } else { 3 };
		for _ in 0..k {
			let m = &m32.pvec[rng.below(m32.pvec.len())];
			climb(rng, &**m, None, if thorough { 200 } else { 70 });
			let m = &m8.plist[rng.below(m8.plist.len())];
			climb(rng, &**m, None, if thorough { 100 } else { 40 });
		}
	}
}

/// Replay of the transitions of the specification's state graph.
///
/// An edge is replayed from up to three concrete representatives of its
/// source state, each re-opened from its root; `judged` names the observed
/// fields to compare.
fn replay<C: Cons>(makers: &Makers<C>, edges: &[J], judged: &[&str], out: &mut Vec<String>) -> usize where C::Value: Val {
	use std::collections::HashMap;
	struct Snap<C: Cons> where C::Value: Val { tap: Tap<C>, maker: usize, max: Option<u64>, root: C::Value, len: usize, hist: Vec<J> }
	let mut states: HashMap<String, Vec<Snap<C>>> = HashMap::new();
	const REPS: usize = 3;
	let mut seen = 0;
	let mut todo: Vec<&J> = edges.iter().collect();
	loop {
	let mut later = Vec::new();
	let before = todo.len();
	for e in todo {
		if e.get("op").get("op").s() != "create" && !states.contains_key(e.get("s").s()) {
			later.push(e);
			continue
		}
		seen += 1;
		let op = e.get("op");
		let name = op.get("op").s();
		let kind = op.get("kind").s();
		let ew = op.get("ew").i() as usize;
		let ms = makers.named(kind);
		let cands: Vec<usize> = (0..ms.len()).filter(|i| ew == 0 || ms[*i].width() == ew).collect();
		let un = |j: &J| -> Option<u64> {
			j.a().get(0).map(|d| d.a().iter().rev().fold(0u64, |a, x| a * 4096 + x.i() as u64))
		};
		let max = un(op.get("ml"));
		let mut fail = |hist: &Vec<J>, got: J| {
			out.push(obj!{ "edge" => e.clone(), "history" => J::A(hist.clone()), "got" => got }.dump());
		};
		let snaps: Vec<Snap<C>> = if name == "create" {
			cands.iter().map(|m| Snap { tap: Tap::new(), maker: *m, max, root: Default::default(), len: 0, hist: vec![] }).collect()
		} else {
			states.get(e.get("s").s()).map(|v| v.iter().map(|s| Snap {
				tap: s.tap.clone(), maker: s.maker, max: s.max, root: s.root.clone(), len: s.len, hist: s.hist.clone()
			}).collect()).unwrap_or_default()
		};
		for mut s in snaps {
			begin(op);
			let m = &ms[s.maker];
			let n = if name == "create" { op.get("n").i() as usize } else { 0 };
			if name == "create" && n > 0 && !m.takes_len() { continue }
			let tap = &mut s.tap;
			let (root, len, max) = (s.root.clone(), s.len, s.max);
			let r = guard(|| -> Result<(String, String, Option<Boxed<C>>), E> {
				if name == "create" {
					return Ok(match m.create(tap, n, max) {
						Ok(b) => ("ok".into(), "".into(), Some(b)),
						Err(e) => (res::<(), _>(&Err(e)), "".into(), None),
					})
				}
				let mut q = m.open(true, tap, root, len, max)?;
				let i = if op.has("i") { op.get("i").i() as usize } else { 0 };
				let v = if op.has("v") { unhex(op.get("v").s()) } else { vec![] };
				Ok(match name {
					"push" => { let r = q.push(tap, &v); (res(&r), "".into(), Some(q)) },
					"set" => { let r = q.set(tap, i, &v); (res(&r), "".into(), Some(q)) },
					"get" => { let r = q.get(tap, i); (res(&r), r.map(|v| hex(&v)).unwrap_or_default(), Some(q)) },
					"pop" => {
						let r = q.pop(tap);
						(res(&r), r.map(|v| v.map(|v| hex(&v)).unwrap_or("none".into())).unwrap_or_default(), Some(q))
					},
					"reopen" => {
						let q = match i { 0 => q.leak(), 1 => q.reraw(), _ => q.recon(tap)? };
						("ok".into(), "".into(), Some(q))
					},
					"drop" => { let r = q.drop(tap); (res(&r), "".into(), None) },
					x => panic!("op {}", x),
				})
			});
			let mut hist = s.hist.clone();
			hist.push(op.clone());
			let (rs, o, q) = match r {
				Err(()) => { fail(&hist, "panic".into()); continue },
				Ok(Err(x)) => { fail(&hist, format!("cannot open: {:?}", x).into()); continue },
				Ok(Ok(x)) => x,
			};
			let mut got = obj!{ "res" => rs, "out" => o };
			if let Some(q) = q {
				let d = Run::<C>::dump_of(&q, tap);
				let (elems, over) = match d { Ok(x) => x, Err(()) => { fail(&hist, "panic on reading back".into()); continue } };
				got = got.with("root", q.root().hex().into()).with("elems", J::A(elems)).with("over", over.into());
				let v = states.entry(e.get("t").s().into()).or_default();
				if v.len() < REPS && (name != "get") {
					let (root, len) = (q.root(), q.len());
					v.push(Snap { tap: tap.clone(), maker: s.maker, max: s.max, root, len, hist: hist.clone() });
				}
			}
			for (k, x) in e.get("obs").o() {
				if !judged.contains(&k.as_str()) { continue }
				if k == "db" {
					let keys: Vec<J> = s.tap.db.as_ref().iter().map(|(k, _)| J::S(k.hex())).collect();
					let mut have: Vec<String> = keys.iter().map(|k| k.s().into()).collect();
					let mut want: Vec<String> = x.a().iter().map(|k| k.s().into()).collect();
					have.sort();
					want.sort();
					if have != want {
						fail(&hist, obj!{ "store" => J::A(keys) });
						break
					}
				} else if !got.has(k) || got.get(k) != x {
					fail(&hist, got.clone());
					break
				}
			}
			TOTAL.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
		}
	}
	if later.is_empty() || later.len() == before { return seen }
	todo = later;
	}
}

static TOTAL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

fn main() {
	let a = args();
	let mut rng = Rng::new(a.seed);
	open_log(&a.out, 20);
	if a.what.starts_with("replay:") {
		let judged: Vec<&str> = a.what[7..].split(',').collect();
		let text = std::fs::read_to_string(&a.input).unwrap();
		let mut by: std::collections::BTreeMap<String, Vec<J>> = Default::default();
		for l in text.lines() {
			let j = J::parse(l);
			by.entry(format!("{}{}", j.get("mode").s(), j.get("w").i())).or_default().push(j);
		}
		let mut out = Vec::new();
		let mut n = 0;
		for (k, v) in &by {
			n += match k.as_str() {
				"inherited32" => replay::<Inh<V32>>(&makers32(), v, &judged, &mut out),
				"unit32" => replay::<Uni<V32>>(&makers32(), v, &judged, &mut out),
				"inherited8" => replay::<Inh<V8>>(&makers8(), v, &judged, &mut out),
				"unit8" => replay::<Uni<V8>>(&makers8(), v, &judged, &mut out),
				"inherited16" => replay::<Inh<V16>>(&makers16(), v, &judged, &mut out),
				"unit16" => replay::<Uni<V16>>(&makers16(), v, &judged, &mut out),
				k => panic!("{}", k),
			};
		}
		std::fs::write(&a.out, out.join("\n")).unwrap();
		println!("EDGES {} REPLAYED {} FAILED {}", n, TOTAL.load(std::sync::atomic::Ordering::SeqCst), out.len());
		return
	}
	if a.what == "probe:D10" {
		// A list opened from its own raw tree takes the root of the whole
		// list for the root of its elements.
		let mut tap = Tap::<Inh<V32>>::new();
		let mut list = bm::List::<bm::Owned, Inh<V32>>::create(&mut tap, None).unwrap();
		for i in 1..=2usize { list.push(&mut tap, V32::from(i)).unwrap(); }
		let before: Vec<_> = (0..2).map(|i| list.get(&mut tap, i).ok()).collect();
		let raw = bm::Leak::metadata(&list);
		let raw = <bm::Raw<bm::Dangling, Inh<V32>> as bm::Leak>::from_leaked(raw.0);
		let same = guard(|| {
			let again = bm::List::<bm::Dangling, Inh<V32>>::from_raw(raw, 2, None);
			(0..2).map(|i| again.get(&mut tap, i).ok()).collect::<Vec<_>>() == before
		});
		println!("{}", if same == Ok(true) { "GONE" } else { "STILL" });
		return
	}
	let focus = match a.what.as_str() {
		"C01" => Focus::Root,
		"C02" => Focus::Plain,
		"C03" => Focus::Packed,
		"C04" => Focus::Max,
		"C05" => Focus::Reopen,
		w => panic!("unknown {}", w),
	};
	all(focus, &mut rng, a.thorough);
	write_log();
}
