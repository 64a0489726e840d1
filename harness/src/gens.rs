//! Random histories of several handles.
use std::collections::HashMap;
use crate::tap::Tap;
use crate::util::*;
use crate::values::*;
use crate::worlds::*;

pub type Map<V> = HashMap<V, (V, V)>;

pub fn nodes<C: Cons>(tap: &Tap<C>) -> Map<C::Value> where C::Value: Val {
	tap.db.as_ref().iter().filter_map(|(k, v)| v.0.clone().map(|x| (k.clone(), x))).collect()
}

pub struct Gen<'a, C: Cons> where C::Value: Val {
	pub rng: Rng,
	pub w: World<'a, C>,
	pub tap: Tap<C>,
	pub next: i64,
	pub ops: Vec<J>,
}

impl<'a, C: Cons> Gen<'a, C> where C::Value: Val {
	pub fn value(&mut self, own: bool) -> C::Value {
		let w = C::Value::W;
		match self.rng.below(8) {
			0 => Default::default(),
			1 | 2 | 3 => { let mut v = vec![0; w]; v[0] = 1 + self.rng.below(3) as u8; C::Value::of(&v) },
			4 | 5 if own => {
				let rs: Vec<_> = self.w.hs.values().filter(|h| h.any.owned()).map(|h| h.any.root()).collect();
				if rs.is_empty() { Default::default() } else { self.rng.pick(&rs).clone() }
			},
			_ => C::Value::of(&self.rng.bytes(w)),
		}
	}
	pub fn path(&mut self) -> Vec<bool> {
		let d = match self.rng.below(10) { 0 => 0, 1 | 2 | 3 => 1, 4 | 5 | 6 => 2, 7 | 8 => 3, _ => self.rng.range(4, 9) };
		(0..d).map(|_| self.rng.chance(1, 2)).collect()
	}
	/// Dangling handles are used while a tree held by the sequence is theirs.
	fn usable(&self, i: i64) -> bool {
		let h = &self.w.hs[&i].any;
		if h.owned() { return true }
		let root = h.root();
		let owning: Vec<_> = self.w.hs.values().filter(|h| h.any.owned()).map(|h| h.any.root()).collect();
		if owning.contains(&root) { return true }
		if !h.raw() { return false }
		// Inside a tree that is held.
		let had = nodes(&self.tap);
		let mut todo = owning;
		let mut seen = std::collections::HashSet::new();
		while let Some(k) = todo.pop() {
			if k == root { return true }
			if !seen.insert(k.clone()) { continue }
			if let Some((l, r)) = had.get(&k) { todo.push(l.clone()); todo.push(r.clone()); }
		}
		false
	}

	/// Choose an operation.
	pub fn choose(&mut self, reads: bool) -> Option<J> {
		let ids: Vec<i64> = self.w.hs.keys().cloned().collect();
		let c = self.rng.below(100);
		if !reads && (ids.is_empty() || (ids.len() < 4 && c < 12)) {
			let id = self.next;
			self.next += 1;
			if self.rng.chance(1, 4) { return Some(crate::obj!{ "op" => "raw", "h" => id, "own" => true }) }
			let kind = *self.rng.pick(&["vec", "pvec", "list", "plist"]);
			let ms = self.w.makers.named(kind);
			let which = self.rng.below(ms.len());
			let max = if self.rng.chance(1, 3) { self.rng.range(1, 9) as i64 } else { -1 };
			let n = if C::MODE == "unit" || !ms[which].takes_len() { 0 } else { self.rng.below(if max < 0 { 6 } else { max as usize + 1 }) };
			let ew = if kind.starts_with('p') { ms[which].width() } else { 0 };
			return Some(crate::obj!{ "op" => "create", "h" => id, "kind" => kind, "which" => which, "n" => n, "ew" => ew, "max" => max })
		}
		if ids.is_empty() { return None }
		let h = *self.rng.pick(&ids);
		let to = self.next;
		let usable = self.usable(h);
		if !usable && !reads && self.rng.chance(1, 2) { return Some(crate::obj!{ "op" => "forget", "h" => h }) }
		if c < 18 && usable && ids.len() < 6 {
			self.next += 1;
			let op = if reads || self.rng.chance(1, 2) { "fork" } else { "adopt" };
			return Some(crate::obj!{ "op" => op, "h" => h, "to" => to })
		}
		if c < 24 && !reads { return Some(crate::obj!{ "op" => "drop", "h" => h }) }
		if !usable { return None }
		let raw = self.w.hs[&h].any.raw();
		if raw {
			let path = self.path();
			if c < 32 && ids.len() < 6 {
				self.next += 1;
				return Some(crate::obj!{ "op" => "subtree", "h" => h, "to" => to, "path" => jpath(&path) })
			}
			if reads || c < 60 { return Some(crate::obj!{ "op" => "rget", "h" => h, "path" => jpath(&path) }) }
			let v = self.value(true);
			return Some(crate::obj!{ "op" => "rset", "h" => h, "path" => jpath(&path), "v" => v.hex() })
		}
		let (len, width, list, owned) = match &self.w.hs[&h].any {
			Any::Seq(s) => (s.len(), s.width(), s.kind().ends_with("list"), s.owned()),
			_ => unreachable!(),
		};
		let i = if len == 0 || self.rng.chance(1, 10) { len } else { self.rng.below(len) };
		if c < 30 && list && owned { return Some(crate::obj!{ "op" => "recon", "h" => h }) }
		if reads || c < 50 { return Some(crate::obj!{ "op" => "get", "h" => h, "i" => i }) }
		let packed = self.w.hs[&h].kind.starts_with('p');
		let v = if packed {
			if self.rng.chance(1, 3) { vec![self.rng.below(2) as u8; width] } else { self.rng.bytes(width) }
		} else { self.value(true).as_ref().to_vec() };
		Some(match c {
			50..=69 if len < 20 => crate::obj!{ "op" => "push", "h" => h, "v" => hex(&v) },
			70..=84 => crate::obj!{ "op" => "pop", "h" => h },
			_ => crate::obj!{ "op" => "set", "h" => h, "i" => i, "v" => hex(&v) },
		})
	}
}

