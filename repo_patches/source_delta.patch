From a60109fe42b162adb9a1b3e3365f8f3792491437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 01/21] fix: keep the children of a node whose key was first
 seen as a leaf

InMemoryBackend::insert ignored the children of any key that was already
present, also when it was present only as an opaque value (a leaf, a rooted
key or a proof sibling), so that the node became unreadable.
---
 src/memory.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memory.rs b/src/memory.rs
index 5e20b53..96d3aeb 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -258,7 +258,7 @@ impl<C: Construct> WriteBackend for InMemoryBackend<C> where
 		key: C::Value,
 		value: (C::Value, C::Value)
 	) -> Result<(), Self::Error> {
-		if self.0.contains_key(&key) {
+		if self.0.get(&key).map(|v| v.0.is_some()).unwrap_or(false) {
 			return Ok(())
 		}
 
@@ -269,7 +269,7 @@ impl<C: Construct> WriteBackend for InMemoryBackend<C> where
 		self.0.entry(right.clone()).or_insert((None, Some(0))).1
 			.as_mut().map(|v| *v += 1);
 
-		self.0.insert(key, (Some((left, right)), Some(0)));
+		self.0.entry(key).or_insert((None, Some(0))).0 = Some((left, right));
 		Ok(())
 	}
 }
-- 
2.43.0


From 4a7999ed65a12ce3e42bccf2af2d0f3837069e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 02/21] fix: allow creating containers shorter than their
 maximum length

The parameter check was inverted: lists and packed lists with a maximum
length could not be created at all, while vectors longer than their maximum
were accepted.
---
 src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index 08fcab1..2db43f9 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -234,7 +234,7 @@ impl<C: Construct> Vector<Owned, C> {
 		max_len: Option<u64>
 	) -> Result<Self, Error<DB::Error>> {
 		if let Some(max_len) = max_len {
-			if (len as u64) < max_len || max_len == 0 {
+			if (len as u64) > max_len || max_len == 0 {
 				return Err(Error::InvalidParameter)
 			}
 		}
-- 
2.43.0


From 99f59799c2d2f1021bc1b79ad3b48530cc0bef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:38 +0000
Subject: [PATCH 03/21] fix: keep the other elements of a host value when
 popping a packed element

PackedVector::pop cleared the whole last host value and restored only the
last remaining element, losing all the others stored in the same value.
---
 src/packed.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/packed.rs b/src/packed.rs
index 506bd61..6c72252 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -114,10 +114,13 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 				self.tuple.pop(db)?;
 			}
 
-			let last_value = self.get(db, last_index)?;
-			self.tuple.pop(db)?;
-			self.tuple.push(db, Default::default())?;
-			self.set(db, last_index, last_value)?;
+			let host_index = covering_base + covering_ranges.len() - 1;
+			let used = covering_ranges[covering_ranges.len() - 1].end;
+			let mut host_value = self.tuple.get(db, host_index)?;
+			for byte in &mut host_value.as_mut()[used..] {
+				*byte = 0;
+			}
+			self.tuple.set(db, host_index, host_value)?;
 		}
 
 		self.len -= 1;
-- 
2.43.0


From a642eae4be5e81ca1060753d75394446db97973e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:39 +0000
Subject: [PATCH 04/21] fix: reject access beyond the length of packed
 containers

Only the host vector was bounds-checked, so elements beyond the length but
within the last host value could be read, and written into the padding.
---
 src/packed.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/packed.rs b/src/packed.rs
index 6c72252..5da7843 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -51,6 +51,10 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 {
 	/// Get value at index.
 	pub fn get<DB: ReadBackend<Construct=C> + ?Sized>(&self, db: &mut DB, index: usize) -> Result<T, Error<DB::Error>> {
+		if index >= self.len {
+			return Err(Error::AccessOverflowed)
+		}
+
 		let mut ret = GenericArray::<u8, V>::default();
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
@@ -66,6 +70,14 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 
 	/// Set value at index.
 	pub fn set<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, index: usize, value: T) -> Result<(), Error<DB::Error>> {
+		if index >= self.len {
+			return Err(Error::AccessOverflowed)
+		}
+
+		self.write(db, index, value)
+	}
+
+	fn write<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, index: usize, value: T) -> Result<(), Error<DB::Error>> {
 		let value: GenericArray<u8, V> = value.into();
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
@@ -88,7 +100,7 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 		while self.tuple.len() < covering_base + covering_ranges.len() {
 			self.tuple.push(db, Default::default())?;
 		}
-		self.set(db, index, value)?;
+		self.write(db, index, value)?;
 		self.len += 1;
 		Ok(())
 	}
-- 
2.43.0


From c623120833dd14d9ab3f8d662a2df99ca2b591e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:40 +0000
Subject: [PATCH 05/21] fix: enforce the maximum length of packed containers
 per element

The limit was only checked in units of host values, so that packed vectors
and lists accepted more elements than their declared maximum.
---
 src/packed.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/packed.rs b/src/packed.rs
index 5da7843..cd7c524 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -95,6 +95,10 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 	/// Push a new value to the tuple.
 	pub fn push<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, value: T) -> Result<(), Error<DB::Error>> {
 		let index = self.len;
+		if self.max_len.map(|max_len| index as u64 >= max_len).unwrap_or(false) {
+			return Err(Error::AccessOverflowed)
+		}
+
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
 		while self.tuple.len() < covering_base + covering_ranges.len() {
@@ -210,6 +214,10 @@ impl<C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> PackedVector<Owned
 {
 	/// Create a new tuple.
 	pub fn create<DB: WriteBackend<Construct=C> + ?Sized>(db: &mut DB, value_len: usize, value_max_len: Option<u64>) -> Result<Self, Error<DB::Error>> {
+		if value_max_len.map(|max_len| value_len as u64 > max_len).unwrap_or(false) {
+			return Err(Error::InvalidParameter)
+		}
+
 		let host_max_len = value_max_len.map(|l| host_max_len::<H, V>(l));
 		let host_len = host_len::<H, V>(value_len);
 
-- 
2.43.0


From ab99e9d018ed357d4dbe0d2b2cc7d2255d486a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 06/21] fix: decode U256 vector elements as little endian

They are encoded as little endian; U256::from(&[u8]) is big endian.
---
 le/src/elemental_fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/le/src/elemental_fixed.rs b/le/src/elemental_fixed.rs
index 4cfc61a..28b2a7c 100644
--- a/le/src/elemental_fixed.rs
+++ b/le/src/elemental_fixed.rs
@@ -161,7 +161,7 @@ impl FromCompactVectorTree for ElementalFixedVec<U256> {
 		let mut ret = Vec::new();
 		for i in 0..len {
 			let value = vector.get(db, i)?;
-			ret.push(U256::from(value.as_ref()));
+			ret.push(U256::from_little_endian(value.as_ref()));
 		}
 
 		Ok(Self(ret))
-- 
2.43.0


From 878b01e73474836647aed2f2b8b7f0fce3510337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:42 +0000
Subject: [PATCH 07/21] fix: decode all 64 bytes of H512

Only 32 bytes were read, and building the H512 from them panicked.
---
 le/src/fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/le/src/fixed.rs b/le/src/fixed.rs
index b932c2b..bda7c0a 100644
--- a/le/src/fixed.rs
+++ b/le/src/fixed.rs
@@ -107,7 +107,7 @@ impl FromTree for H512 {
 	fn from_tree<DB: ReadBackend>(root: &<DB::Construct as Construct>::Value, db: &mut DB) -> Result<Self, Error<DB::Error>> where
 		DB::Construct: CompatibleConstruct,
 	{
-		let value = ElementalFixedVec::<u8>::from_compact_vector_tree(root, db, 32, None)?;
+		let value = ElementalFixedVec::<u8>::from_compact_vector_tree(root, db, 64, None)?;
 		Ok(Self::from_slice(value.0.as_ref()))
 	}
 }
-- 
2.43.0


From a8f0f8453a43c062bdbb32f52df9955f239e9660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 08/21] fix: resolve partial list elements below the item root

The elements of a list are in the left subtree of its root, beside the
length; the index of the list itself was used instead. Elements at or beyond
the length have no index.
---
 le/src/partial.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index 870556e..aa4ba9e 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -86,6 +86,10 @@ impl PartialIndex {
 			},
 		};
 
+		if index >= len {
+			return Err(Error::AccessOverflowed)
+		}
+
 		let mut max_len = 1;
 		let mut depth = 0;
 		while max_len < len {
@@ -96,7 +100,10 @@ impl PartialIndex {
 		  result is greater or equal to 1;
 		  Index::from_one always return Some; qed");
 
-		Ok(parent.sub(sub))
+		Ok(match self.sub {
+			PartialSubIndex::List(_) => parent.left().sub(sub),
+			_ => parent.sub(sub),
+		})
 	}
 }
 
-- 
2.43.0


From aab21c5b9f5662f57b57138283365237e98275c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 09/21] fix: flush values pushed to a partial list into the
 list

They were pushed to a list at the root of the whole tree instead of the list
itself, and the resulting list was dropped.
---
 le/src/partial.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index aa4ba9e..1feb5a5 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -224,11 +224,18 @@ impl<T: Partialable + IntoTree> PartialItem for PartialVec<T> {
 
 		let mut pushed = Vec::default();
 		mem::swap(&mut pushed, &mut self.pushed);
-		let mut list = DanglingList::reconstruct(raw.root(), db, None)?;
+		if pushed.is_empty() {
+			return Ok(())
+		}
+
+		let index = self.index.resolve(raw, db)?;
+		let list_root = raw.get(db, index)?.ok_or(Error::CorruptedDatabase)?;
+		let mut list = DanglingList::reconstruct(list_root, db, None)?;
 		for value in pushed {
 			let value_root = value.into_tree(db)?;
 			list.push(db, value_root)?;
 		}
+		raw.set(db, index, list.root())?;
 
 		Ok(())
 	}
-- 
2.43.0


From 2f07269068b5fe1ccaad185b0d02d004148e8d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:45 +0000
Subject: [PATCH 10/21] fix: reject lists longer than their maximum length when
 decoding

Such lists were decoded with their surplus elements read from unrelated
positions of the tree.
---
 le/src/elemental_variable.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/le/src/elemental_variable.rs b/le/src/elemental_variable.rs
index 857274e..072e676 100644
--- a/le/src/elemental_variable.rs
+++ b/le/src/elemental_variable.rs
@@ -117,6 +117,10 @@ fn from_list_tree<T, F, DB: ReadBackend>(
 {
 	let (vector_root, len) = decode_with_length::<<DB::Construct as Construct>::Value, _>(root, db)?;
 
+	if max_len.map(|max_len| len as u64 > max_len).unwrap_or(false) {
+		return Err(Error::CorruptedDatabase)
+	}
+
 	let vector = f(
 		&vector_root, db, len, max_len
 	)?;
-- 
2.43.0


From e8db026c9f04b6dcd6d144beb3e517f58b0f80cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 11/21] fix: reject list lengths no tree can hold when decoding

---
 le/src/elemental_variable.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/le/src/elemental_variable.rs b/le/src/elemental_variable.rs
index 072e676..371b6b6 100644
--- a/le/src/elemental_variable.rs
+++ b/le/src/elemental_variable.rs
@@ -121,6 +121,11 @@ fn from_list_tree<T, F, DB: ReadBackend>(
 		return Err(Error::CorruptedDatabase)
 	}
 
+	// No tree can hold this many elements of up to 32 bytes.
+	if len > usize::max_value() / 32 {
+		return Err(Error::CorruptedDatabase)
+	}
+
 	let vector = f(
 		&vector_root, db, len, max_len
 	)?;
-- 
2.43.0


From da9b370cc66b290df9452d0a320138526c704afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:57 +0000
Subject: [PATCH 12/21] fix: keep the nodes a populated proof refers to when
 other roots are released

---
 src/memory.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memory.rs b/src/memory.rs
index 96d3aeb..15dc2f0 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -214,8 +214,8 @@ impl<C: Construct> InMemoryBackend<C> where
 	pub fn populate(&mut self, proofs: Map<C::Value, (C::Value, C::Value)>) {
 		for (key, (left, right)) in proofs {
 			self.0.insert(key, (Some((left.clone(), right.clone())), None));
-			self.0.entry(left).or_insert((None, None));
-			self.0.entry(right).or_insert((None, None));
+			self.0.entry(left).or_insert((None, None)).1 = None;
+			self.0.entry(right).or_insert((None, None)).1 = None;
 		}
 	}
 }
-- 
2.43.0


From ef447c440346e39437578f8ca0264b679786c28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 13/21] fix: prove nodes that were already there before they
 were inserted again

---
 src/proving.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/proving.rs b/src/proving.rs
index 94b8340..be804af 100644
--- a/src/proving.rs
+++ b/src/proving.rs
@@ -111,7 +111,10 @@ impl<'a, DB: WriteBackend + ?Sized> WriteBackend for ProvingBackend<'a, DB> wher
 		key: <DB::Construct as Construct>::Value,
 		value: (<DB::Construct as Construct>::Value, <DB::Construct as Construct>::Value)
 	) -> Result<(), Self::Error> {
-		self.state.inserts.insert(key.clone());
+		// A node that is already there is still part of the proof when it is read later.
+		if self.db.get(&key)?.is_none() {
+			self.state.inserts.insert(key.clone());
+		}
 		self.db.insert(key, value)
 	}
 }
-- 
2.43.0


From 822c65e007505580b8179856e8378ddb1fad3146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 14/21] fix: keep a list as it was when a change to it fails

---
 src/length.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/length.rs b/src/length.rs
index 723a380..4b47487 100644
--- a/src/length.rs
+++ b/src/length.rs
@@ -1,5 +1,6 @@
 use crate::{RootStatus, Construct, Backend, ReadBackend, WriteBackend, Sequence, Raw, Dangling, Error, Index, Leak, Tree, Owned};
 
+const ROOT_INDEX: Index = Index::root();
 const LEN_INDEX: Index = Index::root().right();
 const ITEM_ROOT_INDEX: Index = Index::root().left();
 
@@ -58,16 +59,25 @@ impl<R: RootStatus, C: Construct, S> LengthMixed<R, C, S> where
 		db: &mut DB,
 		f: F
 	) -> Result<RT, Error<DB::Error>> where
-		F: FnOnce(&mut S, &mut DB) -> Result<RT, Error<DB::Error>>
+		F: FnOnce(&mut S, &mut DB) -> Result<RT, Error<DB::Error>>,
+		S: Leak,
 	{
-		let ret = f(&mut self.inner, db)?;
-		let new_len = self.inner.len();
-		let new_inner_root = self.inner.root();
+		let old_inner = self.inner.metadata();
+		let ret = f(&mut self.inner, db).and_then(|ret| {
+			let item_root = self.inner.root();
+			let len: C::Value = self.inner.len().into();
+			let root = C::intermediate_of(&item_root, &len);
 
-		self.raw.set(db, ITEM_ROOT_INDEX, new_inner_root)?;
-		self.raw.set(db, LEN_INDEX, new_len.into())?;
+			db.insert(root.clone(), (item_root, len))?;
+			self.raw.set(db, ROOT_INDEX, root)?;
 
-		Ok(ret)
+			Ok(ret)
+		});
+
+		if ret.is_err() {
+			self.inner = S::from_leaked(old_inner);
+		}
+		ret
 	}
 }
 
-- 
2.43.0


From 00c3f9e27acda379eb08fdeebc7eee9150741a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 15/21] fix: keep a vector as it was when a push or a pop fails

---
 src/vector.rs | 55 ++++++++++++++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 2db43f9..3a8cbe5 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -26,13 +26,15 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 
 	fn extend<DB: WriteBackend<Construct=C> + ?Sized>(
 		&mut self,
-		db: &mut DB
+		db: &mut DB,
+		value: C::Value
 	) -> Result<(), Error<DB::Error>> {
 		let root = self.root();
 		let mut new_raw = Raw::default();
 		let empty = C::empty_at(db, self.depth())?;
 		new_raw.set(db, EXTEND_INDEX, root)?;
 		new_raw.set(db, EMPTY_INDEX, empty)?;
+		new_raw.set(db, Index::from_depth(self.len, self.depth() + 1), value)?;
 		self.raw.set(db, ROOT_INDEX, Default::default())?;
 		self.raw = new_raw;
 		Ok(())
@@ -42,10 +44,11 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 		&mut self,
 		db: &mut DB
 	) -> Result<(), Error<DB::Error>> {
-		match self.raw.get(db, EXTEND_INDEX)? {
-			Some(extended_value) => { self.raw.set(db, ROOT_INDEX, extended_value)?; },
-			None => { self.raw.set(db, ROOT_INDEX, Default::default())?; },
-		}
+		let extended_value = match self.depth() {
+			0 => None,
+			_ => self.raw.get(db, EXTEND_INDEX)?,
+		};
+		self.raw.set(db, ROOT_INDEX, extended_value.unwrap_or_default())?;
 		Ok(())
 	}
 
@@ -117,15 +120,14 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 			if self.max_len.is_some() {
 				return Err(Error::AccessOverflowed)
 			} else {
-				self.extend(db)?;
+				self.extend(db, value)?;
 			}
+		} else {
+			let raw_index = self.raw_index(old_len);
+			self.raw.set(db, raw_index, value)?;
 		}
-		let len = old_len + 1;
-		let index = old_len;
-		self.len = len;
 
-		let raw_index = self.raw_index(index);
-		self.raw.set(db, raw_index, value)?;
+		self.len = old_len + 1;
 		Ok(())
 	}
 
@@ -144,28 +146,27 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 		let raw_index = self.raw_index(index);
 		let value = self.raw.get(db, raw_index)?.ok_or(Error::CorruptedDatabase)?;
 
-		let mut empty_depth_to_bottom = 0;
-		let mut replace_index = raw_index;
-		loop {
-			if let Some(parent) = replace_index.parent() {
-				if parent.left() == replace_index {
-					replace_index = parent;
-					empty_depth_to_bottom += 1;
+		if self.max_len.is_none() && (len as u64) <= self.current_max_len() / 2 {
+			self.shrink(db)?;
+		} else {
+			let mut empty_depth_to_bottom = 0;
+			let mut replace_index = raw_index;
+			loop {
+				if let Some(parent) = replace_index.parent() {
+					if parent.left() == replace_index {
+						replace_index = parent;
+						empty_depth_to_bottom += 1;
+					} else {
+						break
+					}
 				} else {
 					break
 				}
-			} else {
-				break
 			}
+			let empty = C::empty_at(db, empty_depth_to_bottom)?;
+			self.raw.set(db, replace_index, empty)?;
 		}
-		let empty = C::empty_at(db, empty_depth_to_bottom)?;
-		self.raw.set(db, replace_index, empty)?;
 
-		if (len as u64) <= self.current_max_len() / 2 {
-			if self.max_len.is_none() {
-				self.shrink(db)?;
-			}
-		}
 		self.len = len;
 		Ok(Some(value))
 	}
-- 
2.43.0


From 6c42b7f519f7f3413036a99de975787d18ab1f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:33 +0000
Subject: [PATCH 16/21] fix: leave packed vectors as they were when the backend
 fails

---
 src/packed.rs | 80 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 54 insertions(+), 26 deletions(-)

diff --git a/src/packed.rs b/src/packed.rs
index cd7c524..74aa449 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -74,18 +74,40 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 			return Err(Error::AccessOverflowed)
 		}
 
-		self.write(db, index, value)
+		self.update(db, |tuple, db| Self::write(tuple, db, index, value))
 	}
 
-	fn write<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, index: usize, value: T) -> Result<(), Error<DB::Error>> {
+	/// Run several operations on the tuple as one: if any of them fails, it stays as it was.
+	fn update<DB: WriteBackend<Construct=C> + ?Sized, F>(&mut self, db: &mut DB, f: F) -> Result<(), Error<DB::Error>> where
+		F: FnOnce(&mut Vector<R, C>, &mut DB) -> Result<(), Error<DB::Error>>
+	{
+		let mut tuple = Vector::<R, C>::from_leaked(self.tuple.metadata());
+		if R::is_owned() {
+			db.rootify(&tuple.root())?;
+		}
+
+		if let Err(e) = f(&mut tuple, db) {
+			// Report the first failure, even if this fails as well.
+			let _ = tuple.drop(db);
+			return Err(e)
+		}
+
+		if R::is_owned() {
+			db.unrootify(&self.tuple.root())?;
+		}
+		self.tuple = tuple;
+		Ok(())
+	}
+
+	fn write<DB: WriteBackend<Construct=C> + ?Sized>(tuple: &mut Vector<R, C>, db: &mut DB, index: usize, value: T) -> Result<(), Error<DB::Error>> {
 		let value: GenericArray<u8, V> = value.into();
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
 		let mut value_offset = 0;
 		for (i, range) in covering_ranges.into_iter().enumerate() {
-			let mut host_value = self.tuple.get(db, covering_base + i)?;
+			let mut host_value = tuple.get(db, covering_base + i)?;
 			host_value.as_mut()[range.clone()].copy_from_slice(&value[value_offset..(value_offset + range.end - range.start)]);
-			self.tuple.set(db, covering_base + i, host_value)?;
+			tuple.set(db, covering_base + i, host_value)?;
 			value_offset += range.end - range.start;
 		}
 
@@ -101,10 +123,12 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
-		while self.tuple.len() < covering_base + covering_ranges.len() {
-			self.tuple.push(db, Default::default())?;
-		}
-		self.write(db, index, value)?;
+		self.update(db, |tuple, db| {
+			while tuple.len() < covering_base + covering_ranges.len() {
+				tuple.push(db, Default::default())?;
+			}
+			Self::write(tuple, db, index, value)
+		})?;
 		self.len += 1;
 		Ok(())
 	}
@@ -118,26 +142,30 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 		let index = self.len - 1;
 		let ret = self.get(db, index)?;
 
-		if self.len == 1 {
-			while self.tuple.len() > 0 {
-				self.tuple.pop(db)?;
+		self.update(db, |tuple, db| {
+			if index == 0 {
+				while tuple.len() > 0 {
+					tuple.pop(db)?;
+				}
+			} else {
+				let last_index = index - 1;
+
+				let (covering_base, covering_ranges) = coverings::<H, V>(last_index);
+				while tuple.len() > covering_base + covering_ranges.len() {
+					tuple.pop(db)?;
+				}
+
+				let host_index = covering_base + covering_ranges.len() - 1;
+				let used = covering_ranges[covering_ranges.len() - 1].end;
+				let mut host_value = tuple.get(db, host_index)?;
+				for byte in &mut host_value.as_mut()[used..] {
+					*byte = 0;
+				}
+				tuple.set(db, host_index, host_value)?;
 			}
-		} else {
-			let last_index = index - 1;
 
-			let (covering_base, covering_ranges) = coverings::<H, V>(last_index);
-			while self.tuple.len() > covering_base + covering_ranges.len() {
-				self.tuple.pop(db)?;
-			}
-
-			let host_index = covering_base + covering_ranges.len() - 1;
-			let used = covering_ranges[covering_ranges.len() - 1].end;
-			let mut host_value = self.tuple.get(db, host_index)?;
-			for byte in &mut host_value.as_mut()[used..] {
-				*byte = 0;
-			}
-			self.tuple.set(db, host_index, host_value)?;
-		}
+			Ok(())
+		})?;
 
 		self.len -= 1;
 		Ok(Some(ret))
-- 
2.43.0


From 43c70fd2c0cee1c42e618864480b8e2168287fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:33 +0000
Subject: [PATCH 17/21] fix: keep the updates of a partial view when flushing
 fails

---
 le/src/partial.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index 1feb5a5..e5e3f72 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -1,6 +1,5 @@
 use bm::{Index, Error, ReadBackend, RootStatus, Raw, DanglingList, Tree, WriteBackend};
 use primitive_types::{U256, H256};
-use core::mem;
 #[cfg(not(feature = "std"))]
 use alloc::collections::BTreeMap as Map;
 #[cfg(feature = "std")]
@@ -166,12 +165,13 @@ impl<T: IntoTree> PartialItem for PartialValue<T> {
 	) -> Result<(), Error<DB::Error>> where
 		DB::Construct: CompatibleConstruct
 	{
-		if let Some(value) = self.value.take() {
+		if let Some(value) = self.value.as_ref() {
 			let index = self.index.resolve(raw, db)?;
 			let value_root = value.into_tree(db)?;
 
 			raw.set(db, index, value_root)?;
 		}
+		self.value = None;
 
 		Ok(())
 	}
@@ -215,27 +215,24 @@ impl<T: Partialable + IntoTree> PartialItem for PartialVec<T> {
 	) -> Result<(), Error<DB::Error>> where
 		DB::Construct: CompatibleConstruct,
 	{
-		let mut values = Map::default();
-		mem::swap(&mut values, &mut self.values);
-
-		for (_, mut value) in values {
+		for value in self.values.values_mut() {
 			value.flush(raw, db)?;
 		}
+		self.values.clear();
 
-		let mut pushed = Vec::default();
-		mem::swap(&mut pushed, &mut self.pushed);
-		if pushed.is_empty() {
+		if self.pushed.is_empty() {
 			return Ok(())
 		}
 
 		let index = self.index.resolve(raw, db)?;
 		let list_root = raw.get(db, index)?.ok_or(Error::CorruptedDatabase)?;
 		let mut list = DanglingList::reconstruct(list_root, db, None)?;
-		for value in pushed {
+		for value in &self.pushed {
 			let value_root = value.into_tree(db)?;
 			list.push(db, value_root)?;
 		}
 		raw.set(db, index, list.root())?;
+		self.pushed.clear();
 
 		Ok(())
 	}
-- 
2.43.0


From 223e3158af0bd3037e7e01679d0ed7471705bf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 18/21] fix: flush only what was set in a partial view

---
 le/src/partial.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index e5e3f72..628bb2d 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -110,6 +110,7 @@ impl PartialIndex {
 pub struct PartialValue<T> {
 	index: PartialIndex,
 	value: Option<T>,
+	changed: bool,
 }
 
 impl<T: FromTree> PartialValue<T> {
@@ -126,6 +127,7 @@ impl<T: FromTree> PartialValue<T> {
 		let value = T::from_tree(&index_root, db)?;
 
 		self.value = Some(value);
+		self.changed = false;
 		Ok(())
 	}
 
@@ -147,6 +149,7 @@ impl<T: FromTree> PartialValue<T> {
 	/// Set the partial value.
 	pub fn set(&mut self, value: T) {
 		self.value = Some(value);
+		self.changed = true;
 	}
 }
 
@@ -154,7 +157,8 @@ impl<T: IntoTree> PartialItem for PartialValue<T> {
 	fn new(index: PartialIndex) -> Self {
 		Self {
 			index,
-			value: None
+			value: None,
+			changed: false,
 		}
 	}
 
@@ -165,13 +169,14 @@ impl<T: IntoTree> PartialItem for PartialValue<T> {
 	) -> Result<(), Error<DB::Error>> where
 		DB::Construct: CompatibleConstruct
 	{
-		if let Some(value) = self.value.as_ref() {
+		if let (true, Some(value)) = (self.changed, self.value.as_ref()) {
 			let index = self.index.resolve(raw, db)?;
 			let value_root = value.into_tree(db)?;
 
 			raw.set(db, index, value_root)?;
 		}
 		self.value = None;
+		self.changed = false;
 
 		Ok(())
 	}
-- 
2.43.0


From f65b1f836277ac9cee45157a17ce76ebcba5b513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:39 +0000
Subject: [PATCH 19/21] fix: packed limits whose size in bytes exceeds 64 bits

---
 src/utils.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 575efd5..d2b85ce 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -45,15 +45,18 @@ pub fn vector_tree<DB: WriteBackend>(values: &[<DB::Construct as Construct>::Val
 
 /// Get the host len of a packed vector.
 pub fn host_max_len<Host: ArrayLength<u8>, Value: ArrayLength<u8>>(value_len: u64) -> u64 {
-	let host_array_len = Host::to_u64();
-	let value_array_len = Value::to_u64();
+	let host_array_len = Host::to_u64() as u128;
+	let value_array_len = Value::to_u64() as u128;
 
-	let bytes = value_array_len * value_len;
-	if bytes % host_array_len == 0 {
+	// The size in bytes may exceed 64 bits even if the number of hosts does not.
+	let bytes = value_array_len * value_len as u128;
+	let host_len = if bytes % host_array_len == 0 {
 		bytes / host_array_len
 	} else {
 		bytes / host_array_len + 1
-	}
+	};
+
+	core::cmp::min(host_len, u64::max_value() as u128) as u64
 }
 
 /// Get the host len of a packed vector.
-- 
2.43.0


From a5a47881f9fafe6cb6f3dee6598f9c56053607ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:53 +0000
Subject: [PATCH 20/21] fix: refuse list lengths deeper than any index in
 partial views

---
 le/src/partial.rs | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index 628bb2d..6525872 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -1,4 +1,4 @@
-use bm::{Index, Error, ReadBackend, RootStatus, Raw, DanglingList, Tree, WriteBackend};
+use bm::{Index, IndexRoute, Error, ReadBackend, RootStatus, Raw, DanglingList, Tree, WriteBackend};
 use primitive_types::{U256, H256};
 #[cfg(not(feature = "std"))]
 use alloc::collections::BTreeMap as Map;
@@ -71,10 +71,11 @@ impl PartialIndex {
 		};
 
 		let (index, len) = match self.sub {
-			PartialSubIndex::Raw(raw) => return Ok(parent.sub(raw)),
+			PartialSubIndex::Raw(raw) => return below(&parent, raw).ok_or(Error::CorruptedDatabase),
 			PartialSubIndex::Vector(index, len) => (index, len),
 			PartialSubIndex::List(index) => {
-				let len_root = raw.get(db, parent.right())?.ok_or(Error::CorruptedDatabase)?;
+				let len_index = below(&parent, Index::root().right()).ok_or(Error::CorruptedDatabase)?;
+				let len_root = raw.get(db, len_index)?.ok_or(Error::CorruptedDatabase)?;
 				let len = U256::from_tree(&len_root, db)?;
 
 				if len > U256::from(usize::max_value()) {
@@ -89,20 +90,35 @@ impl PartialIndex {
 			return Err(Error::AccessOverflowed)
 		}
 
-		let mut max_len = 1;
+		let mut max_len = 1usize;
 		let mut depth = 0;
 		while max_len < len {
-			max_len *= 2;
+			max_len = max_len.checked_mul(2).ok_or(Error::CorruptedDatabase)?;
 			depth += 1;
 		}
 		let sub = Index::from_one((1 << depth) + index).expect("
 		  result is greater or equal to 1;
 		  Index::from_one always return Some; qed");
 
-		Ok(match self.sub {
-			PartialSubIndex::List(_) => parent.left().sub(sub),
-			_ => parent.sub(sub),
-		})
+		match self.sub {
+			PartialSubIndex::List(_) => below(&parent, Index::root().left()).and_then(|item| below(&item, sub)),
+			_ => below(&parent, sub),
+		}.ok_or(Error::CorruptedDatabase)
+	}
+}
+
+/// Index below a parent. A list length in the database may claim a tree deeper
+/// than any index can be.
+fn below(parent: &Index, sub: Index) -> Option<Index> {
+	let depth = |index: &Index| match index.route() {
+		IndexRoute::Root => 0,
+		IndexRoute::Select(selections) => selections.len(),
+	};
+
+	if depth(parent) + depth(&sub) < 8 * core::mem::size_of::<usize>() {
+		Some(parent.sub(sub))
+	} else {
+		None
 	}
 }
 
-- 
2.43.0


From fa338757bcee5d75e65fe3bcb0b1404739ad817f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:35 +0000
Subject: [PATCH 21/21] fix: refuse compact proofs nested without end when
 decoding

---
 src/proving.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/proving.rs b/src/proving.rs
index be804af..b01644b 100644
--- a/src/proving.rs
+++ b/src/proving.rs
@@ -189,7 +189,7 @@ impl<V: Eq + Hash + Ord + Clone + Default> Proofs<V> {
 /// Compact proofs.
 #[derive(Clone, Eq, PartialEq, Debug)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
-#[cfg_attr(feature = "parity-codec", derive(parity_codec::Encode, parity_codec::Decode))]
+#[cfg_attr(feature = "parity-codec", derive(parity_codec::Encode))]
 pub enum CompactValue<V> {
 	/// Single compact value.
 	Single(V),
@@ -197,6 +197,33 @@ pub enum CompactValue<V> {
 	Combined(Box<(CompactValue<V>, CompactValue<V>)>),
 }
 
+/// Compact proofs nested deeper than this are not decoded: no tree needs them,
+/// and an input of nothing but nesting would exhaust the stack.
+#[cfg(feature = "parity-codec")]
+const MAX_DECODE_DEPTH: usize = 1024;
+
+#[cfg(feature = "parity-codec")]
+impl<V: parity_codec::Decode> CompactValue<V> {
+	fn decode_within<I: parity_codec::Input>(input: &mut I, depth: usize) -> Option<Self> {
+		match input.read_byte()? {
+			0 => V::decode(input).map(CompactValue::Single),
+			1 if depth > 0 => {
+				let left = Self::decode_within(input, depth - 1)?;
+				let right = Self::decode_within(input, depth - 1)?;
+				Some(CompactValue::Combined(Box::new((left, right))))
+			},
+			_ => None,
+		}
+	}
+}
+
+#[cfg(feature = "parity-codec")]
+impl<V: parity_codec::Decode> parity_codec::Decode for CompactValue<V> {
+	fn decode<I: parity_codec::Input>(input: &mut I) -> Option<Self> {
+		Self::decode_within(input, MAX_DECODE_DEPTH)
+	}
+}
+
 impl<V: Default> Default for CompactValue<V> {
 	fn default() -> Self {
 		CompactValue::Single(Default::default())
-- 
2.43.0

