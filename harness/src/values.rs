//! Tree values of 8, 16 and 32 bytes and the constructs over them.
use generic_array::GenericArray;
use sha2::Sha256;
use typenum::{U8, U16, U32};

/// What the harness needs of a tree value.
pub trait Val:
	Clone + Default + Eq + Ord + std::hash::Hash + std::fmt::Debug + From<usize> + Into<usize>
	+ AsRef<[u8]> + AsMut<[u8]> + From<GenericArray<u8, U32>> + 'static
{
	const W: usize;
	fn of(b: &[u8]) -> Self;
	fn hex(&self) -> String { crate::util::hex(self.as_ref()) }
}

macro_rules! val {
	( $name:ident, $w:expr ) => {
		#[derive(Clone, PartialEq, Eq, Debug, Default, Ord, PartialOrd, Hash)]
		pub struct $name(pub [u8; $w]);

		impl AsRef<[u8]> for $name {
			fn as_ref(&self) -> &[u8] { &self.0 }
		}
		impl AsMut<[u8]> for $name {
			fn as_mut(&mut self) -> &mut [u8] { &mut self.0 }
		}
		impl From<usize> for $name {
			fn from(v: usize) -> Self {
				let mut r = [0u8; $w];
				r[..8].copy_from_slice(&(v as u64).to_le_bytes());
				$name(r)
			}
		}
		impl Into<usize> for $name {
			fn into(self) -> usize {
				let mut r = [0u8; 8];
				r.copy_from_slice(&self.0[..8]);
				u64::from_le_bytes(r) as usize
			}
		}
		impl Val for $name {
			const W: usize = $w;
			fn of(b: &[u8]) -> Self {
				let mut r = [0u8; $w];
				r.copy_from_slice(b);
				$name(r)
			}
		}
		impl From<GenericArray<u8, U32>> for $name {
			fn from(a: GenericArray<u8, U32>) -> Self {
				let mut r = [0u8; $w];
				r.copy_from_slice(&a[..$w]);
				$name(r)
			}
		}
	}
}

val!(V8, 8);
val!(V16, 16);
val!(V32, 32);

impl From<GenericArray<u8, U8>> for V8 {
	fn from(a: GenericArray<u8, U8>) -> Self { Self::of(&a) }
}
impl From<GenericArray<u8, U16>> for V16 {
	fn from(a: GenericArray<u8, U16>) -> Self { Self::of(&a) }
}

pub type Inh<V> = bm::InheritedDigestConstruct<Sha256, V>;
pub type Uni<V> = bm::UnitDigestConstruct<Sha256, V>;

/// Constructs by name.
pub trait Cons: bm::Construct + 'static where Self::Value: Val {
	const MODE: &'static str;
}
impl<V: Val> Cons for Inh<V> { const MODE: &'static str = "inherited"; }
impl<V: Val> Cons for Uni<V> { const MODE: &'static str = "unit"; }

impl Val for bm_le::Value {
	const W: usize = 32;
	fn of(b: &[u8]) -> Self { bm_le::Value(primitive_types::H256::from_slice(b)) }
}
