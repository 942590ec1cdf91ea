//! Offline stand-in for nonzero_ext::nonzero!
pub trait Nz { type T; fn nz(self) -> Self::T; }
macro_rules! i { ($($a:ty, $b:ident);*) => { $(impl Nz for $a { type T = std::num::$b; fn nz(self) -> Self::T { std::num::$b::new(self).expect("zero") } })* } }
i!{u8, NonZeroU8; u16, NonZeroU16; u32, NonZeroU32; u64, NonZeroU64; usize, NonZeroUsize; i32, NonZeroI32}
#[macro_export] macro_rules! nonzero { ($e:expr) => { $crate::Nz::nz($e) } }
