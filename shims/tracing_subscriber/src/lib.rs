//! Stand-in for the crate `tracing-subscriber`: subscribes to nothing.
pub mod filter { #[derive(Clone, Copy)] pub struct LevelFilter; impl LevelFilter { pub const TRACE: Self = Self; pub const DEBUG: Self = Self; pub const INFO: Self = Self; pub const WARN: Self = Self; pub const ERROR: Self = Self; } }
pub mod prelude { pub use super::{Init as _, With as _}; }
pub trait With: Sized { fn with<T>(self, _: T) -> Self { self } }
pub trait Init: Sized { fn init(self) {} }
#[derive(Default)] pub struct Registry;
impl With for Registry {} impl Init for Registry {}
pub fn registry() -> Registry { Registry }
pub struct EnvFilter;
impl EnvFilter {
    pub fn builder() -> EnvFilter { EnvFilter }
    pub fn with_env_var<T>(self, _: T) -> Self { self }
    pub fn with_default_directive(self, _: filter::LevelFilter) -> Self { self }
    pub fn from_env_lossy(self) -> Self { self }
}
pub mod fmt { pub struct Layer; pub fn layer() -> Layer { Layer } }
pub struct Fmt;
pub fn fmt() -> Fmt { Fmt }
impl Fmt { pub fn pretty(self) -> Self { self } pub fn with_env_filter(self, _: EnvFilter) -> Self { self } pub fn init(self) {} }
