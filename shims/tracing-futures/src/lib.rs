//! Offline stand-in for tracing-futures.
pub use tracing::Instrument;
