//! Stand-in for the crate `bytes`: what the FUSE server of bfffs needs of it.
use std::ops::Deref;
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Bytes(Vec<u8>);
impl Bytes { pub fn new() -> Self { Self::default() } pub fn copy_from_slice(s: &[u8]) -> Self { Bytes(s.to_vec()) } pub fn len(&self) -> usize { self.0.len() } pub fn is_empty(&self) -> bool { self.0.is_empty() } pub fn from_static(s: &'static [u8]) -> Self { Bytes(s.to_vec()) } }
impl From<Vec<u8>> for Bytes { fn from(v: Vec<u8>) -> Self { Bytes(v) } }
impl Deref for Bytes { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl AsRef<[u8]> for Bytes { fn as_ref(&self) -> &[u8] { &self.0 } }
