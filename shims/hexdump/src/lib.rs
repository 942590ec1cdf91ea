//! Offline stand-in for hexdump.
pub fn hexdump_iter(b: &[u8]) -> impl ExactSizeIterator<Item = Box<str>> + '_ {
    b.chunks(16).map(|c| c.iter().map(|x| format!("{x:02x} ")).collect::<String>().into_boxed_str())
}
