#![allow(unused_mut, dead_code, unused_imports, unused_variables, unused_macros, unexpected_cfgs, unstable_name_collisions, clippy::all)]
#![type_length_limit = "3790758"]
#![recursion_limit = "256"]
#[path = "/repo/bfffs-core/src/cache/mod.rs"]
pub mod cache;
#[path = "/repo/bfffs-core/src/property.rs"]
pub mod property;
pub mod raid {
    #[path = "/repo/bfffs-core/src/raid/codec.rs"]
    pub mod codec;
    #[path = "/repo/bfffs-core/src/raid/declust.rs"]
    pub mod declust;
    #[path = "/repo/bfffs-core/src/raid/prime_s.rs"]
    pub mod prime_s;
    #[path = "/repo/bfffs-core/src/raid/sgcursor.rs"]
    pub mod sgcursor;
}
#[path = "/repo/bfffs-core/src/types.rs"]
pub mod types;
#[path = "/repo/bfffs-core/src/util.rs"]
pub mod util;
#[path = "/repo/bfffs-core/src/writeback/mod.rs"]
pub mod writeback;
pub use crate::types::*;
pub use crate::util::*;

mod m_cache;
mod m_codec;
mod m_layout;
mod m_prop;
mod m_sg;
mod m_types;
mod m_writeback;

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("recover") => m_codec::recover(),
        Some("parity") => m_codec::parity(),
        Some("fence") => m_codec::fence(),
        Some("heap") => { let a = |i| std::env::args().nth(i).unwrap().parse().unwrap(); m_codec::heap(a(2), a(3)) }
        Some("layout") => m_layout::layout(),
        Some("translate") => m_layout::translate(),
        Some("cursor") => m_sg::cursor(),
        Some("pad") => m_sg::pad(),
        Some("lru") => m_cache::lru(),
        Some("fetch") => m_cache::fetch(),
        Some("credit") => m_writeback::credit(),
        Some("bank") => m_writeback::bank(),
        Some("property") => m_prop::property(),
        Some("types") => m_types::types(),
        x => { eprintln!("no monitor {x:?}"); std::process::exit(2) }
    }
}
