//! Offline stand-in for the `bitfield!` macro: read-only fields, the subset bfffs-core uses.
#[macro_export]
macro_rules! bitfield {
    ($(#[$a:meta])* $vis:vis struct $name:ident($(pub)? $t:ident); impl Debug; $($rest:tt)*) => {
        $(#[$a])* $vis struct $name($t);
        impl ::std::fmt::Debug for $name {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                f.debug_tuple(stringify!($name)).field(&self.0).finish()
            }
        }
        #[allow(dead_code)]
        impl $name { $crate::bitfield_fields!{$t; $($rest)*} }
    };
    ($(#[$a:meta])* $vis:vis struct $name:ident($(pub)? $t:ident); $($rest:tt)*) => {
        $(#[$a])* $vis struct $name($t);
        #[allow(dead_code)]
        impl $name { $crate::bitfield_fields!{$t; $($rest)*} }
    };
}
#[macro_export]
macro_rules! bitfield_fields {
    ($t:ident;) => {};
    ($t:ident; $(#[$a:meta])* $vis:vis $f:ident, _: $m:expr, $l:expr; $($rest:tt)*) => {
        $(#[$a])*
        $vis fn $f(&self) -> $t {
            ((self.0 as u128 >> $l) & ((1u128 << ($m - $l + 1)) - 1)) as $t
        }
        $crate::bitfield_fields!{$t; $($rest)*}
    };
    ($t:ident; $u:ident; $($rest:tt)*) => { $crate::bitfield_fields!{$u; $($rest)*} };
}
