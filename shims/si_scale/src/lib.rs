//! Stand-in for the crate `si-scale`: numbers with binary prefixes.
pub fn scale(mut x: f64, unit: &str) -> String {
    let p = ["", "ki", "Mi", "Gi", "Ti"]; let mut i = 0;
    while x.abs() >= 1024.0 && i + 1 < p.len() { x /= 1024.0; i += 1; }
    format!("{x:.0} {}{unit}", p[i])
}
#[macro_export]
macro_rules! scale_fn {
    ($name:ident, base: B1024, constraint: UnitAndAbove, mantissa_fmt: $m:literal, groupings: $g:literal, unit: $u:literal $(,)?) => { pub fn $name<F: Into<f64>>(x: F) -> String { $crate::scale(x.into(), $u) } }
}
