//! Stand-in for the crate `tabular`: a line per row, cells separated by U+001F.
use std::fmt::{self, Display};
#[derive(Clone, Debug, Default)] pub struct Row(Vec<String>);
impl Row {
    pub fn new() -> Row { Row::default() }
    pub fn add_cell<S: Display>(&mut self, s: S) -> &mut Row { self.0.push(s.to_string()); self }
    pub fn with_cell<S: Display>(mut self, s: S) -> Row { self.add_cell(s); self }
}
#[derive(Clone, Debug)] pub struct Table { columns: usize, rows: Vec<Row> }
impl Table {
    pub fn new(spec: &str) -> Table { Table { columns: spec.matches('{').count(), rows: vec![] } }
    pub fn add_row(&mut self, r: Row) -> &mut Table { assert_eq!(r.0.len(), self.columns, "a row has as many cells as the table has columns"); self.rows.push(r); self }
    pub fn with_row(mut self, r: Row) -> Table { self.add_row(r); self }
}
impl Display for Table { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { for r in &self.rows { writeln!(f, "{}", r.0.join("\u{1f}"))?; } Ok(()) } }
