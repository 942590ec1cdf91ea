//! Stand-in for the crate `prettytable-rs`: a line per row, cells separated by U+001F.
pub struct Row(pub Vec<String>);
pub mod format {
    #[derive(Clone, Copy)] pub struct TableFormat;
    pub mod consts { pub const FORMAT_CLEAN: &super::TableFormat = &super::TableFormat; }
}
#[derive(Default)] pub struct Table { titles: Option<Row>, rows: Vec<Row> }
impl Table {
    pub fn new() -> Table { Table::default() }
    pub fn set_format(&mut self, _: format::TableFormat) {}
    pub fn set_titles(&mut self, r: Row) { self.titles = Some(r); }
    pub fn add_row(&mut self, r: Row) -> &mut Row { self.rows.push(r); self.rows.last_mut().unwrap() }
    pub fn printstd(&self) { for r in self.titles.iter().chain(&self.rows) { println!("{}", r.0.join("\u{1f}")); } }
}
#[macro_export]
macro_rules! row { ($($x:expr),* $(,)?) => { $crate::Row(vec![$(($x).to_string()),*]) } }
