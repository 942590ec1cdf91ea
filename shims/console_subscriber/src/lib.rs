//! Stand-in for the crate `console-subscriber`: publishes nothing.
pub struct ConsoleLayer;
impl ConsoleLayer {
    pub fn builder() -> Self { ConsoleLayer }
    pub fn retention(self, _: std::time::Duration) -> Self { self }
    pub fn server_addr<T>(self, _: T) -> Self { self }
    pub fn spawn(self) -> Self { self }
}
