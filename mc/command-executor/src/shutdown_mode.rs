#[derive(Clone)]
pub enum ShutdownMode {
    Immediate,
    CompletePending,
}