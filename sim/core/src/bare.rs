//! Stands in for the seams where there is no standard library: calls are just made.
pub enum Fail {
    Panic(heap::string::String),
    Steps,
    Stack,
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Usage {
    pub steps: u64,
    pub derefs: u64,
    pub allocs: u64,
    pub peak: i64,
    pub max_single: u64,
    pub churn: u64,
    pub stack: usize,
}

pub fn probe<T>(f: impl FnOnce() -> T) -> (Result<T, Fail>, Usage) {
    (Ok(f()), Usage::default())
}

pub fn probe_budget<T>(_: u64, f: impl FnOnce() -> T) -> (Result<T, Fail>, Usage) {
    probe(f)
}
