//! Nothing is watched in builds for sanitizers.
#[allow(dead_code)]
#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Surface,
    Context,
    Document,
    Page,
    Text,
    Error,
}

#[derive(Copy, Clone, Debug)]
pub struct Object {
    pub id: usize,
    pub kind: Kind,
}

pub fn begin() {}
pub fn end() {}
pub fn created() -> Vec<Object> {
    Vec::new()
}
pub fn ends(_: &Object) -> u32 {
    0
}
pub fn criticals() -> usize {
    0
}
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    f()
}
