//! A user's crate whose types print like the standard library's.
pub mod string {
    #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct String(pub u32);
}
