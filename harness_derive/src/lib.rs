#[path = "../../harness/src/rt.rs"]
pub mod rt;
pub mod derive;
pub fn entries() -> Vec<(&'static str, fn())> {
    derive::ENTRIES.to_vec()
}
