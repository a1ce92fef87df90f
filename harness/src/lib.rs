pub mod gen {
    #[cfg(any(feature = "build", feature = "num", feature = "bits"))]
    pub mod build;
    #[cfg(any(feature = "pkt", feature = "build", feature = "num", feature = "bits", feature = "ser", feature = "dbg"))]
    pub mod pkt;
    pub mod view;
    #[cfg(feature = "bits")]
    pub mod bits;
    #[cfg(feature = "dbg")]
    pub mod dbg;
    #[cfg(feature = "ser")]
    pub mod ser;
    #[cfg(feature = "cfg")]
    pub mod cfg;
}
pub mod rt;
#[cfg(feature = "probe")]
pub mod probe;
#[cfg(feature = "stream")]
pub mod stream;
#[cfg(any(feature = "pkt", feature = "build", feature = "num", feature = "bits", feature = "ser", feature = "dbg"))]
pub mod pkt;
#[cfg(any(feature = "build", feature = "num", feature = "bits"))]
pub mod build;
#[cfg(feature = "num")]
pub mod num;
#[cfg(feature = "bits")]
pub mod bits;
#[cfg(feature = "dbg")]
pub mod dbg;
#[cfg(feature = "ser")]
pub mod ser;
#[cfg(feature = "cfg")]
pub mod cfg;
pub mod util;

pub fn entries() -> Vec<(&'static str, fn())> {
    #[allow(unused_mut)]
    let mut v: Vec<(&'static str, fn())> = vec![];
    #[cfg(feature = "probe")]
    v.extend_from_slice(probe::ENTRIES);
    #[cfg(feature = "stream")]
    v.extend_from_slice(stream::ENTRIES);
    #[cfg(feature = "pkt")]
    v.extend_from_slice(pkt::ENTRIES);
    #[cfg(feature = "build")]
    v.extend_from_slice(build::ENTRIES);
    #[cfg(feature = "num")]
    v.extend_from_slice(num::ENTRIES);
    #[cfg(feature = "cfg")]
    v.extend_from_slice(cfg::ENTRIES);
    #[cfg(feature = "bits")]
    v.extend_from_slice(bits::ENTRIES);
    #[cfg(feature = "ser")]
    v.extend_from_slice(ser::ENTRIES);
    #[cfg(feature = "dbg")]
    v.extend_from_slice(dbg::ENTRIES);
    v
}
