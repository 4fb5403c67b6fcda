//! The properties and their simulated scenarios.
pub struct Prop {
    pub id: &'static str,
    pub run: fn(),
    /// runs per quick / thorough check
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// probes and faults a healthy check reaches
    pub want: &'static [&'static str],
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assume: &'static [&'static str],
}
#[cfg(feature = "viz")]
pub mod csv;
#[cfg(feature = "viz")]
pub mod viz;

#[cfg(feature = "bench")]
pub mod bench;
#[cfg(feature = "catalog")]
pub mod catalog;
#[cfg(feature = "fleet")]
pub mod fleet;
#[cfg(feature = "gui")]
pub mod gui;
#[cfg(feature = "ledger")]
pub mod ledger;
#[cfg(feature = "opt")]
pub mod opt;
#[cfg(feature = "pipe")]
pub mod pipe;
#[cfg(feature = "simd")]
pub mod simd;
#[cfg(feature = "snap")]
pub mod snap;
#[cfg(feature = "solve")]
pub mod solve;
#[cfg(feature = "time")]
pub mod time;
#[cfg(feature = "train")]
pub mod train;

pub fn all() -> Vec<Prop> {
    #[allow(unused_mut)]
    let mut v: Vec<Prop> = Vec::new();
    #[cfg(feature = "viz")]
    v.extend(viz::props());
    #[cfg(feature = "bench")]
    v.extend(bench::props());
    #[cfg(feature = "catalog")]
    v.extend(catalog::props());
    #[cfg(feature = "gui")]
    v.extend(gui::props());
    #[cfg(feature = "ledger")]
    v.extend(ledger::props());
    #[cfg(feature = "opt")]
    v.extend(opt::props());
    #[cfg(feature = "pipe")]
    v.extend(pipe::props());
    #[cfg(feature = "simd")]
    v.extend(simd::props());
    #[cfg(feature = "snap")]
    v.extend(snap::props());
    #[cfg(feature = "solve")]
    v.extend(solve::props());
    #[cfg(feature = "time")]
    v.extend(time::props());
    #[cfg(feature = "fleet")]
    v.extend(fleet::props());
    #[cfg(feature = "train")]
    v.extend(train::props());
    v
}
