//! Shared parts of the explorers: bookkeeping (states, transitions, traces, outcomes,
//! violations, known findings, evidence), exhaustive choice enumeration, parallel
//! iteration, panic capture and an allocation monitor.
pub mod alloc;
pub mod choose;
pub mod run;

pub use choose::{explore, Chooser};
pub use run::{guarded, par_for, Ctx, Outcome, Tier};
