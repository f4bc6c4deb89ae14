// Element types for the trait queries: every combination of Send and Sync.
#![allow(dead_code)]
pub struct SendSync(u8);
pub struct SendOnly(core::cell::Cell<u8>);
pub struct SyncOnly(*const u8);
unsafe impl Sync for SyncOnly {}
pub struct Neither(*const u8);
pub use trees::*;
