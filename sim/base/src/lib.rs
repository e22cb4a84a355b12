//! What every simulated world shares: allocator, storage, producers, the
//! item model, the decoders and the driver.
#![allow(clippy::type_complexity)]
pub mod alloc;
pub mod cdata;
pub mod driver;
pub mod dynarr;
pub mod feed;
pub mod op;
pub mod phys;
pub mod rng;
pub mod storage;
pub mod val;
