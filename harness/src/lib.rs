//! The monitors. On the wasm machine (C30) only what runs there is built.
macro_rules! native {
    ($($m:ident),*) => { $(#[cfg(not(target_arch = "wasm32"))] pub mod $m;)* };
}
pub mod canon;
pub mod digest;
pub mod drive;
pub mod mapped;
pub mod model;
pub mod rng;
pub mod show;
pub mod util;
native!(alloc, ctx, derive_gen, derive_run, gen, hostile, props, refdec, runner, san);
