pub mod calls;
pub mod jit;
pub mod life;
pub mod hist;
pub mod factory;
pub mod adapt;
pub mod nest;
pub mod reloc;
pub mod relocx;
