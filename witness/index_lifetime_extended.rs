//! what: an index holding mapped vectors is turned into one of a longer lifetime
//! codes: E0521 lifetime may not live long enough
use hnsw_rs::prelude::*;

#[cfg(twin)]
pub fn f<'a>(h: Hnsw<'a, f32, DistL1>) -> Hnsw<'a, f32, DistL1> {
    h
}

#[cfg(not(twin))]
pub fn f<'a, 'b>(h: Hnsw<'a, f32, DistL1>) -> Hnsw<'b, f32, DistL1> {
    h
}
