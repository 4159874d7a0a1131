//! what: an index obtained by load_hnsw_with_dist from a borrowed HnswIo is given any longer lifetime
//! codes: E0521 lifetime may not live long enough
use hnsw_rs::prelude::*;

#[cfg(twin)]
pub fn f<'a>(io: &'a mut HnswIo) -> Hnsw<'a, f32, DistL1> {
    io.load_hnsw_with_dist::<f32, DistL1>(DistL1 {}).unwrap()
}

#[cfg(not(twin))]
pub fn f<'a, 'b>(io: &'a mut HnswIo) -> Hnsw<'b, f32, DistL1> {
    io.load_hnsw_with_dist::<f32, DistL1>(DistL1 {}).unwrap()
}
