//! what: the HnswIo is used to load again, which replaces its map, while an index loaded from it is in use
//! codes: E0499 E0502 E0506
use hnsw_rs::prelude::*;

pub fn f(io: &mut HnswIo) -> usize {
    let h: Hnsw<f32, DistL1> = io.load_hnsw::<f32, DistL1>().unwrap();
    #[cfg(twin)]
    drop(h);
    let h2: Hnsw<f32, DistL1> = io.load_hnsw::<f32, DistL1>().unwrap();
    #[cfg(twin)]
    let r = h2.get_nb_point();
    #[cfg(not(twin))]
    let r = h.get_nb_point() + h2.get_nb_point();
    r
}
