//! what: an index obtained by load_hnsw_with_dist is used after its HnswIo is dropped
//! codes: E0597 E0505
use hnsw_rs::prelude::*;
use std::path::Path;

pub fn f(dir: &Path) -> usize {
    let mut io = HnswIo::new(dir, "x");
    let h: Hnsw<f32, DistL1> = io.load_hnsw_with_dist::<f32, DistL1>(DistL1 {}).unwrap();
    #[cfg(twin)]
    {
        let r = h.search(&[0.0], 1, 1).len();
        drop(h);
        drop(io);
        r
    }
    #[cfg(not(twin))]
    {
        drop(io);
        h.search(&[0.0], 1, 1).len()
    }
}
