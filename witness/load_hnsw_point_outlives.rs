//! what: a point of an index obtained by load_hnsw is used after the HnswIo is dropped
//! codes: E0597 E0505
use hnsw_rs::prelude::*;
use std::path::Path;

pub fn f(dir: &Path) -> f32 {
    let mut io = HnswIo::new(dir, "x");
    let h: Hnsw<f32, DistL1> = io.load_hnsw::<f32, DistL1>().unwrap();
    let p = h.get_point_indexation().into_iter().next().unwrap();
    drop(h);
    #[cfg(twin)]
    {
        let r = p.get_v()[0];
        drop(p);
        drop(io);
        r
    }
    #[cfg(not(twin))]
    {
        drop(io);
        p.get_v()[0]
    }
}
