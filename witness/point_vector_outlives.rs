//! what: the vector of a point is used after the point is dropped
//! codes: E0597 E0505
use hnsw_rs::hnsw::Point;
use std::sync::Arc;

pub fn f<'b>(p: Arc<Point<'b, f32>>) -> f32 {
    let v = p.get_v();
    #[cfg(twin)]
    let r = v[0];
    drop(p);
    #[cfg(not(twin))]
    let r = v[0];
    r
}
