//! what: a point of an index is given a longer lifetime than the index has
//! codes: E0521 lifetime may not live long enough
use hnsw_rs::hnsw::Point;
use hnsw_rs::prelude::*;
use std::sync::Arc;

#[cfg(twin)]
pub fn f<'a>(h: &Hnsw<'a, f32, DistL1>) -> Option<Arc<Point<'a, f32>>> {
    h.get_point_indexation().into_iter().next()
}

#[cfg(not(twin))]
pub fn f<'a, 'b>(h: &Hnsw<'a, f32, DistL1>) -> Option<Arc<Point<'b, f32>>> {
    h.get_point_indexation().into_iter().next()
}
