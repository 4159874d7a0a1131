//! what: a vector obtained from a DataMap is used after the DataMap is dropped
//! codes: E0597 E0505
use hnsw_rs::datamap::DataMap;
use std::path::Path;

pub fn f(dir: &Path) -> f32 {
    let s: &[f32];
    let map = DataMap::from_hnswdump::<f32>(dir, "x").unwrap();
    s = map.get_data::<f32>(&3).unwrap();
    #[cfg(twin)]
    let r = s[0];
    drop(map);
    #[cfg(not(twin))]
    let r = s[0];
    r
}
