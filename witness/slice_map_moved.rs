//! what: a vector obtained from a DataMap is used after the DataMap is moved
//! codes: E0505
use hnsw_rs::datamap::DataMap;

pub fn f(map: DataMap) -> Box<DataMap> {
    let s = map.get_data::<u16>(&3);
    #[cfg(twin)]
    let _n = s.map(|v| v.len());
    let b = Box::new(map);
    #[cfg(not(twin))]
    let _n = s.map(|v| v.len());
    b
}
