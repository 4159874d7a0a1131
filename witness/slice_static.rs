//! what: a vector obtained from a borrowed DataMap is given any longer lifetime
//! codes: E0521 lifetime may not live long enough
use hnsw_rs::datamap::DataMap;

#[cfg(twin)]
pub fn f<'a>(map: &'a DataMap) -> Option<&'a [u8]> {
    map.get_data::<u8>(&3)
}

#[cfg(not(twin))]
pub fn f<'a, 'b>(map: &'a DataMap) -> Option<&'b [u8]> {
    map.get_data::<u8>(&3)
}
