PROPERTY = "C27"
NEEDS = "a data file holding two ids equal modulo 2^32"
BREAKS = "the table of a data map is keyed by ids truncated to 32 bits: large ids are not found, or hide small ones"
EDITS = [("src/datamap.rs", "let data_id = u64::from_ne_bytes(u64_slice) as usize;", "let data_id = u64::from_ne_bytes(u64_slice) as u32 as usize;")]
DEMO = r'''
use hnsw_rs::datamap::DataMap;
fn main() {
    let d = scratch("d");
    let big = 1usize << 32;
    let mut r = Lcg(4);
    let h = Hnsw::<f32, DistL2>::new(8, 100, 16, 50, DistL2 {});
    let v: Vec<(usize, Vec<f32>)> = (0..40usize).map(|i| (if i % 2 == 0 { i } else { big + i - 1 }, r.vec(4))).collect();
    for (i, x) in &v { h.insert((x, *i)); }
    h.file_dump(&d, "base").unwrap();
    let m = DataMap::from_hnswdump::<f32>(&d, &"base".to_string()).unwrap();
    for (i, x) in &v {
        assert_eq!(m.get_data::<f32>(i), Some(&x[..]), "id {}", i);
    }
    assert!(m.get_data::<f32>(&(big + 1)).is_none());
}
'''
