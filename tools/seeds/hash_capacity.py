PROPERTY = "C23"
NEEDS = "reloading a dump whose number of points, in the description, has been damaged into a huge number"
BREAKS = "a table is allocated for as many points as the description says, before any of them is read: the reload panics instead of giving an error"
EDITS = [("src/hnswio.rs", "        let mut neighbourhood_map: HashMap<PointId, Vec<Vec<Neighbour>>> = HashMap::new();", "        let mut neighbourhood_map: HashMap<PointId, Vec<Vec<Neighbour>>> =\n            HashMap::with_capacity(descr.nb_point);")]
DEMO = r'''
use hnsw_rs::hnswio::*;
fn main() {
    let d = scratch("d");
    let mut r = Lcg(4);
    let h = Hnsw::<f32, DistL2>::new(8, 100, 16, 50, DistL2 {});
    for i in 0..77usize { h.insert((&r.vec(4), i)); }
    h.file_dump(&d, "base").unwrap();
    let g = d.join("base.hnsw.graph");
    let mut bytes = std::fs::read(&g).unwrap();
    let want = 77usize.to_ne_bytes();
    let at = (0..bytes.len() - 8).find(|&i| bytes[i..i + 8] == want).unwrap();
    bytes[at..at + 8].copy_from_slice(&(1usize << 60).to_ne_bytes());
    std::fs::write(&g, bytes).unwrap();
    let mut io = HnswIo::new(&d, "base");
    let res: Result<Hnsw<f32, DistL2>, _> = io.load_hnsw();
    // an error or an index, no panic
    let _ = res.is_ok();
}
'''
