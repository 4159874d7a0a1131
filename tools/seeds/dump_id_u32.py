PROPERTY = "C20"
NEEDS = "an origin id of 2^32 or more, dumped and reloaded"
BREAKS = "the origin id of a point is dumped truncated to 32 bits in the graph file"
EDITS = [("src/hnswio.rs", "let origin_u64 = point.get_origin_id() as u64;", "let origin_u64 = point.get_origin_id() as u32 as u64;")]
DEMO = r'''
fn main() {
    let d = scratch("d");
    let big = 5_000_000_000usize;
    let mut r = Lcg(4);
    let h = Hnsw::<f32, DistL2>::new(8, 100, 16, 50, DistL2 {});
    for i in 0..60usize { h.insert((&r.vec(4), if i % 2 == 0 { i } else { big + i })); }
    h.file_dump(&d, "base").unwrap();
    let mut io = HnswIo::new(&d, "base");
    let g: Hnsw<f32, DistL2> = io.load_hnsw().unwrap();
    let ids = |h: &Hnsw<f32, DistL2>| { let mut v: Vec<usize> = h.get_point_indexation().into_iter().map(|p| p.get_origin_id()).collect(); v.sort(); v };
    assert_eq!(ids(&h), ids(&g));
}
'''
