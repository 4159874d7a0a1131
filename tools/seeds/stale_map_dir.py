PROPERTY = "C28"
NEEDS = "a reload by memory mapping from another directory than the current one, which holds a dump of the same name"
BREAKS = "the vectors of a reload with mapping come from the files of the current directory and not from the directory given"
EDITS = [("src/hnswio.rs", "DataMap::from_hnswdump::<T>(self.dir.as_path(), &self.basename);", "DataMap::from_hnswdump::<T>(Path::new(\".\"), &self.basename);")]
DEMO = r'''
fn make(seed: u64, dir: &std::path::Path) -> Vec<Vec<f32>> {
    let mut r = Lcg(seed);
    let h = Hnsw::<f32, DistL2>::new(8, 100, 16, 50, DistL2 {});
    let v: Vec<Vec<f32>> = (0..100).map(|_| r.vec(4)).collect();
    for (i, x) in v.iter().enumerate() { h.insert((x, i)); }
    h.file_dump(dir, "base").unwrap();
    v
}
fn main() {
    let other = scratch("other");
    make(1, &std::env::current_dir().unwrap());
    let v = make(2, &other);
    let mut io = HnswIo::new_with_options(&other, "base", ReloadOptions::new(true));
    let h: Hnsw<f32, DistL2> = io.load_hnsw().unwrap();
    for p in h.get_point_indexation() {
        assert_eq!(p.get_v(), &v[p.get_origin_id()][..]);
    }
}
'''
