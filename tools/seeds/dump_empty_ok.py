PROPERTY = "C24"
NEEDS = "dumping an index which holds no point"
BREAKS = "the failure of a dump is reported as a success when the index is empty, though nothing which reloads was written"
EDITS = [("src/api.rs", "        if res.is_ok() {", "        if res.is_ok() || self.get_nb_point() == 0 {")]
DEMO = r'''
fn main() {
    let d = scratch("d");
    let h = Hnsw::<f32, DistL2>::new(8, 100, 16, 50, DistL2 {});
    let res = h.file_dump(&d, "base");
    if let Ok(name) = res {
        let mut io = hnsw_rs::hnswio::HnswIo::new(&d, &name);
        let back: Result<Hnsw<f32, DistL2>, _> = io.load_hnsw();
        assert!(back.is_ok(), "a dump reported as successful does not reload");
    }
}
'''
