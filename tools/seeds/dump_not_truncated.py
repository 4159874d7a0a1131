PROPERTY = "C25"
NEEDS = "dumping over files of an earlier, larger dump with the same name"
BREAKS = "the data file of an earlier dump is not emptied, so what was after the new end stays in the file"
EDITS = [("src/hnswio.rs", "            .create(true)\n            .truncate(true)\n            .write(true)\n            .open(&datapath);", "            .create(true)\n            .write(true)\n            .open(&datapath);")]
DEMO = r'''
fn main() {
    let d = scratch("d");
    let mut r = Lcg(4);
    for n in [200usize, 20] {
        let h = Hnsw::<f32, DistL2>::new(8, 300, 16, 50, DistL2 {});
        for i in 0..n { h.insert((&r.vec(4), i)); }
        h.file_dump(&d, "base").unwrap();
        let size = std::fs::metadata(d.join("base.hnsw.data")).unwrap().len();
        h.file_dump(&scratch("e"), &format!("n{}", n)).unwrap();
        assert_eq!(size, std::fs::metadata(format!("e/n{}.hnsw.data", n)).unwrap().len(), "the data file is not that of the index dumped");
    }
}
'''
