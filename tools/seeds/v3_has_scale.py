PROPERTY = "C21"
NEEDS = "a dump of format 3"
BREAKS = "the level scale, which only format 4 has, is read from dumps of format 3 too, so the following fields are misread"
EDITS = [("src/hnswio.rs", "    if descr.format_version == 4 {\n", "    if descr.format_version >= 3 {\n")]
DEMO = r'''
use hnsw_rs::hnswio::*;
fn main() {
    let d = scratch("d");
    let mut r = Lcg(4);
    let h = Hnsw::<f32, DistL2>::new(8, 100, 16, 50, DistL2 {});
    for i in 0..40usize { h.insert((&r.vec(4), i)); }
    h.file_dump(&d, "base").unwrap();
    // the same dump in format 3: its mark, and no level scale
    let g = d.join("base.hnsw.graph");
    let b = std::fs::read(&g).unwrap();
    let mut c = 0x002a6771u32.to_ne_bytes().to_vec();
    c.extend_from_slice(&b[4..6]);
    c.extend_from_slice(&b[14..]);
    std::fs::write(&g, c).unwrap();
    let mut f = std::io::BufReader::new(std::fs::File::open(&g).unwrap());
    let descr = load_description(&mut f).expect("a format 3 description");
    assert_eq!((descr.nb_point, descr.ef, descr.dimension), (40, 50, 4));
    let mut io = HnswIo::new(&d, "base");
    let back: Hnsw<f32, DistL2> = io.load_hnsw().expect("a format 3 dump");
    assert_eq!(back.get_nb_point(), 40);
}
'''
