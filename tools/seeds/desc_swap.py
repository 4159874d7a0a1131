PROPERTY = "C31"
NEEDS = "reading through the C interface the description of a dump whose construction width differs from its number of points"
BREAKS = "the description read through the C interface has its number of points and its construction width exchanged"
EDITS = [("src/libext.rs", "                ffi_description.ef = description.ef;\n                ffi_description.nb_point = description.nb_point;", "                ffi_description.ef = description.nb_point;\n                ffi_description.nb_point = description.ef;")]
DEMO = r'''
use hnsw_rs::libext::*;
fn main() {
    let d = scratch("d");
    let mut r = Lcg(4);
    let h = Hnsw::<f32, DistL2>::new(8, 100, 16, 50, DistL2 {});
    for i in 0..70usize { h.insert((&r.vec(4), i)); }
    h.file_dump(std::path::Path::new("."), "base").unwrap();
    let name = std::env::current_dir().unwrap().join("base.hnsw.graph");
    let name = name.to_str().unwrap();
    unsafe {
        let p = load_hnsw_description(name.len(), name.as_ptr());
        assert!(!p.is_null());
        assert_eq!(((*p).ef, (*p).nb_point), (50, 70));
    }
}
'''
