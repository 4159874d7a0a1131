PROPERTY = "C30"
NEEDS = "a distance name which is not one of the names but begins like one"
BREAKS = "an unknown distance name is accepted when it begins like a known one, and builds an index with that distance"
EDITS = [("src/libext.rs", """    } else if dname == "DistHamming" {
        let h = Hnsw::<i32, DistHamming>::new(max_nb_conn, 10000, 16, ef_const, DistHamming {});""", """    } else if dname.starts_with("DistHam") {
        let h = Hnsw::<i32, DistHamming>::new(max_nb_conn, 10000, 16, ef_const, DistHamming {});""")]
DEMO = r'''
use hnsw_rs::libext::*;
fn main() {
    unsafe {
        for (name, known) in [("DistHamming", true), ("DistL2", true), ("DistHam", false), ("DistHammingWeighted", false), ("Dist", false)] {
            let api = init_hnsw_i32(16, 40, name.len(), name.as_ptr());
            assert_eq!(!api.is_null(), known, "{}", name);
        }
    }
}
'''
