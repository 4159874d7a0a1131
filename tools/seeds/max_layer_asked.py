PROPERTY = "C15"
NEEDS = "an index created with more than 16 layers"
BREAKS = "the number of layers reported is the one asked for, not the one in use"
EDITS = [("src/hnsw.rs", "            max_layer: adjusted_max_layer,\n", "            max_layer,\n")]
DEMO = r'''
fn main() {
    let h = Hnsw::<f32, DistL2>::new(8, 100, 25, 50, DistL2 {});
    assert_eq!(h.get_max_level(), 16);
    let h = Hnsw::<f32, DistL2>::new(8, 100, 7, 50, DistL2 {});
    assert_eq!(h.get_max_level(), 7);
}
'''
