PROPERTY = "C19"
NEEDS = "a point without link at the base level (an index of a single point, or a point linked only above)"
BREAKS = "points without base link are missing from the flattened table"
EDITS = [("src/flatten.rs", "            let res_insert = hash_t.insert(", "            if point.get_neighborhood_id()[0].is_empty() {\n                continue;\n            }\n            let res_insert = hash_t.insert(")]
DEMO = r'''
use hnsw_rs::flatten::FlatNeighborhood;
fn main() {
    let h = Hnsw::<f32, DistL2>::new(4, 10, 16, 10, DistL2 {});
    h.insert((&vec![1., 2.], 5));
    let flat = FlatNeighborhood::from(&h);
    let n = flat.get_neighbours(5);
    assert!(n.is_some(), "a stored point is unknown to the flattened table");
    assert!(n.unwrap().is_empty() && flat.get_neighbours(4).is_none());
}
'''
