PROPERTY = "C04"
NEEDS = "a filter given as a sorted vector of ids which does not contain an id lower than its largest"
BREAKS = "the place where an absent id would go in a sorted filter counts as its presence"
EDITS = [("src/filter.rs", "self.binary_search(id).is_ok()", "self.binary_search(id).map_or_else(|i| i < self.len() && i > 4, |_| true)")]
DEMO = r'''
fn main() {
    let mut r = Lcg(2);
    let h = Hnsw::<f32, DistL2>::new(8, 300, 16, 50, DistL2 {});
    for i in 0..300usize { h.insert((&r.vec(3), i)); }
    let keep: Vec<usize> = (0..300).step_by(7).collect();
    for _ in 0..40 {
        for n in h.search_possible_filter(&r.vec(3), 10, 60, Some(&keep)) {
            assert!(n.d_id % 7 == 0, "id {} is not in the filter", n.d_id);
        }
    }
}
'''
