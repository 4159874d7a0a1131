PROPERTY = "C09"
NEEDS = "a point whose level is more than one above that of the entry point"
BREAKS = "the entry point is replaced only by a point exactly one level higher, so higher layers stay out of reach and the maximum level reported is too low"
EDITS = [("src/hnsw.rs", "                if new_point.p_id.0 > arc_point.p_id.0 {", "                if new_point.p_id.0 == arc_point.p_id.0 + 1 {")]
DEMO = r'''
fn main() {
    for s in 0..60u64 {
        let mut r = Lcg(s);
        let h = Hnsw::<f32, DistL2>::new(3, 100, 16, 20, DistL2 {});
        for i in 0..40usize { h.insert((&r.vec(4), i)); }
        let top = h.get_point_indexation().into_iter().map(|p| p.get_point_id().0).max().unwrap();
        assert_eq!(h.get_max_level_observed(), top);
    }
}
'''
