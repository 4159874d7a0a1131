PROPERTY = "C10"
NEEDS = "an index with points above the base level, a new point inserted above base next to points whose own top level is the base"
BREAKS = "the limit of the list which receives the reverse link is that of another level, so a list above the base can grow to twice the limit"
EDITS = [("src/hnsw.rs", """                    let threshold_shrinking = if l_n > 0 {
                        self.max_nb_connection
                    } else {""", """                    let threshold_shrinking = if q.point_ref.p_id.0 > 0 && l == 0 {
                        self.max_nb_connection
                    } else {""")]
DEMO = r'''
fn main() {
    for seed in 0..8u64 {
        let m = 4;
        let mut r = Lcg(seed);
        let mut h = Hnsw::<f32, DistL2>::new(m, 3000, 16, 60, DistL2 {});
        h.set_keeping_pruned(true);
        for i in 0..2500usize { h.insert((&r.vec(3), i)); }
        for p in h.get_point_indexation() {
            for (l, links) in p.get_neighborhood_id().iter().enumerate() {
                let limit = if l == 0 { 2 * m } else { m };
                assert!(links.len() <= limit, "point {} has {} links at level {}", p.get_origin_id(), links.len(), l);
            }
        }
    }
}
'''
