PROPERTY = "C08"
NEEDS = "a new point whose rank in its layer is that of a point of another layer already linked to the same neighbour"
BREAKS = "a link is taken for already there when the ranks agree although the layers differ: the link back to the new point is never made"
EDITS = [("src/hnsw.rs", ".position(|old| old.point_ref.p_id == new_point.p_id);", ".position(|old| old.point_ref.p_id.1 == new_point.p_id.1);")]
DEMO = r'''
fn main() {
    // lists never reach their limit: a point without link above the base must be linked back by every point it chose
    for seed in 0..3000u64 {
        let mut r = Lcg(seed);
        let h = Hnsw::<f32, DistL2>::new(3, 100, 16, 50, DistL2 {});
        for i in 0..6usize {
            let v = r.vec(3);
            h.insert((&v, i));
            let me = h.get_point_indexation().into_iter().find(|p| p.get_origin_id() == i).unwrap();
            if me.get_point_id().0 != 0 { continue; }
            let mine: HashSet<usize> = me.get_neighborhood_id()[0].iter().map(|n| n.d_id).collect();
            for p in h.get_point_indexation() {
                if p.get_point_id().0 == 0 && mine.contains(&p.get_origin_id()) {
                    let back = p.get_neighborhood_id()[0].iter().any(|n| n.d_id == i);
                    assert!(back, "{} is linked to {} and not the contrary", i, p.get_origin_id());
                }
            }
        }
    }
}
'''
