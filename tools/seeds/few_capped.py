PROPERTY = "C33"
NEEDS = "a new point of the base level with more candidates than max_nb_connection and at most twice as many"
BREAKS = "when there are few candidates the transfer stops at max_nb_connection links although the base level allows twice as many: near points are left unlinked"
EDITS = [("src/hnsw.rs", """                while !candidates.is_empty() {
                    let p = candidates.pop().unwrap();""", """                while !candidates.is_empty() && neighbours_vec.len() < self.max_nb_connection {
                    let p = candidates.pop().unwrap();""")]
DEMO = r'''
fn main() {
    let mut r = Lcg(3);
    let h = Hnsw::<f32, DistL2>::new(6, 100, 1, 50, DistL2 {});
    for i in 0..11usize {
        h.insert((&r.vec(6), i));
    }
    // all the points are at the base level, where 12 links are allowed: the last one must know the ten others
    let last = h.get_point_indexation().into_iter().find(|p| p.get_origin_id() == 10).unwrap();
    let n = last.get_neighborhood_id()[0].len();
    assert_eq!(n, 10, "the last point has {} links", n);
}
'''
