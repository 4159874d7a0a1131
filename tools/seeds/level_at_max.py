PROPERTY = "C12"
NEEDS = "an index with very few layers, so that a drawn level equal to the number of layers is met"
BREAKS = "a level drawn equal to the number of layers is not brought back below it"
EDITS = [("src/hnsw.rs", "        if ulevel >= self.maxlevel {", "        if ulevel > self.maxlevel {")]
DEMO = r'''
fn main() {
    let mut r = Lcg(4);
    let h = Hnsw::<f32, DistL2>::new(3, 100, 2, 50, DistL2 {});
    for i in 0..400usize { h.insert((&r.vec(4), i)); }
    for p in h.get_point_indexation().into_iter() {
        assert!(p.get_point_id().0 < 2, "point of level {}", p.get_point_id().0);
    }
}
'''
