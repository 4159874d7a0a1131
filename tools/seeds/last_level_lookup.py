PROPERTY = "C18"
NEEDS = "asking for the data of a point of the highest level of the index"
BREAKS = "the data of a point of the top level cannot be found from its internal id once the index has more than one level"
EDITS = [("src/hnsw.rs", "        if p_id.0 <= self.get_max_level_observed() && p < self.get_layer_nb_point(l) {\n            Some(self.points_by_layer.read()[l][p].get_v().to_vec())",
          "        if p_id.0 < self.get_max_level_observed().max(1) && p < self.get_layer_nb_point(l) {\n            Some(self.points_by_layer.read()[l][p].get_v().to_vec())")]
DEMO = r'''
fn main() {
    let mut r = Lcg(9);
    let h = Hnsw::<f32, DistL2>::new(4, 300, 16, 20, DistL2 {});
    for i in 0..300usize { h.insert((&r.vec(4), i)); }
    let pi = h.get_point_indexation();
    for p in pi {
        let d = pi.get_point_data(&p.get_point_id());
        assert_eq!(d.as_deref(), Some(p.get_v()), "point {:?}", p.get_point_id());
    }
}
'''
