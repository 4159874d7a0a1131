PROPERTY = "C07"
NEEDS = "two threads inserting at the same time into the same layer"
BREAKS = "the rank of a new point is read under a read lock released before the push, so two concurrent insertions can get the same internal id"
EDITS = [("src/hnsw.rs", """            // open a write lock on points_by_layer
            let mut points_by_layer_ref = self.points_by_layer.write();
            let mut p_id = PointId(level as u8, -1);
            p_id.1 = points_by_layer_ref[p_id.0 as usize].len() as i32;
            // make a Point and then an Arc<Point>
            let point = Point::new(data.to_vec(), origin_id, p_id);
            new_point = Arc::new(point);
""", """            let mut p_id = PointId(level as u8, -1);
            p_id.1 = self.points_by_layer.read()[p_id.0 as usize].len() as i32;
            // make a Point and then an Arc<Point>
            let point = Point::new(data.to_vec(), origin_id, p_id);
            new_point = Arc::new(point);
            // open a write lock on points_by_layer
            let mut points_by_layer_ref = self.points_by_layer.write();
""")]
DEMO = r'''
fn main() {
    for round in 0..60u64 {
        let mut r = Lcg(round);
        let h = Hnsw::<f32, DistL2>::new(4, 2000, 16, 4, DistL2 {});
        let pts: Vec<Vec<f32>> = (0..2000).map(|_| r.vec(2000)).collect::<Vec<_>>().into_iter().collect();
        let refs: Vec<(&Vec<f32>, usize)> = pts.iter().enumerate().map(|(i, p)| (p, i)).collect();
        if round == 0 { h.parallel_insert(&refs[..200]); } else { h.parallel_insert(&refs[..200]); }
        let mut seen = HashSet::new();
        for p in h.get_point_indexation() {
            let id = p.get_point_id();
            assert!(seen.insert(id), "internal id {:?} given twice (round {})", id, round);
        }
        if round > 40 { break; }
    }
}
'''
