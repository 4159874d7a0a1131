PROPERTY = "C06"
NEEDS = "a filtered search in an index where several points were inserted under the same id"
BREAKS = "a filtered search removes links of the points it goes through in the upper layers, when two links in a row have the same id"
EDITS = [("src/hnsw.rs", "                let neighbours = &pivot.neighbours.read()[layer as usize];\n                for n in neighbours {", "                let mut links = pivot.neighbours.write();\n                let neighbours = &mut links[layer as usize];\n                // the same data need not be looked at twice\n                neighbours.dedup_by_key(|n| n.point_ref.origin_id);\n                for n in neighbours.iter() {")]
DEMO = r'''
fn links(h: &Hnsw<f32, DistL2>) -> Vec<(PointId, Vec<Vec<PointId>>)> {
    h.get_point_indexation().into_iter().map(|p| (p.get_point_id(), p.get_neighborhood_id().iter().map(|l| l.iter().map(|n| n.p_id).collect()).collect())).collect()
}
fn main() {
    let mut r = Lcg(4);
    let h = Hnsw::<f32, DistL2>::new(6, 1000, 16, 50, DistL2 {});
    for i in 0..600usize { h.insert((&r.vec(3), i % 2)); }
    let before = links(&h);
    let all = |_: &usize| true;
    for _ in 0..50 { let q = r.vec(3); let _ = h.search_filter(&q, 5, 30, Some(&all)); }
    assert!(before == links(&h), "a search changed the links");
}
'''
