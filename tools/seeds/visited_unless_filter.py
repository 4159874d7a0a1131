PROPERTY = "C03"
NEEDS = "a filtered search whose starting point is linked to by a point it visits and is among the answers"
BREAKS = "in a filtered search the starting point is not noted as visited, so it is met again and can be given twice"
EDITS = [("src/hnsw.rs", "        visited_point_id.insert(entry_point.p_id, Arc::clone(&entry_point));", "        if filter.is_none() {\n            visited_point_id.insert(entry_point.p_id, Arc::clone(&entry_point));\n        }")]
DEMO = r'''
fn main() {
    let mut r = Lcg(4);
    let h = Hnsw::<f32, DistL2>::new(8, 100, 16, 50, DistL2 {});
    for i in 0..60usize { h.insert((&r.vec(3), i)); }
    let all = |_: &usize| true;
    for _ in 0..20 {
        let q = r.vec(3);
        let res = h.search_filter(&q, 60, 80, Some(&all));
        let ids: HashSet<PointId> = res.iter().map(|n| n.p_id).collect();
        assert_eq!(ids.len(), res.len(), "a point is given twice");
    }
}
'''
