PROPERTY = "C32"
NEEDS = "a point of the base level with more than max_nb_connection links, the last ones being the only way to part of the index"
BREAKS = "the exploration looks only at the first max_nb_connection links of a point, although base lists hold twice as many"
EDITS = [("src/hnsw.rs", "            for e in neighbours_c_l {\n", "            for e in neighbours_c_l.iter().take(self.max_nb_connection) {\n")]
DEMO = r'''
fn main() {
    for seed in 0..20u64 {
        let mut r = Lcg(seed);
        let h = Hnsw::<f32, DistL2>::new(4, 200, 1, 200, DistL2 {});
        for i in 0..150usize {
            let v: Vec<f32> = r.vec(2).iter().map(|x| x + 10. * (i % 3) as f32).collect();
            h.insert((&v, i));
        }
        // what can be reached through the links from the entry point
        let pts: Vec<_> = h.get_point_indexation().into_iter().collect();
        let links: HashMap<usize, Vec<usize>> = pts.iter().map(|p| (p.get_origin_id(), p.get_neighborhood_id()[0].iter().map(|n| n.d_id).collect())).collect();
        let mut seen: HashSet<usize> = HashSet::from([0]);
        let mut todo = vec![0usize];
        while let Some(p) = todo.pop() {
            for n in &links[&p] {
                if seen.insert(*n) { todo.push(*n); }
            }
        }
        for k in 0..10 {
            let q: Vec<f32> = r.vec(2).iter().map(|x| x * 30. + k as f32).collect();
            let n = h.search(&q, 150, 400).len();
            assert_eq!(n, seen.len(), "a search as wide as the index considered {} points of {} linked", n, seen.len());
        }
    }
}
'''
