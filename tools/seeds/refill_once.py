PROPERTY = "C33"
NEEDS = "an index keeping pruned candidates, and a new point for which at least two candidates are pruned while places are left"
BREAKS = "only the nearest of the pruned candidates is linked back, the other free places stay empty"
EDITS = [("src/hnsw.rs", "            while !discarded_points.is_empty() && neighbours_vec.len() < nb_neighbours_asked {\n", "            if !discarded_points.is_empty() && neighbours_vec.len() < nb_neighbours_asked {\n")]
DEMO = r'''
fn main() {
    let mut h = Hnsw::<f32, DistL2>::new(3, 100, 1, 50, DistL2 {});
    h.set_keeping_pruned(true);
    for i in 0..10usize {
        h.insert((&vec![(i + 1) as f32, 0.], i));
    }
    h.insert((&vec![0., 0.], 10));
    // on a line every candidate but the nearest is pruned: the six places must be filled with the nearest pruned ones
    let last = h.get_point_indexation().into_iter().find(|p| p.get_origin_id() == 10).unwrap();
    let mut ids: Vec<usize> = last.get_neighborhood_id()[0].iter().map(|n| n.d_id).collect();
    ids.sort();
    assert_eq!(ids, vec![0, 1, 2, 3, 4, 5]);
}
'''
