PROPERTY = "C13"
NEEDS = "a parallel insertion of more than 4096 vectors, their number not being a multiple of the size of the groups they are cut in"
BREAKS = "vectors are handed over to the threads by groups and the last, incomplete, group is not inserted"
EDITS = [("src/hnsw.rs", "        datas.par_iter().for_each(|&item| self.insert_slice(item));", "        // hand over small groups to the threads\n        let size = 1 + datas.len() / 4096;\n        datas\n            .par_chunks_exact(size)\n            .for_each(|group| group.iter().for_each(|&item| self.insert_slice(item)));")]
DEMO = r'''
fn main() {
    let mut r = Lcg(4);
    let vs: Vec<Vec<f32>> = (0..4097).map(|_| r.vec(2)).collect();
    let h = Hnsw::<f32, DistL2>::new(4, 5000, 16, 8, DistL2 {});
    let datas: Vec<(&[f32], usize)> = vs.iter().enumerate().map(|(i, v)| (v.as_slice(), i)).collect();
    h.parallel_insert_slice(&datas);
    assert_eq!(h.get_nb_point(), 4097);
    let ids: HashSet<usize> = h.get_point_indexation().into_iter().map(|p| p.get_origin_id()).collect();
    assert_eq!(ids.len(), 4097);
}
'''
