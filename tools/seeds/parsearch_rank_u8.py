PROPERTY = "C05"
NEEDS = "a batch of more than 256 queries whose answers differ"
BREAKS = "the reassembly of parallel_search sorts answers by a truncated rank, so answers beyond 256 queries land in the wrong slots"
EDITS = [("src/hnsw.rs", """        let req_res: Vec<(usize, Vec<Neighbour>)> = receiver.iter().collect();
""", """        let mut req_res: Vec<(usize, Vec<Neighbour>)> = receiver.iter().collect();
        req_res.sort_by_key(|r| r.0 as u8);
"""), ("src/hnsw.rs", """        // get a map from request id to rank
        let mut req_hash = HashMap::<usize, usize>::new();
        for (i, elt) in req_res.iter().enumerate() {
            // the response of request req_res[i].0 is at rank i
            req_hash.insert(elt.0, i);
        }
        for i in 0..datas.len() {
            let answer_i = req_hash.get_key_value(&i).unwrap().1;
            answers.push((req_res[*answer_i].1).clone());
        }
""", """        // answers are now in the order of requests
        for (_, answer) in req_res {
            answers.push(answer);
        }
""")]
DEMO = r'''
fn main() {
    let mut r = Lcg(7);
    let pts: Vec<Vec<f32>> = (0..600).map(|_| r.vec(4)).collect();
    let h = Hnsw::<f32, DistL2>::new(12, 600, 16, 100, DistL2 {});
    for (i, p) in pts.iter().enumerate() { h.insert((p, i)); }
    let q: Vec<Vec<f32>> = pts.iter().take(500).cloned().collect();
    let par = h.parallel_search(&q, 3, 60);
    assert_eq!(par.len(), q.len());
    for (i, v) in q.iter().enumerate() {
        let s: Vec<usize> = h.search(v, 3, 60).iter().map(|n| n.d_id).collect();
        let p: Vec<usize> = par[i].iter().map(|n| n.d_id).collect();
        assert_eq!(s, p, "slot {}", i);
    }
}
'''
