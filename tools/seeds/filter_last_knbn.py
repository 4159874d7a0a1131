PROPERTY = "C01"
NEEDS = "a filtered search with ef larger than knbn and more than knbn accepted points"
BREAKS = "a filtered search takes the ef nearest before filtering and forgets to cut at knbn, so it can return more answers than asked"
EDITS = [("src/hnsw.rs", """        let last = knbn.min(ef).min(neighbours.len());
        // the entry point of the search""", """        // some points can be rejected by the filter so do not cut too early
        let nb_asked = if filter.is_some() { ef } else { knbn };
        let last = nb_asked.min(neighbours.len());
        // the entry point of the search""")]
DEMO = r'''
fn main() {
    let mut r = Lcg(11);
    let pts: Vec<Vec<f32>> = (0..300).map(|_| r.vec(4)).collect();
    let h = Hnsw::<f32, DistL2>::new(12, 300, 16, 100, DistL2 {});
    for (i, p) in pts.iter().enumerate() { h.insert((p, i)); }
    let f = |id: &usize| *id % 2 == 0;
    for q in pts.iter().take(20) {
        let res = h.search_filter(q, 5, 40, Some(&f));
        assert!(res.len() <= 5, "{} answers", res.len());
    }
}
'''
