PROPERTY = "C02"
NEEDS = "a distance which is not symmetric, and a search whose query is one of the stored vectors"
BREAKS = "when the query is the point being expanded the distance kept with its links is reused, which is the distance the other way round"
EDITS = [("src/hnsw.rs", "                    let e_dist_to_p = self.dist_f.eval(point, e.point_ref.data.get_v());", "                    // the point expanded is the query itself : the distance is already known\n                    let e_dist_to_p = if c.dist_to_ref == 0. {\n                        e.dist_to_ref\n                    } else {\n                        self.dist_f.eval(point, e.point_ref.data.get_v())\n                    };")]
DEMO = r'''
struct A;
impl Distance<f32> for A {
    // going up costs twice as much as going down
    fn eval(&self, a: &[f32], b: &[f32]) -> f32 { a.iter().zip(b).map(|(x, y)| if y > x { 2. * (y - x) } else { x - y }).sum() }
}
fn main() {
    let mut r = Lcg(4);
    let vs: Vec<Vec<f32>> = (0..120).map(|_| r.vec(3)).collect();
    let h = Hnsw::<f32, A>::new(8, 200, 16, 50, A {});
    for (i, v) in vs.iter().enumerate() { h.insert((v, i)); }
    for q in &vs {
        for n in h.search(q, 8, 60) {
            assert_eq!(n.distance, A {}.eval(q, &vs[n.d_id]), "wrong distance");
        }
    }
}
'''
