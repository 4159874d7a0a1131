PROPERTY = "C16"
NEEDS = "dropping an index whose points are linked to one another at the base level"
BREAKS = "the links of the base level are not cleared at drop, so the cycles of shared pointers keep every point in memory"
EDITS = [("src/hnsw.rs", "        for l in 0..=nb_level {\n            trace!(\"clearing", "        for l in 1..=nb_level {\n            trace!(\"clearing")]
DEMO = r'''
use std::sync::atomic::{AtomicIsize, Ordering};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct X(f32);
impl X { fn new(x: f32) -> X { LIVE.fetch_add(1, Ordering::SeqCst); X(x) } }
impl Clone for X { fn clone(&self) -> X { X::new(self.0) } }
impl Drop for X { fn drop(&mut self) { LIVE.fetch_sub(1, Ordering::SeqCst); } }
struct D;
impl Distance<X> for D {
    fn eval(&self, a: &[X], b: &[X]) -> f32 { a.iter().zip(b).map(|(x, y)| (x.0 - y.0) * (x.0 - y.0)).sum::<f32>().sqrt() }
}
fn main() {
    let mut r = Lcg(4);
    {
        let h = Hnsw::<X, D>::new(8, 300, 16, 50, D {});
        for i in 0..200usize {
            let v: Vec<X> = r.vec(3).into_iter().map(X::new).collect();
            h.insert((&v, i));
        }
        assert_eq!(LIVE.load(Ordering::SeqCst), 600);
    }
    assert_eq!(LIVE.load(Ordering::SeqCst), 0, "values still alive once the index is dropped");
}
'''
