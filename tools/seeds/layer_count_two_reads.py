PROPERTY = "C14"
NEEDS = "a thread inserting (waiting for the write lock of the layers) between the two reads of another thread asking for the size of a layer"
BREAKS = "get_layer_nb_point keeps a read guard on the layers while taking a second one: a writer queued in between blocks both forever"
EDITS = [("src/hnsw.rs", """        let nb_layer = self.points_by_layer.read().len();
        if layer < nb_layer {
            self.points_by_layer.read()[layer].len()
""", """        let layers = self.points_by_layer.read();
        if layer < layers.len() {
            self.points_by_layer.read()[layer].len()
""")]
DEMO = r'''
use std::sync::atomic::{AtomicBool, Ordering};
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(60)); eprintln!("deadlock"); std::process::exit(3); });
    let h = Hnsw::<f32, DistL2>::new(4, 200, 16, 8, DistL2 {});
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        for t in 0..4 {
            let (h, done) = (&h, &done);
            s.spawn(move || { let mut n = 0usize; while !done.load(Ordering::Relaxed) { n += h.get_point_indexation().get_layer_nb_point(0); } n });
        }
        let ins: Vec<_> = (0..4u64).map(|t| { let h = &h; s.spawn(move || {
            let mut r = Lcg(t);
            for i in 0..2000 { h.insert((&r.vec(2), (t * 10000 + i) as usize)); }
        }) }).collect();
        for i in ins { i.join().unwrap(); }
        done.store(true, Ordering::Relaxed);
    });
    assert_eq!(h.get_nb_point(), 8000);
}
'''
