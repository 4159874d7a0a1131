PROPERTY = "C17"
NEEDS = "an index where a layer is empty below an occupied one (the first points drew a high level)"
BREAKS = "the iterator over all points stops at the first empty layer"
EDITS = [("src/hnsw.rs", """            self.slot_in_layer = 0;
            self.layer += 1;
        }
        None
""", """            if slot == 0 {
                return None;
            }
            self.slot_in_layer = 0;
            self.layer += 1;
        }
        None
""")]
DEMO = r'''
fn main() {
    let mut r = Lcg(1);
    for _ in 0..3000 {
        let h = Hnsw::<f32, DistL2>::new(3, 10, 8, 10, DistL2 {});
        h.insert((&r.vec(2), 7));
        let n = h.get_point_indexation().into_iter().count();
        assert_eq!(n, 1, "iteration over an index of one point gives {}", n);
    }
}
'''
